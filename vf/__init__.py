"""Property-based verification of glass (see /verif/DESIGN.md)."""

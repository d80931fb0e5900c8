#!/bin/bash
# seeds.sh "C01 C02" "1 2 3": run quick checks for several seeds, print what is not quiet, and the times
cd "$(dirname "$0")/.." || exit 2
for c in $1; do for s in $2; do
  out=$(VERIF_SEED=$s ./check "$c" quick 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "== $c seed $s rc $rc"; echo "$out" | grep -v "^C[0-9]* [a-z_0-9]*:" | cut -c1-1500; else echo "$out" | tail -1; fi
done; done

"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/spec.py"""

import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, quant, why, files, mech, observe=(), state=(), note=""):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": quant},
        why_tests_cant=why,
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
            "observe_at": list(observe) or ["return values of the public functions"],
            "hook_needed": None,
        },
    ), note))


I = ["inputs"]
IC = ["inputs", "configurations"]
IH = ["inputs", "histories"]

p("C01", "Two-point functions have one standard order, used consistently",
  "For n fields, the two-point functions are ordered (0,0),(1,1),(1,0),(2,2),(2,1),(2,0),...: the index listing, the enumeration, the lookup by an (unordered) pair of fields with optional truncation or zero-padding to a maximum mode, and the symmetric matrix of spectra per mode all address the same two-point function for the same pair. Conversion to HEALPix's diagonal order and back is lossless in both directions and maps pairs as documented. A number of spectra that is not n(n+1)/2 for some n is rejected with a ValueError, never misread.",
  I, "all numbers of fields, all pairs, all lengths (also ragged or empty spectra and missing ones), any lmax",
  "Tests check n up to 3 or so with one set of values; the order is used implicitly by every sampler.",
  ["glass/fields.py"],
  [("index arithmetic", "glass/fields.py: getcl, enumerate_spectra, spectra_indices, nfields_from_nspectra"),
   ("reordering", "glass/fields.py: glass_to_healpix_spectra, healpix_to_glass_spectra, cov_from_spectra")])

p("C02", "Discretised spectra: truncation, correlation limit and pixel window",
  "Discretising a set of angular power spectra returns one spectrum per input pair, in the same order: each cut to the requested number of modes (and, when a resolution is given, at most as many modes as its window function provides), pairs whose field distance exceeds the correlation limit emptied and all others kept, and every kept spectrum multiplied by the square of the pixel window function when a resolution is given. Nothing else about the values changes, and the input spectra are not modified.",
  IC, "any number of fields, ragged lengths, any combination of lmax, ncorr and resolution",
  "Tests use fixed three-field inputs; the pixel-window case needs data files the tests cannot always load.",
  ["glass/fields.py"], [("discretisation", "glass/fields.py: discretized_cls")])

p("C03", "Sampled Gaussian fields realise exactly the requested covariance",
  "The spherical harmonic modes of fields sampled iteratively from angular power spectra are linear in unit normal variates such that each auto-spectrum and each cross-spectrum with the previous fields within the correlation limit equals the requested one, mode by mode, with no correlation between different modes. The conditional decomposition underlying this reproduces every input covariance, for any number of fields, any correlation length and any shape of the stacked modes. A covariance that is not positive semi-definite is reported as an error, never silently sampled.",
  IH, "random positive semi-definite spectra for 1-6 fields, any correlation limit, lmax and nside; all modes",
  "Tests compare a few iterations with fixed numbers and sample variances with loose statistics; a wrong cross-correlation of the 4th field at one mode passes.",
  ["glass/fields.py"],
  [("conditional decomposition", "glass/fields.py: iternorm"), ("covariance supply", "glass/fields.py: cls2cov"), ("sampling", "glass/fields.py: generate, _generate_grf")],
  state=[("conditional matrix", "conditional expectation of the last k fields", "glass/fields.py: iternorm")])

p("C04", "Generated random fields are the transformation of the Gaussian fields",
  "Field number k of a generated sequence is exactly the k-th transformation applied to the sampled Gaussian field together with that Gaussian field's variance, the sum of (2l+1)/4pi times its spectrum; a lognormal field with shift lambda thus never falls below -lambda. Fields come in order, one per transformation, are produced lazily and are reproducible from the random number generator. The deprecated Gaussian and lognormal generators give the same result as the general generator with the corresponding transformations and spectra.",
  IH, "random spectra, transformations, nside, seeds and consumption histories",
  "Tests generate one or two realisations and check statistics only.",
  ["glass/fields.py", "glass/grf/_transformations.py"],
  [("generation", "glass/fields.py: generate, generate_gaussian, generate_lognormal, lognormal_gls"), ("field lists", "glass/fields.py: gaussian_fields, lognormal_fields, lognormal_shift_hilbert2011")])

p("C05", "Gaussian spectra reproduce the target spectra of the transformed fields",
  "Transforming target angular power spectra into Gaussian ones and applying the closed-form relation of the correlation functions gives the target spectra back, for every pair of transformed fields, with the iterative solver as accurate as the tolerance it reports. Zero-length spectra remain zero-length, the order of the spectra is preserved, and fields that need no transformation are unchanged.",
  IC, "random lists of normal, lognormal and squared-normal fields and admissible spectra; padding, monopole and tolerance settings",
  "Tests solve one lognormal example; other pairs of transformations, paddings and target lengths are not covered.",
  ["glass/fields.py", "glass/grf/_core.py", "glass/grf/_solver.py"],
  [("direct transform", "glass/grf/_core.py: compute"), ("Gauss-Newton solver", "glass/grf/_solver.py: solve"), ("field pairing", "glass/fields.py: compute_gaussian_spectra, solve_gaussian_spectra")])

p("C06", "Field transformations have consistent correlations, inverses and derivatives",
  "For every supported pair of transformations the correlation function equals the expectation value of the product of the transformed, zero-mean fields for the given Gaussian correlation, its inverse undoes it, its derivative is the slope, and exchanging the two fields changes nothing. A pair without a known relation is refused with an error that says so.",
  I, "all pairs of normal, lognormal and squared-normal fields with random parameters and correlations",
  "Tests pin formulas at single points; identity with the actual transformed random variables is not tested.",
  ["glass/grf/_transformations.py", "glass/grf/_core.py"],
  [("closed forms", "glass/grf/_transformations.py"), ("symmetric dispatch", "glass/grf/_core.py: corr, icorr, dcorr")])

p("C07", "Effective spectra are the bilinear form of the weights",
  "The effective angular power spectra of weighted combinations of fields equal the double sum over fields of weight times weight times spectrum for every pair of weights, computed with the spectra in their standard order and zero-padded or truncated to the requested maximum mode. With one set of weights the result is symmetric; with two sets the first index belongs to the first set.",
  I, "any number of fields and shapes of weights, ragged spectra, any lmax",
  "Tests use a few fixed shapes.",
  ["glass/fields.py"], [("combination", "glass/fields.py: effective_cls")])

p("C08", "Regularised covariances are valid and nearest; valid input is kept",
  "Regularising spectra or covariance matrices gives, for every mode, a symmetric matrix without negative eigenvalues beyond rounding; matrices that are already positive definite are returned unchanged by the nearest-correlation method, and clipping changes only eigenvalues below the threshold. The nearest-correlation method keeps the diagonal and finds the closest correlation matrix in the Frobenius norm; the check for positive definiteness answers yes exactly when all modes have non-negative eigenvalues. Stacks of matrices of any shape give the same as each matrix by itself.",
  I, "random symmetric matrices of all ranks and signatures, any stack shape, all regularisation methods",
  "Tests use a handful of 3x3 and random matrices, one leading axis at most.",
  ["glass/algorithm.py", "glass/fields.py"],
  [("algorithms", "glass/algorithm.py: cov_clip, nearcorr, cov_nearest"), ("spectra", "glass/fields.py: regularized_spectra, check_posdef_spectra")])

p("C09", "Radial windows have their documented shape, cover and effective redshift",
  "From any increasing redshift edges, tophat windows are one on their own shell only, while linear and cubic windows rise from zero at the previous node to one at their own and fall to zero at the next; where windows overlap or meet they add up to one, with the optional weight function applied on top. The effective redshift is the node for the linear and cubic kinds and the weighted mean redshift for tophats, and lies inside the support. Edge lists that are not one-dimensional or too short are refused, a start other than zero is warned about, and radial windows cannot be altered.",
  IC, "random edges, grid spacings, weight functions, array libraries",
  "Tests use one grid of edges and default spacing.",
  ["glass/shells.py"],
  [("constructors", "glass/shells.py: tophat_windows, linear_windows, cubic_windows"), ("data class", "glass/shells.py: RadialWindow")])

p("C10", "Restricting, partitioning and recombining redshift distributions",
  "Restricting a function to a window gives the product of the interpolated function and the window on the union of both grids inside the window's support. Partition returns one weight per window for each function of any leading shape: the restriction method gives the integral over each window, and the least-squares methods minimise the documented squared residual including the sum constraint, the non-negative one with non-negative weights. Recombination is the weighted sum of unit-integral windows, so that partitioning a function which is such a combination and recombining gives it back.",
  I, "random windows, functions on random grids and leading shapes, all methods",
  "Tests check one function on one set of windows.",
  ["glass/shells.py", "glass/arraytools.py"],
  [("restriction", "glass/shells.py: restrict"), ("partition", "glass/shells.py: partition, partition_lstsq, partition_nnls, partition_restrict"), ("combination", "glass/shells.py: combine")])

p("C11", "Non-negative least squares returns the constrained optimum",
  "For every matrix and right-hand side of matching shapes the solver returns a vector with no negative entry that satisfies the optimality conditions of the constrained least-squares problem to the tolerance, thus is no worse than any other non-negative vector. Inputs whose shapes do not fit are refused, and an iteration limit never yields a vector with negative entries.",
  I, "random matrices (also rank-deficient or scaled), right-hand sides, tolerances",
  "Tests compare one random system with SciPy.",
  ["glass/algorithm.py"], [("active set iteration", "glass/algorithm.py: nnls")])

p("C12", "Shell grids and radial weights have their documented spacing and values",
  "A grid in redshift or comoving distance starts at the requested value and is uniform in that quantity: with a given number of intervals it ends exactly at the requested value, with a given spacing it reaches the end and exceeds it by at most one step. Giving both or neither is refused. The radial weight functions return the documented cosmological quantity of the redshift for any shape of input.",
  IC, "random ranges, counts, spacings and cosmologies",
  "Tests use one range and a mocked cosmology.",
  ["glass/shells.py"], [("grids", "glass/shells.py: redshift_grid, distance_grid, _uniform_grid"), ("weights", "glass/shells.py: DistanceWeight, VolumeWeight, DensityWeight")])

p("C13", "Galaxies are distributed to the shells by relative weight",
  "Assigning a redshift to a shell returns the index of a shell whose window is positive there, or -1 exactly when no window is, for any number of redshifts and shape. Among overlapping windows the probability of each is its relative weight at that redshift.",
  I, "random windows and redshifts including beyond the internal batch size and outside all windows",
  "Tests use one fixed set of windows and few redshifts.",
  ["glass/shells.py"], [("assignment", "glass/shells.py: distribute")])

p("C14", "Multi-plane convergence equals the direct sum over all lens planes",
  "After any sequence of lens planes at increasing redshift, the accumulated convergence equals the direct Born sum over all previous planes with the lensing efficiency of the given cosmology, in flat and curved universes, and the current source redshift, last density plane and last lens weight are those of the latest call. A plane that is not behind the previous one is refused and leaves the state as it was. Adding a window is the same as adding a plane at its effective redshift with its lensing weight.",
  IH, "all sequences of planes (single maps or stacks), weights, cosmologies, interleaved rejected calls",
  "Tests add a few fixed planes and compare with a recorded result.",
  ["glass/lensing.py"],
  [("recurrence", "glass/lensing.py: MultiPlaneConvergence.add_plane, add_window")],
  observe=["attributes of the accumulator after every call"],
  state=[("two last convergence planes", "recurrence of the multi-plane formalism", "glass/lensing.py: MultiPlaneConvergence")])

p("C15", "Multi-plane matrix and weights agree with the iterated convergence",
  "The multi-plane matrix applied to the lens planes of all shells gives the same convergences as accumulating the planes one by one, and is causal: no source sees a plane at or behind itself. The multi-plane weights for source weights of any shape (one row per shell) equal the normalised source weights contracted with that matrix, and weights that do not match the shells are refused.",
  I, "random shells, weights of any shape and cosmologies",
  "Tests compare one configuration.",
  ["glass/lensing.py"], [("matrix", "glass/lensing.py: multi_plane_matrix"), ("contraction", "glass/lensing.py: multi_plane_weights")])

p("C16", "Lensing potential, deflection and shear are the exact spin filters",
  "For every convergence map the returned potential, deflection and shear are the spherical harmonic transforms of the map's modes multiplied by the documented factors of l, with spins 0, 1 and 2, in any combination of requested outputs and always in that order, and optionally with the pixel window divided out or the source discretised. They are linear in the map, insensitive to its monopole, and asking for nothing gives nothing. The deprecated shear function gives the same shear.",
  IC, "random maps and harmonic modes, nside, lmax, combinations of outputs",
  "Tests check shapes and one random map.",
  ["glass/lensing.py", "glass/harmonics.py"], [("filters", "glass/lensing.py: from_convergence, shear_from_convergence"), ("multiplication", "glass/harmonics.py: multalm")])

p("C17", "Displacement on the sphere: exact geodesics, inverse and conventions",
  "Displacing a position moves it along the geodesic by the modulus of the displacement, in the direction of its argument (real part towards north, imaginary part towards east), for all positions including the poles and all array shapes. Computing the displacement between two positions inverts this for all distances below 180 degrees, and deflection by a complex deflection is the displacement by its complex conjugate. Results are finite angles in degrees with latitudes in range.",
  I, "all positions, angles from tiny to half the sphere, poles, the date line, any broadcastable shapes",
  "Tests check compass directions at a few points.",
  ["glass/points.py", "glass/lensing.py"], [("geodesics", "glass/points.py: displace, displacement"), ("deflection", "glass/lensing.py: deflect")])

p("C18", "Galaxy bias models and positional weights",
  "The effective bias is the window-weighted mean of the bias function over redshift, so a constant bias is returned exactly and the result lies between the extremes. The linear bias model multiplies the density contrast, and the log-linear one raises one plus the contrast to the power of the bias, minus one. Positional weights are the shells' shares of the total galaxy density multiplied by the bias, for any leading shape.",
  I, "random windows, bias values and functions, density contrasts down to -1 and tiny",
  "Tests use a few fixed arrays.",
  ["glass/points.py"], [("bias", "glass/points.py: effective_bias, linear_bias, loglinear_bias"), ("weights", "glass/points.py: position_weights")])

p("C19", "Sampled galaxy counts follow the density, bias and visibility exactly",
  "For every broadcast population, the expected number of galaxies in a pixel is the number density in its area times one plus the biased density contrast (optionally with the mean contrast removed), clipped at zero and multiplied by the visibility; pixels of zero expectation never contain galaxies. The yielded batches together contain exactly the sampled counts, each population complete and in order and with the counts reported matching the positions. No batch exceeds the batch size unless one pixel alone does.",
  IC, "random density, bias and visibility maps of any broadcastable leading shapes, bias models, batch sizes from 1 up",
  "Tests use one or two shapes and check totals only.",
  ["glass/points.py"],
  [("expectation", "glass/points.py: _compute_expected_count, _compute_density_contrast, _apply_visibility"), ("batches", "glass/points.py: _sample_galaxies_per_pixel, positions_from_delta")])

p("C20", "Sampled positions lie in their pixels or uniformly on the sphere",
  "Galaxies sampled from a density map lie inside the pixels that were counted, independently and uniformly within each, in degrees. Uniform sampling yields one batch per population with the Poisson number for the full sphere's area, in the order of the populations, positions being uniform in longitude and in the sine of latitude. With a seeded random number generator everything is reproducible.",
  IC, "all nside and pixels, densities of any leading shape, seeds",
  "Tests check bounding boxes for one resolution.",
  ["glass/points.py", "glass/healpix.py"], [("in-pixel sampling", "glass/healpix.py: randang"), ("uniform", "glass/points.py: uniform_positions")])

p("C21", "Sampled redshifts follow the given distribution and stay in range",
  "Redshifts sampled from a window or from a tabulated distribution are the inverse of its cumulative distribution at uniform variates, so they never leave the tabulated range or fall where the distribution vanishes, with the requested number per distribution and populations in order. Redshifts sampled from bins belong to the bin they were asked for, for any shape of input.",
  IC, "random tabulated distributions, leading shapes, counts, warnings on or off, bin labels of any shape",
  "Tests check ranges and sizes for a few fixed distributions.",
  ["glass/galaxies.py"], [("inverse cumulative", "glass/galaxies.py: _draw_nz, redshifts, redshifts_from_nz"), ("bins", "glass/galaxies.py: redshifts_from_bins")])

p("C22", "Galaxy shears are the lensed ellipticities of their own pixel",
  "Each galaxy's observed shear is the exact weak-lensing transformation of its intrinsic ellipticity by the convergence and shear in the HEALPix pixel containing it, as reduced shear with the modulus staying below one for weak fields or as plain shear when asked. The result does not depend on how many galaxies are passed at once or in which order, and zero fields return the intrinsic ellipticity.",
  IC, "random positions, maps of any nside, ellipticities, both modes, sizes beyond the internal chunk size",
  "Tests use tiny catalogues far below the chunk size.",
  ["glass/galaxies.py"], [("interpolation and lensing", "glass/galaxies.py: galaxy_shear")])

p("C23", "Photometric redshifts are Gaussian, truncated to the allowed range",
  "Every photometric redshift is the true one plus sigma_0 times (1+z) times a standard normal variate, redrawn until it is within the lower and upper bounds, so all results are within bounds for any broadcastable shapes of redshift, error and bounds. Impossible bounds are refused.",
  IC, "random redshifts, errors, bounds and shapes",
  "Tests check a few ranges statistically.",
  ["glass/galaxies.py"], [("rejection sampling", "glass/galaxies.py: gaussian_phz")])

p("C24", "Sampled ellipticities are valid and follow their distribution",
  "All sampled ellipticities lie inside the unit disk: the Gaussian model redraws until the modulus is below one, the intrinsic-norm model transforms normal variates so that the standard deviation per component is the requested one to within the documented fit (better than one per cent), and projected triaxial ellipsoids have axis ratios between the smallest intrinsic axis ratio and one and moduli (1-q)/(1+q). Populations with their own counts and widths come in order with exactly these counts; widths outside the valid range are refused.",
  IC, "random counts, widths, model parameters, shapes and seeds",
  "Tests check bounds for single samples.",
  ["glass/shapes.py"], [("models", "glass/shapes.py: ellipticity_gaussian, ellipticity_intnorm, ellipticity_ryden04, triaxial_axis_ratio")])

p("C25", "Resampled shapes have the requested noise variance",
  "Resampling gives every galaxy a new, uniformly random orientation that does not depend on its old one, and otherwise keeps its modulus up to one common factor, in order and shape. Without a variance the factor is one; with the variance of the shear it reduces the mean square modulus by exactly that variance; with the variance of the reduced shear it is such that the shapes, once lensed by a random field of that variance, have the original mean square modulus (to the documented order). Variances beyond that of the shapes, or both kinds at once, are refused. The result is finite, never a NaN, for every admissible variance including zero and for shapes that are not all round.",
  IC, "random shapes, admissible variances of either kind, seeds",
  "Tests use two variances.",
  ["glass/shapes.py"], [("rescaling", "glass/shapes.py: resample_shapes")])

p("C26", "Redshift distributions and tomographic bins",
  "The Gaussian and Smail distributions have their documented functional form, normalised as requested for any leading shape of parameters. Fixed-width and equal-density binning return consecutive bins that cover the range exactly, with equal widths or equal galaxy counts. Splitting a distribution with Gaussian errors gives non-negative parts, each the overlap of the error distribution with its bin, never more in total than the whole.",
  IC, "random parameters, bin edges and numbers, errors, grids",
  "Tests check sums for one distribution.",
  ["glass/observations.py"], [("distributions", "glass/observations.py: gaussian_nz, smail_nz"), ("bins", "glass/observations.py: fixed_zbins, equal_dens_zbins, tomo_nz_gausserr")])

p("C27", "The galactic-ecliptic visibility map masks exactly the two bands",
  "The visibility map is, at any resolution, the map of ones set to zero in the galactic band (colatitudes in radians, bands that decrease being the complement), rotated from galactic to celestial coordinates, set to zero in the second band, and rotated from celestial to ecliptic coordinates. Its values are thus in [0, 1], zero well inside of either band and one far from both, and enlarging a band never makes any pixel more visible. Bands that are not pairs of two values are refused.",
  IC, "all nside, bands of any width",
  "Tests check shape and one total.",
  ["glass/observations.py", "glass/healpix.py"], [("bands and rotation", "glass/observations.py: vmap_galactic_ecliptic")])

p("C28", "Saved angular power spectra load back identically",
  "Whatever non-empty list of angular power spectra is written to a file, reading the file returns the same number of spectra in the same order with bit-identical values, including empty spectra and those of different lengths.",
  IH, "all lists of spectra of any lengths (also zero) and finite or special values, repeated saves",
  "Tests store one small list.",
  ["glass/user.py"], [("flattening and splitting", "glass/user.py: save_cls, load_cls")])

p("C29", "Catalogues written in pieces equal the concatenated columns",
  "A catalogue written by any sequence of appends reads back as the concatenation of all pieces per column, of the type and in the order written, in one table of the given name, replacing an earlier file. When a write is refused or the writing context ends with an exception, nothing of a finished write is lost, the exception is passed on, and the file is closed.",
  ["inputs", "histories", "fault_sequences"], "all sequences of writes of any row counts and column types, extension names, exceptions in between",
  "Tests write two or three fixed chunks.",
  ["glass/user.py"], [("appending writer", "glass/user.py: write_catalog, _FitsWriter")])

p("C30", "Random generators: correct parameters, reproducible, independent",
  "The random number generators of all array libraries return the requested shape and type, in the half-open or documented range, with exactly the requested location, scale, rate or category probabilities, and totals of multinomial draws equal the number of trials. The same seed gives the same sequence; consecutive draws, split keys and spawned children are never identical, also when threads share a generator, and the generator for one array library returns arrays of that library.",
  IH, "all seeds, sizes, parameters, call histories",
  "Tests call each method once.",
  ["glass/jax.py", "glass/rng.py"], [("jax generator", "glass/jax.py: Generator"), ("strict generator", "glass/rng.py: Generator, default_rng")],
  state=[("key", "consumed and split by each draw", "glass/jax.py: Generator")])

p("C31", "All array libraries compute the same result",
  "Every public function that accepts a given array library gives, for the same data (and the same random variates) in NumPy, JAX and strict Array-API arrays, the same values to rounding, the same shapes and nesting of results, and arrays of the caller's library, whatever the memory layout (strided, reversed, Fortran-ordered, offset) of the arrays given.",
  IC, "random inputs to all public functions on all installed array libraries",
  "Tests run each function per library against fixed expectations for a few inputs.",
  ["glass/_array_api_utils.py", "glass/arraytools.py", "glass"], [("namespace dispatch", "glass/_array_api_utils.py"), ("per-library paths", "all modules")])

p("C32", "Functions never modify their inputs",
  "No public function changes any array, list or mapping passed to it, writeable or read-only, and calling a function again with the same arguments and the same random state gives the same result, also after other calls were made in between or the first result was overwritten by the caller. Nothing is remembered from earlier calls: with other values of some arguments (also when the caller changes the same arrays in place) the result is that of a process which never called the function before.",
  IH, "random inputs to all public functions, repeated calls, read-only arrays",
  "Tests never look at the inputs after the call.",
  ["glass"], [("copies before in-place updates", "all modules")])

p("C33", "Array utilities agree with their mathematical definition",
  "Interpolation, trapezoidal, cumulative and product integration, broadcasting of leading axes, gradients, least squares, Einstein sums and vectorised application agree with their elementary definition for every shape, axis and grid, in every array library.",
  I, "random shapes, axes, irregular grids, points outside the grid",
  "Tests pin a few arrays.",
  ["glass/arraytools.py", "glass/_array_api_utils.py"], [("utilities", "glass/arraytools.py"), ("library gaps", "glass/_array_api_utils.py: xp_additions")])

p("C34", "HEALPix and harmonic wrappers are faithful to HEALPix",
  "The wrapped HEALPix operations give the same result as the HEALPix library for any resolution, array library and argument, in particular pixel numbers, areas, strips, rotations and spherical harmonic transforms, and multiplying harmonic modes by a filter scales exactly the modes of each degree, in GLASS order and in HEALPix order, where degrees without a filter value are set to zero in the latter.",
  IC, "random maps, modes, nside, lmax, filters, angles",
  "Tests compare single calls.",
  ["glass/healpix.py", "glass/harmonics.py"], [("wrappers", "glass/healpix.py"), ("filter", "glass/harmonics.py: multalm")])

p("C35", "All randomness comes from the generator given, once",
  "For every function that samples, and every array library and kind of generator: the variates come from the generator given and from nothing else, no variate is used twice (within a call, between populations, or in later calls with the same generator), the same seed gives the same results whatever else is drawn in between, other seeds give others, NumPy's global generator is not touched, and without a generator every call uses a new default one; iterators advanced in any order do not disturb each other.",
  IH, "random functions, parameters, libraries, generators, seeds, numbers of calls, calls in between, orders of advancing iterators",
  "Tests use one generator for one call; reuse of variates only shows when several calls, populations or redraws are compared.",
  ["glass/rng.py", "glass/fields.py", "glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/shells.py", "glass/healpix.py"], [("wrapping of the given generator", "glass/rng.py: Generator"), ("use", "all sampling functions")],
  note="Reuse is recognised by equal values of continuous variates.")

p("C36", "The parts of a simulation fit together",
  "From target spectra through solver, discretisation and sampling, the exact two-point functions of the generated fields are the targets for every pair of fields; sample spectra of convergence and galaxy density maps of tomographic bins are the effective spectra of the sample spectra of the matter shells with the lensing and position weights; and a simulation that runs shell by shell and batch by batch gives the same catalogue as one in which every stage finishes before the next.",
  IH, "random sets of fields, spectra, shells, cosmologies, populations, biases, visibilities, batch sizes, orders of the stages",
  "Tests look at single functions; conventions between modules and buffers shared between stages only matter in a whole run.",
  ["glass/fields.py", "glass/grf/_solver.py", "glass/lensing.py", "glass/points.py", "glass/galaxies.py", "glass/shells.py", "glass/user.py"], [("pipeline", "glass: generate, MultiPlaneConvergence, positions_from_delta, galaxy_shear, write_catalog")],
  note="Synthetic HEALPix pixel windows and ring weights (hpdata.py), as the real files cannot be fetched offline.")

p("C37", "Extension packages are found",
  "A module or package in the glass/ext directory of any directory of the module search path can be imported from glass.ext, the first on the path counts, other files and directories in the way do no harm, and glass itself stays the same.",
  ["inputs", "configurations"], "random sets of directories on the module search path",
  "Tests never install an extension.",
  ["glass/ext/__init__.py"], [("search path", "glass/ext/__init__.py: _extend_path")])
p("C38", "Intrinsic alignments follow the non-linear alignment model",
  "The effective convergence from intrinsic alignments is the density contrast times -A C1 rho_m/D(z) ((1+z)/(1+z0))^eta (L/L0)^beta, so it is linear in contrast and amplitude, has the sign opposite to their product, does not depend on eta at the reference redshift or on beta at the reference luminosity, and leaves the input and the array library alone.",
  ["inputs", "configurations"], "random maps, redshifts, amplitudes, powers and growth functions",
  "No test calls the function.",
  ["glass/galaxies.py"], [("model", "glass/galaxies.py: _kappa_ia_nla")])
p("C39", "Numbers may be given in any form",
  "Where a parameter is documented as a number or an array, a plain number, a NumPy scalar, a zero-dimensional array and an array of one entry give the same values for the same random variates, in any combination over the parameters, with the library told by the arrays or by name; numbers and zero-dimensional arrays give results of the same shape; the arguments stay as they are.",
  ["inputs", "configurations"], "random functions, values, forms of each parameter, libraries",
  "Tests use one form per parameter; the combinations are too many to list.",
  ["glass/lensing.py", "glass/shapes.py", "glass/galaxies.py", "glass/observations.py", "glass/points.py", "glass/arraytools.py", "glass/healpix.py"],
  [("conversion", "xp.asarray of parameters throughout"), ("broadcasting", "glass/arraytools.py: broadcast_leading_axes")])
p("C40", "Single precision and byte order do not matter",
  "Every public function gives, for arrays in single precision (real or complex), some of them or all, the same result to single precision as for the same numbers in double precision, and for arrays of foreign byte order (as FITS files hold them) the same to rounding: the same shapes, kinds of numbers and nesting, nothing rounded to whole numbers, cut off or refused, the same expected counts for sampling, and the arguments as they were.",
  ["inputs", "configurations"], "random functions, data, which arrays are single or swapped; NumPy (both) and JAX (single)",
  "Tests use native double precision throughout.",
  ["glass/fields.py", "glass/shells.py", "glass/lensing.py", "glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/observations.py", "glass/arraytools.py", "glass/algorithm.py", "glass/healpix.py", "glass/harmonics.py"],
  [("conversion", "xp.asarray, dtypes of new arrays, in-place operations throughout")])
p("C41", "Invalid arguments are refused, their valid neighbours are not",
  "A call which breaks one documented requirement (numbers of spectra, fields, weights or shells that do not fit, shapes that do not match, values or variances beyond the valid range, redshifts that do not increase, both or neither of exclusive options, unknown methods, pairs of transformations without a relation) raises the documented kind of error with a message, never a result, and changes neither arguments nor later results; calls with valid arguments, up to the limit of the valid range, are never refused.",
  ["inputs", "histories"], "random functions, each requirement broken in turn in random places, limits of ranges, libraries",
  "Tests break each requirement once, far from its limit.",
  ["glass/fields.py", "glass/algorithm.py", "glass/shells.py", "glass/lensing.py", "glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/observations.py", "glass/jax.py", "glass/grf/_core.py", "glass/grf/_solver.py"],
  [("checks of arguments", "raise statements of the public functions")])


p("C42", "Arguments mean the same by place and by name, and those left out have their documented values",
  "Every public function gives the same result whether its arguments are given by place, in the documented order, or by name; and leaving out an optional argument is the same as passing its documented value: the default numbers (steps of windows, tolerances, limits of iterations, shifts, bands, batch of a million positions, seeds, axes, flags), and for arguments whose default depends on the others the value documented for it (the highest multipole of the data, all previous fields, the same weights or transformation again, unit weights, bias and visibility, tolerances of matrix size times precision).",
  ["inputs", "configurations"], "random functions, data, choices of arguments by place and left out, libraries",
  "Tests give most optional arguments, or compare a default only with a stored number.",
  ["glass/fields.py", "glass/shells.py", "glass/points.py", "glass/galaxies.py", "glass/lensing.py", "glass/algorithm.py", "glass/grf/_solver.py", "glass/healpix.py", "glass/rng.py", "glass/jax.py"],
  [("signatures", "signatures of the public functions")])


p("C43", "Entries, fields and shells do not depend on what else is computed with them",
  "Results for a galaxy, pixel, mode, redshift, row or distribution are the same whether it is given alone, among few or a hundred thousand others, in any order, repeatedly or in pieces, with the variates of a random function belonging to it; results for a pair of fields are the same for any choice of the other fields, and those of the first fields, maps, windows, lens planes and weights do not depend on those that follow.",
  ["inputs", "configurations"], "random functions, sizes from one to a hundred thousand, selections, orders, choices of fields",
  "Tests use arrays of few entries of one size, so nothing in them shows a limit of sizes, a reduction over all entries or an order.",
  ["glass/points.py", "glass/galaxies.py", "glass/lensing.py", "glass/shapes.py", "glass/shells.py", "glass/fields.py", "glass/grf/_transformations.py", "glass/arraytools.py", "glass/observations.py"],
  [("independent", "entries of arrays"), ("parts", "fields and shells")])

p("C44", "Results scale with their arguments; no size is special by itself",
  "Every quantity with a unit can be given in another unit: results follow with the power of the unit which they have by their definition, over any range of sizes. Spectra scale with the fields (each field by itself), sampled maps with the root of their spectra and with the shift of their transformation, weights and distributions of windows and shells with their normalisation and the unit of redshift, convergence with density and lens weights but not with the unit of distance, expected counts with density and visibility, covariance methods and least squares with their matrices, small ellipticities with their width; what is normalised does not depend on the unit at all.",
  ["inputs", "configurations"], "random functions, data and powers of two up to 2^100 as change of units, one unit or all at once",
  "Tests use numbers of order one, at which absolute thresholds and guards against division by zero have no effect.",
  ["glass/fields.py", "glass/algorithm.py", "glass/shells.py", "glass/lensing.py", "glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/observations.py", "glass/grf/_transformations.py", "glass/grf/_solver.py", "glass/arraytools.py", "glass/healpix.py"],
  [("units", "public functions of quantities with units")])

p("C45", "Computations that overlap in time do not affect one another",
  "Calls made at the same time in several threads, of the same or of different functions, with other arguments or sharing them, give what they give one after another, for every interleaving. Things computed in steps (fields, positions, covariances and their square roots, lens planes, catalogues) yield the same when several are under way at once, in whatever order their steps are taken, and whether or not others are left unfinished.",
  ["schedules", "histories"], "interleavings of calls in threads at every line (or bytecode) of glass, orders of the steps of iterators",
  "Tests make one call at a time and finish what they start, so that state shared by calls (buffers, settings, arguments changed and restored) is never seen.",
  ["glass/fields.py", "glass/lensing.py", "glass/points.py", "glass/shells.py", "glass/algorithm.py", "glass/user.py", "glass/healpix.py", "glass/shapes.py", "glass/galaxies.py", "glass/observations.py", "glass/grf/_solver.py", "glass/arraytools.py"],
  [("steps", "iterators and writers"), ("overlapping", "calls in threads")])


BASE_NOTE = "Generated-input search against an explicit oracle; no proof of absence. Deterministic for a given VERIF_SEED. "


def main():
    have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(HERE, "vf/checks/c[0-9]*.py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in P:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, note in P:
        i = d["id"]
        if i in have:
            checks.append({
                "property": i,
                "quick_cmd": f"./check {i} quick",
                "thorough_cmd": f"./check {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "property-based testing: Hypothesis-generated inputs and histories against an explicit oracle, with shrinking",
                "level": "exploration",
                "level_note": BASE_NOTE + note,
            })
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
    m = {
        "version": 1,
        "setup_cmd": "./check selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks import glass from /repo's working tree; no hooks in /repo are needed. Known and fixed defects: known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


NOT_APPLICABLE = {}

if __name__ == "__main__":
    main()

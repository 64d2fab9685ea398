"""Writes /verif/properties.jsonl (the human-edited source of the property list)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })


prop("C01", "Two-point spectra keep one consistent order everywhere",
     """A list of angular power spectra for n fields is always read and written in one order (for i = 0..n-1, the
     pairs (i,i), (i,i-1), ..., (i,0)): enumerating it, listing its index pairs, looking a pair up in either index order
     (cut or zero-padded to the requested maximum multipole), assembling per-multipole covariance matrices and reading
     off the number of fields all agree for every n. Adding a field only appends to the list, and a list whose length is
     not n(n+1)/2 is refused. Converting to the HEALPix order (all auto-spectra first, then each off-diagonal in turn)
     and back are mutually inverse permutations that lose and duplicate nothing.""",
     ["inputs", "configurations"],
     """every number of fields n (including 0, 1 and several hundred), every pair (i,j) in either order, every ragged
     combination of spectrum lengths and requested lmax, every array backend""",
     """Tests check a handful of n up to about 4 by example; a wrong index for larger n, for swapped pairs or for ragged
     lists passes them.""",
     ["glass/fields.py"],
     [("index arithmetic k <-> (i,j)", "glass/fields.py: enumerate_spectra, getcl, spectra_indices"),
      ("triangle-number inversion", "glass/fields.py: nfields_from_nspectra"),
      ("permutations", "glass/fields.py: glass_to_healpix_spectra, healpix_to_glass_spectra"),
      ("matrix assembly", "glass/fields.py: cov_from_spectra")],
     ["return values of glass.enumerate_spectra, spectra_indices, getcl, nfields_from_nspectra, glass_to_healpix_spectra,"
      " healpix_to_glass_spectra, cov_from_spectra"])

prop("C02", "Preparing spectra changes only what each option says",
     """Discretising a list of spectra keeps its length and order, cuts every spectrum to the requested maximum
     multipole (or, without one, to the multipoles that a requested pixel window covers), empties exactly the spectra of fields more than the requested number of steps apart, and multiplies by the
     squared pixel window function only where one was requested, leaving empty spectra empty. Effective spectra for weight
     vectors are the exact double sum over all pairs of fields of weight times weight times spectrum, for one or two weight
     arrays of any trailing shape, symmetric where both are the same, zero-padded or cut to the requested maximum
     multipole, and weights that do not match the number of fields are refused.""",
     ["inputs", "configurations"],
     """every number of fields, ragged and empty spectra, every combination of lmax, ncorr and nside, every trailing
     shape of one or two weight arrays, every array backend""",
     """The discretisation test cannot even run without pixel-window data and the effective-spectra test checks shapes and
     a few sums; neither covers ragged lists, asymmetric weights or multi-dimensional weights.""",
     ["glass/fields.py", "glass/healpix.py"],
     [("truncation, correlation cut and pixel window", "glass/fields.py: discretized_cls"),
      ("bilinear combination and symmetric fill", "glass/fields.py: effective_cls"),
      ("pixel window", "glass/healpix.py: pixwin")],
     ["return values of glass.discretized_cls, glass.effective_cls"])

prop("C03", "Sampled fields have exactly the requested joint covariance",
     """Fields sampled one after another from Gaussian spectra are a linear map of the standard normal numbers drawn, whose
     covariance at every multipole equals the requested spectrum for each pair of fields at most ncorr steps apart
     (all pairs if ncorr is not given) and zero for fields further apart, a spectrum being zero beyond its length; each field then
     has its own transformation applied. Positive semi-definite input, including exactly degenerate input, is accepted; input that would need a negative variance, has a negative
     auto-spectrum, has inconsistent shapes or is entirely empty is refused once the field concerned is reached. The sequence is lazy: the
     first k fields depend only on the first k fields' spectra and random numbers, and generators advanced in an interleaved order yield what they would yield alone.""",
     ["inputs", "histories", "schedules"],
     """every number of fields and correlation length, every positive semi-definite banded covariance, every number of
     multipoles, every interleaving of concurrently advanced generators, every array backend""",
     """Tests check the first rows of a few small matrices and that maps have the right shape; the joint covariance of a
     whole sequence (which needs the linear response to every random number) and the sliding window over more fields than
     the correlation length are never checked.""",
     ["glass/fields.py", "glass/harmonics.py"],
     [("iterative normal decomposition", "glass/fields.py: iternorm"),
      ("covariance rows", "glass/fields.py: cls2cov"),
      ("sliding window of past draws", "glass/fields.py: _generate_grf via generate"),
      ("transform and layout of alms", "glass/harmonics.py: multalm, glass/fields.py: _glass_to_healpix_alm")],
     ["glass.iternorm rows", "glass.cls2cov rows", "maps yielded by glass.generate with a scripted random generator"],
     state=[("history window", "random numbers of the last ncorr fields", "glass/fields.py: _generate_grf"),
            ("inverse factor m, column a, deviation s", "conditional covariance of the last ncorr fields",
             "glass/fields.py: iternorm")])

prop("C04", "Every sampled galaxy is placed exactly once, in its own pixel",
     """When positions are sampled from maps of galaxy overdensity, the number of points in each pixel of each population over the
     whole sequence of batches is exactly the count drawn for that pixel, every point lies inside its pixel, populations are
     emitted in index order with the count reported in the entry of that population only, and pixels within a population are in
     order. No batch is larger than the requested size unless it is a single pixel that alone exceeds it. The
     expected count handed to the random generator is density per square arcminute times pixel area times (1 + biased, optionally
     mean-subtracted overdensity) times visibility, clipped at zero, for every broadcastable combination of inputs.""",
     ["inputs", "histories"],
     """every map size (below, at and above the internal group size), every count pattern including empty pixels, empty
     maps and pixels above the batch size, every batch size, every population shape and broadcast combination of number
     density, bias and visibility, every array backend""",
     """Tests draw random counts at one resolution and compare totals; how batches split across group boundaries and
     around heavy pixels depends on exact count patterns random tests do not hit.""",
     ["glass/points.py"],
     [("batching loop", "glass/points.py: _sample_galaxies_per_pixel"),
      ("expected counts", "glass/points.py: _compute_expected_count, _apply_visibility, _compute_density_contrast"),
      ("broadcasting of populations", "glass/points.py: _broadcast_inputs")],
     ["batches yielded by glass.positions_from_delta with scripted counts", "expected counts seen by the generator"],
     state=[("start/stop/size/count", "current batch extent and points left", "glass/points.py: _sample_galaxies_per_pixel")])

prop("C05", "Uniform positions honour the count of every population",
     """Sampling uniform positions yields exactly one batch per population, in index order, holding exactly the number of points drawn
     for that population, reported in that population's entry alone (or as an integer when there is a single population).
     Longitude and the sine of latitude are independent and uniform over the full sphere, and the expected number is the density per
     square arcminute times the area of the sphere.""",
     ["inputs"],
     """every shape of densities including scalars and multi-dimensional arrays, every pattern of counts including zero,
     every value of the uniform numbers, every array backend""",
     """Tests use one scalar and two arrays with random counts and check totals only.""",
     ["glass/points.py"],
     [("per-population loop", "glass/points.py: uniform_positions")],
     ["batches yielded by glass.uniform_positions with scripted random numbers"])

prop("C06", "Iterated multi-plane lensing equals the direct lensing sum",
     """After any sequence of added matter planes or shells, the convergence is the direct sum over all earlier planes of overdensity
     times lensing weight times the lensing efficiency between that plane and the current source plane (for any curvature of
     the distance relation), and the reported source redshift, overdensity and plane weight are those of the last plane
     added. A plane that does not increase the redshift is refused and leaves everything unchanged, so that the history continues as
     if it had never been offered. The lensing matrix and the combined lensing weights agree with that recursion
     for every set of shells and weights.""",
     ["histories", "inputs"],
     """every sequence of planes (accepted and refused), every cosmology, every lensing weight, scalar and array
     overdensities, every array backend""",
     """Tests add two or three planes and check shapes and one number; the recurrence, which carries state over three planes,
     is never compared to the direct sum over histories nor after a refused plane.""",
     ["glass/lensing.py"],
     [("three-plane recurrence", "glass/lensing.py: MultiPlaneConvergence.add_plane"),
      ("window weight", "glass/lensing.py: MultiPlaneConvergence.add_window"),
      ("matrix and weights", "glass/lensing.py: multi_plane_matrix, multi_plane_weights")],
     ["kappa, zsrc, delta, wlens after every call", "multi_plane_matrix", "multi_plane_weights"],
     state=[("(z2,z3), (x2?,x3), r23, delta3, (kappa2,kappa3), w3", "last two planes of the recurrence",
             "glass/lensing.py: MultiPlaneConvergence")])

prop("C07", "Windows and grids cover the requested redshift range without gaps",
     """Windows built on a grid of n nodes are n-1 contiguous flat or n-2 overlapping triangular or cubic windows, in order, each spanning exactly its nodes,
     vanishing at (triangular, cubic) or constant up to (flat) its edges, and the overlapping kinds sum to one everywhere between the second and
     second-to-last node before an optional weight multiplies them pointwise. The effective redshift is the weighted mean
     redshift (flat windows and windows built without one) or the central node, and each side of a window is
     sampled at both of its ends and at no fewer points than whole steps fit into it. The distance, volume and density weights are 1/E, x^2/E and
     density times x^2/E at every redshift. Redshift and distance grids and fixed bins start at the lower limit, have the requested number of steps or the requested spacing,
     and end at the upper limit or within one step above it.""",
     ["inputs"],
     """every increasing grid of nodes, every sampling step (finer, equal to or coarser than the node spacing), every weight
     function, every range and number or size of steps, every array backend""",
     """Tests use one or two grids; sums and edges depend on how node spacing relates to the sampling step, and rounding
     in the number of steps shows only for particular decimal values.""",
     ["glass/shells.py", "glass/observations.py"],
     [("window construction", "glass/shells.py: tophat_windows, linear_windows, cubic_windows"),
      ("effective redshift", "glass/shells.py: RadialWindow"),
      ("grids", "glass/shells.py: redshift_grid, distance_grid; glass/observations.py: fixed_zbins")],
     ["za, wa, zeff of the windows", "grid values", "bin edges"])

prop("C08", "Splitting a redshift distribution over shells accounts for all of it",
     """Restricting a function to a window returns their product on the union of both grids inside the window, exact at every
     grid point, and integrating it gives the restrict-partition; for windows that sum to one those parts add up
     to the whole integral over the covered range. The least-squares and non-negative partitions preserve the total integral to
     the requested tolerance, recover the coefficients of any distribution that is a (non-negative) combination of the
     windows, minimise the squared residual otherwise, and combining coefficients is the sum of normalised windows times
     coefficients. All of it holds per leading entry of arrays of distributions of any shape, with partitions along the first axis.""",
     ["inputs", "configurations"],
     """every grid and function (including grids that do not line up, stop inside or reach beyond the windows), every set of
     windows, every method, every leading shape, every array backend""",
     """Tests compare integrals for one grid and two shapes to loose tolerance; which entry of an output belongs to which distribution and optimality
     of the solution are not checked.""",
     ["glass/shells.py", "glass/arraytools.py", "glass/_array_api_utils.py"],
     [("product on union grid", "glass/shells.py: restrict"),
      ("weighted least squares", "glass/shells.py: partition_lstsq"),
      ("non-negative least squares", "glass/shells.py: partition_nnls"),
      ("integrals", "glass/shells.py: partition_restrict"),
      ("recombination", "glass/shells.py: combine")],
     ["return values of glass.restrict, partition, combine"])

prop("C09", "Distributing redshifts over shells follows the window weights",
     """Each redshift is assigned the index of one shell, drawn independently with probability proportional to the shells' window
     values at exactly that redshift, and never a shell whose window is zero there. Redshifts outside of every window
     are always assigned -1. The output has the shape of the input, each entry belonging to the redshift in the same place,
     for any number of redshifts.""",
     ["inputs"],
     """every number and shape of redshifts (empty, below, at and above the internal batch size), every set of overlapping,
     disjoint or gapped windows, every outcome of the draw, every array backend""",
     """Tests use flat windows and random values; correct probabilities, placement across batches and boundary values of overlapping windows need exact scripted
     draws.""",
     ["glass/shells.py"],
     [("batched categorical draw", "glass/shells.py: distribute")],
     ["probabilities passed to the random generator, indices returned by shells.distribute"],
     state=[("batch", "position in the flat list of redshifts", "glass/shells.py: distribute")])

prop("C10", "Non-negative least squares always returns the optimum",
     """For every matrix of full column rank and every right-hand side, the solver terminates and returns the non-negative
     vector of least squared residual: all entries are non-negative, the gradient is not negative for zero entries and
     vanishes for positive ones. Inputs of mismatched or wrong dimensions are refused.""",
     ["inputs"],
     """every full-rank system, including those that need variables to leave the active set again, degenerate ties and
     zero right-hand sides, every array backend""",
     """Tests compare a few random systems with SciPy; the branch in which variables leave the active set is rarely taken, and was wrong.""",
     ["glass/algorithm.py"],
     [("active-set iteration", "glass/algorithm.py: nnls")],
     ["return value of glass.algorithm.nnls"],
     state=[("q", "passive set", "glass/algorithm.py: nnls"), ("x", "feasible solution", "glass/algorithm.py: nnls")])

prop("C11", "Regularised covariances are positive semi-definite and minimally changed",
     """Clipping replaces only eigenvalues below the threshold, keeping eigenvectors and all other eigenvalues; the nearest
     correlation method returns the symmetric positive semi-definite matrix of unit diagonal that is closest in the Frobenius sense, the nearest covariance
     method applies it to the matrix scaled to unit diagonal and keeps the original diagonal, and both return valid input unchanged. Each matrix of a stack of any shape is treated as if it
     were alone. Regularised spectra give per-multipole matrices that satisfy this in the input order of spectra, and checking definiteness
     agrees with the signs of the eigenvalues (away from rounding).""",
     ["inputs"],
     """every symmetric matrix with non-negative diagonal, every stack shape, every number of fields and multipoles including ragged
     lists, zero rows, both methods and tolerances, every array backend""",
     """Tests check positive definiteness on a few random matrices; minimality, unchanged eigenvectors, zero diagonals and the
     independence of stacked matrices are not checked.""",
     ["glass/algorithm.py", "glass/fields.py"],
     [("eigenvalue clipping", "glass/algorithm.py: cov_clip"),
      ("alternating projections", "glass/algorithm.py: nearcorr, cov_nearest"),
      ("matrix assembly and readout", "glass/fields.py: regularized_spectra, cov_from_spectra, check_posdef_spectra")],
     ["return values of glass.algorithm.cov_clip, nearcorr, cov_nearest; glass.regularized_spectra, check_posdef_spectra"],
     state=[("y, ds", "iterate and Dykstra correction", "glass/algorithm.py: nearcorr")])

prop("C12", "Saved spectra load back exactly, whatever was saved before",
     """Loading a file of spectra returns the same number of spectra in the same order with exactly the values that were last
     saved under that name, for any non-empty list of one-dimensional spectra, including ragged ones and ones with empty members at any
     position. Saving does not alter what was passed in, other files, or arrays loaded earlier.""",
     ["histories", "inputs"],
     """every sequence of saves and loads over several files, every list of spectrum lengths, every value including
     non-finite ones""",
     """One test saves and loads a single list of three spectra of positive length.""",
     ["glass/user.py"],
     [("concatenate and split", "glass/user.py: save_cls, load_cls")],
     ["files on disk and arrays returned by glass.load_cls"])

prop("C13", "Catalogues hold exactly the rows written, in order",
     """A catalogue file contains, after the context is left, one table in the requested extension with every row of every
     write in the order written, columns matched by name with their values intact, for any number and sizes of
     writes, in structured or keyword form. Writing again to the same name starts afresh, and leaving the context through an
     exception keeps a readable file with the rows written before it.""",
     ["histories", "fault_sequences"],
     """every sequence of writes (form, row counts, column order, dtypes), extension names given or not, exceptions between writes, several catalogues""",
     """Tests append two fixed chunks; longer histories, reordered keyword columns, exceptions and reuse of file names are not tried.""",
     ["glass/user.py"],
     [("append at end of table", "glass/user.py: write_catalog, _FitsWriter")],
     ["the FITS file read back"],
     state=[("ext", "extension the rows go to", "glass/user.py: _FitsWriter")])

prop("C14", "Random generators never reuse state, and are reproducible",
     """Every draw, split or spawn from a JAX-backed generator uses fresh key material under any interleaving of threads and any
     order of operations: no two draws share a key, spawned generators and split keys are distinct from the parent and each other, and
     the results of concurrent callers are a permutation of the sequential ones. Draws of every distribution have exactly the
     requested shape and fall in the distribution's support, with location, scale and bounds applied elementwise. Without a generator given, or with the same seed,
     every run is the same, the backend-neutral wrapper returns the wrapped generator's numbers unchanged in the requested backend, and
     the default generator matches the backend.""",
     ["schedules", "histories", "inputs"],
     """every interleaving of threads and every sequence of operations on one generator and its children, every shape and
     parameter combination, every seed, every array backend""",
     """Tests call each method once from a single thread.""",
     ["glass/jax.py", "glass/rng.py"],
     [("key splitting under lock", "glass/jax.py: Generator"),
      ("wrapper", "glass/rng.py: Generator, default_rng")],
     ["key data and draws of glass.jax.Generator under a deterministic scheduler", "draws of glass.rng.Generator"],
     state=[("key", "current key", "glass/jax.py: Generator"), ("lock", "mutual exclusion of updates", "glass/jax.py: Generator")])

prop("C15", "Redshifts are drawn from the distribution they belong to",
     """Redshifts drawn from a distribution, a window or per-bin distributions are the inverse of the piecewise-trapezoidal cumulative
     distribution at independent uniform numbers, so none falls outside the support. For arrays of counts and distributions of any
     broadcastable shape, the output holds exactly the requested number for each entry, contiguously in index order. For bin labels of any shape, kind and order,
     each output entry is drawn from the distribution of the label in the same place.""",
     ["inputs"],
     """every shape of counts and distributions, zero counts, every array of bin labels (unsorted, missing, repeated,
     multi-dimensional, non-contiguous labels), every uniform number, every array backend""",
     """Tests check counts and support for a few shapes with random draws; the assignment of draws to bins was wrong for multi-dimensional labels.""",
     ["glass/galaxies.py", "glass/arraytools.py"],
     [("inverse cdf", "glass/galaxies.py: redshifts_from_nz, redshifts"),
      ("scatter into bins", "glass/galaxies.py: redshifts_from_bins"),
      ("cumulative integral", "glass/arraytools.py: cumulative_trapezoid")],
     ["return values with scripted uniform numbers"])

prop("C16", "Photometric redshifts are truncated by redrawing only what is out of range",
     """Every Gaussian photometric redshift lies within its lower and upper limits (zero and infinity by default), equals true redshift
     plus (1+z) sigma times a standard normal number, and is redrawn until that holds, while values already in range are never
     changed. Output has the broadcast shape of redshift and error; limits may be scalars or arrays of the output's shape, each applied to its
     own entry. Limits that are not increasing or have another shape are refused.""",
     ["inputs", "histories"],
     """every sequence of accepted and rejected draws, every combination of scalar and array redshifts, errors and limits,
     values exactly on a limit, every array backend""",
     """Tests check that limits hold for a few draws; which entries are redrawn and elementwise limits over several rounds are not.""",
     ["glass/galaxies.py"],
     [("rejection loop", "glass/galaxies.py: gaussian_phz")],
     ["return values with scripted normal numbers"],
     state=[("trunc", "entries still to be redrawn", "glass/galaxies.py: gaussian_phz")])

prop("C17", "Sampled ellipticities respect bounds, counts and parameters of each entry",
     """Ellipticities sampled for an array of counts and dispersions hold exactly the requested number per entry, contiguously in
     index order, each drawn with that entry's dispersion, and never exceed one in modulus; Gaussian ones are redrawn only
     where they do, intrinsic-normal ones are the documented mapping of normal numbers and refuse dispersions outside of [0, sqrt(1/2)). Projected
     axis ratios of triaxial ellipsoids are the exact projection at random orientations and lie between the smallest and largest
     ratio of axes; the Ryden model gives moduli (1-q)/(1+q) with its truncated parameters applied elementwise. Resampling shapes keeps the number and order of
     moduli, scales them by one common factor that realises the requested variance, and refuses variances that are too large.""",
     ["inputs", "histories"],
     """every array of counts (with zeros) and dispersions of any broadcastable shape, every sequence of accepted and rejected draws, every axis
     ratio and orientation, every array backend""",
     """Tests check sample variances within loose tolerance for a few shapes.""",
     ["glass/shapes.py"],
     [("rejection and segments", "glass/shapes.py: ellipticity_gaussian, ellipticity_intnorm"),
      ("projection", "glass/shapes.py: triaxial_axis_ratio, ellipticity_ryden04"),
      ("variance matching", "glass/shapes.py: resample_shapes")],
     ["return values with scripted random numbers"])

prop("C18", "Galaxy shears use the map values of each galaxy's own pixel",
     """Every galaxy's observed ellipticity is the intrinsic one transformed by the convergence and shear of the pixel that contains it:
     (e + g)/(1 + conj(g) e) with g = shear/(1 - convergence) for reduced shear, e + shear otherwise. This holds for any
     number of galaxies, for positions anywhere on the sphere, and entry by entry: the result for a galaxy does not
     depend on which other galaxies are in the same call.""",
     ["inputs"],
     """every catalogue size (empty, below, at and above the internal block size), every position, resolution,
     ellipticity and map value, reduced and not, every array backend""",
     """Tests use few galaxies on constant or tiny maps; larger catalogues and per-entry values are not compared to the formula.""",
     ["glass/galaxies.py", "glass/healpix.py"],
     [("block loop and transformation", "glass/galaxies.py: galaxy_shear"), ("pixel lookup", "glass/healpix.py: ang2pix")],
     ["return value of glass.galaxy_shear"],
     state=[("i", "start of the current block", "glass/galaxies.py: galaxy_shear")])

prop("C19", "Displacements on the sphere are exact and invertible",
     """Displacing a position by an angle and direction moves it by exactly that great-circle distance in that direction (positive imaginary part: increasing
     longitude), elementwise for complex or pairwise real displacements, anywhere on the sphere including the poles; deflecting does the
     same with the opposite sign of longitude. The displacement between two positions has the great-circle distance as modulus and the
     initial bearing as argument, displacing by it arrives at the second position, and the displacement computed for a displaced
     position is the one applied.""",
     ["inputs"],
     """every position, distance and bearing, every shape and both representations of the displacement, every array
     backend""",
     """Tests check the four cardinal directions from a few points.""",
     ["glass/points.py", "glass/lensing.py"],
     [("spherical trigonometry", "glass/points.py: displace, displacement; glass/lensing.py: deflect")],
     ["return values of glass.displace, displacement, deflect"])

prop("C20", "Lensing maps are the right multiple of the convergence at every multipole",
     """Potential, deflection and shear maps computed from a convergence map have, at every multipole l, -2/(l(l+1)), sqrt(l(l+1)) times that, and sqrt((l-1)(l+2))/2 times
     that, of the convergence, zero for monopole (and dipole for shear), with the ratio of pixel window functions applied to
     the shear only if discretised. Any combination of requested outputs is returned in the documented order with the same values as if
     each were requested alone, any maximum multipole that the spin of the map allows is honoured (default three times the resolution minus one), and the shear-only function (numpy arrays) agrees.""",
     ["inputs", "configurations"],
     """every convergence map (every multipole and order), resolution, maximum multipole, subset of outputs and discretisation flag, every array backend""",
     """The existing tests cannot run without pixel weights and window data, and otherwise compare only shapes and types.""",
     ["glass/lensing.py", "glass/healpix.py"],
     [("multipole factors", "glass/lensing.py: from_convergence, shear_from_convergence"),
      ("transforms", "glass/healpix.py: map2alm, alm2map, alm2map_spin, almxfl, pixwin")],
     ["maps returned by glass.from_convergence, shear_from_convergence"])

prop("C21", "Field transformations and their correlation maps are consistent",
     """For every supported pair of field transformations with parameters in their documented range, the correlation of the transformed fields, its inverse and its derivative are consistent:
     the inverse undoes it, the derivative is its slope, swapping the fields changes nothing, zero correlation maps to zero and back, the correlation of a transformation with itself is that of its realised values, and unsupported
     pairs are refused. Gaussian spectra computed for a list of fields apply the map of the right pair to each spectrum of the list, in
     order, keeping empty spectra empty and refusing lists of the wrong length.""",
     ["inputs", "configurations"],
     """every pair of transformations and parameters, every correlation in range, every number of fields, ragged lists,
     every array backend""",
     """Tests check single values per pair with a mock; inverse and derivative relations over the parameter space and pairing of fields with
     spectra for more than two fields are not.""",
     ["glass/grf/_core.py", "glass/grf/_transformations.py", "glass/fields.py"],
     [("dispatch", "glass/grf/_core.py: corr, icorr, dcorr, compute"),
      ("transformations", "glass/grf/_transformations.py: Normal, Lognormal, SquaredNormal"),
      ("pairing", "glass/fields.py: compute_gaussian_spectra, lognormal_fields, gaussian_fields")],
     ["return values of glass.grf functions and compute_gaussian_spectra"])

prop("C22", "The spectrum solver stops and reports truthfully",
     """Solving for a Gaussian spectrum terminates for every input within the requested number of iterations and returns a solution, the
     spectrum realised by it, and a status: bit one exactly if the realised spectrum is within the requested relative error of the target, bit two
     only if the last step was below the requested relative size, zero if neither. The realised spectrum is that of the returned solution, the error never increases from one iteration to
     the next, a given monopole is kept exactly and its error ignored, a given initial solution is used (cut or zero-padded), and an already
     converged start is returned as is. Solving for a list of fields pairs fields and spectra in order, keeps the list's shape, and warns exactly for those that did not converge.""",
     ["inputs", "histories"],
     """every control path of the iteration (converged at start, after k steps, in the last step, step halved k times,
     never), every padding, monopole, initial solution and tolerance, every supported pair of transformations, every array backend""",
     """Tests run a few convergent cases with default tolerances; status on the last iteration and termination for inputs without solution were wrong.""",
     ["glass/grf/_solver.py", "glass/fields.py"],
     [("Gauss-Newton iteration with step halving", "glass/grf/_solver.py: solve"),
      ("list of pairs", "glass/fields.py: solve_gaussian_spectra")],
     ["returned (gl, cl, info)", "warnings"],
     state=[("gl, clerr, info", "iterate, its error and status", "glass/grf/_solver.py: solve")])

prop("C23", "Survey models are normalised and applied entry by entry",
     """Parametric redshift distributions have the requested shape at every redshift, integrate to the requested normalisation (one by default) on the given grid,
     and broadcast over leading axes of parameters, each row using its own. Equal-density bins split the distribution into contiguous bins of equal
     integral (of the cumulative integral, linear between grid points) between the ends of the grid, and tomographic distributions with Gaussian errors are the input times the probability of scattering into each bin,
     so that contiguous bins covering all non-negative redshifts add up to the input. The visibility map blocks the galactic and the ecliptic stripe, each in the
     coordinate system it is given in, up to the interpolation of rotated maps, and is between zero and one everywhere.""",
     ["inputs"],
     """every grid, parameter array shape, normalisation, number of bins and bin edges, resolution and stripe, every array backend""",
     """Tests check integrals for scalar and one-dimensional parameters; row-by-row values, normalisation arrays and sums over bins are not.""",
     ["glass/observations.py"],
     [("models", "glass/observations.py: gaussian_nz, smail_nz, equal_dens_zbins, tomo_nz_gausserr, vmap_galactic_ecliptic")],
     ["return values of the functions"])

prop("C24", "Calls depend only on their arguments and leave them alone",
     """For every public operation, a call returns the same result whatever was called before, given the same arguments and generator
     state, never modifies its arguments, and does not share memory with results already returned in a way that later calls change them (except for documented generators and classes that reuse a buffer).
     Results are arrays of the backend the inputs came from, and the same inputs give the same result on every backend the operation supports. Random draws come
     only from the generator given, so that equal generators give equal results and the global random state is untouched.""",
     ["histories", "programs", "configurations"],
     """every ordered pair and longer sequences of public operations, every array backend""",
     """Each test calls one operation once with fresh inputs and does not look at the inputs afterwards.""",
     ["glass/__init__.py", "glass/fields.py", "glass/shells.py", "glass/points.py", "glass/galaxies.py", "glass/shapes.py",
      "glass/lensing.py", "glass/observations.py", "glass/healpix.py", "glass/arraytools.py", "glass/algorithm.py", "glass/_array_api_utils.py"],
     [("functional style with copies before in-place updates", "throughout glass/*.py"),
      ("backend conversion", "glass/_array_api_utils.py: numpy_fallback, xp_additions")],
     ["arguments before and after, results, numpy global random state"])

prop("C25", "Array helpers agree with their elementwise definitions",
     """Broadcasting helpers align the documented axes (first axis, or all but a given number of trailing axes) and otherwise follow the usual rules; interpolation along an axis equals
     one-dimensional linear interpolation of every slice with the given outside values; the product integral is the trapezoidal integral of the product of
     all interpolated functions on the union of their grids over the common range; the cumulative integral starts at zero and adds
     trapezoids along the last axis. Position weights, effective bias and linear and log-linear bias follow their defining formulas
     entry by entry, and harmonic coefficients are multiplied by the factor of their own multipole.""",
     ["inputs"],
     """every shape and axis, every grid (overlapping, nested, with shared points), integer and float input, every array backend""",
     """Tests use one or two shapes per helper with symmetric values.""",
     ["glass/arraytools.py", "glass/points.py", "glass/harmonics.py"],
     [("helpers", "glass/arraytools.py: broadcast_first, broadcast_leading_axes, ndinterp, trapezoid_product, cumulative_trapezoid"),
      ("bias and weights", "glass/points.py: effective_bias, linear_bias, loglinear_bias, position_weights"),
      ("multiplication by multipole", "glass/harmonics.py: multalm")],
     ["return values of the functions"])

prop("C26", "A simulated light cone has exactly the statistics predicted for it",
     """Running the parts of the library together as a simulation does gives what was asked for. When the matter fields of a list of shells are generated
     from given spectra, one shell at a time, and passed as they come through multi-plane lensing and averaged over galaxies,
     the covariance between any pixels of mean convergence and mean overdensity is the one given by the effective spectra of the same matter spectra
     with the multi-plane weights and position weights of the galaxies, for any number of shells, correlation length, geometry and galaxy distribution; a
     shell is affected only by itself and earlier ones. Lognormal fields generated from solved spectra have zero mean and the requested spectra. The catalogue written
     during such a simulation holds every galaxy of every shell and population once, in order, with a position in a visible pixel that holds galaxies, a redshift in
     its shell, and the shear of its own pixel and shell.""",
     ["inputs", "histories"],
     """every list of spectra, every number of shells, correlation length, geometry, distribution of galaxies, visibility, batch size""",
     """Unit tests exercise each function on its own; no test relates the maps a whole simulation produces to the statistics that were asked for.""",
     ["glass/fields.py", "glass/shells.py", "glass/lensing.py", "glass/points.py", "glass/galaxies.py", "glass/harmonics.py", "glass/user.py", "glass/grf/_transformations.py"],
     [("matter fields", "glass/fields.py: generate, _generate_grf, compute_gaussian_spectra, solve_gaussian_spectra, discretized_cls"),
      ("lensing and weights", "glass/lensing.py: MultiPlaneConvergence, multi_plane_weights; glass/points.py: position_weights; glass/fields.py: effective_cls"),
      ("catalogue", "glass/points.py: positions_from_delta; glass/galaxies.py: redshifts, galaxy_shear; glass/user.py: write_catalog")],
     ["generated maps, accumulated maps, predicted spectra, catalogue file"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))

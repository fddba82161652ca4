"""Writes properties.jsonl (kept as a script for readability)."""

import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": observe,
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01",
    "Concurrent calls do not influence each other",
    "Calls into the library made at the same time from several threads, with read-only "
    "arguments shared between them and a generator of their own each, return exactly what "
    "each of them returns when made alone in a fresh process. No argument is modified, "
    "not even temporarily.",
    ["schedules", "inputs"],
    "every interleaving, at bytecode granularity, of any set of public calls with any valid "
    "arguments",
    "The tests make one call at a time in one thread; a module-level cache, buffer or "
    "default that is shared between calls is invisible to them unless two calls overlap.",
    ["glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/shells.py",
     "glass/fields.py", "glass/lensing.py", "glass/observations.py", "glass/algorithm.py",
     "glass/arraytools.py", "glass/_array_api_utils.py", "glass/grf", "glass/healpix.py",
     "glass/rng.py"],
    [("all state lives in local variables and generator frames", "glass/*.py"),
     ("inputs are copied before in-place arithmetic", "glass/points.py _compute_density_contrast; glass/algorithm.py")],
    ["return values and arguments of every public function"],
)
prop(
    "C02",
    "Interrupted or failing calls leave nothing behind",
    "When a call is interrupted (Ctrl-C), runs out of memory, or a user supplied cosmology, "
    "bias model, weight, shift or transformation raises, the exception reaches the caller. "
    "The arguments and process-wide settings are unchanged, no lock stays held, and every "
    "other call, concurrent or later, returns what it would have returned otherwise.",
    ["crash_points", "fault_sequences", "inputs"],
    "every point at which an exception can surface inside a call, for any public call and "
    "any calls made next to it or after it",
    "The tests never make a call fail half way at a point of their choosing, and do not "
    "look at later calls.",
    ["glass/points.py", "glass/fields.py", "glass/lensing.py", "glass/shells.py",
     "glass/grf", "glass/algorithm.py", "glass/jax.py"],
    [("no process-wide state is changed during a call", "glass/*.py"),
     ("exceptions of user callbacks are not caught", "glass/points.py, glass/grf/_core.py, glass/shells.py")],
    ["exceptions, arguments, process-wide state, results of later calls"],
)
prop(
    "C03",
    "All randomness comes from the given generator",
    "The result of a random call is a function of its inputs and of the state of the "
    "generator it is given, and of nothing else: not of global random states, clock, hash "
    "seed, earlier or concurrent calls. Two generators with different seeds share no "
    "randomness, successive calls with one generator draw new randomness, and a call "
    "without a generator is repeatable.",
    ["inputs", "histories", "schedules"],
    "every random public call, every seed, and every history of the process",
    "The tests fix one seed and compare with that seed's output; a part of the randomness "
    "that ignores the given generator, or depends on what was called before, passes them.",
    ["glass/rng.py", "glass/points.py", "glass/galaxies.py", "glass/shapes.py",
     "glass/shells.py", "glass/fields.py", "glass/healpix.py"],
    [("rng argument is passed on to every draw", "glass/*.py"),
     ("default seed is used afresh in every call", "glass/rng.py Generator.__init__")],
    ["return values; state of the generator after the call"],
    [("rng", "the only source of randomness", "argument of every sampling function")],
)
prop(
    "C04",
    "Streams are independent of each other and of their consumer",
    "Lazy results (sampled positions, generated fields, iterative normalisation, convergence "
    "planes) deliver the same items whatever else happens between two items: other streams "
    "over the same arguments being advanced, closed early, dropped or failed, other calls "
    "being made, or the stream moving to another thread. Items already delivered never "
    "change afterwards, and a consumer may overwrite them without effect on the stream.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of any number of streams with any consumer actions",
    "The tests exhaust each stream at once, alone, and compare items as they come.",
    ["glass/points.py", "glass/fields.py", "glass/lensing.py"],
    [("generator frames own all state of a stream", "glass/points.py, glass/fields.py"),
     ("every item is a new array", "glass/points.py, glass/fields.py, glass/healpix.py")],
    ["items of every stream, kept and frozen"],
)
prop(
    "C05",
    "Generated fields have exactly the requested joint covariance",
    "Over all outcomes of the noise, the Gaussian fields generated from a set of spectra "
    "have, for every pair of fields and pixels, exactly the covariance given by the "
    "requested auto and cross spectra; fields further apart than the number of correlated "
    "fields are uncorrelated. Transformed fields are the pointwise transformation of these "
    "with the right variance, and consumers, interleaving and other streams do not matter.",
    ["inputs", "schedules", "configurations"],
    "every set of positive definite spectra of any lengths, number of fields, ncorr, "
    "resolution, and every value of the noise",
    "The tests look at one realisation, at shapes, and at loose statistical agreement.",
    ["glass/fields.py", "glass/harmonics.py", "glass/healpix.py", "glass/grf/_transformations.py"],
    [("iterative conditional sampling with a window of past fields", "glass/fields.py iternorm, cls2cov, _generate_grf"),
     ("variance from the spectrum", "glass/fields.py generate, glass/harmonics.py")],
    ["maps yielded by generate() as a function of the noise"],
    [("y", "standard normal variates of the last fields", "glass/fields.py _generate_grf")],
)
prop(
    "C06",
    "Sampled positions are exactly the drawn counts, where they belong",
    "For every population and pixel, the number of positions delivered over all batches is "
    "the number drawn for that pixel, which is Poisson with the mean given by density, bias, "
    "monopole removal and visibility; nothing is sampled where visibility or density vanish. "
    "All positions lie in their pixel, populations come in order with the right counts, and "
    "no batch exceeds its limit unless a single pixel does.",
    ["inputs", "fault_sequences", "configurations"],
    "every map, number density, bias, visibility, batch size and every outcome of the draws",
    "The tests use one or two fixed maps and one seed; batch boundaries, empty regions and "
    "single very full pixels depend on draws they never see.",
    ["glass/points.py", "glass/healpix.py"],
    [("batch loop over pixel groups with cumulative counts", "glass/points.py _sample_galaxies_per_pixel"),
     ("count mask per population", "glass/points.py")],
    ["(lon, lat, count) batches of positions_from_delta()"],
)
prop(
    "C07",
    "Samplers deliver the requested number, order and labels",
    "Redshift, shell, shape and uniform position samplers return exactly as many values as "
    "asked for, population by population and in order, within the support of their "
    "distribution, each the image of its own draw. Shell assignment gives -1 exactly to the "
    "redshifts outside all shells and otherwise a shell with non-vanishing weight, whatever "
    "the internal batches.",
    ["inputs", "fault_sequences"],
    "every set of counts, shapes, distributions, windows and every outcome of the draws",
    "The tests sample small fixed inputs with one seed and check shapes or moments.",
    ["glass/galaxies.py", "glass/points.py", "glass/shapes.py", "glass/shells.py",
     "glass/arraytools.py"],
    [("inverse CDF sampling by population", "glass/galaxies.py"),
     ("categorical draw in batches of 1000", "glass/shells.py distribute")],
    ["return values as a function of the draws"],
)
prop(
    "C08",
    "Rejection sampling stays in bounds and ends",
    "Photometric redshifts, ellipticities and axis ratios are finite and within their "
    "documented bounds for every outcome of the draws, including extreme ones. Rejected "
    "draws are redone only for the rejected entries, with the parameters of those entries, "
    "accepted ones are kept, and the call ends as soon as draws are acceptable.",
    ["inputs", "fault_sequences"],
    "every sequence of draws an adversary may deliver before becoming fair",
    "Extreme draws do not occur in a test with one seed; whether a redraw hits the right "
    "entries with the right parameters cannot be seen from moments.",
    ["glass/galaxies.py", "glass/shapes.py"],
    [("while any(bad): redraw bad entries", "glass/galaxies.py gaussian_phz; glass/shapes.py")],
    ["return values and draws of gaussian_phz, ellipticity_*, triaxial_axis_ratio"],
)
prop(
    "C09",
    "The JAX generator never reuses randomness",
    "Concurrent draws from one JAX generator, and from generators split or derived from it, "
    "never share a random key: each draw returns what some sequential order of the same "
    "draws returns. A draw that fails or is interrupted leaves the generator usable, no lock "
    "held, and never makes a later draw repeat values already handed out. Generators made of "
    "different seeds, also through glass.rng, share none; those made of one seed agree.",
    ["schedules", "crash_points", "histories"],
    "every interleaving and every point of interruption of any draws",
    "The tests draw from one thread; a lost update of the key needs two threads between "
    "reading and writing it.",
    ["glass/jax.py"],
    [("key is split under a lock", "glass/jax.py Generator")],
    ["values returned by all draws"],
    [("key", "current random key", "glass/jax.py Generator")],
)
prop(
    "C10",
    "Array backends are interchangeable replicas",
    "The same call with the same inputs and the same draws gives the same values, shapes and "
    "exceptions whichever supported array backend holds the inputs, and returns arrays of "
    "that backend. This holds call by call and through streams and sequences of calls.",
    ["inputs", "configurations", "histories"],
    "every public call supporting several backends and every input",
    "The tests compare backends on a few inputs with shapes that do not vary.",
    ["glass/_array_api_utils.py", "glass/rng.py", "glass/jax.py", "glass/*.py"],
    [("array namespace of the inputs, NumPy fallback decorator", "glass/_array_api_utils.py"),
     ("generator wrapper of a backend", "glass/rng.py")],
    ["return values per backend"],
)
prop(
    "C11",
    "Multi-plane convergence equals the direct sum, whatever happened",
    "After any sequence of added planes, the convergence, source redshift and lensing weight "
    "are those of the direct sum over all planes added so far. A plane that is refused, or "
    "whose cosmology fails, changes nothing, and the sequence can go on; several "
    "calculators advanced in any interleaving do not affect each other, and the matrix and "
    "weights functions agree with the recurrence.",
    ["histories", "fault_sequences", "schedules"],
    "every history of accepted, refused and failed planes and windows",
    "The tests add a few valid planes in order and stop at the first error.",
    ["glass/lensing.py"],
    [("three-term recurrence with two kappa buffers", "glass/lensing.py MultiPlaneConvergence.add_plane"),
     ("validation before any change of state", "glass/lensing.py add_plane")],
    ["kappa, zsrc, wlens, delta after every step"],
    [("kappa2, kappa3, z2, z3, r23, x3, delta3, w3", "recurrence state", "glass/lensing.py MultiPlaneConvergence")],
)
prop(
    "C12",
    "Saved spectra come back exactly or not at all",
    "Loading a file to which spectra were saved without error returns exactly these spectra "
    "in order and length, after any history of other saves, failed saves and crashes. A file "
    "whose writing failed or was cut short, or which was truncated or corrupted, is never "
    "loaded as different spectra: it gives what was last acknowledged, or an error; a "
    "failing save raises.",
    ["crash_points", "fault_sequences", "inputs", "histories"],
    "every list of spectra, every point of failure or crash during saving, every truncation "
    "and corruption, every sequence of saves and loads",
    "The tests make one save and load on a healthy disk.",
    ["glass/user.py"],
    [("one archive with values and split positions; checksummed zip", "glass/user.py save_cls, load_cls")],
    ["files and return values of save_cls, load_cls"],
    [("archive", "values and split", "file given by the user")],
)
prop(
    "C13",
    "Catalogue files contain every written row exactly once, in order",
    "A catalogue file closed without error contains exactly the rows of all writes in order, "
    "column by column, for any sizes of writes and several writers used in any interleaving. "
    "When the body or a write fails, the error reaches the caller, the file is closed, and "
    "it holds a prefix of the writes.",
    ["histories", "fault_sequences", "schedules"],
    "every sequence of writes and failures and every interleaving of writers",
    "The tests write a few fixed chunks to one file and one exception.",
    ["glass/user.py"],
    [("context manager around a FITS file with append", "glass/user.py write_catalog, _FitsWriter")],
    ["rows of the file after the context ends"],
    [("ext", "extension of the file rows are appended to", "glass/user.py _FitsWriter")],
)
prop(
    "C14",
    "Splitting, batching and restarting work is invisible",
    "Splitting inputs into parts, choosing another batch size, spreading shells over workers, "
    "or restarting a crashed worker from its generator state changes neither deterministic "
    "results nor the sum of counts. A simulation pipeline (spectra, fields, positions, "
    "redshifts, convergence, shears, catalogue) run in pieces by crashing and restarting "
    "workers delivers what an undisturbed run delivers.",
    ["histories", "crash_points", "inputs", "schedules"],
    "every partition of the work, batch size, and crash point of a worker",
    "The tests run functions on whole inputs; the internal batches of 1000 and 10000 are "
    "hardly crossed, and no test restarts anything.",
    ["glass/points.py", "glass/galaxies.py", "glass/shells.py", "glass/lensing.py",
     "glass/user.py", "glass/fields.py"],
    [("batched loops over galaxies and pixels", "glass/galaxies.py galaxy_shear; glass/shells.py distribute; glass/points.py"),
     ("objects can be pickled", "glass/shells.py RadialWindow, glass/grf")],
    ["results of parts against the whole"],
)
prop(
    "C15",
    "HEALPix data files are honoured or reported, never guessed",
    "With a HEALPix data directory configured, pixel windows and weights used in results are "
    "those of the files there at the time of the call. A missing directory, a missing, "
    "unreadable or corrupt file raises instead of giving silently different results, and "
    "after the files or the setting are repaired or changed, calls give the right results "
    "again.",
    ["fault_sequences", "configurations", "histories"],
    "every sequence of calls, configuration changes and file faults",
    "The tests have no network and one data directory at most; they never change or break it.",
    ["glass/healpix.py", "glass/lensing.py", "glass/fields.py"],
    [("data path read from the environment at every call", "glass/healpix.py _get_healpy_datapath"),
     ("files read by healpy", "glass/healpix.py pixwin, map2alm")],
    ["return values of pixwin, map2alm, discretized_cls, from_convergence, shear_from_convergence"],
)
prop(
    "C16",
    "Solvers end and tell the truth",
    "For every pair of transformations, including user supplied ones that return wrong, "
    "infinite or NaN values or raise, the spectra solver ends within a number of evaluations "
    "bounded by its iteration limits, and the solution and status it returns describe what "
    "it really achieved: converged only if the spectrum transforms to the target within "
    "tolerance. The non-negative and least squares solvers behind partitions and the nearest "
    "correlation matrices behind regularised spectra also end for every input, and what they "
    "return is the optimum, keeps what is admissible already, or comes with a warning or an "
    "error, as does a failure of the linear algebra they use.",
    ["fault_sequences", "inputs", "programs"],
    "every transformation, target spectrum, tolerance, padding, matrix, function and iteration limit",
    "The tests solve well-behaved lognormal fields, and a few fixed matrices which need no "
    "intermediate step.",
    ["glass/grf/_solver.py", "glass/grf/_core.py", "glass/fields.py", "glass/algorithm.py", "glass/shells.py"],
    [
        ("Gauss-Newton iteration with step halving", "glass/grf/_solver.py solve"),
        ("active set method", "glass/algorithm.py nnls"),
        ("alternating projections with iteration limit and warning", "glass/algorithm.py nearcorr"),
    ],
    ["evaluations, solution and info of solve()", "results and warnings of nnls, partition, nearcorr, cov_nearest, regularized_spectra"],
)

prop(
    "C17",
    "Importing GLASS needs nothing optional and changes nothing",
    "With its declared dependencies, glass can be imported, any module first, whether jax, fitsio, "
    "scipy, cosmology, array_api_strict and others are present, missing or broken, and loads none "
    "of them by itself. Importing (glass.jax included) changes nothing outside of glass: no "
    "settings, environment, random state, warnings, loggers, handlers, files or output. Results "
    "do not depend on what else is installed, on python -O/-OO, or on an earlier import. What "
    "needs an optional package raises its error before touching anything, and works as soon as "
    "the package does. Extension packages glass.ext.NAME come from the first portion on the path "
    "that has them; a broken one affects nothing else.",
    ["histories", "crash_points", "inputs"],
    "every set of installed, missing and failing packages, changing over time; every order of "
    "imports and calls; every environment of the process",
    "The tests run in one environment with everything installed, in one order and without -O.",
    ["glass/__init__.py", "glass/user.py", "glass/rng.py", "glass/jax.py", "glass/ext/__init__.py",
     "glass/_array_api_utils.py"],
    [("imports where they are needed", "glass/user.py write_catalog, glass/rng.py default_rng"),
     ("namespace loader", "glass/ext/__init__.py _extend_path"),
     ("version that may be missing", "glass/__init__.py")],
    ["import outcome, sys.modules, state of the process, files, results of calls"],
)

prop(
    "C18",
    "Streams are lazy and nothing is kept",
    "A lazy result does only the work for the items asked for: no callback is made and no "
    "noise or position is drawn before the item that needs it, and earlier items are "
    "delivered even if later inputs are endless or fail. The memory a stream holds is bounded "
    "by the correlated fields and the batch, not by the number of items delivered, and "
    "dropped items are freed. When a call or stream has ended, failed, been interrupted or "
    "dropped, none of its arguments and results is kept alive, and repeated calls do not grow.",
    ["histories", "inputs", "crash_points"],
    "every stream with any number of items, any consumer and any failing input; every public "
    "call, ended or interrupted anywhere, made any number of times",
    "The tests consume a few small items and look at values only; an eager loop, a history "
    "list, a cache or a reference cycle passes them, and shows as memory that runs out in "
    "simulations of many large shells.",
    ["glass/fields.py", "glass/points.py", "glass/lensing.py", "glass/_array_api_utils.py", "glass/*.py"],
    [("generators, deque of the correlated variates", "glass/fields.py _generate_grf, iternorm"),
     ("pixel by pixel batches", "glass/points.py _sample_galaxies_per_pixel"),
     ("three-term recurrence", "glass/lensing.py MultiPlaneConvergence"),
     ("conversion without reference cycles", "glass/_array_api_utils.py numpy_fallback")],
    ["items, draws and callbacks when an item is delivered; traced memory; weak references"],
)

prop(
    "C19",
    "Samples follow the stated distributions",
    "Over a history of calls, of whatever sizes, shapes, backends and failures in between, the "
    "values a sampler delivers follow the distribution stated for their own parameters: redshifts "
    "the given density, photometric redshifts the truncated Gaussian around the true one, "
    "ellipticities and axis ratios their models, shells their relative weights, positions uniform "
    "on the sphere or in their pixel, numbers Poisson, generators what they are asked for. "
    "Directions are isotropic; values, their components and populations are independent.",
    ["histories", "inputs", "crash_points"],
    "every sampler, population, parameters per element and sequence of calls with one generator, "
    "some of which fail and are repeated",
    "The tests compare means of small samples, and single values for one seed; a bias from "
    "rejection, batching, reuse of variates or parameters of other elements passes them.",
    ["glass/galaxies.py", "glass/shapes.py", "glass/shells.py", "glass/points.py", "glass/healpix.py",
     "glass/rng.py", "glass/jax.py"],
    [("inverse CDF and rejection sampling", "glass/galaxies.py"),
     ("models of shapes", "glass/shapes.py"),
     ("categorical draw", "glass/shells.py distribute"),
     ("random positions", "glass/points.py, glass/healpix.py randang"),
     ("distributions of the generators", "glass/jax.py, glass/rng.py")],
    ["pooled return values of a history of calls"],
)

NA = [
    ("C20", "Spectra reordering and indexing are mutually inverse",
     "GLASS and HEALPix orderings, index enumeration, single spectrum access and conversion to covariance matrices are consistent with each other for any number of fields.",
     ["glass/fields.py"], "glass_to_healpix_spectra, healpix_to_glass_spectra, enumerate_spectra, spectra_indices, getcl, cov_from_spectra"),
    ("C21", "Windows partition unity",
     "Radial windows sum to unity between their centres.",
     ["glass/shells.py"], "linear_windows, cubic_windows, tophat_windows"),
    ("C23", "Displacement and its inverse agree on the sphere",
     "Displacing a position and computing the displacement between the positions are inverse to each other everywhere.",
     ["glass/points.py"], "displace, displacement, deflect"),
    ("C24", "Redshift distributions and bins have the stated densities",
     "Parametric redshift distributions follow their formula and normalisation; equal-density bins hold equal fractions; tomographic binning conserves the distribution.",
     ["glass/observations.py"], "smail_nz, gaussian_nz, equal_dens_zbins, fixed_zbins, tomo_nz_gausserr"),
    ("C25", "Effective spectra are bilinear in the weights",
     "Effective spectra equal the weighted double sum of the spectra of the shells.",
     ["glass/fields.py"], "effective_cls"),
    ("C26", "Visibility masks cover exactly the stated strips",
     "The galactic-ecliptic visibility map vanishes exactly inside the stated latitude strips.",
     ["glass/observations.py"], "vmap_galactic_ecliptic"),
    ("C27", "Correlation transformations are inverse to each other",
     "Forward, inverse and derivative correlation functions of each pair of transformations are consistent.",
     ["glass/grf"], "corr, icorr, dcorr, compute"),
]
for id, title, st, files, where in NA:
    prop(id, title, st, ["inputs"], "every valid input",
         "The tests sample a few inputs of a continuum.", files,
         [("pure function", where)], ["return values"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
NOT_APPLICABLE = [p["id"] for p in P if p["id"] >= "C20"]
print(len(P), "properties")

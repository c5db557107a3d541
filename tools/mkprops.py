"""Writes properties.jsonl (the table of properties is kept here, readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


G = "africanus/gridding/"
prop("C01", "Wgridder image/visibility operators compute the measurement equation",
     "For every layout of channels into imaging bands, the degridder predicts for every row and channel the weighted direct Fourier sum of the image of the band that owns the channel; the gridder is its exact adjoint per band; the residual image is the gridding of (data - prediction) and the Hessian is gridding of the prediction, all to the requested accuracy. "
     "Only samples whose mask is non-zero contribute (masked samples are predicted as zero), weights scale each sample once per application, and separate cell sizes, image shapes, w-correction, accumulation precision and thread count are honoured. "
     "Precision of the output follows the precision of the input data.",
     ["inputs", "configurations"],
     "all band layouts of the channels, mask patterns, weightings, cell sizes, image shapes, precisions and w-stacking settings",
     "the tests compare a few random data sets with uniform bands and square-ish settings; a band boundary, mask or weight combination that is mapped to the wrong channel only shows for particular layouts",
     [G+"wgridder/im2vis.py", G+"wgridder/vis2im.py", G+"wgridder/im2residim.py", G+"wgridder/hessian.py"],
     [("band loop slicing channels by bin index and count", G+"wgridder/vis2im.py"),
      ("degrid band loop", G+"wgridder/im2vis.py"),
      ("residual/hessian composition", G+"wgridder/im2residim.py, hessian.py")],
     ["returned images and visibilities"])

prop("C02", "Wgridder results do not depend on how rows and channels are chunked",
     "The lazy (chunked) gridding, degridding, residual and Hessian operators give the same result as the in-memory ones for every chunking of the rows, every band-aligned chunking of the channels, and every order in which the chunk tasks are executed. "
     "The declared shape, chunks and precision of the lazy result are those of the computed one, and no input chunk is modified while computing.",
     ["inputs", "schedules", "configurations"],
     "all row chunkings x all band-aligned channel chunkings x all/boundary task orders x optional weights and mask",
     "the tests use one or two uniform chunkings on one scheduler order; wrong chunk-to-band indexing, a missing block in the reduction over row chunks, or sharing of scratch between tasks shows only for other chunkings or orders",
     [G+"wgridder/dask.py", G+"wgridder/vis2im.py", G+"wgridder/im2vis.py"],
     [("blockwise graph and reduction over row blocks", G+"wgridder/dask.py"),
      ("rebasing of the band start index per chunk", G+"wgridder/vis2im.py")],
     ["compute() results", "declared chunks/dtype"])

prop("C03", "Stokes/correlation conversion is the defined linear map for every schema",
     "For every input and output arrangement of Stokes parameters and linear or circular correlations (by name or CASA code, in any order and any nesting) whose inputs contain the defining pair of each output, conversion yields for each output element exactly its defining combination of the input elements, element by element for every leading dimension, with a real result only where the result is real. "
     "Converting Stokes parameters to a complete set of correlations and back returns the original values, and the chunked version equals the in-memory one for every chunking. "
     "A request whose inputs cannot determine an output raises an error naming what is missing rather than returning data.",
     ["inputs", "configurations"],
     "all input/output schemas over the Stokes, linear and circular types up to four elements, flat or 2x2, all leading shapes and chunkings up to the bound",
     "67 tests sample specific schemas; the space of input orders, subsets, nestings and outputs has tens of thousands of combinations, each with its own element lookup",
     ["africanus/model/coherency/conversion.py", "africanus/model/coherency/dask.py", "africanus/util/casa_types.py"],
     [("schema to index mapping", "africanus/model/coherency/conversion.py"), ("converter table", "africanus/model/coherency/conversion.py"),
      ("lazy wrapper", "africanus/model/coherency/dask.py")], ["converted arrays", "raised errors"])

prop("C04", "Progress reporting never disturbs or misreports a computation",
     "While a chunked computation is observed by the progress bar, its result is that of the unobserved computation for every interleaving of task callbacks and the reporting thread, no reporting step fails, and computations that raise still shut the reporter down. "
     "Every report reflects one consistent state the computation really went through (elapsed time, percentage and estimate derived from the tasks completed by then, never from fewer than an earlier report, never more than 100%) and appears only after the minimum time; once the computation returns nothing more is reported for it, and a second computation under the same bar starts afresh. Durations are printed in their two most significant units.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings (within a preemption bound) of start/pretask/posttask/finish callbacks with the timer thread's update steps, over sequences of computations including failing ones",
     "the one existing test runs a graph once with real time; races between the timer thread and the callbacks need particular interleavings, and zero-duration clocks or reuse are never tried",
     ["africanus/util/dask_util.py"],
     [("timer thread and callbacks sharing the task table", "africanus/util/dask_util.py"), ("time estimation", "africanus/util/dask_util.py")],
     ["text written by the reporter", "exceptions in either thread", "result of compute"])

prop("C05", "Beam cube headers and file names are interpreted unambiguously",
     "For every ordering, unit, sign, reference pixel and regular or explicitly gridded description of the axes in a beam header, the reported l, m and frequency grids are the coordinates of each pixel along the axis, degree axes converted to radians and multiplied by the sign requested, and the axis numbers point at the axes that carry them. "
     "A file-name pattern expands to one real and one imaginary file name per correlation in the order given, with the documented capitalisation variants and escapes, and malformed patterns, headers without the needed axes or unknown correlation or feed types are rejected with an error. "
     "Beams written by the beam factory are read back with the grids that were asked for.",
     ["inputs", "configurations"],
     "all axis permutations, sign prefixes, increments, reference pixels, units, explicit grids and pattern shapes within the bound",
     "the tests enumerate a hundred header variations but not their combinations with axis order, reference pixel, units and explicit grids, nor error paths",
     ["africanus/util/beams.py", "africanus/testing/beam_factory.py"],
     [("header parsing and unit conversion", "africanus/util/beams.py"), ("template expansion", "africanus/util/beams.py"),
      ("factory header", "africanus/testing/beam_factory.py")], ["returned grids and file names"])

prop("C06", "Chunk and shape helpers conserve sizes and respect limits",
     "Aggregating chunks conserves the total along every axis, keeps axes aligned with each other, merges only adjacent chunks and produces no chunk beyond the limit unless a single input chunk already exceeds it; it merges greedily, so no two adjacent outputs could still be merged. "
     "Correlation shapes map to the documented tuple and unknown ones are rejected. "
     "A launch grid computed from problem and block sizes covers every element and never has more blocks than needed; generated in-place register rotations perform exactly the rotation asked for, and CUDA type and function names match the numpy type.",
     ["inputs"],
     "all chunk tuples up to the length/size bound, one or several aligned axes, all limits; all (problem, block) sizes up to the bound",
     "two tests check two fixed chunkings; leading oversize chunks, empty and zero chunks and multi-axis limits are never tried",
     ["africanus/util/shapes.py", "africanus/util/cuda.py", "africanus/util/jinja2.py"],
     [("greedy merge loop", "africanus/util/shapes.py"), ("ceil division", "africanus/util/cuda.py")], ["returned tuples"])

prop("C07", "Shared code caches build once per key and return that object for ever",
     "For every interleaving of threads and sequence of calls, a memoised builder runs once per key, every caller with that key gets the very same object, callers with other keys never see it, and a builder that raised is retried rather than remembered. "
     "A singleton class has exactly one instance per class regardless of which thread asks first, whatever the truth value of the instance and whether a subclass or superclass was instantiated before.",
     ["schedules", "histories"],
     "all interleavings of 2-3 threads with 1-2 calls each on colliding and distinct keys, all call sequences up to the depth including failing builders and subclass instantiation",
     "there is no test of these helpers; check-then-act races and cross-key leaks need particular interleavings",
     ["africanus/util/code.py"],
     [("lock around the cache lookup and build", "africanus/util/code.py"), ("double-checked instance creation", "africanus/util/code.py")],
     ["identity of returned objects", "number of builder calls"], [("cache", "key -> built object", "africanus/util/code.py")])

prop("C08", "Header-library installation is verified, all-or-nothing and repeatable",
     "Whatever step of downloading, hashing, unpacking or moving fails or is cut short, the installer reports an error and afterwards either a complete, verified copy of the library is reported as installed or none is: corrupted archives are never installed. "
     "A later attempt succeeds from every such state without being given a different directory, temporary files are removed (unless the process itself was killed), nothing outside the library's own folder is touched, and an already installed copy is used without downloading again. "
     "Concurrent first requests perform one installation and all get the same folder.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "every fault or crash at every file-system/network step of an installation from every earlier leftover state, and all interleavings of two concurrent requests",
     "the existing tests need the network and only run the success path",
     ["africanus/util/cub.py", "africanus/util/trove.py", "africanus/util/files.py"],
     [("hash verification before unpacking", "africanus/util/cub.py, trove.py"), ("install then probe for the header and version", "africanus/util/cub.py, trove.py"), ("double-checked lock", "africanus/util/cub.py, trove.py")],
     ["reported installed folder", "files on disk"], [("include folder", "files of the installed library", "africanus/util/appdirs.py")])

prop("C09", "Option parsing and optional-dependency gating behave predictably",
     "Parsing a string of assignments returns exactly the literal values and whitelisted builtin calls assigned, for every nesting of literals, and any other construct is rejected with an error without being evaluated. "
     "A function gated on optional packages runs unchanged when all of them are present, and when any is missing it is only rejected at call time with an error naming every missing package. "
     "Inferred result types equal those numpy's promotion rules give for the actual arguments, and documentation templates substitute exactly the fields they name.",
     ["inputs", "programs"],
     "all assignment programs up to the grammar bound including forbidden constructs; all subsets of missing packages; all dtype combinations",
     "two tests cover gating and none covers the parser; forbidden constructs are a family, not a list",
     ["africanus/util/cmdline.py", "africanus/util/requirements.py", "africanus/util/type_inference.py", "africanus/util/testing.py", "africanus/util/docs.py"],
     [("AST whitelist", "africanus/util/cmdline.py"), ("decorator choosing stub or function", "africanus/util/requirements.py"), ("type promotion", "africanus/util/type_inference.py")],
     ["returned dictionaries", "raised errors", "side effects of parsed text"])

prop("C10", "Hogbom CLEAN conserves flux bookkeeping and terminates within its budget",
     "For every dirty image, point spread function, gain, threshold and iteration limit, the residual image plus the clean components convolved with the point spread function equals the dirty image, each component lies on the pixel that was the peak (the largest pixel) when it was found, and the inputs are unchanged; the centre of the (2n, 2n) point spread function is pixel (n-1, n-1). "
     "No more than the allowed number of components is taken, cleaning stops as soon as the peak is not above the threshold (a fraction of the initial peak), the restored image is the residual plus the components convolved with the clean beam (the least-squares elliptical Gaussian of the point spread function's main lobe, for every size, width and orientation of it), and images with undefined (NaN) pixels, and images or point spread functions of the wrong size, are rejected.",
     ["inputs", "histories"],
     "all small images over a value alphabet x point spread functions x gains x thresholds x limits; every iteration is one transition",
     "there is no test of the deconvolution code",
     ["africanus/deconv/hogbom/clean.py"],
     [("minor cycle", "africanus/deconv/hogbom/clean.py")], ["returned clean and residual images"])

prop("C11", "Kronecker and Gaussian-process algebra equals the dense computation",
     "For every list of factor matrices (square, rectangular, any sizes) products, sizes and Cholesky factors computed in factored form equal those of the explicitly formed Kronecker matrix. "
     "Covariance matrices built from points are those of the documented kernel for every dimensionality and are symmetric with the signal variance on the diagonal; power spectra on any regular grid are proportional to the signal variance, symmetric and peak at zero, and requests outside their domain are rejected.",
     ["inputs"],
     "all factor shapes up to the bound (and the size boundaries of the index type), vectors spanning the whole space (every basis vector), all point sets over a small alphabet",
     "no tests exist for these modules in the tree",
     ["africanus/linalg/kronecker_tools.py", "africanus/gps/kernels.py", "africanus/gps/utils.py"],
     [("reshape/transpose sweep over factors", "africanus/linalg/kronecker_tools.py"), ("difference matrix", "africanus/gps/utils.py")], ["returned arrays"])

prop("C12", "Facet regions: masks, containment, splitting and stitching are consistent",
     "For every polygon of integer vertices with non-zero area the region mask contains exactly the integer points the region reports as inside, and for every box the mask is the full box; a box split into facets is tiled by them exactly once, and padding or squaring keeps the size, the contained box, the mask and, for odd sizes, the centre. "
     "Cutting regional data out of an image and projecting the facets back reproduces the image wherever facets cover it (with overlap normalised), with anything outside the image replaced by the fill value. "
     "Overlap tests agree with the geometry of the two regions up to the half-pixel tolerance, and setting or normalising a mask takes effect in every later use of the region.",
     ["inputs", "histories"],
     "all small boxes and hulls, all subdivision counts, all placements of the box relative to the image including partially and fully outside, all pairs for the overlap test",
     "the existing test file needs removed numpy names and only samples a few regions",
     ["africanus/linalg/geometry.py"],
     [("mask construction", "africanus/linalg/geometry.py"), ("split/pad factories", "africanus/linalg/geometry.py"), ("regional_data / project_regions", "africanus/linalg/geometry.py")],
     ["masks, boxes and images returned"])

A = "africanus/averaging/"
prop("C13", "Averaging maps every row and channel to exactly one well-formed bin",
     "For every set of times, baselines, intervals and flags, every input row belongs to exactly one output row, all rows of an output row share a baseline and are consecutive in time, none of the bins of two or more samples spans more than the requested interval, and a bin is only closed when the next sample would not fit. "
     "Output rows are ordered by time, and rows of equal time by baseline in the order in which the unique baselines are reported, with the nominal mean time and summed interval; an output row is flagged only when all its rows are flagged. "
     "Channels are grouped consecutively in groups of the requested size, duplicate (time, baseline) rows and inconsistent flag inputs are rejected, and unique times and baselines (with index, inverse and counts) reconstruct their inputs.",
     ["inputs"],
     "all assignments of rows to (time, baseline) up to the bound, intervals, bin sizes and flag patterns",
     "the tests use two small hand-made data sets and a reference copied from the implementation; bins of three or more samples after an overflow never occur in them",
     [A+"time_and_channel_mapping.py", A+"support.py"],
     [("bin accumulation state machine", A+"time_and_channel_mapping.py"), ("unique helpers", A+"support.py")],
     ["mapping outputs"], [("bin accumulators", "current bin per baseline", A+"time_and_channel_mapping.py")])

prop("C14", "Averaged columns are the defined (weighted) averages of their bins",
     "Given the bins, rows flagged as a whole are left out of an output row that has any unflagged row; among the remaining rows each averaged value is computed only from the unflagged samples of its bin unless all are flagged, in which case all of those are used and the output is flagged. Times and intervals are nominal (all rows of the bin); uvw, centroids and frequencies are means, exposures, weights and bandwidths are sums, visibilities are means weighted by the spectrum weights, else the row weights, else unity (zero where the total weight is zero), and sigmas follow the documented propagation. "
     "This holds for every combination of (row, channel, correlation) columns supplied and for flag and row-flag inputs, whose disagreement is rejected as are columns of inconsistent axes; columns not supplied are not produced, and averaging with unit bins reproduces the input values.",
     ["inputs", "configurations"],
     "all flag patterns over small (row, channel, correlation) cubes x all subsets of optional columns x bin sizes x correlation layouts",
     "the tests check one data set against code that repeats the implementation",
     [A+"time_and_channel_avg.py"], [("row/channel accumulation and normalisation", A+"time_and_channel_avg.py")], ["returned columns"])

prop("C15", "Chunked averaging equals averaging each row chunk in turn",
     "For every row, channel, correlation and uvw chunking shared by the columns, chunked averaging yields the concatenation over row chunks of averaging each row chunk on its own, with channel bins that do not cross channel chunks, for every subset of optional columns and every task execution order; the declared channel chunks and precisions are those produced.",
     ["inputs", "schedules", "configurations"],
     "all row chunkings x optional-column subsets x bin sizes, all/boundary task orders",
     "one test with one uniform chunking exists, and it cannot run on the installed library versions",
     [A+"dask.py"], [("tuple-valued graph with getters per column", A+"dask.py")], ["compute() results and declared metadata"])

R = "africanus/rime/"
prop("C16", "Predicted visibilities equal the measurement equation for every input subset",
     "For every combination of supplied terms (direction-dependent Jones pairs, source coherencies, base visibilities, direction-independent Jones pairs) and every correlation layout, the prediction for a row is G_p (B + sum over sources of E_p X E_q^H) G_q^H with the time and antenna indices of that row, absent terms acting as identity (or zero for the base). "
     "The chunked version gives the same values for every source, row, channel chunking, for serial (streamed) and parallel source reduction, and every task order. "
     "Jones terms supplied without their partner, or no terms at all, are rejected. "
     "Component (WSClean) models predict the sum of their point and Gaussian components with the documented spectra, in memory and for every chunking.",
     ["inputs", "configurations", "schedules"],
     "all subsets of optional inputs x correlation layouts x index patterns x source/row/time/channel chunkings x streaming modes x task orders",
     "the tests check a parametrised list with one chunking and random data; the subsets with streaming and multiple chunks in each dimension are not all reached",
     [R+"predict.py", R+"dask_predict.py", R+"wsclean_predict.py"],
     [("generated kernels per input combination", R+"predict.py"), ("linear/parallel reduction graphs", R+"dask_predict.py")], ["visibilities"])

prop("C17", "Instrument and propagation terms equal their definitions",
     "For every coordinate, frequency and sign convention the phase delay is the complex exponential of the documented path difference, feed rotations are the documented matrices for each feed type, source coordinates are rotated, offset and scaled per time, antenna and channel as documented, the shape functions are the Fourier transform of the unit-flux Gaussian with the given FWHM axes and position angle and the documented Zernike sums, and beam cubes are interpolated trilinearly with amplitude preserved, clamped at the edges and frequency-scaled outside their range. "
     "The chunked versions equal the in-memory ones for every chunking of the output axes and of the Zernike polynomials.",
     ["inputs", "configurations"],
     "all small coordinate/frequency grids (including zero, negative and boundary positions), conventions, feed types, correlation layouts, precisions and chunkings",
     "tests compare random interior points; cube edges, out-of-range frequencies, pixel-exact positions and conventions are not covered together",
     [R+"phase.py", R+"feeds.py", R+"transform.py", R+"fast_beam_cubes.py", R+"zernike.py", R+"dask.py", "africanus/model/shape/gaussian_shape.py", R+"parangles.py", R+"parangles_casa.py", R+"jax/phase.py"],
     [("per-element kernels", R), ("interpolation and clamping", R+"fast_beam_cubes.py")], ["returned Jones terms"])

prop("C18", "Direct transforms and sky coordinates are exact and mutually inverse",
     "Image-to-visibility and visibility-to-image transforms equal the documented sums for every convention and precision, skip exactly the samples with any flagged correlation, and the two are adjoint to each other on unflagged data. "
     "Sky coordinates convert to direction cosines by the documented formulae and back to the same sky position for every phase centre and every source above its horizon (n = sqrt(1-l^2-m^2)). "
     "Chunked versions equal the in-memory ones for every permitted chunking and reject the others.",
     ["inputs", "configurations"],
     "all basis images/visibilities, flag patterns, conventions, precisions and chunkings within the bound; all phase centre/source pairs of an angular grid including the poles",
     "tests use random mid-latitude positions and unflagged data; quadrant errors appear only near the poles or for particular flag patterns",
     ["africanus/dft/kernels.py", "africanus/dft/dask.py", "africanus/coordinates/coordinates.py", "africanus/coordinates/dask.py"],
     [("per-sample loops", "africanus/dft/kernels.py"), ("spherical formulae", "africanus/coordinates/coordinates.py")], ["returned arrays"])

C = "africanus/calibration/"
prop("C19", "Gain corruption, correction and residuals are consistent with each other",
     "For every gain and model layout (scalar, diagonal or full 2x2), time binning, antenna pair and number of directions, corruption sums G_p M G_q^H over directions per row, correction undoes a one-direction corruption exactly, and residuals are the data minus the corrupted model on unflagged samples and zero on flagged ones; on-the-fly prediction equals first predicting every direction (flux/n times the phase exp(-2 pi i nu/c (ul+vm+w(n-1)))) and then corrupting it. Rows are sorted by time. "
     "Results do not depend on chunking over time or on having been called before with the same arrays, and the arrays passed in are left untouched.",
     ["inputs", "configurations", "histories"],
     "all modes x time binnings x antenna pairs x flag patterns x direction counts x chunkings, and all call sequences of length two on shared arrays",
     "tests use one random data set per mode and never call twice with the same arrays or chunk in time",
     [C+"utils/corrupt_vis.py", C+"utils/correct_vis.py", C+"utils/residual_vis.py", C+"utils/compute_and_corrupt_vis.py", C+"utils/dask.py", C+"utils/utils.py"],
     [("mode detection and per-row kernels", C+"utils"), ("time-bin rebasing", C+"utils")], ["returned visibilities", "argument arrays after the call"])

prop("C20", "Calibration normal equations are those of the linearised gain model",
     "For every model, gain, weight, flag and time binning, the accumulated curvature and gradient of the phase-only solver equal the sums over unflagged samples of the analytic derivative products, per time bin, antenna, channel, direction and correlation, each row contributing to both of its (different) antennas. "
     "The solver started at the true gains stays there, gains of antennas without data stay as given, a common scale of the weights or of the flux does not change the gains, the returned update count respects the limit, and the data handed to it are not modified.",
     ["inputs", "histories"],
     "all small data sets over (time bin, baseline, channel, direction) with flag patterns and modes, all chunkings of the lazy versions",
     "tests check one random data set per function",
     [C+"phase_only/phase_only.py", C+"phase_only/dask.py"],
     [("jhj/jhr accumulation", C+"phase_only/phase_only.py"), ("iteration loop", C+"phase_only/phase_only.py")], ["returned arrays"])

M = "africanus/model/"
prop("C21", "Sky-model spectra and component lists are evaluated as documented",
     "For every polynomial base (per polarisation), coefficient set, reference frequency and precision, spectral models evaluate the documented formula for each source and channel, and a spectral-index fit of noiseless data returns the generating spectrum. "
     "A component list is read back column by column with sexagesimal positions, defaults, sizes and bracketed coefficient lists converted as documented, in file order, for every column order and optional default; malformed headers, missing values of columns without any default (declared or natural) and wrong column counts are rejected with the offending line. "
     "Predictions from such a list equal the sum over its components of spectrum, shape and phase.",
     ["inputs", "programs"],
     "all bases/coefficients/frequencies of an alphabet, all column permutations, default subsets and row shapes up to the bound, all source type sequences",
     "tests use one example file and random spectra",
     [M+"spectral/spec_model.py", M+"spi/component_spi.py", M+"wsclean/file_model.py", M+"wsclean/spec_model.py", R+"wsclean_predict.py"],
     [("base dispatch per polarisation", M+"spectral/spec_model.py"), ("line and header grammar", M+"wsclean/file_model.py")], ["returned values and errors"])

prop("C22", "Faceting gridder and degridder are consistent with their kernels and policies",
     "For every visibility position, convolution kernel, band map and correlation-conversion policy, gridding adds the kernel-weighted Stokes value exactly at the part of the kernel footprint that lies inside the grid of the owning band (and nowhere else), packed and unpacked kernels agree, degridding returns the kernel-weighted average of the same footprint, and converting a Stokes value to correlations and back is the identity. "
     "Phase and baseline rotation to the data's own centre change nothing, a rotation is length-preserving, the degridder samples each facet at the coordinates at which the gridder would place the data and undoes the gridder's phase rotation. The chunked forms sum all facets, channels, correlations and rows, with one normalisation, independently of the chunking, and leave the caller's arrays unchanged.",
     ["inputs", "configurations"],
     "all sub-cell positions (including on and beyond the grid edge) x kernels x policies x band maps x chunkings within the bound",
     "tests grid a few random points and check image statistics",
     [G+"perleypolyhedron/gridder.py", G+"perleypolyhedron/degridder.py", G+"perleypolyhedron/kernels.py", G+"perleypolyhedron/dask.py", G+"perleypolyhedron/policies/"],
     [("tap/fraction indexing", G+"perleypolyhedron/policies/convolution_policies.py"), ("policy dispatch", G+"perleypolyhedron/policies"), ("facet loop and reductions", G+"perleypolyhedron/dask.py")], ["grids and visibilities"])

prop("C23", "Streamed reductions visit every block exactly once in every chunking",
     "For every number of row, channel and source blocks and every number of parallel streams, the streaming reduction graphs of the nifty gridding wrappers and of the visibility predictor consume each block exactly once, chain blocks of a stream in order, and combine the streams into exactly one result equal to the plain reduction. "
     "The graphs are closed (no missing or dangling task), report their true length and membership, have no task shared between different inputs, and the declared shape, chunks and type are those of the computed result. A chunking that the wrappers could not honour (several channel chunks, row chunks that differ between arguments) is rejected rather than partly ignored.",
     ["configurations", "schedules"],
     "all block counts and stream counts up to the bound, all task orders",
     "no test that can run here touches the streaming graphs",
     [G+"nifty/dask.py", R+"dask_predict.py"],
     [("lazy graph layers", G+"nifty/dask.py"), ("linear/final reduction", R+"dask_predict.py")], ["graph structure", "values computed"])

prop("C24", "Computations leave their arguments untouched and can be repeated",
     "No numerical entry point of the library modifies the arrays, lists or dictionaries passed to it unless it is documented to fill that argument, whatever the memory layout and for every combination of optional arguments. "
     "Calling it again with the same arguments, or after any other calls, gives identical results and never returns memory shared with an earlier result, with its arguments or with anything kept across calls (objects that stand for their arguments, such as fitted splines, keep them).",
     ["histories", "inputs"],
     "all ordered pairs of calls over the public entry points with shared arguments, read-only and non-contiguous layouts",
     "tests build fresh arrays for each call and never look at the inputs afterwards",
     ["africanus/calibration/", "africanus/averaging/", "africanus/rime/", "africanus/gridding/", "africanus/model/", "africanus/dft/", "africanus/coordinates/", "africanus/deconv/"],
     [("copies before in-place arithmetic", "africanus (all kernels)")], ["argument arrays after the call", "results of repeated calls"])

prop("C25", "Estimated cell sizes sample the longest baseline as requested",
     "For every set of baselines and wavelengths, in arrays or unit-carrying quantities, estimate_cell_size returns for each axis one over twice the sampling factor times the longest projected baseline in the shortest wavelength, in arcseconds. "
     "Given image dimensions, an image too small to hold the fringe of the shortest baseline at the shortest wavelength is rejected with ValueError and every other one is accepted with unchanged cell sizes; other argument types raise TypeError.",
     ["inputs"],
     "all small sets of u, v and wavelengths (signs, zeros, single and repeated values) x factors x image sizes on both sides of the limit",
     "the function has no test that states its value",
     [G+"util.py"],
     [("cell size and field of view limit", G+"util.py")], ["returned cell sizes", "raised errors"])

prop("C26", "Cubic splines interpolate smoothly and honour their end conditions",
     "For every set of at least three increasing knots and values, and each documented end condition, the fitted spline passes through every knot, is a cubic on each interval with continuous value, first and second derivative across the knots, has the requested first or second derivative at its ends, and continues beyond the first and last knot as the quadratic with the same value and first two derivatives. "
     "Evaluation of derivatives of order 0, 1 and 2 agrees with that piecewise polynomial for every query point, in any order, and unknown end conditions or orders are rejected.",
     ["inputs", "configurations"],
     "all knot spacings and value patterns of a small grid x end conditions x query points on, between and beyond the knots x orders",
     "the one test compares a single smooth curve",
     ["africanus/averaging/splines.py"],
     [("tridiagonal solve and end conditions", "africanus/averaging/splines.py"), ("interval search and evaluation", "africanus/averaging/splines.py")], ["evaluated splines and derivatives"])

prop("C27", "GPU kernels compute their definitions for every launch size and thread order",
     "For every launch size (below, at and beyond block, warp and group boundaries), precision, correlation count, optional-term subset and polarisation schema, the generated CUDA kernels of phase_delay, feed_rotation, predict_vis, beam_cube_dde and convert, and the warp transpose macro, give the values, shapes and types of their documented definitions (the ones of the CPU versions). "
     "The result does not depend on the order in which threads of a block run between synchronisations, no thread reads or writes outside an array or an uninitialised shared value, no warp primitive is called with a mask that excludes the caller, and inputs are not written. "
     "Unsupported types, sizes, feeds, schemas and incomplete terms are refused, whatever was computed before.",
     ["inputs", "schedules", "configurations"],
     "all term subsets and schemas x sizes around the block, warp and group sizes x precisions x thread orders in an execution model of thread blocks, compiled from the source the library generates",
     "the GPU tests never run without a GPU, and on one they see a single schedule",
     ["africanus/rime/cuda/", "africanus/model/coherency/cuda/conversion.py", "africanus/util/cuda.py"],
     [("kernel templates and launches", "africanus/rime/cuda/beam.py"), ("prediction kernel", "africanus/rime/cuda/predict.cu.j2"), ("conversion kernel", "africanus/model/coherency/cuda/conversion.cu.j2"), ("warp transpose", "africanus/rime/cuda/macros.j2")], ["returned arrays", "raised errors", "memory accesses of the kernels"])

prop("C28", "Chunked results are lazy, are what they declare and do not interfere",
     "For every dask wrapper of the library, calling it reads none of its data (the faceting gridder may read its channel map); the array it returns has the number of dimensions, shape, blocks, dtype and meta of the values it computes to. "
     "Its values do not depend on the order in which tasks are executed, on graph optimisation, on pickling the graph, nor on which other results are computed in the same graph: computed together, results of any two calls - of the same function with different data, chunks or options, or of different functions - are those of each call computed alone.",
     ["inputs", "schedules", "histories"],
     "all dask wrappers x variants in one argument, option, chunking or precision; all pairs of variants and all pairs of functions in one graph",
     "the tests compute each result by itself, in one order",
     ["africanus/*/dask.py", "africanus/rime/dask_predict.py", "africanus/gridding/*/dask.py"],
     [("graph construction for averages", "africanus/averaging/dask.py"), ("graph construction for predictions", "africanus/rime/dask_predict.py"), ("graph construction for gridding", "africanus/gridding/nifty/dask.py")], ["returned lazy arrays and their computed values"])

prop("C29", "CUDA sources are compiled as configured and leave no traces",
     "For every combination of PATH, CUDA_PATH and NVCC, list of devices and answer of the compiler probe, compile_using_nvcc runs the nvcc the environment selects (NVCC, which may carry arguments, first; then CUDA_PATH if it exists, else the first nvcc on PATH) with the caller's source and options, the cuda and cupy header directories, the host compiler options the probe advises, and exactly one target architecture: the requested one, else the lowest of the devices. "
     "In every sequence and every interleaving of compilations, a failure is reported as a compile error showing the source and that compilation's own messages, an unusable or too old nvcc is reported, and nothing else changes: the caller's options, the process's error channel, the configured host compiler, open files, and the temporary and current directories are as before.",
     ["inputs", "histories", "schedules"],
     "all environments x device lists x probe outputs of a few lines; all histories of compilations to a depth; all interleavings of compiling threads up to a preemption bound",
     "the one test needs a GPU and is skipped elsewhere; it compiles once",
     ["africanus/util/nvcc.py"],
     [("compilation", "africanus/util/nvcc.py"), ("redirected error channel", "africanus/util/nvcc.py")], ["arguments given to nvcc", "loaded modules", "raised errors", "file descriptors and directories"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("explicit TLA+ specification checked with TLC; recorded executions of "
        "the real code replayed against it as traces (TLC is the oracle)")
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech,
         observe="", note=""):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": [observe]} if observe else {}))), note))


prop("C01", "Time averaging bins every row exactly once, in order",
     "For any rows (any order, any timestamps, intervals and flags), time averaging puts every input row in exactly one output row of the same baseline: walking a baseline's rows in time order, a row joins the current bin exactly when the span from the start of the bin's first interval to the end of its own interval does not exceed the requested bin length, and otherwise starts a new bin. Output rows are ordered by (mean time, antenna1, antenna2), carry the mean time and the summed interval of all their rows, and are flagged exactly when all their rows are flagged. Two rows with the same time and baseline raise ValueError.",
     ["inputs", "histories"], "every set of rows, in every row order, and every bin length",
     "Unit tests average one regular synthetic observation; the guarantee is about irregular times, unsorted rows, missing baselines and bin boundaries.",
     ["africanus/averaging/time_and_channel_mapping.py", "africanus/averaging/support.py"],
     [("row_mapper", "africanus/averaging/time_and_channel_mapping.py"),
      ("unique_time / unique_baselines", "africanus/averaging/support.py")],
     observe="return value of time_and_channel")
prop("C02", "Averaged values use exactly the unflagged samples",
     "For every combination of the optional columns, each averaged cell is computed from exactly the rows (and samples) of its bin whose flag state equals that of the bin: unflagged ones when any exist, otherwise all of them. Time centroid, uvw and frequency are means; exposure, weight, weight spectrum, channel width, effective bandwidth and resolution are sums; visibilities are means weighted by the weight spectrum, else by the row weight, else unweighted; sigma is sqrt(sum((w*sigma)^2))/sum(w); channels are grouped in consecutive runs of the bin size, the last one possibly short. Output dtypes equal the input dtypes, absent columns stay absent, inputs are not modified, and row flags that contradict the sample flags raise ValueError.",
     ["inputs", "configurations"], "every set of rows, flags, weights, optional columns, channel bin sizes and 1, 2 or 4 correlations",
     "2^14 column combinations times flag patterns; tests use one combination with regular data.",
     ["africanus/averaging/time_and_channel_avg.py"],
     [("row_average", "africanus/averaging/time_and_channel_avg.py"),
      ("row_chan_average", "africanus/averaging/time_and_channel_avg.py"),
      ("chan_average", "africanus/averaging/time_and_channel_avg.py"),
      ("merge_flags", "africanus/averaging/time_and_channel_avg.py")],
     observe="return value of time_and_channel")
prop("C03", "Chunked averaging equals averaging chunk by chunk",
     "For every row and channel chunking, every order in which tasks run and even if tasks run more than once or along with those of other calls, the dask form of time and channel averaging yields the concatenation of the results of averaging each row and channel chunk on its own, for every combination of optional columns. The declared dtypes, dimensions and known chunk sizes agree with the computed arrays.",
     ["inputs", "schedules", "configurations"], "all chunkings, all topological task orders, re-execution of tasks",
     "Tests run one chunking with the default scheduler and all columns.",
     ["africanus/averaging/dask.py"],
     [("time_and_channel", "africanus/averaging/dask.py"),
      ("row_mapper, row_average, row_chan_average, chan_average, merge_flags", "africanus/averaging/dask.py")],
     observe="computed dask arrays")

prop("C04", "Visibility prediction evaluates the measurement equation",
     "For every combination of direction-dependent terms, source coherencies, base visibilities and direction-independent terms, each predicted visibility of a row (antennas p and q, time index relative to the smallest one given) equals G_p (B + sum over sources of E_p X E_q^H) G_q^H, absent terms being identities (or zero for B). Correlations of shape (2, 2) multiply as matrices, shapes (1,) and (2,) element by element; the result has the promoted dtype of the inputs and the inputs are left unmodified. Giving one antenna's term without its partner raises ValueError.",
     ["inputs", "configurations"], "every present/absent combination, number of sources, times, antennas, channels, correlation shape, baseline and autocorrelation, dtype and memory layout",
     "Tests compare with einsum on one shape; mixed-up antennas, conjugates or time indices can cancel on such symmetric data.",
     ["africanus/rime/predict.py"],
     [("predict_vis, sum_coherencies_factory, apply_dies_factory", "africanus/rime/predict.py"),
      ("jones multiplication factories", "africanus/rime/jones.py, africanus/rime/predict.py")],
     observe="return value of predict_vis")
prop("C05", "Chunked visibility prediction equals the unchunked one",
     "For every chunking of sources, rows (each row chunk paired with a time chunk), channels, and for both ways of reducing over source chunks, every task order and task re-execution, alone or computed along with other calls, the dask form of visibility prediction yields the same visibilities as one call on each row chunk with that chunk's time-dependent terms. Base visibilities enter exactly once, and declared dtype, shape and chunks agree with the computed array.",
     ["inputs", "schedules", "configurations"], "all chunkings, stream and tree reductions, all topological task orders, re-execution",
     "Tests use one chunking and the default scheduler.",
     ["africanus/rime/dask_predict.py", "africanus/rime/dask.py"],
     [("linear_reduction_factory, fan_reduction_factory", "africanus/rime/dask_predict.py"),
      ("predict_vis", "africanus/rime/dask_predict.py")],
     observe="computed dask array")
prop("C06", "Phase, feed, parallactic and source transforms follow their formulas",
     "For every source, baseline, frequency and convention the phase delay is exp(-2 pi i f (l u + m v + (n-1) w)/c) with the fourier convention and its conjugate with the casa one, other conventions raising ValueError; feed rotations are [[c, s], [-s, c]] for linear and diag(e^{-ia}, e^{ia}) for circular feeds. Source transforms rotate (l, m) by the parallactic angle, add the pointing error, then scale, and the parallactic angle of a (time, antenna) pair is the position angle of that antenna's zenith at the field centre, whatever else is in the call. The dask forms give the same values for every chunking and task order with correct metadata, and inputs are not modified.",
     ["inputs", "schedules", "configurations"], "all lattice phases, angles, conventions, feeds, shapes, dtypes, layouts, chunkings and task orders",
     "Tests check a few points, mostly at values where a sign or an index does not matter.",
     ["africanus/rime/phase.py", "africanus/rime/feeds.py", "africanus/rime/transform.py", "africanus/rime/parangles.py", "africanus/rime/parangles_casa.py", "africanus/rime/parangles_astropy.py", "africanus/rime/dask.py"],
     [("phase_delay", "africanus/rime/phase.py"), ("feed_rotation", "africanus/rime/feeds.py"),
      ("transform_sources", "africanus/rime/transform.py"), ("parallactic_angles", "africanus/rime/parangles.py")],
     observe="return values of phase_delay, feed_rotation, transform_sources, parallactic_angles")
prop("C07", "Beam cube and Zernike terms are evaluated at the right place",
     "For every source, time, antenna and channel, the beam cube term is the trilinear interpolation of the cube at the source position scaled with frequency outside the cube's band, offset by the pointing error, rotated by the parallactic angle, scaled per antenna and clamped to the cube's extent: its modulus is the interpolated modulus and its phase that of the interpolated complex value. The Zernike term is the coefficient-weighted sum of the requested Noll polynomials inside the unit disc and zero outside it. The dask forms give the same values for every chunking and task order, with correct metadata and unmodified inputs.",
     ["inputs", "schedules", "configurations"], "all grid positions including cell borders and outside the cube, frequencies in and out of band, chunkings and task orders",
     "Tests interpolate one position in one small cube; edges, clamping and frequency extrapolation are unsampled.",
     ["africanus/rime/fast_beam_cubes.py", "africanus/rime/zernike.py", "africanus/rime/dask.py"],
     [("beam_cube_dde, freq_grid_interp", "africanus/rime/fast_beam_cubes.py"),
      ("zernike_dde", "africanus/rime/zernike.py")],
     observe="return values of beam_cube_dde, zernike_dde")
prop("C08", "Applying, subtracting and removing gains obey V = sum_d G_p M G_q^H",
     "For every assignment of rows to time bins, direction count and for scalar, diagonal or full 2x2 gains, corrupted visibilities are the sum over directions of G_p M G_q^H with the gains of the row's time bin, residuals are the data minus that, and corrected visibilities are those which the gains corrupt back into the data; flagged samples give zero residuals and corrections. Component models additionally carry the phase of their (time dependent) direction divided by n. Dask forms give the same results for every chunking and task order, inputs (including the time bin indices) are left unmodified, and gains chunked over antenna or direction raise ValueError.",
     ["inputs", "schedules", "configurations"], "all time bins, antennas, directions, correlation modes, flags, chunkings and task orders",
     "Tests round-trip one simulation per mode: consistent errors in both directions cancel, and only one chunk layout is used.",
     ["africanus/calibration/utils/corrupt_vis.py", "africanus/calibration/utils/dask.py"],
     [("corrupt_vis", "africanus/calibration/utils/corrupt_vis.py"), ("residual_vis", "africanus/calibration/utils/residual_vis.py"),
      ("correct_vis", "africanus/calibration/utils/correct_vis.py"), ("compute_and_corrupt_vis", "africanus/calibration/utils/compute_and_corrupt_vis.py"),
      ("chunkify_rows", "africanus/calibration/utils/utils.py")],
     observe="return values of corrupt_vis, residual_vis, correct_vis, compute_and_corrupt_vis, chunkify_rows")
prop("C09", "The phase-only solver takes Gauss-Newton steps of the right equations",
     "For every data set, the solver's diagonal Hessian is the sum over a time bin's unflagged cross-correlation rows touching an antenna of |g_p m conj(g_q)|^2, its right hand side is the matching gradient of the residual, both whitened by the square root of the weights, and each iteration moves every phase by Re(jhr)/(2 jhj), antennas without unflagged data keeping their phase. Gains keep unit modulus, iterations never exceed the maximum, noise-free data are reproduced to the tolerance from a nearby start, and starting at the solution ends at once. Inputs are left unmodified and the dask forms of the Hessian and right hand side give the same values for every chunking.",
     ["inputs", "schedules"], "all data, flags, weights, baselines, time bins, directions, starting gains and chunkings",
     "Tests check convergence on one simulated data set, where wrong weights, signs or a missing row still converge.",
     ["africanus/calibration/phase_only/phase_only.py", "africanus/calibration/phase_only/dask.py"],
     [("compute_jhj, compute_jhr, gauss_newton", "africanus/calibration/phase_only/phase_only.py")],
     observe="return values of compute_jhj, compute_jhr, gauss_newton")
prop("C10", "Direct transforms between image and visibilities are exact and adjoint",
     "For every set of directions, uvw coordinates, frequencies, correlations and sign convention, the direct transform to visibilities is the sum over directions of the image times exp(-2 pi i f (u l + v m + w (n-1))/c) (conjugated for the casa convention) and the transform to an image is the real part of the conjugate sum over unflagged rows, without normalisation. The two are adjoint to each other, other conventions raise ValueError, output dtypes follow the inputs or the request, and inputs are unmodified. Dask forms give the same for every chunking and task order, including several source or row chunks.",
     ["inputs", "schedules", "configurations"], "all lattice phases, shapes, weights, flags, conventions, dtypes, chunkings, task orders",
     "Tests compare against one reference implementation on random data with one chunking.",
     ["africanus/dft/kernels.py", "africanus/dft/dask.py"],
     [("im_to_vis, vis_to_im", "africanus/dft/kernels.py"), ("im_to_vis, vis_to_im", "africanus/dft/dask.py")],
     observe="return values of im_to_vis, vis_to_im")
prop("C11", "Gridding and degridding map every channel to its image band",
     "For every image size and cell size, band layout (including bands starting at a channel offset), weights and mask, degridding gives each visibility the transform of the image of its own band, gridding sums each band's weighted used samples into that band's image, the residual image is gridding of data minus model and the Hessian is gridding of the model, all to the requested accuracy. Samples whose mask is zero contribute nothing, w terms are honoured exactly when requested, precision follows the inputs, and inputs are unmodified. Dask forms give the same for every chunking of rows, bands and image pixels and every task order, with correct metadata.",
     ["inputs", "schedules", "configurations"], "all lattice phases, band layouts, weights, masks, cell sizes, accuracies, precisions, row, band and pixel chunkings, task orders",
     "Tests compare one configuration per function with a direct sum, with equal bands and one chunking.",
     ["africanus/gridding/wgridder"],
     [("model", "africanus/gridding/wgridder/im2vis.py"), ("dirty", "africanus/gridding/wgridder/vis2im.py"),
      ("residual", "africanus/gridding/wgridder/im2residim.py"), ("hessian", "africanus/gridding/wgridder/hessian.py"),
      ("dask forms", "africanus/gridding/wgridder/dask.py")],
     observe="return values of model, dirty, residual, hessian")
prop("C12", "Hogbom CLEAN follows its iteration and conserves the dirty image",
     "For every dirty image and psf of twice its size (reference pixel n-1), each iteration adds gain times the largest residual value at its pixel to the model and subtracts the same amount of the psf shifted to that pixel, until the peak's absolute value is no longer above the threshold fraction of the initial one (0.2 by default) or the iteration limit (three times the image width by default) is reached. So the dirty image always equals the residual plus the model convolved with the psf, the limit is never exceeded, the caller's images are left unmodified and a psf of another size raises ValueError. Restoring adds the model convolved with the fitted beam to the residual, keeping components at their position and amplitude.",
     ["inputs", "histories"], "every image, psf, gain, threshold and iteration limit, and every choice among equal peaks",
     "Tests clean one image and look at it loosely; the iteration history and stopping rule are not checked.",
     ["africanus/deconv/hogbom/clean.py"],
     [("hogbom_clean, find_peak, update_residual, restore", "africanus/deconv/hogbom/clean.py")],
     observe="return values of hogbom_clean and restore")
prop("C13", "Stokes and correlation conversion is exact for every schema",
     "For every nested input and output schema of names or CASA ids, in any order, each output element is the Stokes or correlation combination of the input elements that define it (linear: XX=I+Q, XY=U+iV, YX=U-iV, YY=I-Q; circular: RR=I+V, RL=Q+iU, LR=Q-iU, LL=I-V; Stokes by the inverse of either basis) at the position the schema gives it, complex exactly when the output contains correlations. Outputs the inputs cannot produce raise MissingConversionInputs, duplicate, invalid or unknown output names and shapes not matching the schema raise ValueError, ragged schemas raise DimensionMismatch and other element types TypeError. The dask form gives the same for every chunking, including chunked correlation axes, and task order.",
     ["inputs", "configurations", "schedules"], "all input subsets, output selections, orders, nestings, name or id forms, dtypes and chunkings",
     "Tests cover the four standard full conversions only.",
     ["africanus/model/coherency/conversion.py", "africanus/model/coherency/dask.py"],
     [("convert, convert_setup, stokes_conv", "africanus/model/coherency/conversion.py"), ("convert", "africanus/model/coherency/dask.py")],
     observe="return value of convert")

prop("C14", "Beam headers and file schemas resolve to the right grids and files",
     "For every FITS header, whatever the order and number of its axes, each axis grid is (pixel - reference pixel) * increment + reference value with one-based reference pixels, degrees converted to radians, and a complete explicit grid taking precedence over the regular one while an incomplete one is ignored; the l, m and frequency axes are found by type (1-based), l and m are negated exactly when the requested axis starts with a minus sign, and a missing axis raises ValueError. A beam file schema expands, for every requested correlation id and in that order, to the pair of real and imaginary file names with lower or upper case correlation and part as written; unknown variables or ids raise ValueError. Headers are left unmodified.",
     ["inputs"], "all axis orders, types, units, explicit grids, signs and file name schemas",
     "Tests use one header and four schemas.",
     ["africanus/util/beams.py"],
     [("FitsAxes, BeamAxes, beam_grids", "africanus/util/beams.py"), ("beam_filenames", "africanus/util/beams.py")],
     observe="return values of BeamAxes, beam_grids, beam_filenames")

prop("C15", "Source spectra, Gaussian shapes and WSClean models predict as documented",
     "For every source, channel and polarisation a spectral model is I prod (f/f0)^a_i in the standard base and exp or 10^ of the log polynomial in the logarithmic bases, each polarisation using its own base (a short list repeats its last), and a WSClean spectrum is I + sum c_i (f/f0 - 1)^i, or the log polynomial (positive coefficients) for sources so marked, a non-positive flux then raising ValueError. A Gaussian shape is the transform of an ellipse with the given full widths at half maximum, its major axis at the position angle from m towards l; a WSClean prediction is the sum over sources of spectrum times shape (Gaussian types only) times exp(2 pi i f (lu + mv + (n-1)w)/c), other types and invalid bases raising ValueError. Dask forms give the same for every chunking and task order with correct metadata, except that chunked spectral indices of the plain model raise ValueError; inputs are left unmodified.",
     ["inputs", "schedules", "configurations"], "all sources, frequencies, bases per polarisation, coefficients, ellipses, uvw, dtypes, layouts, chunkings and task orders",
     "Tests use one random model per function, one chunking, and compare with numpy transcriptions of the same code.",
     ["africanus/model/spectral", "africanus/model/wsclean", "africanus/model/shape", "africanus/rime/wsclean_predict.py"],
     [("spectral_model", "africanus/model/spectral/spec_model.py"), ("spectra", "africanus/model/wsclean/spec_model.py"),
      ("gaussian", "africanus/model/shape/gaussian_shape.py"), ("wsclean_predict", "africanus/rime/wsclean_predict.py"),
      ("dask forms", "africanus/model/spectral/dask.py, africanus/model/wsclean/dask.py, africanus/model/shape/dask.py, africanus/rime/dask_predict.py")],
     observe="return values of spectral_model, spectra, gaussian, wsclean_predict")

prop("C16", "Spectral index fits recover the spectrum of every component",
     "For every set of components, weights and frequencies the spectral index fit minimises the weighted squared difference between data and I0 (f/f0)^alpha (times the beam response where given) by Gauss-Newton steps from the given or default start: each step solves the normal equations exactly, a noiseless power law is recovered to tolerance, and the reported variances are the diagonal of the inverse normal matrix scaled by the residual sum over channels minus two. Channels of zero weight have no influence and components do not influence each other. The dask form gives the same result for every chunking of components and channels and every task order; non-floating data raises ValueError.",
     ["inputs", "schedules"], "all data, weights, frequencies, starts, beams, precisions, iteration limits and chunkings",
     "The tests fit one noiseless random data set with unit weights in a single chunk.",
     ["africanus/model/spi"],
     [("fit_spi_components", "africanus/model/spi/component_spi.py"), ("fit_spi_components", "africanus/model/spi/dask.py")],
     observe="return value of fit_spi_components")
prop("C17", "WSClean component files load to the values they contain",
     "For every component file whose header may follow blank or comment lines and name any subset of the known columns in any order, with or without default values, each column is returned in header order with one entry per component: numbers as written, right ascension in hours and declination in degrees converted to radians with the sign applying to the whole value (also for zero hours or degrees), axes from arc seconds and orientation from degrees to radians, spectral terms as variable-length lists, flags as booleans. A missing entry takes the header's default, else zero for numeric columns or the empty string for names and types. A wrong number of fields, an unknown column, an entry that cannot be converted or a missing header raise ValueError, the first naming the offending line.",
     ["inputs"], "all column subsets, orders, defaults, missing entries, quoting, signs and malformed lines",
     "The tests load one well formed file with the standard header.",
     ["africanus/model/wsclean/file_model.py"],
     [("load, parse_header, hour/arcdeg converters", "africanus/model/wsclean/file_model.py")],
     observe="return value of load")
prop("C18", "Sky coordinate conversions are inverse to each other and exact",
     "For every source in the visible hemisphere of every phase centre (including poles, wrap-around and sources across the pole), right ascension and declination map to the direction cosines l = cos(dec) sin(dra), m = sin(dec) cos(dec0) - cos(dec) sin(dec0) cos(dra), n = sqrt(1 - l^2 - m^2), and the inverse conversions return the original position, right ascension modulo a full turn. A missing phase centre means the origin and inputs of the wrong shape raise ValueError. The dask forms give the same for every chunking and task order, and inputs are left unmodified.",
     ["inputs", "schedules"], "all visible source positions, phase centres, precisions, layouts and chunkings",
     "The tests compare random points near the phase centre with one library and skip the poles and dask chunks.",
     ["africanus/coordinates"],
     [("radec_to_lm, radec_to_lmn, lm_to_radec, lmn_to_radec", "africanus/coordinates/coordinates.py"), ("dask forms", "africanus/coordinates/dask.py")],
     observe="return values of the four conversions")

prop("C19", "Facet gridding and degridding convolve exactly and agree with each other",
     "For every set of baselines, wavelengths, band map and facet, gridding adds each visibility's Stokes value, after the phase shift to the facet centre and the chosen baseline transform (none, rotation to the facet's tangent plane, or linear w approximation), to the cells around its uv position weighted by the separable oversampled kernel (or to the nearest cell), ignoring cells outside the grid, normalised on request by the total kernel weight of the band; degridding reads the same cells with the same weights normalised by the weight inside the grid, shifts the phase back and adds all facets. Packed and unpacked kernels give the same result, packing is undone by unpacking, and the detaper is the modulus of the kernel's transform. The dask forms give the same for every chunking of rows, channels, facets, grids and correlations (gridding averages the grids of the row chunks), inputs are left unmodified, and mismatched shapes raise ValueError.",
     ["inputs", "schedules", "configurations"], "all uv positions and sub-cell offsets, kernels, facets, policies, band maps, precisions and chunkings",
     "Tests grid a few noiseless point sources and look at peak flux; they never rotate baselines, use several facets, or chunk anything but rows.",
     ["africanus/gridding/perleypolyhedron"],
     [("gridder", "africanus/gridding/perleypolyhedron/gridder.py"), ("degridder, degridder_serial", "africanus/gridding/perleypolyhedron/degridder.py"),
      ("transform, phase, convolution and Stokes policies", "africanus/gridding/perleypolyhedron/policies"),
      ("kernels", "africanus/gridding/perleypolyhedron/kernels.py"), ("dask forms", "africanus/gridding/perleypolyhedron/dask.py")],
     observe="return values of gridder, degridder, kernel and detaper functions")

prop("C20", "Image regions tile, mask, extract and coadd pixels exactly",
     "For every convex region with integer corners (negative coordinates included), the outline is the hull wound clockwise, the mask holds exactly the pixels inside or on the hull, restricted to the user's mask if one is given, the filled mask always reflects the current mask and weights whatever sequence of reads, mask assignments, resets and normalisations preceded, and two regions overlap unless some edge normal separates them by more than the given distance. Normalising gives each pixel of a mask the weight one over the number of regions covering it; extraction returns image times weight inside mask and image and the fill value (0 or NaN) elsewhere; projecting adds cut-outs at their offsets, counting NaN as 0, so cutting an image into normalised overlapping boxes and projecting them restores it. Splitting tiles a box without overlap, padding and bounding boxes contain the original at the requested size with the mask unchanged, inputs are left unmodified, and wrong types or impossible sizes raise TypeError or ValueError.",
     ["inputs", "histories"], "all hulls, boxes, masks and images on the lattice, all sequences of mask operations",
     "Tests use a few fixed boxes with positive coordinates in the last two axes and never reassign a mask after reading it.",
     ["africanus/linalg"],
     [("BoundingConvexHull", "africanus/linalg/geometry.py"), ("BoundingBox.project_regions", "africanus/linalg/geometry.py"),
      ("BoundingBoxFactory", "africanus/linalg/geometry.py")],
     observe="masks, weights, corners, extracted and projected arrays of the region classes")

prop("C21", "Kronecker products, factors and covariances equal the full matrices",
     "For every list of real, integer or complex matrices of any shapes and sizes, multiplying a vector or matrix by their Kronecker product (square form and general form) gives exactly what the full matrix would give, with the same number of rows and no loss of imaginary parts, and the factor-wise Cholesky decomposition returns the lower triangular factor of each matrix. Distances between points are Euclidean and the squared exponential covariance is the signal amplitude squared times exp(-distance squared / twice the length scale squared), for points of any dimension. Inputs are left unmodified and spectra asked for on unsupported grids raise NotImplementedError or ValueError.",
     ["inputs"], "all factor shapes, value types and point sets",
     "The repository has no tests for the Kronecker tools or covariance functions.",
     ["africanus/linalg", "africanus/gps"],
     [("kron_matvec, kron_tensorvec, kron_matmat, kron_tensormat, kron_cholesky", "africanus/linalg/kronecker_tools.py"),
      ("abs_diff", "africanus/gps/utils.py"), ("exponential_squared", "africanus/gps/kernels.py")],
     observe="return values of the Kronecker and covariance functions")

prop("C22", "Aggregated chunks, correlation shapes and complex types are the right ones",
     "For every tuple of chunks of one or several dimensions and every tuple of maxima, aggregation merges consecutive chunks at the same places in all dimensions so that sizes are conserved, no merged chunk exceeds its maximum (a single chunk already larger stays on its own, with no empty chunk added), and each chunk takes in as many as fit. The correlation shape is (n,) when flat and (1,), (2,) or (2, 2) as a matrix, and the inferred complex type is the smallest of at least single precision that holds every input, whether numpy, dask or compiled. Mismatched numbers of dimensions or chunks, and unsupported correlations or inputs, raise ValueError.",
     ["inputs", "configurations"], "all chunkings and maxima, all combinations of value types",
     "Tests aggregate four chunkings; none starts with a chunk above the maximum.",
     ["africanus/util"],
     [("aggregate_chunks, corr_shape", "africanus/util/shapes.py"), ("infer_complex_dtype", "africanus/util/type_inference.py")],
     observe="return values of the functions")

prop("C23", "The progress bar is consistent under every interleaving and ends in time",
     "While a computation runs, the bar is drawn at every update interval past the minimum time, and each drawing shows the elapsed time and an estimate equal to the elapsed time times the expected total time of the started groups of tasks (average task time times number of tasks) over the time spent in completed tasks, unknown until a task completes, with the bar and percentage (shown from ten seconds on) the reciprocal fraction. For every interleaving of the scheduler's callbacks and the drawing thread, including computations failing or following each other under one bar, a drawing reflects the task table at one moment, no thread fails, and once a computation ends its thread draws nothing more and stops. Durations print as the two largest of weeks, days, hours, minutes and seconds, rounded down.",
     ["schedules", "histories"], "all sequences of computations, task durations and groups, and line-by-line interleavings of callbacks and timer threads",
     "The test runs one short computation and formats a few whole numbers of seconds.",
     ["africanus/util"],
     [("EstimatingProgressBar, timer_func, update_bar, format_time", "africanus/util/dask_util.py")],
     observe="text written to the bar's output, thread lifetimes and thread exceptions")

prop("C24", "Memoised functions, singletons and optional requirements behave under threads",
     "For every interleaving of threads, a function memoised on a key is evaluated successfully at most once per key, every caller of that key receives that same result, an evaluation that raises is reported to its caller only and is tried again by the next, and a singleton class is constructed exactly once with every caller given that fully constructed instance, without deadlock. A function with optional requirements is the original function when all packages are present (supplied import errors are then raised when decorating), and otherwise a function of the same name, documentation and signature that raises a missing package error naming every missing package, or skips when called in a test and not told to raise. Any other requirement raises TypeError.",
     ["schedules", "configurations"], "all line-by-line interleavings of several threads calling with colliding keys and failing evaluations, all combinations of requirements",
     "Tests call requirements from one thread in two configurations; memoisation and singletons have no tests.",
     ["africanus/util"],
     [("memoize_on_key, SingletonMixin, format_code", "africanus/util/code.py"), ("requires_optional", "africanus/util/requirements.py")],
     observe="number of evaluations, identity of results, exceptions")

prop("C25", "Header archives are installed whole and verified, or not at all",
     "For every history of calls, threads, failing or corrupted downloads and kills at any operation, a call returns the install directory only when it holds exactly the contents of the archive with the published checksum, and a directory left by an interrupted installation never passes for an installed one. An archive that does not match the checksum is never unpacked and raises the install error with the existing directory untouched, a later call downloads it again, a matching archive on disk or a complete installation is used without downloading, and another version or an incomplete directory is replaced. Concurrent callers install once, a failed attempt fails only its own caller, and no temporary directories remain after calls that were not killed.",
     ["histories", "crash_points", "schedules"], "all sequences of processes, responses of the network, kills at the n-th file operation and interleavings of threads",
     "The tests need a network and download once without failures.",
     ["africanus/util"],
     [("cub_dir, _install_cub, is_cub_installed", "africanus/util/cub.py"), ("trove_dir, _install_trove", "africanus/util/trove.py"), ("sha_hash_file", "africanus/util/files.py")],
     observe="return values and exceptions, contents of the data directory, number of downloads")

prop("C26", "Assignment strings evaluate to exactly the assigned literals",
     "For every string of assignments separated by semicolons, the result maps each assigned name to the value of the last assignment to it: a Python literal of the same type or a slice built from literals, with chained targets all bound and tuples or lists of names unpacked element by element (any other value counting as one element). Calls to anything but slice (attributes included), names, operators on the right, unequal lengths, nested unpacking and statements that are not assignments raise ValueError, and attribute or subscript targets raise TypeError; the empty string gives an empty result. The cycles of an in-place rotation of registers contain each moved register once, each followed by the one it is filled from.",
     ["inputs", "programs"], "all programs of assignments over literals, slices, chained and unpacked targets; all rotations",
     "The repository has no tests for the parser or the cycles.",
     ["africanus/util"],
     [("parse_python_assigns", "africanus/util/cmdline.py"), ("register_assign_cycles", "africanus/util/jinja2.py")],
     observe="return values and exceptions")

prop("C27", "Cubic splines interpolate their knots with continuous curvature",
     "For every increasing sequence of two or more knots and any combination of end conditions (given first or second derivative at either end), the fitted spline takes the given values at the knots, is a cubic between neighbouring knots and has continuous first and second derivatives, with the given derivatives at the ends. Its value and its first and second derivative are evaluated consistently for any list of points, sorted or not, and continue beyond the ends as the quadratic with the end's value and derivatives. Unknown end conditions or orders raise ValueError and inputs are left unmodified.",
     ["inputs"], "all knots, values, end conditions and evaluation points",
     "The test fits one parabola with default ends and allows errors of a hundredth between knots.",
     ["africanus/averaging"],
     [("fit_cubic_spline, evaluate_spline, solve_trid_system", "africanus/averaging/splines.py")],
     observe="values returned by evaluate_spline")

prop("C28", "GPU and JAX forms give the CPU results under every thread schedule",
     "The GPU forms of the phase delay, feed rotation, beam cube interpolation, visibility prediction and Stokes/correlation conversion, and the JAX form of the phase delay, give, for contiguous arrays of one precision, the values their CPU forms are specified to give, for every number of elements relative to the block of threads and for every order in which the threads of a block run between barriers. Every output element is written, shared memory is read only after it has been filled, no thread touches memory outside its arrays, and lanes exchange values only with lanes taking part. Every combination of terms the prediction accepts works in single and double precision, and a beam cube too small to interpolate raises ValueError whatever was called before.",
     ["inputs", "schedules", "histories"], "all supported inputs, sizes around the block and warp sizes, and thread orders",
     "The tests need cupy and a GPU and are skipped without them; on a GPU one schedule is seen and out-of-bounds reads or missing barriers usually go unnoticed.",
     ["africanus/rime/cuda", "africanus/model/coherency/cuda", "africanus/util"],
     [("phase_delay", "africanus/rime/cuda/phase.py"),
      ("feed_rotation", "africanus/rime/cuda/feeds.py"),
      ("beam_cube_dde", "africanus/rime/cuda/beam.py"),
      ("predict_vis", "africanus/rime/cuda/predict.py"),
      ("convert", "africanus/model/coherency/cuda/conversion.py"),
      ("warp_transpose", "africanus/rime/cuda/macros.j2"),
      ("phase_delay", "africanus/rime/jax/phase.py")],
     observe="arrays returned by the GPU functions, with the rendered kernels compiled for the CPU by a CUDA emulation (threads as fibers in a seeded order)")


prop("C29", "Chunked NIFTY gridding equals gridding everything at once",
     "Gridding through the NIFTY gridder gives, for each correlation, the grid of all unflagged visibilities in the range of w, each with its own weight, however the rows are chunked, whatever number of streams accumulates them and in whatever order the tasks run. The dirty image, model and degridded visibilities are those of the whole arrays with the given configuration, flagged samples are left at zero, the declared shape and type match the result, and inputs are left unmodified. A configuration keeps its values when pickled and is identified by them, and chunking in channel raises ValueError.",
     ["inputs", "schedules", "configurations"], "all data, row and correlation chunkings, stream counts and task orders",
     "The tests need the external gridder, are skipped without it, and compare three stream counts on one input.",
     ["africanus/gridding/nifty"],
     [("grid, degrid, dirty, model, GridStreamReduction, FinalGridReduction, GridderConfigWrapper", "africanus/gridding/nifty/dask.py")],
     observe="computed dask arrays, with an exact linear gridder standing in for the external library")


prop("C30", "The estimated cell size samples every baseline and fits the grid",
     "For all baseline coordinates (arrays of any precision, or single numbers), wavelengths and scaling factors, the estimated cell size in arcseconds along each axis is the reciprocal of twice the factor times the largest absolute coordinate counted in the shortest wavelength, so every baseline's fringe gets at least two cells when the factor is one or more. If the number of cells along an axis is given (y for the first coordinate, x for the second), it raises ValueError exactly when those cells cover less than the angular scale of that coordinate's smallest absolute value. Lists and other types raise TypeError and inputs are left unmodified.",
     ["inputs"], "all baselines, wavelengths, factors and grid sizes",
     "The repository has no tests for the estimate.",
     ["africanus/gridding"],
     [("estimate_cell_size", "africanus/gridding/util.py")],
     observe="return value or exception of estimate_cell_size")


#@NEXT


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note in P:
        i = p["id"]
        if any(n[0] == i for n in NA):
            continue
        checks.append(dict(
            property=i, quick_cmd="python3 run.py %s --tier quick" % i,
            thorough_cmd="python3 run.py %s --tier thorough" % i,
            technique=TECH, level="model_checking",
            level_note=note or "design specification exhaustively checked on bounded instances; implementation bound to it by trace validation of spec-generated and random executions"))
    man = dict(version=1, setup_cmd="true", checks=checks,
               not_applicable=[dict(property=a, reason=b) for a, b in NA])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

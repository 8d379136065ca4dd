W_INPUT = "The tests check a handful of hand-picked inputs; the statement quantifies over all inputs, including missing values, ties, degenerate sizes and unusual geometry."
prop("C01", "Spatial lookup equals exhaustive search for every point set",
  "For every set of locations in either coordinate system, nearest-neighbour, closest-k, radius search and counting, and domain queries return exactly what a scan over all locations would give (up to rounding of positions), with distances being the distance between the locations. Every points or grid object derived from another (copy, subset, domain restriction, conversion to vectors or points, grid box lookup) keeps the locations, metadata and coordinate type it was built from, and invalid coordinates are rejected with an exception.",
  ["inputs"], "all point sets, grids and query locations (poles, date line, duplicates, Cartesian), all radii, counts and subset indices", W_INPUT,
  [A+"kdtree.cpp", A+"points.cpp", A+"grid.cpp", A+"point.cpp", A+"util.cpp"],
  [("R-tree query plus coordinate conversion", A+"kdtree.cpp"), ("object derivation", A+"points.cpp and "+A+"grid.cpp")])
prop("C02", "Nearest-neighbour downscaling returns the value of a nearest location",
  "Nearest-neighbour downscaling, for every combination of grid/point input and output and for every time or ensemble slice, gives at each output location exactly the value the input has at its closest input location, missing values included; the same location is used for all slices. The generic downscaling dispatcher gives the same result as calling the chosen method directly, and inputs whose size does not match their locations are rejected with an exception.",
  ["inputs"], "all input and output location sets and fields", W_INPUT,
  [A+"nearest.cpp", A+"downscaling.cpp"], [("nearest()", A+"nearest.cpp"), ("downscaling()", A+"downscaling.cpp")])
prop("C03", "Bilinear interpolation reproduces the bilinear surface of the cell",
  "Inside the input grid, bilinear interpolation gives at every output location the value of the bilinear surface through the four corners of the cell containing it, for regular, rotated, sheared and distorted grids; it is exact at grid nodes, is a weighted mean within the range of the corner values, and is independent per time slice. Outside the grid, and where any corner value is missing, it equals nearest-neighbour interpolation.",
  ["inputs"], "all non-degenerate grids, output locations and fields", W_INPUT,
  [A+"bilinear.cpp"], [("bilinear weights per cell shape", A+"bilinear.cpp")])
prop("C04", "Gradient downscaling adds gradient times metadata difference, and nothing else",
  "Simple and full gradient downscaling equal the underlying nearest or bilinear value plus the elevation gradient times the elevation difference plus the land-area-fraction gradient times the fraction difference between output and input; a term is left out where its gradient or a metadata value is missing or no gradient is given. Smart downscaling averages the requested number of the most similar neighbours by the structure function, and reports missing when there are none.",
  ["inputs"], "all grids, outputs, gradients, fields with missing data and overloads", W_INPUT,
  [A+"simple_gradient.cpp", A+"gradient.cpp", A+"smart.cpp"], [("gradient correction", A+"gradient.cpp")])
prop("C05", "Neighbourhood filters equal the statistic of the valid values in each window",
  "For every field, window half-width and statistic, each output cell of a neighbourhood filter equals the statistic over the non-missing values inside the square window clipped to the domain, is missing only when that window has no valid value, and the fast and brute-force implementations agree. With an ensemble dimension the result pools the members as documented, a half-width of zero gives each cell's own statistic, and a half-width beyond the domain gives a uniform field.",
  ["inputs"], "all fields (incl. constant, large offset, missing, single row/column), half-widths and statistics", W_INPUT,
  [A+"neighbourhood.cpp"], [("integral image and sliding window", A+"neighbourhood.cpp")])
prop("C06", "Neighbourhood quantiles agree with quantiles of the window's values",
  "The exact neighbourhood quantile of each cell equals the quantile of the non-missing values in the clipped window (and members), is monotone in the quantile level and lies within the range of the window's values. The threshold-based fast version equals inverting the window's cumulative distribution at the given thresholds, per cell with that cell's own quantile level, and the threshold selection returns increasing values taken from the data.",
  ["inputs"], "all 2-D and 3-D fields, levels (constant or varying per cell), thresholds and half-widths", W_INPUT,
  [A+"neighbourhood.cpp", A+"util.cpp"], [("sorting window", A+"neighbourhood.cpp"), ("threshold interpolation", A+"neighbourhood.cpp")])
prop("C07", "Optimal interpolation is the best linear unbiased analysis",
  "The deterministic optimal-interpolation analysis and its variance equal the dense best-linear-unbiased solution from the background, the structure function's correlations and the observation/background variances restricted to each location's admissible observations, for grid and point output alike. With no usable observation the analysis is the background, missing inputs are ignored, results do not depend on observation order, variance is never increased, and with extrapolation disallowed the increment stays within the range spanned by zero and the innovations used.",
  ["inputs"], "all backgrounds, observation sets, variances, structure functions and observation limits", W_INPUT,
  [A+"oi.cpp"], [("local solve per output location", A+"oi.cpp")])
prop("C08", "Ensemble optimal interpolation keeps to its analysis equations",
  "The ensemble optimal-interpolation analysis of every grid cell or point equals the ensemble-transform solution of the dense local problem built from the background ensemble, observations, observation errors and localization. Members with missing values or no observations in range leave the background unchanged, the result is invariant under permutation of observations and equivariant under permutation of members, grid and point output agree, and with extrapolation disallowed each member's increment stays within the range spanned by zero and that member's innovations.",
  ["inputs"], "all ensembles, observations, variances, structure functions and limits", W_INPUT,
  [A+"oi_ensi.cpp"], [("local ensemble solve", A+"oi_ensi.cpp")])
prop("C09", "Multi-parameter ensemble interpolation variants solve their stated systems",
  "The member-by-member and single-reference ensemble interpolation variants (static, correlation-scaled and mixed-transform) give at each location and member the solution of the stated gain equation using that location's admissible observations, for any relation between the number of observations, members and locations. Locations without observations keep the background, missing data are ignored, and with extrapolation disallowed each member's increment stays within the range spanned by zero and that member's own innovations.",
  ["inputs"], "all ensembles, observation counts, ratios and structure functions", W_INPUT,
  [A+"oi_ensi_multi.cpp"], [("per-member solve", A+"oi_ensi_multi.cpp")])
prop("C10", "Structure functions are bounded correlations that respect localization",
  "Every structure function gives a correlation between 0 and 1, equal to 1 for identical locations and non-increasing with horizontal, vertical and land-fraction separation, following its stated formula (linear weights when these are within 0 to 1, tabulated correlations at the listed knots and linear between them); it is 0 beyond the localization distance for background correlations, and missing metadata or zero scales leave that dimension out. Spatially varying scales use the value at the grid point nearest to the first location, and composed, cross-validated and cloned structure functions behave like their parts, the cross-validation one returning 0 inside its exclusion distance.",
  ["inputs"], "all structure functions, parameters and point pairs", W_INPUT,
  [A+"structure.cpp"], [("corr / corr_background", A+"structure.cpp")])
prop("C11", "Calibration curves map values as a piecewise-linear, monotone function",
  "Applying a curve interpolates linearly between its points and extrapolates outside by the selected policy on each side, quantile-mapping curves built from matched samples or quantiles map reference quantiles to forecast quantiles, metric-optimizer curves are made of scored optimal thresholds, and monotonizing a curve yields a non-decreasing curve made only of its own points. Spatially varying curves use each cell's own curve, missing values give missing values, and no curve depends on the order of its training data.",
  ["inputs"], "all curves, training samples, extrapolation policies and fields", W_INPUT,
  [A+"curve.cpp", A+"quantile_mapping.cpp", A+"util.cpp", A+"local_distribution_correction.cpp"], [("apply_curve", A+"curve.cpp"), ("quantile_mapping_curve", A+"quantile_mapping.cpp")])
prop("C12", "Statistics, quantile and interpolation primitives ignore missing values exactly",
  "For every vector, each statistic and quantile equals its definition over the non-missing values, is missing when there are none, and does not depend on element order; the row-wise and per-level variants equal the one-vector version per row. Interpolation through a sorted table is piecewise linear, clamped at the ends, exact at nodes and, at a run of tied nodes, gives the average of the run's first and last value (the inner node at either end of the table); table index lookups bracket the value.",
  ["inputs"], "all vectors (empty, single, ties, missing, infinite, huge/small magnitude), statistics and levels", W_INPUT,
  [A+"util.cpp", A+"gridpp.cpp"], [("calc_statistic, calc_quantile, interpolate", A+"util.cpp")])
prop("C13", "Gridding, counting, distance, filling and doping follow their geometry",
  "Gridding gives at each output location the statistic over exactly the observations within the radius (missing when fewer than the minimum count), or over those whose nearest output location it is; counting and distance give the number of, and distance to the k-th closest, input locations. Filling and doping change exactly the cells inside (or outside) the given circles or squares of observations and leave every other cell bit-for-bit unchanged; filling of missing cells interpolates only along missing runs between valid values.",
  ["inputs"], "all observation and output sets, radii, counts and fields", W_INPUT,
  [A+"gridding.cpp", A+"count.cpp", A+"distance.cpp", A+"fill.cpp", A+"doping.cpp"], [("radius search", A+"gridding.cpp")])
prop("C14", "Time-window statistics equal the statistic over each window",
  "A moving window along time equals, per row and lead time, the statistic over the values inside the window; windows that do not fit are shortened at the edges or give missing values as requested, missing values are either skipped or propagated as requested (counts are always the number of valid values), and windows before or centred on the time cover the documented lead times.",
  ["inputs"], "all arrays, window lengths, statistics and option combinations", W_INPUT,
  [A+"window.cpp"], [("window()", A+"window.cpp")])
prop("C15", "Neighbourhood gradients and searches use the right cells",
  "The estimated local gradient equals the regression slope (or min/max slope) of values against the base field over the valid cells of each clipped window, falling back to the default gradient where too few cells, too small a base range or missing values make it undefined. The neighbourhood search averages the values of the cells whose search-criterion value falls in the requested range, else takes the value of the cell closest to the range if that is within the allowed distance, and leaves cells unchanged otherwise or where the search does not apply.",
  ["inputs"], "all base/value/search fields, half-widths and limits", W_INPUT,
  [A+"calc_gradient.cpp", A+"neighbourhood_search.cpp"], [("window loops", A+"calc_gradient.cpp")])
prop("C16", "Probability downscaling counts members against the threshold at each location",
  "Downscaled probability gives the fraction of non-missing members of the closest input cell that satisfy the comparison with the local threshold, and the masked consensus applies the statistic per output cell to the members chosen from the true or false field by comparing each member's mask value with the local threshold.",
  ["inputs"], "all grids, ensembles, thresholds and comparison operators", W_INPUT,
  [A+"downscale_probability.cpp", A+"mask_threshold_downscale_consensus.cpp"], [("member loop", A+"downscale_probability.cpp")])
prop("C17", "Transforms invert each other and are monotone",
  "For every transform and every parameter, the backward transform of the forward transform gives back the value within rounding over its domain, both directions are non-decreasing, missing values stay missing, and array versions equal the scalar version per element. The gamma quantile function is the inverse of the gamma distribution with the given shape and scale (0 at level 0, infinity at level 1), and parameters outside their range or of different sizes are rejected with an exception.",
  ["inputs"], "all transforms, parameters and values in their domain", W_INPUT,
  [A+"transform.cpp", A+"distribution.cpp"], [("forward/backward", A+"transform.cpp")])
prop("C18", "Meteorological diagnostics obey their physical relations",
  "Dewpoint never exceeds temperature, increases with humidity and is missing when humidity is not positive; relative humidity follows the saturation pressure table, is clamped to the range zero to one and is consistent with dewpoint; wet-bulb temperature is the stated weighted mean of dewpoint and temperature; pressure, sea-level pressure and QNH conversions follow their formulas, undo each other between two heights and are one-to-one at sea level, and unphysical input to the sea-level pressure raises an exception; wind speed and direction are the polar form of the components with direction in degrees the wind blows from; missing input gives missing output and array versions equal the scalar version per element.",
  ["inputs"], "all physically valid and missing inputs", W_INPUT,
  [A+"humidity.cpp", A+"pressure.cpp", A+"qnh.cpp", A+"wind.cpp"], [("closed formulas", A+"humidity.cpp")])
prop("C19", "Verification scores and optimal thresholds are exact on the contingency counts",
  "Contingency-table scores equal their definition on the counts of hits, false alarms, misses and correct rejections of the given samples, missing samples are left out, and the optimal forecast threshold is the one a bounded search around the best of ten evenly spaced thresholds finds, missing when its score is not positive or no better than at either end of the forecast range. Metric-optimizer curves are made of exactly the valid optimal thresholds, and the neighbourhood score equals the score of the mean window counts at each cell.",
  ["inputs"], "all samples, thresholds, metrics and window sizes", W_INPUT,
  [A+"metric_optimizer.cpp", A+"neighbourhood_score.cpp"], [("calc_score", A+"metric_optimizer.cpp")])
prop("C20", "Results do not depend on the number of threads and are free of data races",
  "Every library function returns the same result for every number of OpenMP threads and every schedule of its parallel loops; no two threads access the same memory without synchronisation when at least one of them writes, results do not depend on other callers running library functions on their own arguments at the same time, and an error raised inside a parallel loop reaches the caller as an exception.",
  ["schedules", "inputs"], "all thread counts, schedules and inputs of the parallel functions", "The tests run each function once under whatever schedule happens to occur and never compare thread counts.",
  [A+"*.cpp (parallel loops)"], [("OpenMP loops with private state", A)], tech="ThreadSanitizer on an instrumented OpenMP runtime with injected delays, plus cross-thread-count result comparison")
prop("C21", "No input causes memory errors, hangs, aborts or modified arguments",
  "Whatever the sizes (arrays within one argument being rectangular), values (missing, infinite, huge, negative, empty) and option combinations of its arguments, every library function either returns or throws a catchable exception: it never accesses memory out of bounds, never executes undefined behaviour and never ends the process. Functions do not modify their inputs, outputs have the documented shape, repeated calls give the same result, and no call keeps memory once its result is released.",
  ["inputs"], "all argument combinations, valid or not", "Tests exercise valid inputs and a few documented errors without memory checking.",
  [A+"*.cpp"], [("size checks and exceptions", A)], tech="ASan/UBSan and termination monitoring over hostile generated API calls")
prop("C22", "The Python interface transfers arrays and errors faithfully",
  "Calling a function from Python with any rectangular array-like argument (nested lists or tuples of Python numbers, gridpp's vector classes, arrays of any numeric dtype, byte order, strides or alignment) gives the same result as the C++ function on the same values: floats round to single precision, shapes and element order are kept, empty arrays stay empty, missing values stay missing, omitted arguments take their C++ defaults, and C++ exceptions become Python exceptions (ValueError for invalid arguments, otherwise RuntimeError) with the same text. Objects that cannot be converted raise a Python exception. No call corrupts, changes or leaks its arguments, and returned arrays and objects stay valid after everything they came from is deleted.",
  ["inputs"], "all argument types, shapes, strides and dtypes of the exported functions", "Tests use small contiguous arrays only.",
  ["swig/gridpp.i", "swig/vector.i", A+"swig.cpp"], [("typemaps", "swig/vector.i")])
prop("C23", "Data files round-trip values, times, coordinates and metadata",
  "A variable that the client writes to a NetCDF, text or point file and reads back gives the same fields (within the packing precision; two decimals for text and point files) at the same locations and times, for the members the file has room for; missing values (by _FillValue, missing_value, -999 or NaN) stay missing, other variables in the file are left untouched, and values read are placed at the right time, level, ensemble member and location whatever the order and names of the dimensions. Files with unusual content are refused with an error or read as what they contain, never by undefined behaviour.",
  ["inputs", "histories"], "all supported file layouts, variables and write/read sequences", W_INPUT,
  [C+"File/Netcdf.cpp", C+"File/File.cpp", C+"File/Text.cpp", C+"File/Point.cpp", C+"File/NorcomQnh.cpp"], [("dimension mapping", C+"File/Netcdf.cpp")])
prop("C24", "Client calibrators change only what they claim, by their stated rule",
  "Each calibrator applied to a file transforms its variable by its documented formula at every location, member and time, and leaves other variables, missing values and locations unchanged; ensemble-order methods only permute or keep the number of valid members, and probabilities or bounded variables stay in their bounds. Training returns the parameters of the documented estimator (mean bias, least squares, sorted quantiles).",
  ["inputs", "configurations"], "all fields, options and parameters", W_INPUT,
  [C+"Calibrator/*.cpp"], [("calibrateCore", C+"Calibrator")])
prop("C25", "Client downscalers place every value at the right output location",
  "Each client downscaler produces at each output location, time and member the value its method defines from the input grid's values (nearest, bilinear, gradient, smart, bypass, upscale), missing where the input is missing, with neighbour search identical to an exhaustive search. The bilinear method covers regular grids in any orientation and mildly rotated or converging grids with increasing rows and columns; it stops with an error message on stronger distortion.",
  ["inputs"], "all input/output grids, options and fields", W_INPUT,
  [C+"Downscaler/*.cpp", C+"KDTree.cpp"], [("getNearestNeighbour", C+"Downscaler/Downscaler.cpp")])
prop("C26", "Parameter files round-trip and look up the nearest location and time",
  "A parameter file written and read back gives the same parameters for every location and time, looking up a location gives the parameters of the requested time at the closest stored location that has any for that time (or the location- or time-independent ones; times cycle or are refused beyond the last one), whatever the column order or dimension layout of the file and the longitude convention, and malformed files are rejected.",
  ["inputs", "histories"], "all parameter sets, locations, times and file formats", W_INPUT,
  [C+"ParameterFile/*.cpp"], [("getParameters", C+"ParameterFile/ParameterFile.cpp")])
prop("C27", "The command line is parsed into exactly the requested processing chain",
  "Option strings parse to exactly the given keys and values and print back equivalently, and a command line builds exactly the variables, aliases, downscalers, calibrators, parameter files and options it states, in order. A command line without variables, with a name missing after a flag, a parameter file that belongs to no scheme or has a missing, unknown or unreadable type, an unknown scheme, an input variable that is absent, or unequal numbers of files is rejected with an error. Running it applies the steps in order and writes the result.",
  ["inputs", "configurations"], "all option strings and command lines", W_INPUT,
  [C+"Options.cpp", C+"Setup.cpp", C+"Driver/Gridpp.cpp", C+"Util.cpp"], [("Setup parsing", C+"Setup.cpp")])
prop("C28", "The client's dates, statistics, solvers and containers are exact",
  "Dates and times convert to seconds since 1970 and back without loss for every date (before 1970 too), and adding hours to a date gives the calendar day reached; distances between locations are great-circle distances, symmetric, and missing for missing coordinates. Statistics of an array are those of its non-missing values, whatever their order, and quantiles interpolate linearly between ranks; tables interpolate linearly and are constant outside. The product of a matrix and its inverse is the identity, a singular matrix or one with missing values gives missing values, and regression gives the least-squares coefficients. Logit and inverse logit undo each other, and the latter stays between 0 and 1 for every number. Splitting and combining lose nothing; copying a file reproduces it; file name patterns give the files that match. Fields, locations, variables and parameter sets return what was stored, compare consistently, and refuse access outside.",
  ["inputs"], "all dates, locations, arrays, tables, matrices, strings, files and container contents", W_INPUT,
  [C+"Util.cpp", C+"Util.h", C+"Field.cpp", C+"Field.h", C+"Location.cpp", C+"Variable.cpp", C+"Parameters.cpp", C+"Grid.cpp"], [("primitives", C+"Util.cpp"), ("containers", C+"Field.h")])
prop("C29", "Arguments that do not fit together are refused, arguments that do are accepted",
  "Every library function that takes several arguments raises an exception, and neither returns a result nor accesses memory outside its arguments, when: a field, ensemble, curve or list does not have the size its grid, points or sister arguments require (in any dimension); two non-empty sets of locations have different coordinate types; a quantile level is outside 0-1; a halfwidth, minimum count, number of thresholds, radius or elevation difference that must not be negative is; an unknown downscaling method is asked for; a structure function or transform is built with a negative or missing scale or parameter; or a point outside an object is asked for. The same call with fitting arguments raises nothing, whatever the sizes and the missing values in them. Sets without locations are fitting arguments: with no locations to take values from, every location asked for is answered (missing values from interpolation and gridding, zero from counting, the background from filling, doping and analyses, nothing found from lookups), and with no locations to give values to, the answer is empty.",
  ["inputs"], "all functions, all sizes and coordinate types, and each argument in turn that does not fit", "The tests try a few mismatches for a few functions; the statement quantifies over every argument of every function, every dimension and every size.",
  [A+"util.cpp", A+"gridding.cpp", A+"gradient.cpp", A+"oi.cpp", A+"oi_ensi_multi.cpp", A+"structure.cpp", A+"neighbourhood.cpp", A+"curve.cpp"], [("compatible_size / compatible_coordinates", A+"util.cpp"), ("argument checks at the top of every function", "src/api")])

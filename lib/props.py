"""Per-property configuration of the API (C++) checks."""
P = {}
def api(pid, harness, needs, quick, thorough, rule, env=None):
    P[pid] = dict(kind="api", harness=harness, needs=needs, quick=quick, thorough=thorough, rule=rule, env=env or {})

api("C01", "h_spatial", ["nearest"], 60000, 1500000,
    "random point sets/grids (geodetic incl. poles and date line, Cartesian, duplicates) and lookups compared to a brute-force scan; non-trivial = at least one oracle comparison on a non-missing value")

api("C02", "h_nearest", ["nearest", "bilinear", "downscaling"], 60000, 1000000,
    "random source grids/points, output grids/points and missing values; every overload's output must be the value at a source location that is nearest within rounding, the same one for every time")
api("C03", "h_bilinear", ["nearest", "bilinear"], 120000, 1500000,
    "random rectangular, rotated, sheared, trapezoidal and general convex grids; output compared to a double-precision inverse bilinear map inside the grid and to the nearest value outside or next to a missing corner")
api("C04", "h_gradient", ["nearest", "bilinear", "downscaling", "simple_gradient", "gradient", "smart", "structure"], 60000, 600000,
    "random grids with missing metadata, gradients and values; each overload compared to value + gradient x height/land-fraction difference built from the single-field downscaler; smart neighbours compared to an exhaustive ranking")
api("C05", "h_neighbourhood", ["neighbourhood"], 40000, 600000,
    "random 2-D and 3-D fields (offsets, constants, ties, missing, infinite, single row/column) x half-widths x every statistic; each output cell compared to a scan of its clipped window, fast and brute-force versions")
api("C06", "h_nquantile", ["neighbourhood"], 100000, 1000000,
    "random 2-D and 3-D fields x quantile levels (fixed, 1x1, per cell) x thresholds; each cell compared to the quantile of its window or to the piecewise-linear inverse of its window's distribution")
api("C12", "h_util", [], 300000, 3000000,
    "random vectors (empty, ties, missing, infinite, offsets, up to 3000 values), tables with ties, levels; compared to definitions evaluated in double precision and to permuted inputs")
api("C11", "h_curve", ["curve", "quantile_mapping", "metric_optimizer", "local_distribution_correction", "structure"], 400000, 4000000,
    "random curves (ties, non-monotone, single point), policies, training samples with missing values, local corrections; compared to piecewise-linear references in double precision and to permuted training data")
api("C10", "h_structure", ["structure", "nearest", "corr_points"], 200000, 2500000,
    "random parameters and point pairs (poles, date line, Cartesian, identical, missing metadata) for all structure functions, spatially varying, composed, cross-validated and cloned; compared to the formulas in double precision")
api("C07", "h_oi", ["oi", "structure", "nearest"], 50000, 800000,
    "random backgrounds, observations (missing, duplicated, perfect), variances, structure functions and limits; every location compared to the dense best-linear-unbiased solution in long double and to permuted observations")
api("C08", "h_oiens", ["oi_ensi", "structure", "nearest"], 50000, 800000,
    "random ensembles (excluded members, missing and equal members), observations, errors, structure functions and limits; every location compared to a dense ensemble-transform solution in long double and to permuted observations and members")
api("C09", "h_oimulti", ["oi_ensi_multi", "structure", "nearest"], 60000, 800000,
    "random ensembles, perturbed observations, ratios, more/fewer observations than locations, excluded members; every location and member compared to the dense gain equation in long double and to permuted observations and members")
api("C13", "h_gridding", ["gridding", "count", "distance", "fill", "doping", "nearest"], 150000, 1500000,
    "random output grids/points, observations (missing, duplicated, poles, date line, Cartesian), radii, counts, circles and squares; every output compared to an exhaustive scan of the observations")
api("C14", "h_window", ["window"], 60000, 1500000,
    "random rows (offsets, missing, infinite, up to 1500 lead times) x lengths x every statistic and option; every output compared to a scan of its window")
api("C15", "h_search", ["calc_gradient", "neighbourhood", "neighbourhood_search"], 200000, 2000000,
    "random base/value/search fields (offsets, flat parts, ties, missing) x half-widths and limits; every cell compared to the regression or extreme values of its window and to the documented search")
api("C16", "h_prob", ["downscale_probability", "mask_threshold_downscale_consensus", "nearest"], 150000, 1500000,
    "random input/output grids, ensembles with missing members, thresholds equal to values, operators and statistics; every cell compared to its nearest input cell's members")
api("C19", "h_score", ["metric_optimizer", "neighbourhood_score", "gridding", "neighbourhood", "nearest"], 200000, 2000000,
    "random tables (zeros, fractions), samples (missing, ties, constant), thresholds equal to values, windows; scores compared to their definition in double precision, thresholds to a reference search")
api("C17", "h_transform", ["transform", "distribution"], 200000, 2000000,
    "random transform parameters (zero, negative, integer) and values (zeros, limits, tails, missing) and gamma levels; compared to formulas and an independent incomplete gamma function in double precision, to round trips, order and array versions")
api("C18", "h_diag", ["humidity", "pressure", "qnh", "wind"], 400000, 3000000,
    "random temperatures, humidities (0, 1, tiny), pressures, heights and winds with missing and unphysical values; compared to formulas in double precision, to inverse and multi-step conversions, bounds and array versions")
api("C21", "h_hostile", None, 120000, 2000000,
    "every library function called twice with mixtures of valid and hostile arguments (missing, infinite, huge, empty, wrong sizes, degenerate grids, extreme integers) under address and undefined-behaviour sanitizers; each call must return or throw, leave its inputs alone, repeat and have the documented shape")

api("C29", "h_contract", None, 60000, 600000,
    "random calls of every library function that takes several arguments: once with arguments that fit, then once for each size, coordinate system and restricted value with just that one made wrong")

P["C20"] = dict(kind="module", module="threads", harness="h_threads", quick=(60000, 40000), thorough=(300000, 600000), env={},
    rule="every library function on valid and hostile arguments with 1 and three random numbers of threads under free, delayed and permuted serial schedules, and by several callers at once; ThreadSanitizer on a pthread implementation of the OpenMP runtime watches for races, results are compared bit by bit to one thread")

def client(pid, harness, quick, thorough, rule, env=None):
    P[pid] = dict(kind="client", harness=harness, quick=quick, thorough=thorough, rule=rule, env=env or {})
client("C25", "h_cdown", 120000, 2000000,
    "random input/output grids (regular, rotated, scattered, wide, date line), fields with missing values and option sets for every client downscaler; each output compared to an exhaustive search and a double-precision evaluation of the method")
client("C24", "h_ccal", 120000, 2000000,
    "random files, parameter tables (per time, cyclic, per location, with gaps) and option sets for every client calibrator; each value compared to a direct double-precision evaluation of the documented method")
client("C26", "h_param", 60000, 1000000,
    "random parameter sets (locations, times, gaps) written as text and NetCDF files in many layouts, read, queried, built in memory, written and read again, plus malformed files; every lookup compared to a model map with an exhaustive nearest search")
client("C27", "h_cmd", 120000, 600000,
    "random option strings, command lines generated from a description of the chain (with malformed ones), and runs of the driver on generated files; options compared to a model map, the parsed chain to its description, the written files to the chain evaluated independently")
client("C23", "h_file", 100000, 400000,
    "random NetCDF files (dimension orders and names, packing, fill values, coordinate layouts, levels), text, point and Norcom files, read through the client, modified, written and read back raw and through the client, plus unusual files; contents compared to the generated model")
client("C28", "h_prim", 300000, 3000000,
    "random dates, locations, arrays, tables, matrices, strings, files and containers through the client's basic classes; each result compared to its definition evaluated in double precision (dates to a day count of the Gregorian calendar)")

P["C22"] = dict(kind="module", module="pybind", harness="py_binding", quick=70000, thorough=1500000, env={},
    rule="random calls of every exported function and class through the Python module of the current tree, with lists, tuples, wrapped vectors and arrays of many types, strides and byte orders, compared to the same call made directly in C++; hostile objects, repeated calls watched for leaks and reference counts, objects used after their parents are deleted; the module is built with address and undefined-behaviour sanitizers")

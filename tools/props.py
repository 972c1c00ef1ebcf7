#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["public C API (source/include/aoclda_*.h)"], hook_needed=hook)))
SC = "source/core/"

# ---------------------------------------------------------------- whole library
p("C01", "No memory error or undefined behaviour in any API use",
  "Whatever arguments, sizes, option values and call orders an application passes to the public C API - valid, degenerate or invalid, but with buffers of the documented size - no call reads or writes outside the buffers it was given or owns, uses freed memory, or executes undefined behaviour such as integer overflow, bad shifts or out-of-range conversions. Wrong use ends in an error status, never in a crash or a hang.",
  ["inputs", "histories", "configurations"], "all call sequences over all handle types, the datastore and the free functions, all shapes including 1x1 and sizes around blocking factors, all option values",
  "The tests run without sanitizers on a few shapes; an overrun by one block or a stale pointer after refit gives no failing assertion.",
  [SC + "utilities/da_vector.hpp", SC + "nearest_neighbors/", SC + "decision_forest/", SC + "metrics/", SC + "data_management/", SC + "csv/tokenizer.c", SC + "svm/", SC + "clustering/", SC + "kernel_functions/"],
  [("array checks", SC + "utilities/basic_handle.cpp"), ("public wrappers null checks", SC + "utilities/aoclda_c_wrapper.cpp")],
  ["AddressSanitizer/UBSan reports", "process termination"])
p("C02", "Destroying handles and stores releases everything they acquired",
  "After any sequence of API calls on a handle or a data store - successful, failed, repeated or interrupted by an error - destroying it returns every byte of memory and every file the library acquired for it, sets the pointer to null, and destroying a null pointer is harmless. Free functions hold on to nothing.",
  ["histories", "inputs"], "all call histories, including failures part-way through a computation or a load and repeated refits on one handle",
  "Tests do not run under a leak checker; leaks on error paths and refits are invisible to assertions.",
  [SC + "utilities/da_handle.cpp", SC + "utilities/da_handle_public.cpp", SC + "data_management/data_store.hpp", SC + "csv/tokenizer.c", SC + "nearest_neighbors/", SC + "decision_forest/"],
  [("destructors", SC + "utilities/da_handle.hpp"), ("block ownership flags", SC + "data_management/data_store.hpp")],
  ["LeakSanitizer", "allocation counters", "open file descriptors"])
p("C03", "Results are a function of data, options and seed only",
  "Running the same sequence of calls with the same data, options and (non-negative) random seed yields bit-identical outputs and statuses, on one thread, whatever the previous contents of memory, the addresses of the buffers, earlier unrelated computations in the process, or whether the handle is fresh or is being refitted. No output depends on uninitialised memory.",
  ["inputs", "configurations", "histories"], "all algorithms, data, option settings and seeds; all initial heap and stack contents; all earlier uses of the same handle",
  "A test sees one heap image and a fresh handle; an unset element that happens to be zero, or state left from a previous fit, passes.",
  [SC + "utilities/da_vector.hpp", SC + "clustering/", SC + "decision_forest/", SC + "svm/", SC + "linear_model/", SC + "nearest_neighbors/", SC + "factorization/", SC + "dimension_reduction/"],
  [("refresh/clear of state before refit", SC + "utilities/basic_handle.hpp"), ("seed handling", SC + "decision_forest/tree/decision_tree_training_fit.hpp")],
  ["output digests of repeated runs under different heap fills", "valgrind memcheck"])
p("C04", "Multithreaded runs are race free and match single-threaded results",
  "Computations executed with any number of OpenMP threads, and any interleaving of those threads, are free of data races and give the same results as with one thread: identical for discrete results that are not at a numerical tie, and equal up to rounding for floating-point ones. Threads of the application working on different handles or stores at the same time do not affect one another.",
  ["schedules", "configurations", "inputs"], "all thread counts and all interleavings of the parallel regions; all concurrent uses of distinct handles",
  "Tests run one schedule on one machine with correct-by-luck ordering and no race detector.",
  [SC + "decision_forest/forest/", SC + "nearest_neighbors/", SC + "clustering/", SC + "metrics/", SC + "svm/", SC + "kernel_functions/", SC + "interpolation/", SC + "approximate_neighbors/", SC + "utilities/da_omp.hpp", SC + "dynamic_dispatch/context.hpp"],
  [("per-thread workspaces and reductions", SC + "clustering/kmeans/kmeans.cpp"), ("omp tasks per tree", SC + "decision_forest/forest/decision_forest_training.hpp")],
  ["ThreadSanitizer over an instrumented OpenMP runtime", "digest comparison across thread counts and perturbed schedules"])
p("C05", "Caller buffers: inputs untouched, outputs written exactly where documented",
  "No API call modifies an array documented as input, and an output array is written only inside the documented region: elements between the row (or column) end and the leading dimension, and everything past the last documented element, keep their old bits. A call that returns an error for invalid arguments leaves the output arrays and the size arguments it is not documented to overwrite unchanged.",
  ["inputs", "configurations"], "all shapes, both storage orders, all leading dimensions larger than the minimum, all algorithms",
  "Tests use tightly packed arrays or inspect only the meaningful part of outputs.",
  [SC + "utilities/basic_handle.cpp", SC + "utilities/da_utils.cpp", SC + "metrics/", SC + "factorization/", SC + "nearest_neighbors/nearest_neighbors.cpp", SC + "basic_statistics/"],
  [("store_2D_array / copy_transpose", SC + "utilities/basic_handle.cpp")],
  ["canaries in padding and after buffers", "checksums of inputs"])
p("C06", "Row-major and column-major calls are equivalent for every leading dimension",
  "Supplying the same matrices in row-major or column-major order, with any valid leading dimensions, gives the same results (up to rounding; identical for discrete outputs away from ties), each returned in the storage order requested. A leading dimension below the documented minimum is always rejected with the invalid-leading-dimension status.",
  ["inputs", "configurations"], "every function taking a 2D array, all shapes and leading dimensions",
  "Tests run a handful of shapes; mistakes in leading dimension handling only show for padded or non-square arrays on particular paths.",
  [SC + "utilities/basic_handle.cpp", SC + "utilities/da_utils.cpp", SC + "basic_statistics/row_to_col_major.cpp", SC + "metrics/", SC + "nearest_neighbors/", SC + "decision_forest/", SC + "clustering/", SC + "linear_model/", SC + "factorization/", SC + "svm/"],
  [("store_2D_array", SC + "utilities/basic_handle.cpp")])
p("C07", "Invalid arguments and wrong call order are rejected and leave the handle usable",
  "Null pointers, sizes and leading dimensions out of range, handles of the wrong type or precision, and calls made before the steps they need are refused with the documented error status and an error message is stored; nothing is computed. After any refused call the handle still works: a following correct call sequence gives the same results as on a fresh handle, and results already available stay available and unchanged.",
  ["inputs", "histories"], "every API function, every argument, and all call orders mixing valid and invalid calls, for all handle types",
  "Tests check single invalid calls on a fresh handle, not the state left behind or mixed histories.",
  [SC + "utilities/aoclda_c_wrapper.cpp", SC + "utilities/da_handle_public.cpp", SC + "utilities/basic_handle.hpp", SC + "utilities/da_error.hpp"],
  [("handle type and precision checks", SC + "utilities/da_handle.hpp"), ("check_2D_array/check_1D_array", SC + "utilities/basic_handle.cpp")])
p("C08", "Options: a set value is returned until changed, a refused one changes nothing",
  "For every documented option of every handle type and of the data store, setting a value of the right type inside its documented range succeeds and reading it back returns that value (option names and categorical values being insensitive to case and surplus blanks); before any setting, the documented default is returned. A value out of range, of the wrong type or for an unknown option is refused with the corresponding status and every option keeps its previous value, and changing an option never alters the value of another.",
  ["inputs", "histories"], "all options of all handles, all values around and beyond the bounds, all sequences of set and get",
  "Tests check selected options once; bounds semantics and isolation need all values and sequences.",
  [SC + "utilities/options.hpp", SC + "utilities/options_public.cpp", SC + "csv/csv_options.hpp", SC + "optimization/optimization_options.hpp", SC + "svm/svm_options.hpp", SC + "decision_forest/tree/decision_tree_options.hpp"],
  [("OptionRegistry", SC + "utilities/options.hpp")])
p("C09", "Results are exactly as available, sized and current as documented",
  "A result can be retrieved only after the computation that produces it has succeeded for the data and options now in force: before that, or after new training data or an option change that invalidates the model, retrieval and prediction are refused with the documented status instead of returning stale values. When the supplied array is too small the call returns the invalid-array-dimension status, writes the required size and nothing else; with exactly that size it succeeds.",
  ["histories", "inputs"], "all handle types, all result kinds, all array sizes, all orders of set-data, set-option, compute and get-result",
  "Tests retrieve results once after a fit; stale-result histories and wrong sizes are sampled sparsely.",
  [SC + "utilities/da_handle_public.cpp", SC + "utilities/basic_handle.hpp", SC + "linear_model/linear_model.cpp", SC + "factorization/pca/pca.cpp", SC + "clustering/kmeans/kmeans.cpp", SC + "decision_forest/tree/decision_tree_handle_utilities.hpp", SC + "decision_forest/forest/decision_forest_handle_utilities.hpp"],
  [("get_result, refresh, model_trained flags", SC + "utilities/basic_handle.hpp")])
p("C10", "Single and double precision entry points implement the same functions",
  "For inputs exactly representable in single precision, the _s and _d variants (and the C++ overloads) of every function return the same status and the same shapes, and results that agree to single-precision accuracy. A handle initialised in one precision refuses calls of the other with the wrong-type status.",
  ["inputs", "configurations"], "every function with precision variants over all well-conditioned inputs",
  "Templated code is tested per precision on small data; precision-specific kernels and wrapper mix-ups need paired runs.",
  [SC + "utilities/aoclda_c_wrapper.cpp", SC + "utilities/da_handle_public.cpp", "source/include/"],
  [("explicit wrappers", SC + "utilities/aoclda_c_wrapper.cpp")])
p("C11", "All instruction-set kernel variants compute the same function",
  "On one machine, forcing any of the supported instruction-set variants of the vectorised kernels (scalar, AVX, AVX2, AVX512) gives the same results as the automatic choice up to rounding, for every data size, including sizes that are not a multiple of the vector or block width.",
  ["configurations", "inputs"], "all kernels with instruction-set variants, all sizes around vector and block boundaries",
  "Tests exercise only the variant picked automatically on the build machine and few remainders.",
  [SC + "clustering/kmeans/kmeans_kernels.cpp", SC + "svm/svm_kernels.cpp", SC + "kernel_functions/kernel_functions_simd.cpp", SC + "metrics/kernels_avx2.cpp", SC + "metrics/kernels_avx512.cpp", SC + "dimension_reduction/tsne/tsne_kernels.cpp", SC + "dynamic_dispatch/context.hpp"],
  [("dispatch tables and tails", SC + "metrics/metrics_kernels.hpp")])

# ---------------------------------------------------------------- data management
p("C12", "The data store returns exactly the data loaded into it",
  "After any sequence of loads by column or by row (with or without copying, integer, real, byte and string blocks in either order), horizontal concatenations, element updates, labelling and selections, every extraction of a column, a selection or an element returns exactly the value last stored at that position, in the requested order, and the reported numbers of rows and columns are right. Impossible requests are refused and leave the store's content unchanged.",
  ["histories", "inputs"], "all sequences of data store operations over all block types, orders and partially filled states",
  "Tests run short fixed scenarios; block bookkeeping errors need particular mixes of row and column blocks and types.",
  [SC + "data_management/data_store.hpp", SC + "data_management/data_store_public.cpp", SC + "data_management/interval_map.hpp", SC + "utilities/aoclda_c_wrapper.cpp"],
  [("column/row maps of blocks", SC + "data_management/data_store.hpp"), ("interval map", SC + "data_management/interval_map.hpp")])
p("C13", "Row and column selections behave as sets of indices",
  "A selection built from any sequence of row, column and slice selections and of missing-data exclusions and removals denotes exactly the set of rows and of columns obtained by performing the same set operations on index sets; extraction returns those rows and columns once each in increasing order. Overlapping, adjacent, repeated and out-of-order intervals are handled, and out-of-range or empty intervals are refused without changing the selection.",
  ["histories", "inputs"], "all sequences of interval insertions and deletions and all query positions",
  "Interval merge and split cases depend on the relative position of several intervals; the tests pick a few.",
  [SC + "data_management/interval_set.cpp", SC + "data_management/interval_set.hpp", SC + "data_management/interval_map.hpp", SC + "data_management/interval.hpp", SC + "data_management/data_store.hpp"],
  [("interval_set insert/erase/merge", SC + "data_management/interval_set.cpp")],
  ["extraction through the data store", "the interval containers' own interfaces"])
p("C14", "CSV reading returns exactly the values the file denotes",
  "For any well-formed file under the options in force (delimiter, quotes, decimal point, comment, escaping, thousands, scientific notation, whitespace, line endings, headers, skipped lines and row/column limits), reading it produces the right number of rows and columns, the headings, and in every cell the correctly parsed number (the nearest floating-point value up to the parser's documented precision) or string, in the requested order; both into arrays and into a data store with automatic type detection.",
  ["inputs", "configurations"], "all tables, textual number forms, quoting and line-ending styles, buffer-boundary positions and option settings",
  "Tests use a dozen small files; state-machine and buffer-boundary mistakes depend on the exact byte stream.",
  [SC + "csv/tokenizer.c", SC + "csv/char_to_num.hpp", SC + "csv/read_csv.hpp", SC + "csv/parser.hpp", SC + "csv/csv_reader.hpp", SC + "data_management/auto_detect_csv.hpp"],
  [("tokenizer state machine", SC + "csv/tokenizer.c"), ("string to number", SC + "csv/char_to_num.hpp")])
p("C15", "Malformed CSV input is reported, never silently misread",
  "For an arbitrary byte file the reader either returns a table or fails with a documented status; it never crashes or hangs. Ragged rows, text or overflow in numeric columns, missing fields, unterminated quotes and missing files yield the error or missing-data status (or the documented fill value when the corresponding option allows it), never a wrong number.",
  ["inputs", "configurations", "fault_sequences"], "all byte sequences and option settings",
  "Malformed inputs are unbounded; tests have a handful.",
  [SC + "csv/tokenizer.c", SC + "csv/char_to_num.hpp", SC + "csv/read_csv.hpp", SC + "data_management/auto_detect_csv.hpp"],
  [("tokenizer error states", SC + "csv/tokenizer.c"), ("warn_for_missing_data", SC + "csv/read_csv.hpp")])
p("C16", "Layout conversion and data checking utilities are exact",
  "Switching the storage order of a matrix, by copy or in place, for any shape and leading dimensions, moves every element to its transposed position unchanged (switching back restores the original), and checking data reports an error for every matrix that contains a NaN and for no matrix of finite numbers.",
  ["inputs"], "all shapes, leading dimensions and values including infinities and NaN payloads",
  "Few shapes tested; blocked transposition errors depend on the shape.",
  [SC + "utilities/utils_public.cpp", SC + "utilities/da_utils.cpp"],
  [("switch_order_copy/in_place, check_data", SC + "utilities/da_utils.cpp")])
p("C17", "Train/test splitting and shuffling partition the data",
  "Shuffled indices are a permutation of all sample indices, and a train/test split sends every sample to exactly one place: the training and test parts contain distinct rows of the input copied without change, in the order given by the indices (or the original order when not shuffling), and have the requested sizes. With stratification each class is represented in both parts in proportion to its frequency (within rounding), and a fixed seed reproduces the split.",
  ["inputs", "configurations"], "all shapes, orders, leading dimensions, split sizes, class label vectors (integer and real) and seeds",
  "Random permutations and proportions are tested on a few label vectors only.",
  [SC + "utilities/train_test_split.cpp", SC + "utilities/train_test_split.hpp", SC + "utilities/train_test_split_internal.hpp"],
  [("stratified shuffle", SC + "utilities/train_test_split_internal.hpp")])

# ---------------------------------------------------------------- statistics and distances
p("C18", "Moment statistics equal their definitions",
  "Means (arithmetic, geometric, harmonic), variances, skewness, kurtosis and central moments of any order, computed by row, by column or overall, in either storage order and with either degrees-of-freedom convention or supplied mean, equal their mathematical definition within a rounding bound, for every shape. Negative data where positive is required is refused.",
  ["inputs", "configurations"], "all shapes, axes, orders, leading dimensions, scalings and offsets of the data",
  "Blocking, axis and layout combinations multiply; tests sample one or two shapes per combination.",
  [SC + "basic_statistics/moment_statistics.cpp", SC + "basic_statistics/basic_statistics_public.cpp"],
  [("blocked column/row accumulation", SC + "basic_statistics/moment_statistics.cpp")])
p("C19", "Quantiles and five-point summaries equal their definitions",
  "For every quantile definition offered, every probability in [0,1], axis and storage order, the returned quantile equals the one defined on the sorted data (exactly when it is an order statistic, within rounding when interpolated), and the five-point summary is the minimum, the two hinges, median and maximum; ties, constant and single-element data included. Probabilities outside [0,1] are refused.",
  ["inputs", "configurations"], "all data multisets and orders, all probabilities including those landing exactly on indices, all nine definitions",
  "Off-by-one in index rules appears only for particular n and q pairs.",
  [SC + "basic_statistics/order_statistics.cpp"],
  [("quickselect partial sorting and index rules", SC + "basic_statistics/order_statistics.cpp")])
p("C20", "Covariance, correlation and standardisation equal their definitions",
  "Covariance and correlation matrices equal their definitions within rounding for both degrees-of-freedom conventions, are symmetric, with unit diagonal for correlation; standardising with given or computed shift and scale, by row, column or overall, maps each element to (x - shift)/scale, and reversing restores the data.",
  ["inputs", "configurations"], "all shapes, layouts, leading dimensions, axes and supplied or absent shift and scale arrays",
  "Few fixed matrices tested.",
  [SC + "basic_statistics/correlation_and_covariance.cpp", SC + "basic_statistics/statistical_utilities.cpp"],
  [("standardize", SC + "basic_statistics/statistical_utilities.cpp")])
p("C21", "Pairwise distances equal their definitions for every metric",
  "For every metric (Euclidean, squared Euclidean, their matrix-product forms, Manhattan, Minkowski with any valid power, cosine, inner product), every shape, layout and leading dimension, entry (i,j) of the result is the metric between row i of X and row j of Y (of X when Y is absent) within the accuracy of the method, non-negative where the metric is, zero for identical points and symmetric when Y is absent.",
  ["inputs", "configurations"], "all metrics, shapes around block and vector sizes, data scales, powers",
  "Partitioned vector kernels have many remainder cases; tests use small fixed matrices.",
  [SC + "metrics/"],
  [("partitioning infrastructure and kernels", SC + "metrics/partitioning_infrastructure.hpp")])
p("C22", "Kernel functions equal their definitions",
  "The RBF, linear, polynomial and sigmoid kernel matrices of X with Y (or with itself) equal their definitions within rounding for every shape, layout, leading dimension and parameter value in range, including those where arguments of the exponential or hyperbolic tangent are extreme; the self kernel matrix is symmetric. Parameters out of range are refused.",
  ["inputs", "configurations"], "all shapes, layouts, degrees, coefficients and data scales",
  "Vectorised blocks and symmetric fills have many remainder cases.",
  [SC + "kernel_functions/"],
  [("kernel_functions_simd and syrk/gemm selection", SC + "kernel_functions/kernel_functions.cpp")])

# ---------------------------------------------------------------- nearest neighbours
p("C23", "k-nearest-neighbour search is exact for every algorithm and metric",
  "Brute force, k-d tree and ball tree searches with any leaf size and metric return, for every query, k distinct training indices in increasing order of distance whose distances are the k smallest (within rounding; ties may be broken either way), together with the correct distances, whatever the data (duplicates, constant features, clustered) and k up to the number of samples.",
  ["inputs", "configurations"], "all data sets, query sets, k, leaf sizes, metrics, layouts",
  "Pruning errors lose a neighbour only for particular geometry; tests compare on few data sets.",
  [SC + "nearest_neighbors/nearest_neighbors.cpp", SC + "nearest_neighbors/binary_tree.cpp", SC + "nearest_neighbors/kd_tree.cpp", SC + "nearest_neighbors/ball_tree.cpp", SC + "nearest_neighbors/nearest_neighbors_utils.hpp"],
  [("bounding volumes and pruning", SC + "nearest_neighbors/binary_tree.cpp"), ("heap of candidates", SC + "nearest_neighbors/nearest_neighbors_utils.hpp")])
p("C24", "Radius-neighbour search returns exactly the points within the radius",
  "For every query, algorithm, metric and leaf size, the radius search returns each training point whose distance is at most the radius exactly once with its correct distance and no other point (points within rounding of the boundary excepted), sorted when sorting is requested, and the reported counts and offsets describe the returned arrays.",
  ["inputs", "configurations"], "all data and query sets, radii from zero to beyond the diameter, all algorithms",
  "Pruning and count mistakes depend on geometry.",
  [SC + "nearest_neighbors/radius_neighbors.cpp", SC + "nearest_neighbors/nearest_neighbors.cpp", SC + "nearest_neighbors/kd_tree.cpp", SC + "nearest_neighbors/ball_tree.cpp"],
  [("radius search in trees", SC + "nearest_neighbors/binary_tree.cpp")])
p("C25", "Neighbour-based classification and regression follow their neighbours",
  "Predicted class probabilities and regression targets of the k-nearest-neighbour and radius models are the uniform or inverse-distance weighted aggregates of the training labels or targets of the actual neighbours, probabilities are non-negative and sum to one, the predicted class has maximal probability, and a query coinciding with training points under distance weighting uses only those. Queries without neighbours within the radius get the documented outlier treatment.",
  ["inputs", "configurations"], "all labelled data sets, weights, algorithms, radii and k",
  "Depends on geometry, ties, duplicates and outliers.",
  [SC + "nearest_neighbors/nearest_neighbors.cpp"],
  [("predict / predict_proba / available classes", SC + "nearest_neighbors/nearest_neighbors.cpp")])
p("C26", "Approximate neighbour index: true distances, complete if all lists are probed",
  "An inverted-file index assigns every added vector to one list; a search returns, in order of similarity and without duplicates, true distances to actually added vectors, and when all lists are probed it equals the exact search. Adding vectors in several batches is equivalent to adding them in one.",
  ["inputs", "histories", "configurations"], "all data sets, numbers of lists and probes, metrics and batch splits",
  "Tests check a fixed data set.",
  [SC + "approximate_neighbors/approximate_neighbors.cpp"],
  [("IVF flat train/add/search", SC + "approximate_neighbors/approximate_neighbors.cpp")])

# ---------------------------------------------------------------- trees
p("C27", "Decision trees are what their training data and limits imply",
  "A fitted decision tree's predictions are the majority class of the training samples that share the query's leaf and its probabilities are that leaf's class frequencies; every split found is the best one available for the chosen criterion, so an unrestricted tree separates all distinguishable samples; depth, minimum-sample, impurity and feature-count limits hold; and the log-probabilities, score, depth and leaf count reported agree with the predictions.",
  ["inputs", "configurations"], "all data sets (ties, constant and categorical features, duplicates), criteria, limits, build orders, histogram and exact modes, seeds",
  "Partition and split bookkeeping errors show only on particular orderings of feature values.",
  [SC + "decision_forest/tree/", SC + "decision_forest/common/"],
  [("split search", SC + "decision_forest/tree/decision_tree_training_split.hpp"), ("partition", SC + "decision_forest/tree/decision_tree_training_partition.hpp")])
p("C28", "Random forest predictions aggregate their trees; training respects the options",
  "A fitted decision forest's class probabilities are the average of its trees' probabilities - non-negative and summing to one - the predicted class has the largest aggregate, log-probabilities and score agree with them, the number of trees, bootstrap sample count, depth and feature limits follow the options, and the prediction for one sample does not depend on the other samples of the same call or on the block it falls in.",
  ["inputs", "configurations"], "all data sets, forest options, seeds and query batch sizes",
  "Blocked multi-threaded inference and bootstrap bookkeeping errors need particular sizes.",
  [SC + "decision_forest/forest/", SC + "decision_forest/common/"],
  [("blocked inference", SC + "decision_forest/forest/decision_forest_inference.hpp"), ("bootstrap", SC + "decision_forest/forest/decision_forest_training.hpp")])

# ---------------------------------------------------------------- linear and nonlinear models
p("C29", "Linear regression returns a minimiser of the documented objective",
  "For least squares, ridge, lasso and elastic net, with or without intercept and for each scaling mode, the coefficients returned on success satisfy the optimality conditions of the documented objective within the tolerance of the method, all applicable solvers (QR, Cholesky, SVD, conjugate gradient, coordinate descent, L-BFGS-B) agree on problems with a unique solution, and predictions, loss and residual norms equal those recomputed from the coefficients.",
  ["inputs", "configurations"], "all data shapes (tall, wide, rank deficient), regularisation weights, scalings, solvers, layouts",
  "Tests solve fixed small problems per option combination.",
  [SC + "linear_model/", SC + "optimization/", SC + "drivers/lbfgsb_driver.hpp", "external/Lbfgsb.3.0/"],
  [("scaling and intercept recovery", SC + "linear_model/linear_model.cpp"), ("coordinate descent", SC + "optimization/coord.hpp")])
p("C30", "Logistic regression returns a stationary point; probabilities are consistent",
  "For binary and multinomial logistic regression (both parameterisations, with or without intercept and L2 penalty) the coefficients returned on success make the gradient of the documented objective vanish within the tolerance, and predicted classes are those with the largest linear score implied by the returned coefficients.",
  ["inputs", "configurations"], "all labelled data sets, number of classes, penalties, constraint types, layouts",
  "Tests compare with stored coefficients for a few data sets.",
  [SC + "linear_model/linear_model.cpp", SC + "linear_model/nln_optim_callbacks.hpp", SC + "drivers/lbfgsb_driver.hpp"],
  [("log loss and gradient callbacks", SC + "linear_model/nln_optim_callbacks.hpp")])
p("C31", "Nonlinear least squares: stationary, feasible, monotone, obeys callbacks",
  "On success the point returned by the nonlinear data-fitting solver is feasible for the bounds, satisfies the documented first-order or small-residual condition, has an objective no larger than at the start, and the returned information (objective, gradient norm, counts) equals what the callbacks would recompute; callbacks are only called at finite points within the bounds. The solver returns for every callback behaviour: failing callbacks lead to a documented status, never to a success the result does not support, and leave a handle that solves the next problem as a new one would; the iteration limit is respected; wrong derivatives are found when they are checked.",
  ["inputs", "configurations", "fault_sequences"], "all residual models, bounds, weights, regularisation, derivative modes, storage orders, and all positions at which a callback fails",
  "Tests fit a few classic problems; callback failures at arbitrary iterations are not enumerated.",
  [SC + "nlls/", SC + "drivers/ralfit_driver.hpp", SC + "optimization/", "external/RALFit/libRALFit/src"],
  [("ral_nlls iteration", "external/RALFit/libRALFit/src/ral_nlls_internal.F90"), ("driver callbacks", SC + "drivers/ralfit_driver.hpp")])
p("C32", "Cubic splines interpolate, are smooth, and obey their boundary conditions",
  "An interpolating cubic spline (natural, clamped, custom and Hermite variants) passes through all the given values, is continuously differentiable to the documented order at interior sites, satisfies the requested boundary conditions, and evaluates values and derivatives equal to the piecewise polynomial at every query point; the cell search assigns every query, including sites and points outside the range, to the documented cell. Vector-valued data and uniform sites are treated like the scalar and explicit equivalents.",
  ["inputs", "configurations", "histories"], "all site distributions, values, boundary types, query orders, dimensions and derivative orders",
  "Boundary and cell-search mistakes show only for special positions; tests evaluate a few functions.",
  [SC + "interpolation/", SC + "interpolation/cubic_spline/cubic_spline.cpp"],
  [("tridiagonal solves", SC + "interpolation/cubic_spline/cubic_spline.cpp"), ("search_cells", SC + "interpolation/interpolation_generic.hpp")])

# ---------------------------------------------------------------- factorisation, clustering, svm, tsne
p("C33", "PCA yields the leading orthonormal directions of the data",
  "Principal components are orthonormal, explain variance in decreasing order equal to that of the covariance, correlation or SVD problem requested, and scores, transform and inverse transform are consistent: transforming the training data gives the scores, the full-rank inverse recovers the data, and the truncated reconstruction error equals the discarded variance; whitening gives unit variance.",
  ["inputs", "configurations"], "all shapes, methods, solvers, degrees-of-freedom and rank-deficient data",
  "Tests compare fixed matrices.",
  [SC + "factorization/pca/pca.cpp", SC + "utilities/da_randsvd.hpp", SC + "utilities/da_qr.hpp"],
  [("svd/syevd drivers", SC + "factorization/pca/pca.cpp")])
p("C34", "Kernel PCA solves the centred kernel eigenproblem",
  "Kernel PCA eigenvalues and eigenvectors satisfy the eigenvalue equation of the centred kernel matrix, in decreasing order and normalised as documented, transforming the training data reproduces the training scores, and transforming new data uses the same centring.",
  ["inputs", "configurations"], "all kernels, shapes, layouts, solvers and numbers of components",
  "Tests compare fixed matrices.",
  [SC + "factorization/kernel_pca/kernel_pca.cpp", SC + "kernel_functions/"],
  [("centring and eigen solver", SC + "factorization/kernel_pca/kernel_pca.cpp")])
p("C35", "k-means returns consistent clusters for every algorithm",
  "After a successful k-means computation every sample's label names a nearest returned centre, the inertia equals the sum of squared distances to it, is no larger than that of the starting centres, and the centres are the means of their clusters on convergence; prediction and transformation of any data use the returned centres, for all algorithms (Lloyd, Elkan, Hartigan-Wong, MacQueen) and initialisations.",
  ["inputs", "configurations"], "all data sets (duplicates, empty clusters), k, algorithms, initialisations, layouts, seeds",
  "Bounds-based skipping (Elkan) and exchange bookkeeping go wrong only on particular trajectories.",
  [SC + "clustering/kmeans/"],
  [("Elkan bounds", SC + "clustering/kmeans/kmeans_elkan.hpp"), ("Hartigan-Wong exchanges", SC + "clustering/kmeans/kmeans_hartigan_wong.hpp")])
p("C36", "DBSCAN labels follow from density reachability",
  "DBSCAN's core samples are exactly the points with at least the required number of neighbours within the radius, two core points have the same label exactly when they are density connected, every border point has the label of a core point within reach, every other point is noise (-1), and the counts reported agree, for every neighbour algorithm and metric.",
  ["inputs", "configurations"], "all data sets, radii, minimum sample counts, metrics and algorithms",
  "Cluster merging order effects need many geometries.",
  [SC + "clustering/dbscan/dbscan.cpp", SC + "nearest_neighbors/radius_neighbors.cpp"],
  [("cluster expansion", SC + "clustering/dbscan/dbscan.cpp")])
p("C37", "SVM solutions satisfy the dual optimality conditions; predictions agree",
  "For all four SVM problems (C and nu, classification and regression) and kernels, on success the returned dual coefficients are within their bounds and satisfy the equality constraints, the optimality conditions hold within the requested tolerance, decision values equal the kernel expansion over the returned support vectors plus bias, and predicted classes, probabilities and scores are consistent with the decision values; the cache size does not change the solution beyond the tolerance.",
  ["inputs", "configurations"], "all data sets, kernels, penalties, tolerances, decision function shapes and cache sizes",
  "Working-set selection and cache bookkeeping depend on the trajectory.",
  [SC + "svm/", SC + "utilities/da_cache.hpp"],
  [("working set selection and SMO", SC + "svm/base_svm.cpp"), ("kernel cache", SC + "utilities/da_cache.hpp")])
p("C38", "t-SNE produces a finite embedding whose reported divergence is true",
  "The t-SNE embedding has the requested shape and only finite entries, honours a supplied starting embedding and the iteration limits, is reproducible for a fixed seed, and the reported Kullback-Leibler divergence equals that recomputed from the data affinities at the requested perplexity and the embedding, within the accuracy of the method.",
  ["inputs", "configurations"], "all data sets, perplexities, angles, methods, initialisations and iteration limits",
  "Tests look at a couple of data sets.",
  [SC + "dimension_reduction/tsne/"],
  [("perplexity search, gradient", SC + "dimension_reduction/tsne/tsne.cpp"), ("Barnes-Hut tree", SC + "dimension_reduction/tsne/barnes_hut.cpp")])

# ---------------------------------------------------------------- persistence
p("C39", "A saved and reloaded model is the same model",
  "For every model type that supports saving, with any options and at any stage after training, loading the saved file yields a handle of the same type and precision whose options, results and predictions are bit-identical to the original's, saving it again gives the same file content, and models not yet trained or not supported are refused. Loading into a handle already in use is refused and leaves that handle as it was.",
  ["inputs", "configurations", "histories"], "all trained models of all supported types, precisions and option settings",
  "A forgotten member only matters for the option settings that use it.",
  [SC + "utilities/model_persistence.cpp", SC + "utilities/model_persistence.hpp", SC + "utilities/da_handle_public.cpp"],
  [("serialize/deserialize of each handle", SC + "utilities/model_persistence.cpp")])
p("C40", "Damaged or foreign model files are refused safely",
  "Loading a file that is truncated, has altered header, lengths or contents, belongs to another version or is not a model at all, and loading or saving when the file system fails, ends with a documented error status or with a valid model; it never crashes, hangs, leaks, exhausts memory or leaves a handle that misbehaves when used or destroyed.",
  ["inputs", "fault_sequences"], "all truncation points, all single-field corruptions and random corruptions of the files of all model types; I/O errors at any write or read",
  "Corruptions are unbounded; tests try a few.",
  [SC + "utilities/model_persistence.cpp", SC + "utilities/model_persistence.hpp", SC + "utilities/da_handle_public.cpp"],
  [("header, size and checksum validation", SC + "utilities/model_persistence.cpp")])

# ---------------------------------------------------------------- containers
p("C41", "Internal growing buffers and caches behave as sequences and LRU maps",
  "The library's growable array keeps every element ever appended, in order, across growth, append of ranges, resize and zero-size states, and the fixed-capacity kernel-row cache returns for a key exactly the data last stored under it or reports it absent, evicting only least-recently-used entries when full.",
  ["histories", "inputs"], "all operation sequences and capacities",
  "Tests use a few short sequences.",
  [SC + "utilities/da_vector.hpp", SC + "utilities/da_cache.hpp"],
  [("da_vector growth", SC + "utilities/da_vector.hpp"), ("LRU cache", SC + "utilities/da_cache.hpp")],
  ["the containers' own interfaces"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P: assert len(x["title"]) <= 80, x["id"]
    print(len(P), "properties")

"""Which workload families decide which property, and how many cases of each."""
ASSUME = [
    "the dependencies missing from the sandbox (AOCL-BLAS/LAPACK/RNG/UTILS) are replaced by OpenBLAS and by the stand-ins in /verif/shim",
    "the generic (AVX2) build of the library on this machine's CPU stands for the shipped one",
]
def job(fam, q, t, conf="asan", **kw):
    return dict(fam=fam, q=q, t=t, conf=conf, **kw)
def both(fam, qa, qp, ta, tp, **kw):
    """the first cases under the sanitizers, many more (other ones) at full speed"""
    return [job(fam, qa, ta, **kw), job(fam, qp, tp, conf="plain", base=10000000, **kw)]
PROPS = {}
def prop(pid, rule, *jobs, technique="", level_note="", **kw):
    PROPS[pid] = dict(rule=rule, jobs=list(jobs), technique=technique, note=level_note, **kw)

ORACLE = "randomised workload under ASan/UBSan judged by an independent reference oracle"
prop("C18", "random shape, axis, data kind (ten kinds incl. duplicates, constants, offsets), storage order, leading dimension, precision and moment order; a case is non-trivial when its description (function, shape, data, variant) is new; every output value is compared with a long double two-pass reference within a forward error bound",
     *both("moments", 20000, 60000, 150000, 1200000), technique=ORACLE, level_note="every value within a rounding bound of a long double reference on the cases run; sanitizer clean")
prop("C19", "as C18, with probabilities at and around the jumps of each of the nine definitions; non-trivial: new description",
     *both("quantile", 30000, 90000, 200000, 1500000), technique=ORACLE, level_note="quantiles equal a direct evaluation of the definitions on sorted copies")
prop("C20", "as C18 for covariance, correlation and standardisation with all combinations of supplied and computed shift and scale",
     *both("covstd", 25000, 75000, 150000, 1200000), technique=ORACLE, level_note="matrices and standardised data within rounding bounds of long double references")
prop("C21", "random shapes around the blocking factors (4, 8, 16, 32, 64, 256, 512, 1024), metric, exponent, storage, precision, identical rows, zero rows; non-trivial: new description",
     *both("pairwise", 8000, 40000, 100000, 800000), technique=ORACLE, level_note="each distance within a rounding bound of the definition, zero for identical points, symmetric")
prop("C22", "random shapes around the blocking factors, kernel, gamma, coef0, degree, storage, precision; non-trivial: new description",
     *both("kernels", 10000, 40000, 100000, 800000), technique=ORACLE, level_note="each kernel value within a rounding bound of the definition")
prop("C23", "random training and query sets (ten data kinds, lattices with many equal distances, duplicated and far away queries), every metric, algorithm, leaf size, k, storage order, leading dimension, thread count, options set before or after the data; every neighbour list is compared with brute force in long double; non-trivial: new description",
     *both("knn", 2400, 24000, 60000, 800000), technique=ORACLE, level_note="returned neighbours are nearest, distinct, ordered, with true distances")
prop("C24", "as C23 for radius searches, radii at exactly representable distances included; counts, offsets and per-query extraction compared",
     *both("rnn", 2400, 24000, 60000, 800000), technique=ORACLE, level_note="exactly the points within the radius, with true distances and consistent bookkeeping")
prop("C25", "as C23 for classification and regression from k neighbours and from radius neighbours, arbitrary integer labels, all outlier treatments",
     *both("nnpred", 1000, 20000, 50000, 600000), technique=ORACLE, level_note="probabilities, labels and targets equal the documented vote or mean over the true neighbours")

prop("C27", "random training sets (ten data kinds, near-equal and neighbouring values, encoded categories, skewed categories), labels following a feature or random, every splitting option; the trees of depth limits 0, 1, 2, ... on the same data reveal each split, which is judged against all possible ones; non-trivial: new description with at least one split judged",
     *both("tree", 3000, 28000, 60000, 600000), technique=ORACLE, level_note="every split observed is realisable, allowed, best; leaves predict class frequencies; outputs agree")
prop("C28", "as C27 for forests of one tree (bootstrap weights recovered) and of several trees (each recovered from the forests with one tree less), every option; prediction in blocks and in parts",
     *both("forest", 1200, 9000, 30000, 300000), technique=ORACLE, level_note="forest probabilities are averages of trees, predictions the vote, trees satisfy C27 on their bootstrap sample")

prop("C29", "random data (ten kinds incl. constant, duplicated and offset columns), shapes (tall, square, wide), norms, solvers, scalings, intercepts, step limits and tolerances; the coefficients are judged in long double: stationarity of the documented objective (subgradients for l1), dual gap, minimum norm or exact solution where defined, predictions, loss and results recomputed; non-trivial: new description with converged coefficients",
     *both("linmod", 6000, 60000, 100000, 1000000), technique=ORACLE, level_note="coefficients satisfy the optimality conditions of the documented problem, outputs agree with them, on the cases run")
prop("C30", "as C29 for two to six classes, both constraints, regularisation and tolerances; gradient of the documented objective, probabilities, labels and loss recomputed; non-trivial: new description",
     *both("logistic", 2500, 25000, 50000, 500000), technique=ORACLE, level_note="coefficients are stationary points of the documented objective, predictions the most probable class, on the cases run")

prop("C31", "twelve residual models with derivatives by automatic differentiation, all solver, globalization, model, regularization, weight, bound, storage and derivative choices; every callback is monitored (finite points, bounds, dimensions, counts); the returned point is judged in long double: feasible, objective no larger, reported objective, gradient and counts exact, success only when a convergence criterion holds; callbacks failing at a random call of each kind, wrong derivatives, refused calls and redefinitions compared with a new handle; non-trivial: new problem",
     *both("nlls", 350, 5000, 20000, 300000), *both("nllsfault", 250, 3000, 20000, 200000), *both("nllshist", 250, 1500, 20000, 100000), technique="callback trace monitors, fault injection at callbacks and an extended precision oracle under ASan/UBSan/LSan", level_note="all monitors and judgements hold on the problems run")
prop("C32", "random sites (seven distributions incl. neighbouring floating point numbers, and uniform ones), values of 1-5 dimensions, all four types, both storage orders with padding; coefficients compared with a long double solution within a componentwise bound, evaluations of all derivative orders and the cell of every query (sites, their floating point neighbours, far away, infinite, NaN) judged; histories of calls against a model of the state; non-trivial: new coefficients",
     *both("spline", 30000, 300000, 300000, 3000000), *both("splinehist", 20000, 150000, 200000, 2000000), technique=ORACLE, level_note="splines equal the unique solution, evaluations the polynomial, cells contain the query, on the cases and histories run")
prop("C35", "random data (ten kinds, separated blobs, fewer distinct points than clusters), all algorithms, initialisations, distances, empty cluster treatments, mixed precision, starts, iteration limits and tolerances; labels, inertia, centres, transform and predict recomputed in long double; whole trajectories compared with a reference iteration where the centres were supplied; non-trivial: new description",
     *both("kmeans", 4000, 40000, 60000, 600000), technique=ORACLE, level_note="labels name nearest centres, inertia and centres agree, reference trajectories followed, on the cases run")

prop("C33", "random data (ten kinds incl. constant, duplicated and offset columns; tall, square, wide), methods, solvers, degrees of freedom, numbers of components, whitening, stored U, options set before or after the data; singular values, components, scores, U, means, deviations, variances, transforms and inverse transforms judged in long double; non-trivial: new description",
     *both("pca", 1800, 20000, 60000, 600000), technique=ORACLE, level_note="components, variances and transforms satisfy their definitions within rounding bounds on the cases run")
prop("C34", "random data and precomputed kernels, kernels and their parameters, solvers, numbers of components, removal of zero eigenvalues, inverse transforms; eigenpairs of the centred kernel, scores, projections, ridge equations of the dual coefficients and inverse transforms judged in long double; non-trivial: new description",
     *both("kpca", 2500, 40000, 60000, 600000), technique=ORACLE, level_note="eigenpairs, scores, projections and inverse transforms satisfy their definitions within rounding bounds on the cases run")

prop("C12", "random histories of column and row loads (copied or shared, all five types, either order, partial rows and elements), horizontal concatenations, element updates, labels and selections on a store, against a model of its content; every extraction compared cell by cell; non-trivial: new history",
     *both("store", 25000, 400000, 60000, 1500000), technique="state-machine workload under ASan/UBSan with a model of the store as online monitor", level_note="every value extracted equals the one last stored on the histories run")
prop("C13", "random histories of row, column and slice selections, missing-data exclusions and removals against index sets; non-trivial: new history",
     *both("select", 30000, 400000, 60000, 1500000), *both("ivset", 10000, 100000, 100000, 2000000, internal=True), *both("ivmap", 8000, 80000, 80000, 1500000, internal=True), technique="state-machine workload under ASan/UBSan with index sets as online monitor", level_note="selections extract exactly the rows and columns of the index sets")
prop("C14", "well-formed CSV files generated from tables (delimiters, quoting styles, escapes, comments, thousands, decimal and exponent characters, blanks, all line ends, headings, skipped rows, row and column limits), read into arrays and stores; compared with the table; arbitrary bytes with an independent reader; non-trivial: new file and options",
     *both("csv", 5000, 40000, 30000, 400000), job("csvraw", 1500, 10000), technique=ORACLE, level_note="every cell equals the denoted value; types detected as documented")
prop("C15", "arbitrary and mutated CSV bytes under arbitrary options; outcome (error, missing value, table) compared with an independent reader of the documented grammar; non-trivial: new file and options",
     *both("csvraw", 13000, 140000, 60000, 1500000), job("csv", 1000, 5000), technique=ORACLE, level_note="malformed files end with the documented status or fill value, sanitizer clean")
prop("C16", "random shapes, leading dimensions, orders, precisions; element positions and bits compared; NaN, infinite and huge entries at any place; non-trivial: new description",
     *both("layout", 30000, 400000, 100000, 1500000), technique=ORACLE, level_note="every element found bit for bit at its transposed place")
prop("C17", "random shapes, class counts, sizes (also impossible ones), seeds, orders, precisions and integer or floating point classes; non-trivial: new description",
     *both("split", 30000, 300000, 100000, 1500000), *both("shuffle", 30000, 400000, 100000, 1500000), technique=ORACLE, level_note="splits and shuffles are partitions with the requested sizes and class proportions")

prop("C39", "scenarios of every savable model run with the handle replaced, at a random stage after training, by what was saved from it and loaded (memory or file), or continued after saving, or trained again after loading; outcomes must be bit-identical to those of the undisturbed run, saved bytes stable, untrained models refused; non-trivial: new saved bytes, stage and mode",
     *both("persist", 500, 5000, 30000, 300000), *both("serbuf", 6000, 80000, 60000, 1000000, internal=True), technique="scenarios with the handle swapped for its saved and loaded copy at hook points, compared bit for bit with the undisturbed run, under ASan/UBSan", level_note="bit-identical outcomes and bytes on the runs made")
prop("C40", "models saved by the scenarios are truncated, flipped, spliced, shifted, have sizes, header words and ranges overwritten, or are random bytes; what loads is used, saved and destroyed, what is refused leaves a handle that is used and destroyed; disks that fill up after k bytes (RLIMIT_FSIZE) and impossible paths; non-trivial: new accepted file content",
     *both("corrupt", 450, 6000, 30000, 400000), job("corrupt", 300, 3000, leak=True, base=20000000), *both("modelio", 100, 500, 3000, 20000), *both("serbuf", 6000, 80000, 60000, 1000000, internal=True), technique="structure-aware corruption and injected I/O faults under ASan/UBSan/LSan with a status monitor", level_note="documented status, no sanitizer report, no undue memory or time on the files tried")
prop("C41", "random histories of the growing array (construction, push, own elements, append of itself, of others and of standard vectors, resize, reserve, clear, move, copy; six element types) and of the LRU cache (capacities from 0, keys stored again, more keys than columns, resizing) against a sequence and a list in order of use; non-trivial: new history",
     *both("davec", 12000, 200000, 100000, 2000000, internal=True), *both("lru", 12000, 250000, 100000, 2000000, internal=True), technique="state-machine workload under ASan/UBSan with a model of the container as online monitor", level_note="every element and cached column equals the model's on the histories run")

META = "metamorphic comparison of recorded outcomes of the same scenario under ASan/UBSan"
prop("C36", "random data (ten kinds, separated blobs, integer lattices with distances exactly on the radius, duplicates), radii taken from distances of the data, metrics, algorithms, leaf sizes, serial and parallel clustering, thread counts, storage; core samples, clusters, noise and counts judged against a long double reference with three-valued neighbourhoods; non-trivial: new description",
     *both("dbscan", 1400, 30000, 40000, 500000), technique=ORACLE, level_note="labels are a DBSCAN clustering up to numbering, core samples and counts exact, on the cases run")
prop("C07", "scenarios of every model and function with hostile calls (null pointers, sizes 0 and negative, small leading dimensions, wrong types and precisions, unknown and out of range options, queries of other models, too small arrays) inserted at random stages: documented status, outputs untouched, and the outcome of the rest of the scenario bit for bit that of the undisturbed run; handles in every state but valid; non-trivial: new scenario, call and stage",
     *both("refused", 1200, 30000, 30000, 500000), *both("nohandle", 800, 10000, 20000, 200000), technique="fault injection of hostile calls into scenarios, outcome compared with the undisturbed run, under ASan/UBSan", level_note="documented statuses and unchanged outcomes on the calls made")
prop("C09", "scenarios of every model; at random stages every result of every kind is asked for with sizes from -1 to too large: documented status and reported size, untouched array on refusal, fully written on success, equal to what the scenario obtained; results asked for before training, after new data, new options and failed training; non-trivial: new scenario, stage and query",
     *both("current", 500, 14000, 30000, 400000), technique="monitor of result queries at hook points of scenarios under ASan/UBSan", level_note="results offered exactly when available, of the size reported, and current, on the runs made")
prop("C06", "scenarios of every model and function run in row- and column-major order and with random padding of all inputs and outputs; outcomes compared within rounding (bit for bit where the order does not enter); non-trivial: new scenario",
     *both("orders", 2500, 50000, 60000, 1000000), technique=META, level_note="outcomes agree over storage orders and leading dimensions on the scenarios run")
prop("C10", "scenarios of every model and function on data exactly representable in single precision, run in both precisions; outcomes compared within bounds from the problem's conditioning; non-trivial: new scenario",
     *both("precision", 5000, 120000, 100000, 1500000), technique=META, level_note="single and double precision outcomes agree within single precision bounds on the scenarios run")
prop("C03", "scenarios of every model and function run twice in one process, with the heap, stack and registers filled with other bytes and other work in between, on new and on used handles; outcomes compared bit for bit; non-trivial: new scenario",
     *both("same", 900, 14000, 10000, 200000), technique="repetition with poisoned fresh memory (heap fill, stack scribble), recorded outcomes compared bit for bit", level_note="repeated runs agree bit for bit on the scenarios run")
prop("C05", "scenarios of every model and function with all caller's arrays surrounded by guard zones and padded; inputs compared with a copy, paddings and guards checked after every call, outputs fully written; non-trivial: new scenario",
     *both("buffers", 6000, 90000, 60000, 1000000), technique="guard zones and copies around the caller's arrays, under ASan", level_note="no write outside of the outputs on the scenarios run")
def sweep(pairs, base, **kw):
    return [job(f, q, t, base=base, **kw) for f, q, t in pairs]
prop("C01", "every workload family of this framework (all models, functions, stores, readers, containers) on cases of their own, for memory errors and undefined behaviour only; non-trivial: new description",
     *sweep([("anyuse", 900, 20000), ("refused", 200, 5000), ("current", 200, 5000), ("orders", 1000, 20000), ("knn", 300, 8000), ("rnn", 300, 8000), ("nnpred", 200, 6000), ("tree", 300, 6000), ("forest", 200, 4000), ("linmod", 800, 15000), ("logistic", 400, 8000), ("kmeans", 500, 8000), ("dbscan", 200, 6000), ("nlls", 60, 3000), ("nllsfault", 60, 3000), ("nllshist", 60, 3000), ("spline", 2000, 40000), ("splinehist", 2000, 40000), ("store", 3000, 40000), ("select", 3000, 40000), ("csv", 400, 6000), ("csvraw", 1500, 20000), ("split", 2000, 20000), ("shuffle", 2000, 20000), ("layout", 2000, 20000), ("moments", 1500, 20000), ("quantile", 1500, 20000), ("covstd", 1500, 20000), ("pairwise", 800, 10000), ("kernels", 800, 10000), ("persist", 80, 4000), ("corrupt", 60, 4000)], 30000000, args={"quiet": 1}),
     technique="AddressSanitizer, UndefinedBehaviorSanitizer, bounds checking Fortran and libstdc++ assertions over all workload families", level_note="no sanitizer report on the runs made")
prop("C02", "complete lives of handles, stores and results (created, used in every way, refused calls, failing callbacks, failed loads, trained again, destroyed) with a leak check after every case; non-trivial: new scenario",
     *sweep([("anyuse", 500, 10000), ("refused", 120, 4000), ("current", 120, 4000), ("linmod", 200, 5000), ("logistic", 120, 4000), ("kmeans", 150, 4000), ("knn", 80, 3000), ("nnpred", 80, 3000), ("tree", 100, 3000), ("forest", 60, 3000), ("dbscan", 60, 3000), ("nlls", 60, 3000), ("nllsfault", 80, 3000), ("nllshist", 50, 2000), ("splinehist", 400, 8000), ("store", 800, 10000), ("select", 400, 10000), ("csv", 120, 3000), ("csvraw", 500, 10000), ("split", 300, 5000), ("covstd", 300, 5000), ("persist", 60, 3000), ("corrupt", 60, 3000)], 40000000, leak=True, args={"quiet": 1}),
     technique="LeakSanitizer after every case of life-cycle workloads with injected failures", level_note="everything allocated released on the lives run")

NOT_APPLICABLE = {
 "C04": "not built: the sandbox's compilers ship OpenMP runtimes that ThreadSanitizer cannot see into (every fork and join is reported), and the instrumented runtime this needs was not finished; thread counts are only varied inside the other families",
 "C08": "not built: no monitor of the option registry of its own; refused option settings are part of C07, option values of loaded models part of C39",
 "C11": "not built: only the AVX2 build of the kernels can be compiled and run here, so there is nothing to compare the variants with, apart from hidden switches of a few algorithms",
 "C26": "not built: no oracle for approximate nearest neighbors yet",
 "C37": "not built: no oracle for support vector machines yet",
 "C38": "not built: no oracle for t-SNE yet",
}

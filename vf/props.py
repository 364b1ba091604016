# Property texts; mk.py turns them into /verif/properties.jsonl and /verif/MANIFEST.json
P = []
def p(id, title, st, over, qt, why, files, mech, obs, state=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over.split(), text=qt), why_tests_cant=why,
                  anchors=dict(files=["source/" + f if not f.startswith("source") else f for f in files.split()],
                               mechanism=[dict(name=n, where="source/" + w) for n, w in mech], observe_at=obs, **({"state": state} if state else {}))))
C = "core/"
p("P01", "Train/test split copies exactly the requested rows and rejects bad arguments",
  "Splitting a matrix gives a training part and a test part whose rows are exactly the first requested rows (or, with a permutation, the rows it lists) in that order, for either storage order and any leading dimension, and nothing outside the two outputs' rows and columns is written. Sizes, dimensions or pointers that do not describe a valid split are reported as errors before any element is read or written.",
  "inputs configurations", "every matrix, storage order, leading dimension, permutation, pair of sizes (including sizes near the integer limits)",
  "tests use a few fixed matrices with tight leading dimensions; arithmetic on extreme sizes and padding writes are not sampled", C + "utilities/train_test_split.cpp " + C + "utilities/da_utils.cpp include/aoclda_utils.h",
  [("argument validation", C + "utilities/da_utils.cpp"), ("row copying", C + "utilities/train_test_split.cpp")], ["da_train_test_split_d", "da_train_test_split_s", "da_train_test_split_int"])
p("P02", "Shuffled indices are a permutation; stratified splits keep proportions",
  "Shuffled indices are always a permutation of the sample indices, so train and test parts never share or lose a sample. In a stratified split every class's share of the training and test parts differs from its share of the data by less than one sample per class, whatever random draws are made, and arguments that cannot be satisfied are rejected.",
  "inputs configurations", "every sequence of random draws, every class labelling within the bounds, every combination of sizes",
  "tests run a few seeds; the guarantee is over all random draws", C + "utilities/train_test_split.cpp " + C + "utilities/da_utils.cpp",
  [("Fisher-Yates shuffle and class allocation", C + "utilities/train_test_split.cpp"), ("class frequency approximation", C + "utilities/train_test_split.cpp")], ["da_get_shuffled_indices_int", "da_get_shuffled_indices_d", "da_get_shuffled_indices_s"])
p("P03", "Options keep only values inside their declared range and read back what was set",
  "Setting an option either stores exactly the given value, if it is allowed for that option, or fails and leaves the previous value in place; reading it back gives the stored value with the declared type. Option names and categorical values are matched irrespective of letter case and surrounding blanks, and unknown names, wrong types and too-short output buffers give an error and never write past the caller's buffer.",
  "inputs histories configurations", "every option value (all bit patterns), every name/value string within the bounds, every sequence of set and get within the bounds",
  "tests set a handful of values; special floating-point values and buffer-size corner cases are not enumerated", C + "utilities/options.hpp " + C + "utilities/options_public.cpp",
  [("range and type validation", C + "utilities/options.hpp"), ("public accessors", C + "utilities/options_public.cpp")], ["da_options_set_int", "da_options_set_real_d", "da_options_get_string", "da_options_get_string_key"])
p("P04", "Misused handles give an error status and never crash, corrupt or leak memory",
  "Every public handle call on a missing, wrongly typed, wrongly initialised or not-yet-computed handle returns an error status and leaves the caller's outputs alone. Creating and destroying a handle, any number of times and even when memory runs out, releases everything that was allocated.",
  "inputs histories fault_sequences", "every short sequence of public handle calls over all handle types and precisions, every single allocation failure",
  "tests exercise selected call orders; allocation failures are never injected", C + "utilities/da_handle.cpp " + C + "utilities/da_handle_public.cpp " + C + "utilities/basic_handle.cpp " + C + "utilities/da_error.hpp",
  [("handle creation and dispatch", C + "utilities/da_handle.cpp"), ("public entry points", C + "utilities/da_handle_public.cpp")], ["da_handle_init_d", "da_handle_get_result_d", "da_handle_destroy", "da_handle_print_error_message"])
BS = C + "basic_statistics/"
p("P05", "Quantiles, medians and five-point summaries match their documented definition",
  "For each of the nine types the quantile along the chosen axis is the documented interpolation between order statistics of exactly that row, column or whole matrix, and the five-point summary lists its minimum, hinges, median and maximum. Storage order and padding do not change the result, the input is left as it was, and arguments outside the documented ranges (including a NaN quantile) are rejected before anything is written.",
  "inputs configurations", "every matrix within the bounds, every quantile type, axis, order and leading dimension, every value of q",
  "tests sample a few q on one matrix; ties, boundary ranks and padding combine with nine types and three axes", BS + "order_statistics.cpp " + BS + "row_to_col_major.cpp " + BS + "basic_statistics_public.cpp",
  [("rank computation and selection", BS + "order_statistics.cpp")], ["da_quantile_d", "da_quantile_s", "da_five_point_summary_d"])
p("P06", "Moments, standardisation and covariance equal their definition for any layout",
  "Means, variances, skewness, kurtosis, central moments, covariance and correlation are those of exactly the selected rows, columns or whole matrix with the requested degrees of freedom, and standardising subtracts and divides by exactly the given or computed statistics. Storage order and padding change nothing, elements outside the matrix are never touched, and invalid arguments are rejected before anything is written.",
  "inputs configurations", "every matrix within the bounds, every axis, order, leading dimension, degrees of freedom and presence of optional arrays",
  "tests use single matrices with fixed options; combinations of axis, order, padding and optional arguments are not enumerated", BS + "moment_statistics.cpp " + BS + "statistical_utilities.cpp " + BS + "correlation_and_covariance.cpp " + BS + "basic_statistics_public.cpp",
  [("moments", BS + "moment_statistics.cpp"), ("standardisation", BS + "statistical_utilities.cpp"), ("covariance", BS + "correlation_and_covariance.cpp")], ["da_mean_d", "da_variance_d", "da_kurtosis_d", "da_standardize_d", "da_covariance_matrix_d"])
p("P08", "CSV text is split into the records and fields its grammar prescribes",
  "Whatever bytes a CSV file holds, the reader yields exactly the lines and fields that delimiter, quoting, escaping, comment, blank-line and line-ending rules prescribe, or reports an error. The result does not depend on how the text is cut into read buffers, and no byte outside the internal buffers is touched.",
  "inputs configurations histories", "every text up to the bound, every combination of parser options, every cut of the text into chunks",
  "tests read a few well-formed files through one buffer size", C + "csv/tokenizer.c " + C + "csv/tokenizer.h",
  [("tokenizer state machine", C + "csv/tokenizer.c")], ["da_read_csv_d", "da_data_load_from_csv"])
p("P09", "CSV fields convert to exactly the number, truth value or text they show",
  "A field that shows an integer, real number or truth value is converted to that value (correctly rounded for short reals, to within the rounding of the arithmetic for long ones), and text keeps everything but surrounding blanks. A field that shows something else, or a value outside the range of the type asked for, is a parsing error and never a wrong number, and no byte outside the field is read.",
  "inputs", "every text up to the bounds, numbers with up to 19 digits and any position of the decimal point, values next to the integer limits",
  "tests convert some two dozen texts; signs, blanks, limits and malformed texts combine freely", C + "csv/char_to_num.hpp " + C + "csv/tokenizer.c " + C + "csv/parser.hpp",
  [("integer and real conversion", C + "csv/char_to_num.hpp"), ("truth values and text", C + "csv/char_to_num.hpp")], ["da_read_csv_d", "da_read_csv_int", "da_data_load_from_csv"])
p("P10", "Reading a CSV file yields exactly its rows, columns, headings and types",
  "An array read from a CSV file holds the file's fields at their places in either storage order, with the first line as headings and without the last line when asked; a data store gives every column the narrowest type that holds its fields, or the type asked for. Lines longer than the others, fields of another type (unless missing data is allowed, then they become the missing value and a warning), empty or absent files are errors that leave no data behind. One read never influences the next and nothing leaks.",
  "inputs configurations histories", "every small file made of integer, real, truth-value and text fields, ragged or not, and every combination of reader options",
  "tests read a few files with few options; option combinations, ragged files and repeated reads are not enumerated", C + "csv/read_csv.hpp " + C + "csv/csv_reader.hpp " + C + "csv/tokenizer.c " + C + "csv/read_csv_public.cpp " + C + "data_management/data_store.hpp",
  [("reading into arrays, headings", C + "csv/read_csv.hpp"), ("automatic column types", C + "data_management/data_store.hpp"), ("options of the reader", C + "csv/csv_reader.hpp")], ["da_read_csv_d", "da_read_csv_int", "da_read_csv_string", "da_data_load_from_csv"])
p("P11", "A data store returns every value it was given, whatever blocks it arrived in",
  "After any sequence of accepted column and row blocks the store has exactly the rows, columns and values given, each column keeps its type, and elements and columns are read or written only with that type and only inside the store. A block whose size does not fit, or an incomplete row block, is reported and leaves everything else intact; all memory the store owns is released once.",
  "inputs histories configurations", "every sequence of column and row blocks within the bounds, both orders, copied or borrowed data, any values",
  "tests load a few block patterns; the block structure makes the number of histories explode", C + "data_management/data_store.hpp " + C + "data_management/data_store.cpp",
  [("concatenation of blocks", C + "data_management/data_store.hpp"), ("blocks", C + "data_management/data_store.hpp")], ["da_data_load_col_int", "da_data_load_row_real_d", "da_data_extract_column_int", "da_data_get_element_int", "da_data_set_element_int"])
p("P12", "Selections of a data store extract exactly the chosen rows and columns",
  "Extracting a named selection gives exactly the rows and columns that were chosen and not removed since, in increasing order, in the storage order and with the leading dimension asked for, and writes nothing else. Selections with mixed types, too small leading dimensions, unknown names or indices outside the store are rejected without any effect on other selections.",
  "inputs histories configurations", "every short sequence of row, column and slice selections and removals over several names, every leading dimension",
  "tests use one or two selections with a tight leading dimension", C + "data_management/data_store.hpp " + C + "data_management/interval_set.cpp",
  [("selections and extraction", C + "data_management/data_store.hpp")], ["da_data_select_rows", "da_data_select_slice", "da_data_remove_rows_from_selection", "da_data_extract_selection_int"])
p("P13", "Selecting complete rows keeps exactly the rows without missing values",
  "Selecting the non-missing rows of a data store leaves exactly those rows of the selection none of whose selected columns (or, on request, all columns) holds a missing value, for every column type and block structure. The data itself is not changed and nothing outside the store is read.",
  "inputs histories", "every pattern of missing values, block structure and earlier selection within the bounds", "tests use one store with a fixed pattern",
  C + "data_management/data_store.hpp", [("missing value search", C + "data_management/data_store.hpp"), ("selection of rows", C + "data_management/data_store.hpp")], ["da_data_select_non_missing", "da_data_extract_selection_int"])
p("P14", "Column labels always designate the column they were given to",
  "A label finds exactly the column it was last given to, a column returns exactly the label last given to it, and labels too long for the caller's buffer are not written while their length is reported. Concatenating stores keeps rows, values and labels in step, and is rejected without any change when the stores do not fit.",
  "inputs histories", "every sequence of labellings and concatenations within the bounds", "tests label each column once",
  C + "data_management/data_store.hpp", [("labels and horizontal concatenation", C + "data_management/data_store.hpp")], ["da_data_label_column", "da_data_get_col_idx", "da_data_get_col_label", "da_data_hconcat"])
p("P15", "An interval set holds exactly what was inserted and not erased since",
  "After any sequence of insertions and erasures a key belongs to an interval set exactly when the last operation covering it was an insertion. The stored intervals are always valid, sorted, disjoint and merged when they touch, and invalid bounds are rejected without any change.",
  "inputs histories", "every sequence of insertions and erasures within the bound, every interval, every key",
  "the tests check a dozen fixed sequences; overlap cases multiply with every interval already present", C + "data_management/interval_set.cpp " + C + "data_management/interval_set.hpp",
  [("merge on insert, split on erase", C + "data_management/interval_set.cpp")], ["row and column selections of data stores"])
p("P16", "An interval map never holds overlapping intervals and finds every key it covers",
  "Inserting into an interval map succeeds exactly when the bounds are valid and overlap no interval already present; looking up a key returns the value and bounds of the one interval covering it, or nothing. Erasing removes exactly the addressed intervals and iteration is in increasing order.",
  "inputs histories", "every sequence of insertions within the bound, every key", "the tests use fixed intervals; enclosing and touching intervals in every order are not covered",
  C + "data_management/interval_map.hpp", [("overlap test and look-up", C + "data_management/interval_map.hpp")], ["block look-up of data stores"])
p("P17", "The internal growable array keeps its elements, in order, across every operation",
  "Whatever sequence of push, append, resize, reserve, clear, copy and move is applied, the array's size and elements are those of the equivalent abstract sequence. No operation reads or writes outside the storage owned, and a copy never shares storage with its source.",
  "inputs histories", "every sequence of operations within the bound, with sizes on both sides of each growth step", "the tests exercise each operation alone from a fresh array",
  C + "utilities/da_vector.hpp", [("growth and copying", C + "utilities/da_vector.hpp")], ["neighbour lists of radius searches"])
p("P18", "The kernel-column cache returns the right column and evicts the oldest",
  "A look-up in the cache either returns the column most recently stored under that key, unchanged, or nothing. The columns available are exactly the most recently used ones up to the capacity, however look-ups and insertions are interleaved.",
  "inputs histories", "every sequence of insertions and look-ups within the bound, every capacity up to the bound", "the tests check one insertion order per capacity",
  C + "utilities/da_cache.hpp", [("recency list and slot reuse", C + "utilities/da_cache.hpp")], ["kernel columns used by SVM training"])
DF = C + "decision_forest/"
p("P19", "Tree building sorts, counts and bins samples without losing or mixing any",
  "Sorting a range of samples by a feature leaves a permutation in increasing order with every value still attached to its sample and nothing outside the range moved; bootstrap draws are counted exactly. Binning gives increasing thresholds taken from the data, puts every sample into the bin its value belongs to and never writes beyond the space for the bins.",
  "inputs configurations schedules", "every sequence of values and draws within the bounds, every recursion budget, every number of bins within the bounds, both orders of two threads",
  "tests sort and bin a few fixed arrays; ties, heap fallback and bin-count corner cases depend on the values", DF + "common/idx_sorting.cpp " + DF + "common/histogram.cpp " + DF + "common/histogram.hpp",
  [("introsort, heapsort and bucket sort of index ranges", DF + "common/idx_sorting.cpp"), ("quantile thresholds and binning", DF + "common/histogram.cpp")], ["da_tree_fit_d", "da_forest_fit_d"])
p("P20", "Impurity scores equal Gini, entropy and misclassification definitions",
  "For any class counts the three scoring functions return the Gini impurity, the entropy in bits and the misclassification rate of those counts, with empty classes contributing nothing.",
  "inputs", "every class count vector within the bounds", "tests compare a handful of count vectors", DF + "common/scoring.cpp",
  [("scores", DF + "common/scoring.cpp")], ["da_tree_fit_d", "da_forest_fit_d"])
p("P21", "A trained tree makes only the best admissible splits and describes itself truly",
  "Every internal node splits on the feature and threshold of least impurity among all splits its options admit, every leaf has no admissible improving split or has reached a limit, and training and prediction send each sample the same way. Node counts, scores, majority classes, depths, class proportions and the information reported for the handle are those of the samples that reach each node.",
  "inputs configurations", "every small data set and labelling within the bounds, every score, limit, layout and precision, values next to each other and huge values",
  "tests compare accuracy and shapes on fixed data; wrong splits show only for particular ties, constants or limits", DF + "tree/decision_tree_training_split.hpp " + DF + "tree/decision_tree_training_fit.hpp " + DF + "tree/decision_tree_training_partition.hpp",
  [("split search", DF + "tree/decision_tree_training_split.hpp"), ("node creation and growth", DF + "tree/decision_tree_training_fit.hpp"), ("partitioning", DF + "tree/decision_tree_training_partition.hpp")], ["da_tree_fit_d", "da_tree_predict_d", "da_handle_get_result_d"])
p("P34", "Binned, categorical, bootstrapped and parallel training keep those promises",
  "With histogram binning, categorical features (ordered or one against the rest), bootstrap samples or several threads, every split is still the best among those the options admit for the binned values, categories and multiplicities in question, and every node's counts, scores and classes are those of the weighted samples that reach it. Training and prediction send each sample the same way, and the tree does not depend on the order in which threads run.",
  "inputs configurations schedules", "every small data set, labelling and bootstrap draw within the bounds, binned or raw, ordered or one-vs-all; both orders of two threads",
  "tests compare accuracy on fixed data; wrong splits show only for particular category sets, multiplicities or thread orders", DF + "tree/decision_tree_training_split.hpp " + DF + "tree/decision_tree_training_partition.hpp " + DF + "common/histogram.cpp",
  [("histogram and categorical split search", DF + "tree/decision_tree_training_split.hpp"), ("bootstrap counts", DF + "tree/decision_tree_training_fit.hpp"), ("partitioning", DF + "tree/decision_tree_training_partition.hpp")], ["da_tree_fit_d", "da_forest_fit_d", "da_tree_predict_d"])
p("P22", "Tree inference walks each query to its leaf and rejects misuse without a trace",
  "Predictions, class probabilities, log probabilities and the score of a trained tree are those of the leaf each query reaches, for any storage order and leading dimensions, and nothing else is written. Wrong arguments, untrained models and replaced or rejected training data give an error, write and leak nothing and leave a usable handle.",
  "inputs configurations histories", "every query value within the bounds, all layouts, argument values at and around their limits, every pair of data and training calls of a list",
  "tests query fixed points with tight leading dimensions; error paths are checked only for their status", DF + "tree/decision_tree_inference.hpp " + DF + "tree/decision_tree_handle_utilities.hpp " + DF + "decision_tree_public.cpp",
  [("inference", DF + "tree/decision_tree_inference.hpp"), ("training data checks", DF + "tree/decision_tree_handle_utilities.hpp")], ["da_tree_predict_d", "da_tree_predict_proba_d", "da_tree_predict_log_proba_d", "da_tree_score_d"])
p("P23", "Forest inference is the vote and mean of its trees, however it is blocked",
  "The predicted class is the majority vote of the trees, probabilities are their mean and the score is the share of correct votes, whatever the block size, thread order, storage order and leading dimensions. Wrong arguments, untrained models and replaced or rejected training data give an error, write and leak nothing and leave a usable handle.",
  "inputs configurations schedules histories", "every query value within the bounds, all layouts, block sizes and orders of two threads, argument values at and around their limits, every pair of data and training calls of a list",
  "tests query fixed points with one block size; error paths and refits are hardly exercised", DF + "forest/decision_forest_inference.hpp " + DF + "forest/decision_forest_training.hpp " + DF + "forest/decision_forest_handle_utilities.hpp",
  [("blocked parallel voting", DF + "forest/decision_forest_inference.hpp"), ("training", DF + "forest/decision_forest_training.hpp")], ["da_forest_predict_d", "da_forest_predict_proba_d", "da_forest_score_d"])
p("P24", "Nearest-neighbour search returns exactly the k nearest rows, by any algorithm",
  "For each query the search returns k distinct rows of the training data with their true distances in increasing order, and no other row is nearer than the ones returned. Brute force, k-d tree and ball tree agree on this for every metric, leaf size and storage order.",
  "inputs configurations", "every training set and query within the bounds, including ties and duplicates, every algorithm, metric, order and leaf size within the bounds",
  "tests compare a few data sets; pruning errors need particular geometry and ties", C + "nearest_neighbors/kd_tree.cpp " + C + "nearest_neighbors/ball_tree.cpp " + C + "nearest_neighbors/nearest_neighbors.cpp " + C + "nearest_neighbors/binary_tree.cpp",
  [("k-d tree pruning", C + "nearest_neighbors/kd_tree.cpp"), ("ball tree pruning", C + "nearest_neighbors/ball_tree.cpp"), ("heap of candidates", C + "nearest_neighbors/binary_tree.hpp")], ["da_nn_kneighbors_d", "da_nn_kneighbors_s"])
NN = C + "nearest_neighbors/"
p("P25", "Radius search returns exactly the rows within the radius",
  "For each query the search reports exactly the training rows whose distance is at most the radius, each once, with its true distance, and in increasing order when sorting was asked for. Counts, offsets and per-query results all describe the same set, result buffers that are too short are reported with the size needed, and a rejected call leaves earlier results as they were.",
  "inputs configurations histories", "every training set, query and radius within the bounds, including points exactly on the radius; every algorithm, order and leaf size within the bounds",
  "tests compare algorithms on fixed data; boundary distances and buffer sizes are not enumerated", NN + "nearest_neighbors.cpp " + NN + "kd_tree.cpp " + NN + "ball_tree.cpp " + NN + "binary_tree.cpp " + NN + "radius_neighbors.cpp",
  [("brute-force search and result queries", NN + "nearest_neighbors.cpp"), ("tree search", NN + "kd_tree.cpp")], ["da_nn_radius_neighbors_d", "da_nn_radius_neighbors_s", "da_handle_get_result_int"])
p("P26", "Neighbour-based predictions are the vote or mean of the neighbours found",
  "Class probabilities are the neighbours' normalised weights per class, the predicted class has the largest probability, and the predicted target is the weighted mean of the neighbours' targets. Queries without neighbours follow the chosen outlier handling exactly, replacing labels or targets takes effect at once, and no call leaks memory or writes outside its outputs, whether it succeeds or fails.",
  "inputs configurations histories", "every labelling and geometry within the bounds, both weightings, both search modes, all outlier policies, both storage orders",
  "tests use one label alphabet starting at zero and one query set", NN + "nearest_neighbors.cpp", [("probability and target computation", NN + "nearest_neighbors.cpp")],
  ["da_nn_classifier_predict_d", "da_nn_classifier_predict_proba_d", "da_nn_regressor_predict_d", "da_nn_classes_d"])
p("P27", "Pairwise distance matrices hold the distance of every pair of rows",
  "Entry (i, j) of the result is the chosen distance between row i of the first matrix and row j of the second (or of the first, if there is no second), for either storage order and any leading dimensions, and nothing else is written. A call is rejected, without writing anything, exactly when a documented constraint on its arguments is violated.",
  "inputs configurations", "every matrix within the bounds, every metric, order and leading dimension, all argument values",
  "tests use a few fixed matrices; block remainders, padding and extreme arguments are not enumerated", C + "metrics/pairwise_distances.cpp " + C + "metrics/inner_product_distance.cpp " + C + "metrics/euclidean_gemm_distance.cpp " + C + "metrics/metrics_kernels.hpp",
  [("argument checks and dispatch", C + "metrics/pairwise_distances.cpp"), ("block kernels", C + "metrics/metrics_kernels.hpp")], ["da_pairwise_distances_d", "da_pairwise_distances_s"])
IN = C + "interpolation/"
p("P28", "Cubic splines pass through their data and meet smoothness and end conditions",
  "The computed pieces take every given value, join with equal slopes and curvatures, and satisfy the end conditions of the chosen type (or, for Hermite splines, the given slopes), for any sites, dimensions, storage orders and leading dimensions. Evaluation returns the value or derivative of the piece holding each point, in the documented order, and a history of settings either yields the spline they define or is refused.",
  "inputs configurations histories", "every single value, slope or end value (the map is linear) for a set of site shapes, all types, orders of derivative and layouts, and every sequence of settings within the bounds",
  "tests check one-dimensional smooth functions with tight leading dimensions", IN + "cubic_spline/cubic_spline.cpp " + IN + "interpolation_generic.hpp",
  [("spline systems and coefficients", IN + "cubic_spline/cubic_spline.cpp"), ("data set-up", IN + "interpolation_generic.hpp")], ["da_interpolation_interpolate_d", "da_interpolation_evaluate_d", "da_handle_get_result_d"])
p("P29", "Interpolation finds the cell of every point and refuses unusable settings intact",
  "A search returns for each point, however far away or close to a site, the cell that contains it or the nearest end cell. Calls with invalid models, sites, sizes, orders, dimensions or states are refused with a documented status, and leave the handle usable as it was.",
  "inputs configurations histories", "every point and site set within the bounds including neighbours of sites, infinities and NaN, every call at every stage with argument values at and around their limits",
  "tests search a handful of ordinary points", IN + "interpolation_generic.hpp " + IN + "interpolation.cpp",
  [("cell search", IN + "interpolation_generic.hpp"), ("model selection", IN + "interpolation.cpp")], ["da_interpolation_search_cells_d", "da_interpolation_set_sites_d", "da_interpolation_select_model_d"])
p("P30", "A saved model loads back as the same model",
  "Loading what was saved from a trained tree, forest or nearest-neighbour handle succeeds and gives a model with the same options, information, predictions, neighbours and stored search results for every query, independent of the user's original data, and it can be given new data like a fresh one. The byte stream reads back every value bit for bit, reserves exactly the bytes it writes, stores user data without its padding, and refuses to write or read past its end.",
  "inputs configurations histories", "every query within the bounds for each model kind, layout and metric, every scalar and element value, every size",
  "tests compare predictions of a few stored models; a field that is not stored only matters for particular options, uses or states", C + "utilities/model_persistence.cpp " + C + "utilities/model_persistence.hpp " + C + "utilities/basic_handle.cpp " + DF + "tree/decision_tree_handle_utilities.hpp " + DF + "forest/decision_forest.cpp " + NN + "binary_tree.cpp " + NN + "nearest_neighbors.cpp",
  [("byte stream", C + "utilities/model_persistence.cpp"), ("model fields", DF + "tree/decision_tree_handle_utilities.hpp"), ("search trees", NN + "binary_tree.cpp")], ["da_handle_save_model", "da_handle_load_model"])

p("P32", "DBSCAN labels are those of the definition, for any algorithm and thread count",
  "Core samples are exactly those with enough samples within the radius, two core samples share a cluster exactly if a chain of neighbouring core samples joins them, every other sample belongs to a cluster that reaches it or is noise, and clusters are numbered consecutively. Brute force, tree and automatic searches agree for every metric they accept, serial and parallel clustering agree on these facts, and the listed core samples and counts match.",
  "inputs interleavings", "all small one-dimensional data sets, radii, minimum sample counts, metrics, algorithms, leaf sizes, storage orders, thread counts and thread orders within the bounds",
  "tests compare a few data sets with stored labels; chains of merges depend on the order and the overlap of the neighbourhoods", C + "clustering/dbscan/dbscan.cpp " + NN + "radius_neighbors.cpp " + NN + "binary_tree.cpp",
  [("merging of neighbourhoods", C + "clustering/dbscan/dbscan.cpp"), ("neighbourhoods", NN + "radius_neighbors.cpp")], ["da_dbscan_compute_d", "da_dbscan_compute_s", "da_handle_get_result_int"])
p("P31", "Loading damaged or shortened model data is refused or harmless, never unsafe",
  "Loading model data that was shortened, or whose bytes were changed, either yields a handle or returns a documented error: it never reads outside the data, loops or allocates without limit, lets an exception escape or leaks memory. Shortened data is always refused, and a stored option value is accepted exactly if the option itself would accept it.",
  "inputs fault_sequences", "every shorter length of the saved data of each model kind, every position of a changed byte or word, every value of a stored option",
  "tests corrupt a few named fields; each count, flag and length of each model kind is a separate way to run past the data", C + "utilities/model_persistence.cpp " + C + "utilities/model_persistence.hpp " + C + "utilities/options.hpp " + C + "utilities/da_handle.cpp " + DF + "tree/decision_tree_handle_utilities.hpp " + DF + "forest/decision_forest.cpp " + NN + "binary_tree.cpp",
  [("bounds-checked reading", C + "utilities/model_persistence.cpp"), ("tree and node counts", DF + "forest/decision_forest.cpp"), ("option validation", C + "utilities/options.hpp")], ["da_handle_load_model"])
UT = C + "utilities/"
p("P38", "Array arguments are validated, re-laid and handed back faithfully",
  "Every array routine reads exactly the matrix described by its sizes, order and leading dimension, copies or transposes every element to its place and writes nothing else; blocking, skinny and in-place transposes, partial means along an axis and stored copies agree with the plain definition. With data checking on, an array is rejected exactly if one of its used elements is NaN, and invalid sizes, leading dimensions or pointers are rejected with the documented status. Detection of categorical features reports exactly the columns that hold few enough distinct non-negative whole numbers.",
  "inputs configurations", "every element value (NaN, infinities and out-of-range values included) and every size, order and leading dimension within the bounds",
  "tests pass tight, finite, column-major arrays of one size", UT + "da_utils.cpp " + UT + "basic_handle.cpp " + BS + "row_to_col_major.cpp",
  [("validation and transposes", UT + "da_utils.cpp"), ("checks on entry of every model", UT + "basic_handle.cpp"), ("blocked transposes", BS + "row_to_col_major.cpp")], ["da_check_data_d", "da_switch_order_copy_d", "da_switch_order_in_place_d"])
p("P40", "Each C function reaches its own routine with its own arguments",
  "Every numeric C interface function forwards each of its arguments, in the right position and precision, to the template routine it is documented to call, and hands back that routine's status unchanged.",
  "inputs configurations", "every argument value of every forwarding function, and every status of the routine behind it",
  "tests call most functions with one set of values and mostly equal arguments, for which a swapped or dropped argument makes no difference", UT + "aoclda_c_wrapper.cpp",
  [("forwarding functions", UT + "aoclda_c_wrapper.cpp")], ["da_mean_d", "da_covariance_matrix_s", "da_pairwise_distances_d", "da_rbf_kernel_s"])

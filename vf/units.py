# What is encoded (UNITS) and what is checked (PROPS).
UNITS = {}
PROPS = {}
COMMON_ASSUMPTIONS = [
    "da_int is the 32-bit (LP64) integer type the tree is built with; the generic code path of the dynamic dispatcher is encoded",
    "the C and C++ runtime is modelled (runtime/, shim_sym/); its containers are the real libstdc++ headers",
    "clang's -O1 translation to LLVM IR is trusted; counterexamples are replayed on a separate sanitized native build",
    "inputs beyond the stated bounds are not covered",
]
UTIL = ["core/utilities/aoclda_c_wrapper.cpp", "core/utilities/utils_public.cpp"]

UNITS["tts"] = dict(harness="h_tts.cpp", sources=["core/utilities/train_test_split.cpp", "core/utilities/da_utils.cpp", "core/utilities/utils_public.cpp", "core/dynamic_dispatch/context.cpp", "core/utilities/fp16_helpers.cpp"])
PROPS["P01"] = dict(level="model_checking", entries=[
    ("tts", dict(fn="tts_split", bounds="m<=5, n<=2", reach=["split"])),
    ("tts", dict(fn="tts_split_par", bounds="m<=4, n<=2, 2 threads in either order", reach=["split"])),
    ("tts", dict(fn="tts_validate", bounds="all 32-bit sizes")),
])
UNITS["shuf"] = dict(harness="h_shuf.cpp", rng=True, sources=UNITS["tts"]["sources"])
PROPS["P02"] = dict(level="model_checking", entries=[
    ("shuf", dict(fn="shuf_plain", bounds="m<=4", reach=["plain"])),
    ("shuf", dict(fn="shuf_strat_int", bounds="m<=5", reach=["strat"])),
    ("shuf", dict(fn="shuf_strat_fp", bounds="m<=5", reach=["strat"])),
    ("shuf", dict(fn="shuf_args", bounds="all 32-bit sizes")),
])
HANDLE = ["core/utilities/" + f for f in ("da_handle.cpp", "da_handle_public.cpp", "options_public.cpp", "basic_handle.cpp", "model_persistence.cpp", "miscellaneous.cpp", "da_utils.cpp", "fp16_helpers.cpp", "aoclda_c_wrapper.cpp")] + ["core/dynamic_dispatch/context.cpp"]
NN = ["core/nearest_neighbors/" + f for f in ("nearest_neighbors.cpp", "nearest_neighbors_public.cpp", "ball_tree.cpp", "binary_tree.cpp", "kd_tree.cpp", "radius_neighbors.cpp")]
METR = ["core/metrics/" + f for f in ("cosine_distance.cpp", "euclidean_distance.cpp", "euclidean_gemm_distance.cpp", "inner_product_distance.cpp", "kernels_avx2.cpp", "manhattan_distance.cpp", "minkowski_distance.cpp", "pairwise_distances.cpp", "sqeuclidean_distance.cpp")]
BSTAT = ["core/basic_statistics/" + f for f in ("moment_statistics.cpp", "order_statistics.cpp", "statistical_utilities.cpp", "correlation_and_covariance.cpp")]
UNITS["nn"] = dict(harness="h_nn.cpp", sources=HANDLE + NN + METR + BSTAT)
PROPS["P24"] = dict(level="model_checking", entries=[
    ("nn", dict(fn="knn_brute", bounds="m<=3 rows, n<=2 columns, values 0..3 quarters", reach=["knn"])),
    ("nn", dict(fn="knn_kd1", bounds="4 rows, 1 column, values 0..3 quarters", reach=["knn"])),
    ("nn", dict(fn="knn_kd2", bounds="3 rows, 2 columns, values 0..1 quarters", reach=["knn"])),
    ("nn", dict(fn="knn_ball1", bounds="3 rows, 1 column, values 0..3 quarters, manhattan", reach=["knn"])),
    ("nn", dict(fn="knn_ball2", bounds="3 rows, 2 columns, values 0..1 quarters", reach=["knn"])),
    ("nn", dict(fn="knn_wide", bounds="255..257 rows, 258 queries (several blocks), fixed but for one row's value", reach=["knn"])),
    ("nn", dict(fn="knn_wide_tree", bounds="258 rows, 258 queries, k-d and ball tree, fixed but for one row's value", reach=["knn"])),
    ("nn", dict(fn="knn_wide_par", bounds="515 rows in two blocks, 2 threads in either order, fixed but for one row's value", reach=["knn"])),
])
PROPS["P25"] = dict(level="model_checking", entries=[
    ("nn", dict(fn="rad_brute", bounds="3 rows, 1 column, 2 queries, values 0..3, any radius 0..3", reach=["rad"])),
    ("nn", dict(fn="rad_kd", bounds="3 rows, 1 column, 2 queries, values 0..2, any radius 0..2, leaf 1..2", reach=["rad"])),
    ("nn", dict(fn="rad_kd2", bounds="3 rows, 2 columns, values 0..1, float, leaf 1..2", reach=["rad"])),
    ("nn", dict(fn="rad_ball", bounds="3 rows, 1 column, values 0..2, leaf 1..2", reach=["rad"])),
    ("nn", dict(fn="rad_wide", bounds="255..257 rows, 258 queries (several blocks), fixed but for one row's value", reach=["rad"])),
    ("nn", dict(fn="rad_wide_tree", bounds="258 rows, 258 queries, k-d and ball tree, fixed but for one row's value", reach=["rad"])),
    ("nn", dict(fn="rad_wide_par", bounds="515 rows, 260 queries, 2 threads in either order, fixed but for one row's value", reach=["rad"])),
])
PROPS["P26"] = dict(level="model_checking", entries=[
    ("nn", dict(fn="pred_few", bounds="1..3 rows, 1..4 neighbours", reach=["few"])),
    ("nn", dict(fn="pred_replace", bounds="two label and target sets", reach=["replace"])),
    ("nn", dict(fn="pred_knn_class", bounds="3 rows, 2 queries, k=2", reach=["pred"])),
    ("nn", dict(fn="pred_knn_reg", bounds="3 rows, 2 queries, k=2", reach=["pred"])),
    ("nn", dict(fn="pred_rad_class", bounds="3 rows, 2 queries, radius 1", reach=["pred"])),
    ("nn", dict(fn="pred_rad_reg", bounds="3 rows, 2 queries, radius 1", reach=["pred"])),
])
UNITS["metr"] = dict(harness="h_metr.cpp", sources=METR + ["core/utilities/miscellaneous.cpp", "core/metrics/pairwise_distances_public.cpp", "core/utilities/aoclda_c_wrapper.cpp", "core/dynamic_dispatch/context.cpp", "core/utilities/da_utils.cpp", "core/utilities/fp16_helpers.cpp"])
PROPS["P27"] = dict(level="model_checking", entries=[
    ("metr", dict(fn="pd_args", bounds="all 32-bit sizes and leading dimensions up to 2 (distances up to 4)", reach=["args"])),
    ("metr", dict(fn="pd_direct", bounds="shapes up to 5 rows and 2 columns, entries -1..2", reach=["pd"])),
    ("metr", dict(fn="pd_gemm", bounds="shapes up to 5 rows and 2 columns, entries -1..2", reach=["pd"])),
    ("metr", dict(fn="pd_float", bounds="shapes up to 5 rows and 2 columns, entries -1..2", reach=["pd"])),
    ("metr", dict(fn="pd_shapes", bounds="1..9 by 1..7 rows, 1..5 columns, one free entry", reach=["pd"])),
    ("metr", dict(fn="pd_shapes_f", bounds="1..9 by 1..7 rows, 1..5 columns, one free entry", reach=["pd"])),
])
UNITS["ds"] = dict(harness="h_ds.cpp", sources=["core/data_management/interval_set.cpp", "core/utilities/da_utils.cpp", "core/dynamic_dispatch/context.cpp", "core/utilities/fp16_helpers.cpp"])
PROPS["P15"] = dict(level="model_checking", entries=[("ds", dict(fn="iset_ops", bounds="any 3 inserts and erases, any key, values -12..12", reach=["iset"]))])
PROPS["P16"] = dict(level="model_checking", entries=[
    ("ds", dict(fn="imap_ops", bounds="any 3 intervals, any key, values -12..12", reach=["imap"])),
    ("ds", dict(fn="imap_closest", bounds="3 intervals, any key", reach=["closest"]))])
PROPS["P17"] = dict(level="model_checking", entries=[
    ("ds", dict(fn="vec_ops", bounds="2 operations, sizes around the growth steps up to 129", reach=["vec"])),
    ("ds", dict(fn="vec_moved", bounds="one operation on a moved-from vector", reach=["moved"]))])
PROPS["P18"] = dict(level="model_checking", entries=[
    ("ds", dict(fn="lru_new", bounds="capacity<=3, 3 operations over 5 keys", reach=["lru"])),
    ("ds", dict(fn="lru_dup", bounds="capacity<=3, 3 operations over 5 keys", reach=["lru"]))])
UNITS["bstat"] = dict(harness="h_bstat.cpp", sources=BSTAT + ["core/basic_statistics/basic_statistics_public.cpp", "core/basic_statistics/row_to_col_major.cpp", "core/utilities/miscellaneous.cpp", "core/utilities/aoclda_c_wrapper.cpp", "core/dynamic_dispatch/context.cpp", "core/utilities/da_utils.cpp", "core/utilities/fp16_helpers.cpp"])
PROPS["P05"] = dict(level="model_checking", entries=[
    ("bstat", dict(fn="quant_def", bounds="2..4 values 0..3, two quantiles in eighths, 9 types", reach=["quant"])),
    ("bstat", dict(fn="quant_layout", bounds="shapes up to 4x3, both orders, 3 axes, padding, one free entry", reach=["quant"])),
    ("bstat", dict(fn="quant_float", bounds="as quant_layout, single precision", reach=["quant"])),
    ("bstat", dict(fn="quant_five", bounds="shapes up to 3x3, entries 0..2", reach=["five"])),
    ("bstat", dict(fn="quant_args", bounds="all 32-bit sizes and leading dimensions, any double q", reach=["args"])),
])
PROPS["P06"] = dict(level="model_checking", entries=[
    ("bstat", dict(fn="mom_free", bounds="shapes up to 2x4, entries -2..2 halves", reach=["moments"])),
    ("bstat", dict(fn="mom_tab", bounds="shapes up to 5x3, one free entry", reach=["moments"])),
    ("bstat", dict(fn="mom_float", bounds="as mom_free, single precision", reach=["moments"])),
    ("bstat", dict(fn="mom_kurt", bounds="shapes up to 5x3, one free entry", reach=["kurt"])),
    ("bstat", dict(fn="stdz_def", bounds="shapes up to 4x3, shift and scale null, zero or given", reach=["stdz"])),
    ("bstat", dict(fn="cov_def", bounds="shapes up to 4x3, one free entry", reach=["cov"])),
    ("bstat", dict(fn="stat_args", bounds="all 32-bit sizes and leading dimensions", reach=["args"])),
])
UNITS["tok"] = dict(harness="h_tok.cpp", sources=["core/csv/tokenizer.c"])
PROPS["P08"] = dict(level="model_checking", entries=[
    ("tok", dict(fn="tok_plain", bounds="any text of up to 5 bytes, all option combinations", reach=["tok"])),
    ("tok", dict(fn="tok_ws", bounds="any text of up to 5 bytes, whitespace delimiter", reach=["tok"])),
    ("tok", dict(fn="tok_skip", bounds="any text of up to 5 bytes before two rows, skipped rows", reach=["tok"])),
    ("tok", dict(fn="tok_chunk", bounds="any 4 bytes between two rows, read in chunks of 1..3 bytes", reach=["tok"])),
    ("tok", dict(fn="tok_grow", bounds="up to 27 rows of up to 4 fields, any last 2 bytes, chunks 1, 7, 64 and whole", reach=["tok"])),
])
FOREST = ["core/decision_forest/" + f for f in ("common/histogram.cpp", "common/idx_sorting.cpp", "common/scoring.cpp", "tree/decision_tree.cpp", "forest/decision_forest.cpp", "decision_tree_public.cpp", "decision_forest_public.cpp")]
UNITS["tree"] = dict(harness="h_tree.cpp", sources=HANDLE + FOREST)
PROPS["P19"] = dict(level="model_checking", entries=[
    ("tree", dict(fn="sort_intro", bounds="up to 5 values, any recursion budget 0..4", reach=["sort"])),
    ("tree", dict(fn="sort_intro_f", bounds="as sort_intro, single precision", reach=["sort"])),
    ("tree", dict(fn="sort_heap", bounds="up to 5 values", reach=["sort"])),
    ("tree", dict(fn="sort_bucket", bounds="up to 5 values, 3 categories", reach=["sort"])),
    ("tree", dict(fn="sort_compress", bounds="up to 5 draws of 4 samples", reach=["sort"])),
    ("tree", dict(fn="bins_def", bounds="4..5 samples, 2..3 bins, values 0..3", reach=["bins"])),
    ("tree", dict(fn="bins_par", bounds="as bins_def, 2 features, 2 threads in either order", reach=["bins"])),
    ("tree", dict(fn="bins_cont", bounds="4..5 samples, 2..3 bins, values 0..3", reach=["bins"])),
    ("tree", dict(fn="bins_quality", bounds="4..6 distinct samples, 2..3 bins", reach=["bins"])),
    ("tree", dict(fn="bins_sorted", bounds="6..8 sorted samples, steps 0 or 1, 2..4 bins", reach=["bins"])),
    ("tree", dict(fn="bins_sorted_f", bounds="as bins_sorted, single precision", reach=["bins"])),
    ("tree", dict(fn="bins_many", bounds="2..64 and 4175 bins of distinct values", reach=["bins"])),
])
PROPS["P20"] = dict(level="model_checking", entries=[
    ("tree", dict(fn="score_d", bounds="up to 3 classes of 0..3, 50, 997 or 20011 samples", reach=["score"])),
    ("tree", dict(fn="score_f", bounds="up to 3 classes of 0..3, 50, 997 or 20011 samples", reach=["score"])),
])
PROPS["P21"] = dict(level="model_checking", entries=[
    ("tree", dict(fn="tree_one", bounds="2..4 samples, 1 feature, any labels up to swapping them, all scores", reach=["tree"])),
    ("tree", dict(fn="tree_five", bounds="5 samples, 1 feature, any labels for the last three", reach=["tree"])),
    ("tree", dict(fn="tree_limits", bounds="4 samples, 1 feature, depth, impurity and score limits", reach=["tree"])),
    ("tree", dict(fn="tree_two", bounds="4 samples, 2 features, 2..3 classes, layouts, both precisions", reach=["tree"])),
    ("tree", dict(fn="tree_ties", bounds="6 samples of 2 values, at least 3 per node", reach=["tree"])),
    ("tree", dict(fn="tree_adjacent", bounds="4 samples of 4 neighbouring single precision values", reach=["tree"])),
    ("tree", dict(fn="tree_huge", bounds="3 samples of 5 huge values", reach=["tree"])),
])
PROPS["P34"] = dict(level="model_checking", entries=[
    ("tree", dict(fn="tree_hist", bounds="5..6 samples, 2 features, 2..3 bins", reach=["tree"])),
    ("tree", dict(fn="tree_cat", bounds="5 samples, 1 feature of 3 categories", reach=["tree"])),
    ("tree", dict(fn="tree_cat_boot", bounds="4 samples drawn with repetition, 1 feature of 3 categories", reach=["tree"])),
    ("tree", dict(fn="tree_cat_hist", bounds="8 samples, 1 binned feature of 3 categories", reach=["tree"])),
    ("tree", dict(fn="tree_boot", bounds="4 samples drawn with repetition, raw and binned", reach=["tree"])),
    ("tree", dict(fn="tree_par", bounds="4 samples, 8 features, 2 threads in either order", reach=["tree"])),
])
UNITS["forest"] = dict(harness="h_forest.cpp", sources=HANDLE + FOREST)
PROPS["P22"] = dict(level="model_checking", entries=[
    ("forest", dict(fn="infer_tree", bounds="2 queries of any half-integer value, layouts, shallow and deep trees", reach=["infer"])),
    ("forest", dict(fn="infer_tree_f", bounds="as infer_tree, single precision", reach=["infer"])),
    ("forest", dict(fn="infer_args_tree", bounds="sizes and leading dimensions -12..12 and the 32-bit extremes", reach=["args"])),
    ("forest", dict(fn="refit_tree", bounds="every pair of data and training calls of a list of 9", reach=["refit"])),
])
PROPS["P23"] = dict(level="model_checking", entries=[
    ("forest", dict(fn="infer_forest", bounds="2 trees, 3 queries, block size 1..2, 2 threads in either order", reach=["infer"])),
    ("forest", dict(fn="infer_forest_f", bounds="as infer_forest, single precision", reach=["infer"])),
    ("forest", dict(fn="infer_args_forest", bounds="sizes and leading dimensions -12..12 and the 32-bit extremes", reach=["args"])),
    ("forest", dict(fn="refit_forest", bounds="every pair of data and training calls of a list of 9", reach=["refit"])),
])
INTERP = ["core/interpolation/" + f for f in ("interpolation.cpp", "cubic_spline/cubic_spline.cpp")]
UNITS["interp"] = dict(harness="h_interp.cpp", sources=HANDLE + INTERP)
PROPS["P28"] = dict(level="model_checking", entries=[
    ("interp", dict(fn="spl_def", bounds="2..5 sites, 4 spline types, every single free value, slope or boundary value", reach=["spline"])),
    ("interp", dict(fn="spl_dim", bounds="4 sites, 2 dimensions, layouts and padding, one free entry", reach=["spline"])),
    ("interp", dict(fn="spl_float", bounds="as spl_dim, single precision", reach=["spline"])),
    ("interp", dict(fn="spl_eval", bounds="2..4 sites, any set of orders, a free point among sites, inner and outer points", reach=["eval"])),
    ("interp", dict(fn="spl_eval_f", bounds="as spl_eval, single precision", reach=["eval"])),
    ("interp", dict(fn="spl_hist", bounds="any 3 settings of a list of 11", reach=["history"])),
])
PROPS["P29"] = dict(level="model_checking", entries=[
    ("interp", dict(fn="cells_uni", bounds="8 uniform site sets, points at, next to and far from the sites", reach=["cells"])),
    ("interp", dict(fn="cells_uni_f", bounds="as cells_uni, single precision", reach=["cells"])),
    ("interp", dict(fn="cells_gen", bounds="28 site sets, points at, next to and far from the sites", reach=["cells"])),
    ("interp", dict(fn="cells_gen_f", bounds="as cells_gen, single precision", reach=["cells"])),
    ("interp", dict(fn="cells_any", bounds="3..4 sites, any inner site and point in halves", reach=["cells"])),
    ("interp", dict(fn="interp_args", bounds="every call at every stage, sizes -12..12 and the 32-bit extremes", reach=["args"])),
    ("interp", dict(fn="interp_retry", bounds="refused sites, then 2..4 sites", reach=["retry"])),
])
UNITS["mp"] = dict(harness="h_mp.cpp", sources=HANDLE + FOREST + NN + METR + BSTAT)
PROPS["P30"] = dict(level="model_checking", entries=[
    ("mp", dict(fn="mp_tree", bounds="5 samples, shallow and deep, raw and binned, any half-integer query", reach=["saved"])),
    ("mp", dict(fn="mp_tree_f", bounds="as mp_tree, single precision", reach=["saved"])),
    ("mp", dict(fn="mp_forest", bounds="2 trees, as mp_tree", reach=["saved"])),
    ("mp", dict(fn="mp_forest_f", bounds="2 trees, as mp_tree, single precision", reach=["saved"])),
    ("mp", dict(fn="mp_brute", bounds="5 rows, 2 columns, 5 metrics, 5 uses, a free query coordinate", reach=["saved"])),
    ("mp", dict(fn="mp_kd", bounds="as mp_brute, 3 metrics", reach=["saved"])),
    ("mp", dict(fn="mp_ball", bounds="as mp_brute, 3 metrics", reach=["saved"])),
    ("mp", dict(fn="mp_kd_f", bounds="as mp_kd, single precision", reach=["saved"])),
    ("mp", dict(fn="mp_outlier", bounds="3 algorithms, 4 ways to handle outliers, a query within reach and one without neighbours", reach=["saved"])),
    ("mp", dict(fn="mp_outlier_f", bounds="as mp_outlier, single precision", reach=["saved"])),
    ("mp", dict(fn="mp_reuse", bounds="5 model kinds, free query", reach=["reused"])),
    ("mp", dict(fn="mp_stream", bounds="every scalar value, strings and vectors of up to 3 elements of any value", reach=["stream"])),
    ("mp", dict(fn="mp_user", bounds="shapes up to 3x3, layouts and padding", reach=["user"])),
    ("mp", dict(fn="mp_user_i", bounds="as mp_user, any integers", reach=["user"])),
    ("mp", dict(fn="mp_user_big", bounds="any non-negative 32-bit sizes", reach=["big"])),
])
PROPS["P31"] = dict(level="model_checking", entries=[
    ("mp", dict(fn="ld_trunc_tree", bounds="every shorter length of a saved tree or forest", reach=["refused"])),
    ("mp", dict(fn="ld_trunc_nn", bounds="every shorter length of a saved brute-force, k-d or ball tree model", reach=["refused"])),
    ("mp", dict(fn="ld_word_tree", bounds="every position of a saved model, the 8-byte word there replaced by -1, 0 or an extreme (thorough: 12 values)", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_word_forest", bounds="every position of a saved model, the 8-byte word there replaced by -1, 0 or an extreme (thorough: 12 values)", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_word_nn", bounds="every position of a saved model, the 8-byte word there replaced by -1, 0 or an extreme (thorough: 12 values)", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_byte_meta", bounds="every byte of the leading fields replaced by any byte, except the model kind", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_byte_nn_f", bounds="every position of the fitted model, the byte there near 0 or chosen (thorough: up to 40)", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_byte_tree", bounds="every position of the fitted model, the byte there near 0 or chosen (thorough: up to 40)", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_byte_forest", bounds="every position of the fitted model, the byte there near 0 or chosen (thorough: up to 40)", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_byte_nn", bounds="every position of the fitted model, the byte there near 0 or chosen (thorough: up to 40)", reach=["loaded or refused"])),
    ("mp", dict(fn="ld_opt_int", bounds="two bounded options, every 64-bit value stored", reach=["option"])),
    ("mp", dict(fn="ld_opt_real", bounds="two bounded options, every double stored (NaN and infinities included)", reach=["option"])),
    ("mp", dict(fn="ld_opt_text", bounds="one letter of a stored label replaced by any letter", reach=["option"])),
])
UNITS["opt"] = dict(harness="h_opt.cpp", sources=HANDLE + NN + METR + BSTAT + FOREST)
PROPS["P03"] = dict(level="model_checking", entries=[
    ("opt", dict(fn="opt_int", bounds="every bound kind, any 32-bit bounds, default and two values", reach=["numeric"])),
    ("opt", dict(fn="opt_real", bounds="every bound kind, any double bounds, default and two values", reach=["numeric"])),
    ("opt", dict(fn="opt_real_f", bounds="every bound kind, any float bounds, default and two values", reach=["numeric"])),
    ("opt", dict(fn="opt_label", bounds="texts of up to 4 of 7 letters and blanks", reach=["label"])),
    ("opt", dict(fn="opt_label_any", bounds="any text of up to 2 characters (thorough: 3)", reach=["label"])),
    ("opt", dict(fn="opt_free", bounds="any text of up to 3 characters", reach=["free"])),
    ("opt", dict(fn="opt_registry", bounds="names of up to 3 of 9 letters and blanks, 4 types, locked or not, duplicates", reach=["registry"])),
    ("opt", dict(fn="opt_api", bounds="any integer or double for three bounded options", reach=["values"])),
    ("opt", dict(fn="opt_api_f", bounds="any integer or float for three bounded options", reach=["values"])),
    ("opt", dict(fn="opt_types", bounds="every precision, 4 names, 4 types, set and get", reach=["types"])),
    ("opt", dict(fn="opt_buffer", bounds="4 labels, any buffer size -2..14", reach=["buffer"])),
    ("opt", dict(fn="opt_sequence", bounds="3 calls (thorough: 4), two options, 5 labels, any value -3..9", reach=["sequence"])),
])
ALL = HANDLE + NN + METR + BSTAT + FOREST + INTERP + ["core/" + f for f in (
    "approximate_neighbors/approximate_neighbors.cpp", "approximate_neighbors/approximate_neighbors_public.cpp", "clustering/dbscan/dbscan.cpp", "clustering/dbscan/dbscan_public.cpp",
    "clustering/kmeans/kmeans.cpp", "clustering/kmeans/kmeans_kernels.cpp", "clustering/kmeans/kmeans_public.cpp", "factorization/kernel_pca/kernel_pca.cpp", "factorization/kernel_pca_public.cpp",
    "factorization/pca/pca.cpp", "factorization/pca_public.cpp", "kernel_functions/kernel_functions.cpp", "svm/svm.cpp", "svm/base_svm.cpp", "svm/c_svm.cpp", "svm/nu_svm.cpp", "svm/svm_public.cpp",
    "linear_model/linear_model.cpp", "linear_model/linmod_cholesky.cpp", "linear_model/linmod_qr.cpp", "linear_model/linmod_svd.cpp", "dimension_reduction/tsne/barnes_hut.cpp", "dimension_reduction/tsne/tsne_kernels.cpp", "svm/svm_kernels.cpp", "linear_model/linmod_public.cpp", "nlls/nlls.cpp", "nlls/nlls_public.cpp", "optimization/optimization.cpp", "dimension_reduction/tsne/tsne.cpp", "dimension_reduction/tsne/tsne_public.cpp")]
UNITS["hnd"] = dict(harness="h_hnd.cpp", sources=ALL)
PROPS["P04"] = dict(level="model_checking", entries=[
    ("hnd", dict(fn="hnd_cycle", bounds="every type and precision, two handles in turn", reach=["cycle"])),
    ("hnd", dict(fn="hnd_null", bounds="138 public functions", reach=["null"])),
    ("hnd", dict(fn="hnd_wrong", bounds="138 public functions on handles of every type and precision", reach=["wrong"])),
    ("hnd", dict(fn="hnd_early", bounds="every public function that needs earlier results, on a fresh handle", reach=["early"])),
    ("hnd", dict(fn="hnd_results", bounds="64 result codes, every type, precision and result kind, any buffer size -1..8", reach=["results"])),
    ("hnd", dict(fn="hnd_oom", bounds="every type and precision, every single failing allocation", reach=["oom", "fine"])),
    ("hnd", dict(fn="hnd_text", bounds="3 of 4 calls", reach=["text"])),
    ("hnd", dict(fn="hnd_args", bounds="138 public functions, any one array missing or any one size not positive", reach=["args"])),
    ("hnd", dict(fn="hnd_refail", bounds="10 models, a valid or no first data set, then a rejected one (null data, a size of 0 or -1, leading dimension 0), then the computation", reach=["refail"])),
])

DBS = ["core/clustering/dbscan/dbscan.cpp", "core/clustering/dbscan/dbscan_public.cpp"]
UNITS["dbscan"] = dict(harness="h_dbscan.cpp", sources=HANDLE + NN + METR + BSTAT + DBS)
PROPS["P32"] = dict(level="model_checking", entries=[
    ("dbscan", dict(fn="dbs_serial", bounds="4 samples at 0..3, radius 0..3.5 in halves, min samples 1..4, one thread", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_float", bounds="3 samples, row-major, single precision", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_default", bounds="4 samples at 0..2, automatic algorithm, default minimum of 5", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_metrics", bounds="3 samples at 0..2, 3 algorithms, 7 metrics, leaf sizes 1 and 2, row-major", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_par", bounds="4 samples at 0..3, 2 threads in both orders, min samples 1..3", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_wide", bounds="256..258 samples (several blocks), fixed but for one that may join two chains", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_wide_tree", bounds="as dbs_wide, 258 samples, k-d and ball tree", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_wide_par", bounds="as dbs_wide, 515 samples, single precision, 3 algorithms, 2 threads in either order", reach=["dbscan"])),
    ("dbscan", dict(fn="dbs_border", bounds="5 samples at 0..4, radius 1, min samples 3, one or two threads", reach=["dbscan"])),
])
UNITS["arr"] = dict(harness="h_arr.cpp", sources=list(dict.fromkeys(HANDLE + BSTAT + ["core/basic_statistics/row_to_col_major.cpp", "core/utilities/utils_public.cpp", "core/utilities/train_test_split.cpp"])))
PROPS["P38"] = dict(level="model_checking", entries=[
    ("arr", dict(fn="arr_check", bounds="2x2 matrices of any double bit patterns, any padding", reach=["check"])),
    ("arr", dict(fn="arr_check_f", bounds="2x2 matrices of any float bit patterns, any padding", reach=["check"])),
    ("arr", dict(fn="arr_sizes", bounds="all 32-bit sizes", reach=["refused"])),
    ("arr", dict(fn="arr_switch", bounds="up to 3x3, padding 0..1", reach=["switched"])),
    ("arr", dict(fn="arr_switch_in", bounds="up to 3x3, padding 0..1, in place, float", reach=["switched"])),
    ("arr", dict(fn="arr_store", bounds="up to 2x3, every mode, leading dimension -1..4, NaN anywhere", reach=["stored", "copied"])),
    ("arr", dict(fn="arr_store_f", bounds="the same in single precision, 2 threads in either order", reach=["stored", "copied"])),
    ("arr", dict(fn="arr_checks", bounds="up to 3 elements or 3x2", reach=["checked"])),
    ("arr", dict(fn="arr_results", bounds="up to 3x3", reach=["results"])),
    ("arr", dict(fn="arr_transpose", bounds="up to 3x3 free, 65 rows or columns with fixed values, 2 threads in either order", reach=["transposed"])),
    ("arr", dict(fn="arr_cat", bounds="2 values, one of any bit pattern", reach=["categorical"])),
    ("arr", dict(fn="arr_cat_f", bounds="the same in single precision", reach=["categorical"])),
    ("arr", dict(fn="arr_blocks", bounds="1..100000 samples", reach=["blocks"])),
    ("arr", dict(fn="arr_skinny", bounds="1..5000 samples", reach=["blocks"])),
    ("arr", dict(fn="arr_axis", bounds="all 32-bit sizes", reach=["axis"])),
])
UNITS["wrap"] = dict(harness="h_wrap.cpp", sources=["core/utilities/aoclda_c_wrapper.cpp"])
PROPS["P40"] = dict(level="model_checking", entries=[
    ("wrap", dict(fn="wrap_all", bounds="all 238 functions of the C interface that have a C++ counterpart, any argument values", reach=["wrapped"])),
])
UNITS["num"] = dict(harness="h_num.cpp", sources=["core/csv/tokenizer.c"])
PROPS["P09"] = dict(level="model_checking", entries=[
    ("num", dict(fn="num_i32", bounds="any text of up to 4 bytes", reach=["num"])),
    ("num", dict(fn="num_i64", bounds="any text of up to 4 bytes", reach=["num"])),
    ("num", dict(fn="num_e32", bounds="numbers next to the limits with any last 2 bytes", reach=["num"])),
    ("num", dict(fn="num_e64", bounds="numbers next to the limits with any last 2 bytes", reach=["num"])),
    ("num", dict(fn="num_f64", bounds="any text of up to 4 bytes", reach=["num"])),
    ("num", dict(fn="num_f32", bounds="any text of up to 4 bytes", reach=["num"])),
    ("num", dict(fn="num_long64", bounds="15..19 digits after up to 20 zeros, any position of the point", reach=["long"])),
    ("num", dict(fn="num_long32", bounds="7..11 digits after up to 20 zeros, any position of the point", reach=["long"])),
    ("num", dict(fn="num_bool", bounds="any text of 3 to 7 bytes", reach=["num"])),
    ("num", dict(fn="num_str", bounds="any text of 1 to 4 bytes", reach=["num"])),
])
STORE = ["core/data_management/" + f for f in ("data_store.cpp", "data_store_public.cpp", "interval_set.cpp")] + ["core/csv/tokenizer.c", "core/csv/read_csv_public.cpp", "core/dynamic_dispatch/context.cpp", "core/utilities/da_utils.cpp", "core/utilities/fp16_helpers.cpp"]
UNITS["store"] = dict(harness="h_store.cpp", sources=STORE)
PROPS["P11"] = dict(level="model_checking", entries=[
    ("store", dict(fn="store_rows", bounds="3 columns in any grouping and types, 2 row parts of any width, type and height 1..2", reach=["complete"])),
    ("store", dict(fn="store_args", bounds="all 32-bit sizes", reach=["args"])),
])
PROPS["P12"] = dict(level="model_checking", entries=[
    ("store", dict(fn="sel_ops", bounds="2 operations on 2 selections of a 5x4 store in 4 blocks", reach=["sel"])),
    ("store", dict(fn="sel_types", bounds="2 operations on 2 selections of a 5x4 store with two types", reach=["sel"])),
])
PROPS["P13"] = dict(level="model_checking", entries=[
    ("store", dict(fn="store_miss", bounds="3x3 store, any missing elements, any selection", reach=["miss"])),
    ("store", dict(fn="store_miss_all", bounds="3x3 store, missing elements in every selected row", reach=[])),
])
PROPS["P14"] = dict(level="model_checking", entries=[
    ("store", dict(fn="store_labels", bounds="3 label operations on 4 columns, 3 labels", reach=["lab"])),
    ("store", dict(fn="store_hconcat", bounds="stores of 2 and 3 columns, 1..3 rows, row blocks, labels", reach=["hcat"])),
])
UNITS["csv"] = dict(harness="h_csv.cpp", sources=STORE + ["core/utilities/options_public.cpp"], wrap=["fopen", "fread", "fclose", "ferror"])
PROPS["P10"] = dict(level="model_checking", entries=[
    ("csv", dict(fn="csv_f64", bounds="files of up to 4 lines and 2..3 fields, any digits, a field of any kind, a ragged line", reach=["read", "bad"])),
    ("csv", dict(fn="csv_f32", bounds="as csv_f64", reach=["read", "bad"])),
    ("csv", dict(fn="csv_int", bounds="as csv_f64", reach=["read", "bad"])),
    ("csv", dict(fn="csv_bool", bounds="as csv_f64", reach=["read", "bad"])),
    ("csv", dict(fn="csv_str", bounds="files of up to 3 lines and 2..3 fields", reach=["read"])),
    ("csv", dict(fn="csv_auto", bounds="3 lines of 1 field of any kind, headings, precision, orders", reach=["auto"])),
    ("csv", dict(fn="csv_auto2", bounds="2 lines of 2 fields of any kind, headings, precision, orders", reach=["auto"])),
    ("csv", dict(fn="csv_typed", bounds="2 lines of 2 fields of any kind, 6 types, a ragged line", reach=["typed", "bad"])),
])

#define WRAPPED 238
#ifdef STANDINS
template <> da_status da_handle_init<double>(da_handle * a0, da_handle_type a1) { return rec(0, a0, a1); }
template <> da_status da_handle_init<float>(da_handle * a0, da_handle_type a1) { return rec(1, a0, a1); }
template <> da_status da_handle_get_result<double>(const da_handle a0, da_result a1, da_int * a2, double * a3) { return rec(2, a0, a1, a2, a3); }
template <> da_status da_handle_get_result<float>(const da_handle a0, da_result a1, da_int * a2, float * a3) { return rec(3, a0, a1, a2, a3); }
template <> da_status da_handle_get_result<da_int>(const da_handle a0, da_result a1, da_int * a2, da_int * a3) { return rec(4, a0, a1, a2, a3); }
template <> da_status da_options_set<double>(da_handle a0, const char * a1, double a2) { return rec(5, a0, a1, a2); }
template <> da_status da_options_set<float>(da_handle a0, const char * a1, float a2) { return rec(6, a0, a1, a2); }
template <> da_status da_options_set<da_int>(da_handle a0, const char * a1, da_int a2) { return rec(7, a0, a1, a2); }
template <> da_status da_options_set<const char *>(da_handle a0, const char * a1, const char * a2) { return rec(8, a0, a1, a2); }
template <> da_status da_options_get<double>(da_handle a0, const char * a1, double * a2) { return rec(9, a0, a1, a2); }
template <> da_status da_options_get<float>(da_handle a0, const char * a1, float * a2) { return rec(10, a0, a1, a2); }
template <> da_status da_options_get<da_int>(da_handle a0, const char * a1, da_int * a2) { return rec(11, a0, a1, a2); }
da_status da_options_get(da_handle a0, const char * a1, char * a2, da_int * a3, da_int * a4) { return rec(12, a0, a1, a2, a3, a4); }
template <> da_status da_datastore_options_set<double>(da_datastore a0, const char * a1, double a2) { return rec(13, a0, a1, a2); }
template <> da_status da_datastore_options_set<float>(da_datastore a0, const char * a1, float a2) { return rec(14, a0, a1, a2); }
template <> da_status da_datastore_options_set<da_int>(da_datastore a0, const char * a1, da_int a2) { return rec(15, a0, a1, a2); }
template <> da_status da_datastore_options_set<const char *>(da_datastore a0, const char * a1, const char * a2) { return rec(16, a0, a1, a2); }
template <> da_status da_datastore_options_get<double>(da_datastore a0, const char * a1, double * a2) { return rec(17, a0, a1, a2); }
template <> da_status da_datastore_options_get<float>(da_datastore a0, const char * a1, float * a2) { return rec(18, a0, a1, a2); }
template <> da_status da_datastore_options_get<da_int>(da_datastore a0, const char * a1, da_int * a2) { return rec(19, a0, a1, a2); }
da_status da_datastore_options_get(da_datastore a0, const char * a1, char * a2, da_int * a3) { return rec(20, a0, a1, a2, *a3); }
template <> da_status da_read_csv<double>(da_datastore a0, const char * a1, double ** a2, da_int * a3, da_int * a4, char *** a5) { return rec(21, a0, a1, a2, a3, a4, a5); }
template <> da_status da_read_csv<float>(da_datastore a0, const char * a1, float ** a2, da_int * a3, da_int * a4, char *** a5) { return rec(22, a0, a1, a2, a3, a4, a5); }
template <> da_status da_read_csv<da_int>(da_datastore a0, const char * a1, da_int ** a2, da_int * a3, da_int * a4, char *** a5) { return rec(23, a0, a1, a2, a3, a4, a5); }
template <> da_status da_read_csv<uint8_t>(da_datastore a0, const char * a1, uint8_t ** a2, da_int * a3, da_int * a4, char *** a5) { return rec(24, a0, a1, a2, a3, a4, a5); }
template <> da_status da_read_csv<char *>(da_datastore a0, const char * a1, char *** a2, da_int * a3, da_int * a4, char *** a5) { return rec(25, a0, a1, a2, a3, a4, a5); }
template <> da_status da_data_load_col<double>(da_datastore a0, da_int a1, da_int a2, double * a3, da_order a4, da_int a5) { return rec(26, a0, a1, a2, a3, a4, a5); }
template <> da_status da_data_load_col<float>(da_datastore a0, da_int a1, da_int a2, float * a3, da_order a4, da_int a5) { return rec(27, a0, a1, a2, a3, a4, a5); }
template <> da_status da_data_load_col<da_int>(da_datastore a0, da_int a1, da_int a2, da_int * a3, da_order a4, da_int a5) { return rec(28, a0, a1, a2, a3, a4, a5); }
template <> da_status da_data_load_col<uint8_t>(da_datastore a0, da_int a1, da_int a2, uint8_t * a3, da_order a4, da_int a5) { return rec(29, a0, a1, a2, a3, a4, a5); }
da_status da_data_load_col(da_datastore a0, da_int a1, da_int a2, const char ** a3, da_order a4) { return rec(30, a0, a1, a2, a3, a4); }
template <> da_status da_data_load_row<double>(da_datastore a0, da_int a1, da_int a2, double * a3, da_order a4, da_int a5) { return rec(31, a0, a1, a2, a3, a4, a5); }
template <> da_status da_data_load_row<float>(da_datastore a0, da_int a1, da_int a2, float * a3, da_order a4, da_int a5) { return rec(32, a0, a1, a2, a3, a4, a5); }
template <> da_status da_data_load_row<da_int>(da_datastore a0, da_int a1, da_int a2, da_int * a3, da_order a4, da_int a5) { return rec(33, a0, a1, a2, a3, a4, a5); }
template <> da_status da_data_load_row<uint8_t>(da_datastore a0, da_int a1, da_int a2, uint8_t * a3, da_order a4, da_int a5) { return rec(34, a0, a1, a2, a3, a4, a5); }
da_status da_data_load_row(da_datastore a0, da_int a1, da_int a2, const char ** a3, da_order a4) { return rec(35, a0, a1, a2, a3, a4); }
template <> da_status da_data_extract_column<double>(da_datastore a0, da_int a1, da_int a2, double * a3) { return rec(36, a0, a1, a2, a3); }
template <> da_status da_data_extract_column<float>(da_datastore a0, da_int a1, da_int a2, float * a3) { return rec(37, a0, a1, a2, a3); }
template <> da_status da_data_extract_column<da_int>(da_datastore a0, da_int a1, da_int a2, da_int * a3) { return rec(38, a0, a1, a2, a3); }
template <> da_status da_data_extract_column<uint8_t>(da_datastore a0, da_int a1, da_int a2, uint8_t * a3) { return rec(39, a0, a1, a2, a3); }
template <> da_status da_data_extract_column<char *>(da_datastore a0, da_int a1, da_int a2, char ** a3) { return rec(40, a0, a1, a2, a3); }
template <> da_status da_data_extract_selection<double>(da_datastore a0, const char * a1, da_order a2, double * a3, da_int a4) { return rec(41, a0, a1, a2, a3, a4); }
template <> da_status da_data_extract_selection<float>(da_datastore a0, const char * a1, da_order a2, float * a3, da_int a4) { return rec(42, a0, a1, a2, a3, a4); }
template <> da_status da_data_extract_selection<da_int>(da_datastore a0, const char * a1, da_order a2, da_int * a3, da_int a4) { return rec(43, a0, a1, a2, a3, a4); }
template <> da_status da_data_extract_selection<uint8_t>(da_datastore a0, const char * a1, da_order a2, uint8_t * a3, da_int a4) { return rec(44, a0, a1, a2, a3, a4); }
template <> da_status da_data_get_element<double>(da_datastore a0, da_int a1, da_int a2, double * a3) { return rec(45, a0, a1, a2, a3); }
template <> da_status da_data_get_element<float>(da_datastore a0, da_int a1, da_int a2, float * a3) { return rec(46, a0, a1, a2, a3); }
template <> da_status da_data_get_element<da_int>(da_datastore a0, da_int a1, da_int a2, da_int * a3) { return rec(47, a0, a1, a2, a3); }
template <> da_status da_data_get_element<uint8_t>(da_datastore a0, da_int a1, da_int a2, uint8_t * a3) { return rec(48, a0, a1, a2, a3); }
template <> da_status da_data_set_element<double>(da_datastore a0, da_int a1, da_int a2, double a3) { return rec(49, a0, a1, a2, a3); }
template <> da_status da_data_set_element<float>(da_datastore a0, da_int a1, da_int a2, float a3) { return rec(50, a0, a1, a2, a3); }
template <> da_status da_data_set_element<da_int>(da_datastore a0, da_int a1, da_int a2, da_int a3) { return rec(51, a0, a1, a2, a3); }
template <> da_status da_data_set_element<uint8_t>(da_datastore a0, da_int a1, da_int a2, uint8_t a3) { return rec(52, a0, a1, a2, a3); }
template <> da_status da_mean<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, double * a6) { return rec(53, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_mean<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, float * a6) { return rec(54, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_harmonic_mean<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, double * a6) { return rec(55, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_harmonic_mean<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, float * a6) { return rec(56, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_geometric_mean<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, double * a6) { return rec(57, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_geometric_mean<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, float * a6) { return rec(58, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_variance<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, da_int a6, double * a7, double * a8) { return rec(59, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_variance<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, da_int a6, float * a7, float * a8) { return rec(60, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_skewness<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, double * a6, double * a7, double * a8) { return rec(61, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_skewness<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, float * a6, float * a7, float * a8) { return rec(62, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_kurtosis<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, double * a6, double * a7, double * a8) { return rec(63, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_kurtosis<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, float * a6, float * a7, float * a8) { return rec(64, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_moment<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, da_int a6, da_int a7, double * a8, double * a9) { return rec(65, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_moment<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, da_int a6, da_int a7, float * a8, float * a9) { return rec(66, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_quantile<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, const double * a6, da_int a7, double * a8, da_quantile_type a9) { return rec(67, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_quantile<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, const float * a6, da_int a7, float * a8, da_quantile_type a9) { return rec(68, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_five_point_summary<double>(da_order a0, da_axis a1, da_int a2, da_int a3, const double * a4, da_int a5, double * a6, double * a7, double * a8, double * a9, double * a10) { return rec(69, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
template <> da_status da_five_point_summary<float>(da_order a0, da_axis a1, da_int a2, da_int a3, const float * a4, da_int a5, float * a6, float * a7, float * a8, float * a9, float * a10) { return rec(70, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
template <> da_status da_standardize<double>(da_order a0, da_axis a1, da_int a2, da_int a3, double * a4, da_int a5, da_int a6, da_int a7, double * a8, double * a9) { return rec(71, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_standardize<float>(da_order a0, da_axis a1, da_int a2, da_int a3, float * a4, da_int a5, da_int a6, da_int a7, float * a8, float * a9) { return rec(72, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_covariance_matrix<double>(da_order a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int a5, double * a6, da_int a7, da_int a8) { return rec(73, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_covariance_matrix<float>(da_order a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int a5, float * a6, da_int a7, da_int a8) { return rec(74, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_correlation_matrix<double>(da_order a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(75, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_correlation_matrix<float>(da_order a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(76, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_linmod_select_model<double>(da_handle a0, linmod_model a1) { return rec(77, a0, a1); }
template <> da_status da_linmod_select_model<float>(da_handle a0, linmod_model a1) { return rec(78, a0, a1); }
template <> da_status da_linmod_define_features<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, const double * a5) { return rec(79, a0, a1, a2, a3, a4, a5); }
template <> da_status da_linmod_define_features<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, const float * a5) { return rec(80, a0, a1, a2, a3, a4, a5); }
template <> da_status da_linmod_fit<double>(da_handle a0) { return rec(81, a0); }
template <> da_status da_linmod_fit<float>(da_handle a0) { return rec(82, a0); }
template <> da_status da_linmod_fit_start<double>(da_handle a0, da_int a1, const double * a2) { return rec(83, a0, a1, a2); }
template <> da_status da_linmod_fit_start<float>(da_handle a0, da_int a1, const float * a2) { return rec(84, a0, a1, a2); }
template <> da_status da_linmod_evaluate_model<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, const double * a6, double * a7) { return rec(85, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_linmod_evaluate_model<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, const float * a6, float * a7) { return rec(86, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_pca_set_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(87, a0, a1, a2, a3, a4); }
template <> da_status da_pca_set_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(88, a0, a1, a2, a3, a4); }
template <> da_status da_pca_compute<double>(da_handle a0) { return rec(89, a0); }
template <> da_status da_pca_compute<float>(da_handle a0) { return rec(90, a0); }
template <> da_status da_pca_transform<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(91, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_pca_transform<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(92, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_pca_inverse_transform<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(93, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_pca_inverse_transform<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(94, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_kernel_pca_set_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(95, a0, a1, a2, a3, a4); }
template <> da_status da_kernel_pca_set_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(96, a0, a1, a2, a3, a4); }
template <> da_status da_kernel_pca_compute<double>(da_handle a0) { return rec(97, a0); }
template <> da_status da_kernel_pca_compute<float>(da_handle a0) { return rec(98, a0); }
template <> da_status da_kernel_pca_transform<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(99, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_kernel_pca_transform<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(100, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_kernel_pca_inverse_transform<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(101, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_kernel_pca_inverse_transform<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(102, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_tsne_set_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(103, a0, a1, a2, a3, a4); }
template <> da_status da_tsne_set_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(104, a0, a1, a2, a3, a4); }
template <> da_status da_tsne_set_init_embedding<double>(da_handle a0, const double * a1, da_int a2) { return rec(105, a0, a1, a2); }
template <> da_status da_tsne_set_init_embedding<float>(da_handle a0, const float * a1, da_int a2) { return rec(106, a0, a1, a2); }
template <> da_status da_tsne_compute<double>(da_handle a0) { return rec(107, a0); }
template <> da_status da_tsne_compute<float>(da_handle a0) { return rec(108, a0); }
template <> da_status da_kmeans_set_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(109, a0, a1, a2, a3, a4); }
template <> da_status da_kmeans_set_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(110, a0, a1, a2, a3, a4); }
template <> da_status da_kmeans_set_init_centres<double>(da_handle a0, const double * a1, da_int a2) { return rec(111, a0, a1, a2); }
template <> da_status da_kmeans_set_init_centres<float>(da_handle a0, const float * a1, da_int a2) { return rec(112, a0, a1, a2); }
template <> da_status da_kmeans_compute<double>(da_handle a0) { return rec(113, a0); }
template <> da_status da_kmeans_compute<float>(da_handle a0) { return rec(114, a0); }
template <> da_status da_kmeans_transform<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(115, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_kmeans_transform<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(116, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_kmeans_predict<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int * a5) { return rec(117, a0, a1, a2, a3, a4, a5); }
template <> da_status da_kmeans_predict<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int * a5) { return rec(118, a0, a1, a2, a3, a4, a5); }
template <> da_status da_dbscan_set_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(119, a0, a1, a2, a3, a4); }
template <> da_status da_dbscan_set_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(120, a0, a1, a2, a3, a4); }
template <> da_status da_dbscan_compute<double>(da_handle a0) { return rec(121, a0); }
template <> da_status da_dbscan_compute<float>(da_handle a0) { return rec(122, a0); }
template <> da_status da_tree_set_training_data<double>(da_handle a0, da_int a1, da_int a2, da_int a3, const double * a4, da_int a5, const da_int * a6, const da_int * a7) { return rec(123, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_tree_set_training_data<float>(da_handle a0, da_int a1, da_int a2, da_int a3, const float * a4, da_int a5, const da_int * a6, const da_int * a7) { return rec(124, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_tree_fit<double>(da_handle a0) { return rec(125, a0); }
template <> da_status da_tree_fit<float>(da_handle a0) { return rec(126, a0); }
template <> da_status da_tree_predict<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int * a5) { return rec(127, a0, a1, a2, a3, a4, a5); }
template <> da_status da_tree_predict<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int * a5) { return rec(128, a0, a1, a2, a3, a4, a5); }
template <> da_status da_tree_predict_proba<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6, da_int a7) { return rec(129, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_tree_predict_proba<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6, da_int a7) { return rec(130, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_tree_predict_log_proba<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6, da_int a7) { return rec(131, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_tree_predict_log_proba<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6, da_int a7) { return rec(132, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_tree_score<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, const da_int * a5, double * a6) { return rec(133, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_tree_score<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, const da_int * a5, float * a6) { return rec(134, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_forest_set_training_data<double>(da_handle a0, da_int a1, da_int a2, da_int a3, const double * a4, da_int a5, const da_int * a6, const da_int * a7) { return rec(135, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_forest_set_training_data<float>(da_handle a0, da_int a1, da_int a2, da_int a3, const float * a4, da_int a5, const da_int * a6, const da_int * a7) { return rec(136, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_forest_fit<double>(da_handle a0) { return rec(137, a0); }
template <> da_status da_forest_fit<float>(da_handle a0) { return rec(138, a0); }
template <> da_status da_forest_predict<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int * a5) { return rec(139, a0, a1, a2, a3, a4, a5); }
template <> da_status da_forest_predict<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int * a5) { return rec(140, a0, a1, a2, a3, a4, a5); }
template <> da_status da_forest_predict_proba<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6, da_int a7) { return rec(141, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_forest_predict_proba<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6, da_int a7) { return rec(142, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_forest_predict_log_proba<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6, da_int a7) { return rec(143, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_forest_predict_log_proba<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6, da_int a7) { return rec(144, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_forest_score<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, const da_int * a5, double * a6) { return rec(145, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_forest_score<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, const da_int * a5, float * a6) { return rec(146, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nlls_define_residuals<double>(da_handle a0, da_int a1, da_int a2, da_resfun_t_d * a3, da_resgrd_t_d * a4, da_reshes_t_d * a5, da_reshp_t_d * a6) { return rec(147, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nlls_define_residuals<float>(da_handle a0, da_int a1, da_int a2, da_resfun_t_s * a3, da_resgrd_t_s * a4, da_reshes_t_s * a5, da_reshp_t_s * a6) { return rec(148, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nlls_define_bounds<double>(da_handle a0, da_int a1, double * a2, double * a3) { return rec(149, a0, a1, a2, a3); }
template <> da_status da_nlls_define_bounds<float>(da_handle a0, da_int a1, float * a2, float * a3) { return rec(150, a0, a1, a2, a3); }
template <> da_status da_nlls_define_weights<double>(da_handle a0, da_int a1, double * a2) { return rec(151, a0, a1, a2); }
template <> da_status da_nlls_define_weights<float>(da_handle a0, da_int a1, float * a2) { return rec(152, a0, a1, a2); }
template <> da_status da_nlls_fit<double>(da_handle a0, da_int a1, double * a2, void * a3) { return rec(153, a0, a1, a2, a3); }
template <> da_status da_nlls_fit<float>(da_handle a0, da_int a1, float * a2, void * a3) { return rec(154, a0, a1, a2, a3); }
template <> da_status da_pairwise_distances<double>(da_order a0, da_int a1, da_int a2, da_int a3, const double * a4, da_int a5, const double * a6, da_int a7, double * a8, da_int a9, double a10, da_metric a11) { return rec(155, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
template <> da_status da_pairwise_distances<float>(da_order a0, da_int a1, da_int a2, da_int a3, const float * a4, da_int a5, const float * a6, da_int a7, float * a8, da_int a9, float a10, da_metric a11) { return rec(156, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
template <> da_status da_nn_set_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(157, a0, a1, a2, a3, a4); }
template <> da_status da_nn_set_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(158, a0, a1, a2, a3, a4); }
template <> da_status da_nn_set_labels<double>(da_handle a0, da_int a1, const da_int * a2) { return rec(159, a0, a1, a2); }
template <> da_status da_nn_set_labels<float>(da_handle a0, da_int a1, const da_int * a2) { return rec(160, a0, a1, a2); }
template <> da_status da_nn_set_targets<double>(da_handle a0, da_int a1, const double * a2) { return rec(161, a0, a1, a2); }
template <> da_status da_nn_set_targets<float>(da_handle a0, da_int a1, const float * a2) { return rec(162, a0, a1, a2); }
template <> da_status da_nn_kneighbors<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int * a5, double * a6, da_int a7, da_int a8) { return rec(163, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_nn_kneighbors<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int * a5, float * a6, da_int a7, da_int a8) { return rec(164, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_nn_radius_neighbors<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double a5, da_int a6, da_int a7) { return rec(165, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_nn_radius_neighbors<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float a5, da_int a6, da_int a7) { return rec(166, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_nn_classes<double>(da_handle a0, da_int * a1, da_int * a2) { return rec(167, a0, a1, a2); }
template <> da_status da_nn_classes<float>(da_handle a0, da_int * a1, da_int * a2) { return rec(168, a0, a1, a2); }
template <> da_status da_nn_classifier_predict_proba<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_nn_search_mode a6) { return rec(169, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nn_classifier_predict_proba<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_nn_search_mode a6) { return rec(170, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nn_classifier_predict<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int * a5, da_nn_search_mode a6) { return rec(171, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nn_classifier_predict<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int * a5, da_nn_search_mode a6) { return rec(172, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nn_regressor_predict<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_nn_search_mode a6) { return rec(173, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_nn_regressor_predict<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_nn_search_mode a6) { return rec(174, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_check_data<double>(da_order a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(175, a0, a1, a2, a3, a4); }
template <> da_status da_check_data<float>(da_order a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(176, a0, a1, a2, a3, a4); }
template <> da_status da_switch_order_copy<double>(da_order a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(177, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_switch_order_copy<float>(da_order a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(178, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_switch_order_in_place<double>(da_order a0, da_int a1, da_int a2, double * a3, da_int a4, da_int a5) { return rec(179, a0, a1, a2, a3, a4, a5); }
template <> da_status da_switch_order_in_place<float>(da_order a0, da_int a1, da_int a2, float * a3, da_int a4, da_int a5) { return rec(180, a0, a1, a2, a3, a4, a5); }
template <> da_status da_get_shuffled_indices<double>(da_int a0, da_int a1, da_int a2, da_int a3, da_int a4, const double * a5, da_int * a6) { return rec(181, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_get_shuffled_indices<float>(da_int a0, da_int a1, da_int a2, da_int a3, da_int a4, const float * a5, da_int * a6) { return rec(182, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_get_shuffled_indices<da_int>(da_int a0, da_int a1, da_int a2, da_int a3, da_int a4, const da_int * a5, da_int * a6) { return rec(183, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_train_test_split<double>(da_order a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int a5, da_int a6, const da_int * a7, double * a8, da_int a9, double * a10, da_int a11) { return rec(184, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
template <> da_status da_train_test_split<float>(da_order a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int a5, da_int a6, const da_int * a7, float * a8, da_int a9, float * a10, da_int a11) { return rec(185, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
template <> da_status da_train_test_split<da_int>(da_order a0, da_int a1, da_int a2, const da_int * a3, da_int a4, da_int a5, da_int a6, const da_int * a7, da_int * a8, da_int a9, da_int * a10, da_int a11) { return rec(186, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
template <> da_status da_rbf_kernel<double>(da_order a0, da_int a1, da_int a2, da_int a3, const double * a4, da_int a5, const double * a6, da_int a7, double * a8, da_int a9, double a10) { return rec(187, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
template <> da_status da_rbf_kernel<float>(da_order a0, da_int a1, da_int a2, da_int a3, const float * a4, da_int a5, const float * a6, da_int a7, float * a8, da_int a9, float a10) { return rec(188, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
template <> da_status da_linear_kernel<double>(da_order a0, da_int a1, da_int a2, da_int a3, const double * a4, da_int a5, const double * a6, da_int a7, double * a8, da_int a9) { return rec(189, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_linear_kernel<float>(da_order a0, da_int a1, da_int a2, da_int a3, const float * a4, da_int a5, const float * a6, da_int a7, float * a8, da_int a9) { return rec(190, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
template <> da_status da_polynomial_kernel<double>(da_order a0, da_int a1, da_int a2, da_int a3, const double * a4, da_int a5, const double * a6, da_int a7, double * a8, da_int a9, double a10, da_int a11, double a12) { return rec(191, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); }
template <> da_status da_polynomial_kernel<float>(da_order a0, da_int a1, da_int a2, da_int a3, const float * a4, da_int a5, const float * a6, da_int a7, float * a8, da_int a9, float a10, da_int a11, float a12) { return rec(192, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); }
template <> da_status da_sigmoid_kernel<double>(da_order a0, da_int a1, da_int a2, da_int a3, const double * a4, da_int a5, const double * a6, da_int a7, double * a8, da_int a9, double a10, double a11) { return rec(193, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
template <> da_status da_sigmoid_kernel<float>(da_order a0, da_int a1, da_int a2, da_int a3, const float * a4, da_int a5, const float * a6, da_int a7, float * a8, da_int a9, float a10, float a11) { return rec(194, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
template <> da_status da_svm_select_model<double>(da_handle a0, da_svm_model a1) { return rec(195, a0, a1); }
template <> da_status da_svm_select_model<float>(da_handle a0, da_svm_model a1) { return rec(196, a0, a1); }
template <> da_status da_svm_set_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, const double * a5) { return rec(197, a0, a1, a2, a3, a4, a5); }
template <> da_status da_svm_set_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, const float * a5) { return rec(198, a0, a1, a2, a3, a4, a5); }
template <> da_status da_svm_compute<double>(da_handle a0) { return rec(199, a0); }
template <> da_status da_svm_compute<float>(da_handle a0) { return rec(200, a0); }
template <> da_status da_svm_predict<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5) { return rec(201, a0, a1, a2, a3, a4, a5); }
template <> da_status da_svm_predict<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5) { return rec(202, a0, a1, a2, a3, a4, a5); }
template <> da_status da_svm_decision_function<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_svm_decision_function_shape a5, double * a6, da_int a7) { return rec(203, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_svm_decision_function<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_svm_decision_function_shape a5, float * a6, da_int a7) { return rec(204, a0, a1, a2, a3, a4, a5, a6, a7); }
template <> da_status da_svm_score<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, const double * a5, double * a6) { return rec(205, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_svm_score<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, const float * a5, float * a6) { return rec(206, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_svm_predict_proba<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(207, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_svm_predict_proba<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(208, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_svm_predict_log_proba<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, double * a5, da_int a6) { return rec(209, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_svm_predict_log_proba<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, float * a5, da_int a6) { return rec(210, a0, a1, a2, a3, a4, a5, a6); }
template <> da_status da_interpolation_select_model<double>(da_handle a0, da_interpolation_model a1) { return rec(211, a0, a1); }
template <> da_status da_interpolation_select_model<float>(da_handle a0, da_interpolation_model a1) { return rec(212, a0, a1); }
template <> da_status da_interpolation_set_sites<double>(da_handle a0, da_int a1, const double * a2) { return rec(213, a0, a1, a2); }
template <> da_status da_interpolation_set_sites<float>(da_handle a0, da_int a1, const float * a2) { return rec(214, a0, a1, a2); }
template <> da_status da_interpolation_set_sites_uniform<double>(da_handle a0, da_int a1, double a2, double a3) { return rec(215, a0, a1, a2, a3); }
template <> da_status da_interpolation_set_sites_uniform<float>(da_handle a0, da_int a1, float a2, float a3) { return rec(216, a0, a1, a2, a3); }
template <> da_status da_interpolation_set_values<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int a5) { return rec(217, a0, a1, a2, a3, a4, a5); }
template <> da_status da_interpolation_set_values<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int a5) { return rec(218, a0, a1, a2, a3, a4, a5); }
template <> da_status da_interpolation_search_cells<double>(da_handle a0, da_int a1, const double * a2, da_int * a3) { return rec(219, a0, a1, a2, a3); }
template <> da_status da_interpolation_search_cells<float>(da_handle a0, da_int a1, const float * a2, da_int * a3) { return rec(220, a0, a1, a2, a3); }
template <> da_status da_interpolation_interpolate<double>(da_handle a0) { return rec(221, a0); }
template <> da_status da_interpolation_interpolate<float>(da_handle a0) { return rec(222, a0); }
template <> da_status da_interpolation_set_boundary_conditions<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, const double * a5) { return rec(223, a0, a1, a2, a3, a4, a5); }
template <> da_status da_interpolation_set_boundary_conditions<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, const float * a5) { return rec(224, a0, a1, a2, a3, a4, a5); }
template <> da_status da_interpolation_evaluate<double>(da_handle a0, da_int a1, const double * a2, double * a3, da_int a4, da_int * a5) { return rec(225, a0, a1, a2, a3, a4, a5); }
template <> da_status da_interpolation_evaluate<float>(da_handle a0, da_int a1, const float * a2, float * a3, da_int a4, da_int * a5) { return rec(226, a0, a1, a2, a3, a4, a5); }
template <> da_status da_approx_nn_set_training_data<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(227, a0, a1, a2, a3, a4); }
template <> da_status da_approx_nn_set_training_data<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(228, a0, a1, a2, a3, a4); }
template <> da_status da_approx_nn_train<double>(da_handle a0) { return rec(229, a0); }
template <> da_status da_approx_nn_train<float>(da_handle a0) { return rec(230, a0); }
template <> da_status da_approx_nn_add<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4) { return rec(231, a0, a1, a2, a3, a4); }
template <> da_status da_approx_nn_add<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4) { return rec(232, a0, a1, a2, a3, a4); }
template <> da_status da_approx_nn_train_and_add<double>(da_handle a0) { return rec(233, a0); }
template <> da_status da_approx_nn_train_and_add<float>(da_handle a0) { return rec(234, a0); }
template <> da_status da_approx_nn_kneighbors<double>(da_handle a0, da_int a1, da_int a2, const double * a3, da_int a4, da_int * a5, double * a6, da_int a7, bool a8) { return rec(235, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
template <> da_status da_approx_nn_kneighbors<float>(da_handle a0, da_int a1, da_int a2, const float * a3, da_int a4, da_int * a5, float * a6, da_int a7, bool a8) { return rec(236, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
#else
    case 0: { auto p0 = arg<da_handle *>(0); auto p1 = arg<da_handle_type>(1); sent(0, p0, p1); got = da_handle_init_d(p0, p1); } break;
    case 1: { auto p0 = arg<da_handle *>(0); auto p1 = arg<da_handle_type>(1); sent(1, p0, p1); got = da_handle_init_s(p0, p1); } break;
    case 2: { auto p0 = arg<const da_handle>(0); auto p1 = arg<da_result>(1); auto p2 = arg<da_int *>(2); auto p3 = arg<double *>(3); sent(2, p0, p1, p2, p3); got = da_handle_get_result_d(p0, p1, p2, p3); } break;
    case 3: { auto p0 = arg<const da_handle>(0); auto p1 = arg<da_result>(1); auto p2 = arg<da_int *>(2); auto p3 = arg<float *>(3); sent(3, p0, p1, p2, p3); got = da_handle_get_result_s(p0, p1, p2, p3); } break;
    case 4: { auto p0 = arg<const da_handle>(0); auto p1 = arg<da_result>(1); auto p2 = arg<da_int *>(2); auto p3 = arg<da_int *>(3); sent(4, p0, p1, p2, p3); got = da_handle_get_result_int(p0, p1, p2, p3); } break;
    case 5: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<double>(2); sent(5, p0, p1, p2); got = da_options_set_real_d(p0, p1, p2); } break;
    case 6: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<float>(2); sent(6, p0, p1, p2); got = da_options_set_real_s(p0, p1, p2); } break;
    case 7: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_int>(2); sent(7, p0, p1, p2); got = da_options_set_int(p0, p1, p2); } break;
    case 8: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<const char *>(2); sent(8, p0, p1, p2); got = da_options_set_string(p0, p1, p2); } break;
    case 9: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<double *>(2); sent(9, p0, p1, p2); got = da_options_get_real_d(p0, p1, p2); } break;
    case 10: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<float *>(2); sent(10, p0, p1, p2); got = da_options_get_real_s(p0, p1, p2); } break;
    case 11: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_int *>(2); sent(11, p0, p1, p2); got = da_options_get_int(p0, p1, p2); } break;
    case 12: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<char *>(2); auto p3 = arg<da_int *>(3); sent(12, p0, p1, p2, p3, (da_int *)nullptr); got = da_options_get_string(p0, p1, p2, p3); } break;
    case 13: { auto p0 = arg<da_handle>(0); auto p1 = arg<const char *>(1); auto p2 = arg<char *>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_int *>(4); sent(12, p0, p1, p2, p3, p4); got = da_options_get_string_key(p0, p1, p2, p3, p4); } break;
    case 14: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<double>(2); sent(13, p0, p1, p2); got = da_datastore_options_set_real_d(p0, p1, p2); } break;
    case 15: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<float>(2); sent(14, p0, p1, p2); got = da_datastore_options_set_real_s(p0, p1, p2); } break;
    case 16: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_int>(2); sent(15, p0, p1, p2); got = da_datastore_options_set_int(p0, p1, p2); } break;
    case 17: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<const char *>(2); sent(16, p0, p1, p2); got = da_datastore_options_set_string(p0, p1, p2); } break;
    case 18: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<double *>(2); sent(17, p0, p1, p2); got = da_datastore_options_get_real_d(p0, p1, p2); } break;
    case 19: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<float *>(2); sent(18, p0, p1, p2); got = da_datastore_options_get_real_s(p0, p1, p2); } break;
    case 20: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_int *>(2); sent(19, p0, p1, p2); got = da_datastore_options_get_int(p0, p1, p2); } break;
    case 21: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<char *>(2); auto p3 = arg<da_int>(3); sent(20, p0, p1, p2, p3); got = da_datastore_options_get_string(p0, p1, p2, p3); } break;
    case 22: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<double **>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_int *>(4); auto p5 = arg<char ***>(5); sent(21, p0, p1, p2, p3, p4, p5); got = da_read_csv_d(p0, p1, p2, p3, p4, p5); } break;
    case 23: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<float **>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_int *>(4); auto p5 = arg<char ***>(5); sent(22, p0, p1, p2, p3, p4, p5); got = da_read_csv_s(p0, p1, p2, p3, p4, p5); } break;
    case 24: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_int **>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_int *>(4); auto p5 = arg<char ***>(5); sent(23, p0, p1, p2, p3, p4, p5); got = da_read_csv_int(p0, p1, p2, p3, p4, p5); } break;
    case 25: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<uint8_t **>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_int *>(4); auto p5 = arg<char ***>(5); sent(24, p0, p1, p2, p3, p4, p5); got = da_read_csv_uint8(p0, p1, p2, p3, p4, p5); } break;
    case 26: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<char ***>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_int *>(4); auto p5 = arg<char ***>(5); sent(25, p0, p1, p2, p3, p4, p5); got = da_read_csv_string(p0, p1, p2, p3, p4, p5); } break;
    case 27: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<double *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(26, p0, p1, p2, p3, p4, p5); got = da_data_load_col_real_d(p0, p1, p2, p3, p4, p5); } break;
    case 28: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<float *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(27, p0, p1, p2, p3, p4, p5); got = da_data_load_col_real_s(p0, p1, p2, p3, p4, p5); } break;
    case 29: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(28, p0, p1, p2, p3, p4, p5); got = da_data_load_col_int(p0, p1, p2, p3, p4, p5); } break;
    case 30: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<uint8_t *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(29, p0, p1, p2, p3, p4, p5); got = da_data_load_col_uint8(p0, p1, p2, p3, p4, p5); } break;
    case 31: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const char **>(3); auto p4 = arg<da_order>(4); sent(30, p0, p1, p2, p3, p4); got = da_data_load_col_str(p0, p1, p2, p3, p4); } break;
    case 32: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<double *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(31, p0, p1, p2, p3, p4, p5); got = da_data_load_row_real_d(p0, p1, p2, p3, p4, p5); } break;
    case 33: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<float *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(32, p0, p1, p2, p3, p4, p5); got = da_data_load_row_real_s(p0, p1, p2, p3, p4, p5); } break;
    case 34: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(33, p0, p1, p2, p3, p4, p5); got = da_data_load_row_int(p0, p1, p2, p3, p4, p5); } break;
    case 35: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<uint8_t *>(3); auto p4 = arg<da_order>(4); auto p5 = arg<da_int>(5); sent(34, p0, p1, p2, p3, p4, p5); got = da_data_load_row_uint8(p0, p1, p2, p3, p4, p5); } break;
    case 36: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const char **>(3); auto p4 = arg<da_order>(4); sent(35, p0, p1, p2, p3, p4); got = da_data_load_row_str(p0, p1, p2, p3, p4); } break;
    case 37: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<double *>(3); sent(36, p0, p1, p2, p3); got = da_data_extract_column_real_d(p0, p1, p2, p3); } break;
    case 38: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<float *>(3); sent(37, p0, p1, p2, p3); got = da_data_extract_column_real_s(p0, p1, p2, p3); } break;
    case 39: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int *>(3); sent(38, p0, p1, p2, p3); got = da_data_extract_column_int(p0, p1, p2, p3); } break;
    case 40: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<uint8_t *>(3); sent(39, p0, p1, p2, p3); got = da_data_extract_column_uint8(p0, p1, p2, p3); } break;
    case 41: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<char **>(3); sent(40, p0, p1, p2, p3); got = da_data_extract_column_str(p0, p1, p2, p3); } break;
    case 42: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_order>(2); auto p3 = arg<double *>(3); auto p4 = arg<da_int>(4); sent(41, p0, p1, p2, p3, p4); got = da_data_extract_selection_real_d(p0, p1, p2, p3, p4); } break;
    case 43: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_order>(2); auto p3 = arg<float *>(3); auto p4 = arg<da_int>(4); sent(42, p0, p1, p2, p3, p4); got = da_data_extract_selection_real_s(p0, p1, p2, p3, p4); } break;
    case 44: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_order>(2); auto p3 = arg<da_int *>(3); auto p4 = arg<da_int>(4); sent(43, p0, p1, p2, p3, p4); got = da_data_extract_selection_int(p0, p1, p2, p3, p4); } break;
    case 45: { auto p0 = arg<da_datastore>(0); auto p1 = arg<const char *>(1); auto p2 = arg<da_order>(2); auto p3 = arg<uint8_t *>(3); auto p4 = arg<da_int>(4); sent(44, p0, p1, p2, p3, p4); got = da_data_extract_selection_uint8(p0, p1, p2, p3, p4); } break;
    case 46: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<double *>(3); sent(45, p0, p1, p2, p3); got = da_data_get_element_real_d(p0, p1, p2, p3); } break;
    case 47: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<float *>(3); sent(46, p0, p1, p2, p3); got = da_data_get_element_real_s(p0, p1, p2, p3); } break;
    case 48: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int *>(3); sent(47, p0, p1, p2, p3); got = da_data_get_element_int(p0, p1, p2, p3); } break;
    case 49: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<uint8_t *>(3); sent(48, p0, p1, p2, p3); got = da_data_get_element_uint8(p0, p1, p2, p3); } break;
    case 50: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<double>(3); sent(49, p0, p1, p2, p3); got = da_data_set_element_real_d(p0, p1, p2, p3); } break;
    case 51: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<float>(3); sent(50, p0, p1, p2, p3); got = da_data_set_element_real_s(p0, p1, p2, p3); } break;
    case 52: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); sent(51, p0, p1, p2, p3); got = da_data_set_element_int(p0, p1, p2, p3); } break;
    case 53: { auto p0 = arg<da_datastore>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<uint8_t>(3); sent(52, p0, p1, p2, p3); got = da_data_set_element_uint8(p0, p1, p2, p3); } break;
    case 54: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<double *>(6); sent(53, p0, p1, p2, p3, p4, p5, p6); got = da_mean_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 55: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<float *>(6); sent(54, p0, p1, p2, p3, p4, p5, p6); got = da_mean_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 56: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<double *>(6); sent(55, p0, p1, p2, p3, p4, p5, p6); got = da_harmonic_mean_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 57: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<float *>(6); sent(56, p0, p1, p2, p3, p4, p5, p6); got = da_harmonic_mean_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 58: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<double *>(6); sent(57, p0, p1, p2, p3, p4, p5, p6); got = da_geometric_mean_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 59: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<float *>(6); sent(58, p0, p1, p2, p3, p4, p5, p6); got = da_geometric_mean_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 60: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<double *>(7); auto p8 = arg<double *>(8); sent(59, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_variance_d(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 61: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<float *>(7); auto p8 = arg<float *>(8); sent(60, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_variance_s(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 62: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<double *>(6); auto p7 = arg<double *>(7); auto p8 = arg<double *>(8); sent(61, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_skewness_d(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 63: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<float *>(6); auto p7 = arg<float *>(7); auto p8 = arg<float *>(8); sent(62, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_skewness_s(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 64: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<double *>(6); auto p7 = arg<double *>(7); auto p8 = arg<double *>(8); sent(63, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_kurtosis_d(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 65: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<float *>(6); auto p7 = arg<float *>(7); auto p8 = arg<float *>(8); sent(64, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_kurtosis_s(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 66: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<double *>(9); sent(65, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_moment_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 67: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<float *>(9); sent(66, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_moment_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 68: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<da_quantile_type>(9); sent(67, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_quantile_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 69: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<da_quantile_type>(9); sent(68, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_quantile_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 70: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<double *>(6); auto p7 = arg<double *>(7); auto p8 = arg<double *>(8); auto p9 = arg<double *>(9); auto p10 = arg<double *>(10); sent(69, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); got = da_five_point_summary_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); } break;
    case 71: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<float *>(6); auto p7 = arg<float *>(7); auto p8 = arg<float *>(8); auto p9 = arg<float *>(9); auto p10 = arg<float *>(10); sent(70, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); got = da_five_point_summary_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); } break;
    case 72: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<double *>(9); sent(71, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_standardize_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 73: { auto p0 = arg<da_order>(0); auto p1 = arg<da_axis>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<float *>(9); sent(72, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_standardize_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 74: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); auto p6 = arg<double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<da_int>(8); sent(73, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_covariance_matrix_d(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 75: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); auto p6 = arg<float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<da_int>(8); sent(74, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_covariance_matrix_s(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 76: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(75, p0, p1, p2, p3, p4, p5, p6); got = da_correlation_matrix_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 77: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(76, p0, p1, p2, p3, p4, p5, p6); got = da_correlation_matrix_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 78: { auto p0 = arg<da_handle>(0); auto p1 = arg<linmod_model>(1); sent(77, p0, p1); got = da_linmod_select_model_d(p0, p1); } break;
    case 79: { auto p0 = arg<da_handle>(0); auto p1 = arg<linmod_model>(1); sent(78, p0, p1); got = da_linmod_select_model_s(p0, p1); } break;
    case 80: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const double *>(5); sent(79, p0, p1, p2, p3, p4, p5); got = da_linmod_define_features_d(p0, p1, p2, p3, p4, p5); } break;
    case 81: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const float *>(5); sent(80, p0, p1, p2, p3, p4, p5); got = da_linmod_define_features_s(p0, p1, p2, p3, p4, p5); } break;
    case 82: { auto p0 = arg<da_handle>(0); sent(81, p0); got = da_linmod_fit_d(p0); } break;
    case 83: { auto p0 = arg<da_handle>(0); sent(82, p0); got = da_linmod_fit_s(p0); } break;
    case 84: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const double *>(2); sent(83, p0, p1, p2); got = da_linmod_fit_start_d(p0, p1, p2); } break;
    case 85: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const float *>(2); sent(84, p0, p1, p2); got = da_linmod_fit_start_s(p0, p1, p2); } break;
    case 86: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<const double *>(6); auto p7 = arg<double *>(7); sent(85, p0, p1, p2, p3, p4, p5, p6, p7); got = da_linmod_evaluate_model_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 87: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<const float *>(6); auto p7 = arg<float *>(7); sent(86, p0, p1, p2, p3, p4, p5, p6, p7); got = da_linmod_evaluate_model_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 88: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(87, p0, p1, p2, p3, p4); got = da_pca_set_data_d(p0, p1, p2, p3, p4); } break;
    case 89: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(88, p0, p1, p2, p3, p4); got = da_pca_set_data_s(p0, p1, p2, p3, p4); } break;
    case 90: { auto p0 = arg<da_handle>(0); sent(89, p0); got = da_pca_compute_d(p0); } break;
    case 91: { auto p0 = arg<da_handle>(0); sent(90, p0); got = da_pca_compute_s(p0); } break;
    case 92: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(91, p0, p1, p2, p3, p4, p5, p6); got = da_pca_transform_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 93: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(92, p0, p1, p2, p3, p4, p5, p6); got = da_pca_transform_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 94: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(93, p0, p1, p2, p3, p4, p5, p6); got = da_pca_inverse_transform_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 95: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(94, p0, p1, p2, p3, p4, p5, p6); got = da_pca_inverse_transform_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 96: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(95, p0, p1, p2, p3, p4); got = da_kernel_pca_set_data_d(p0, p1, p2, p3, p4); } break;
    case 97: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(96, p0, p1, p2, p3, p4); got = da_kernel_pca_set_data_s(p0, p1, p2, p3, p4); } break;
    case 98: { auto p0 = arg<da_handle>(0); sent(97, p0); got = da_kernel_pca_compute_d(p0); } break;
    case 99: { auto p0 = arg<da_handle>(0); sent(98, p0); got = da_kernel_pca_compute_s(p0); } break;
    case 100: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(99, p0, p1, p2, p3, p4, p5, p6); got = da_kernel_pca_transform_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 101: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(100, p0, p1, p2, p3, p4, p5, p6); got = da_kernel_pca_transform_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 102: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(101, p0, p1, p2, p3, p4, p5, p6); got = da_kernel_pca_inverse_transform_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 103: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(102, p0, p1, p2, p3, p4, p5, p6); got = da_kernel_pca_inverse_transform_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 104: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(103, p0, p1, p2, p3, p4); got = da_tsne_set_data_d(p0, p1, p2, p3, p4); } break;
    case 105: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(104, p0, p1, p2, p3, p4); got = da_tsne_set_data_s(p0, p1, p2, p3, p4); } break;
    case 106: { auto p0 = arg<da_handle>(0); auto p1 = arg<const double *>(1); auto p2 = arg<da_int>(2); sent(105, p0, p1, p2); got = da_tsne_set_init_embedding_d(p0, p1, p2); } break;
    case 107: { auto p0 = arg<da_handle>(0); auto p1 = arg<const float *>(1); auto p2 = arg<da_int>(2); sent(106, p0, p1, p2); got = da_tsne_set_init_embedding_s(p0, p1, p2); } break;
    case 108: { auto p0 = arg<da_handle>(0); sent(107, p0); got = da_tsne_compute_d(p0); } break;
    case 109: { auto p0 = arg<da_handle>(0); sent(108, p0); got = da_tsne_compute_s(p0); } break;
    case 110: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(109, p0, p1, p2, p3, p4); got = da_kmeans_set_data_d(p0, p1, p2, p3, p4); } break;
    case 111: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(110, p0, p1, p2, p3, p4); got = da_kmeans_set_data_s(p0, p1, p2, p3, p4); } break;
    case 112: { auto p0 = arg<da_handle>(0); auto p1 = arg<const double *>(1); auto p2 = arg<da_int>(2); sent(111, p0, p1, p2); got = da_kmeans_set_init_centres_d(p0, p1, p2); } break;
    case 113: { auto p0 = arg<da_handle>(0); auto p1 = arg<const float *>(1); auto p2 = arg<da_int>(2); sent(112, p0, p1, p2); got = da_kmeans_set_init_centres_s(p0, p1, p2); } break;
    case 114: { auto p0 = arg<da_handle>(0); sent(113, p0); got = da_kmeans_compute_d(p0); } break;
    case 115: { auto p0 = arg<da_handle>(0); sent(114, p0); got = da_kmeans_compute_s(p0); } break;
    case 116: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(115, p0, p1, p2, p3, p4, p5, p6); got = da_kmeans_transform_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 117: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(116, p0, p1, p2, p3, p4, p5, p6); got = da_kmeans_transform_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 118: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(117, p0, p1, p2, p3, p4, p5); got = da_kmeans_predict_d(p0, p1, p2, p3, p4, p5); } break;
    case 119: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(118, p0, p1, p2, p3, p4, p5); got = da_kmeans_predict_s(p0, p1, p2, p3, p4, p5); } break;
    case 120: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(119, p0, p1, p2, p3, p4); got = da_dbscan_set_data_d(p0, p1, p2, p3, p4); } break;
    case 121: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(120, p0, p1, p2, p3, p4); got = da_dbscan_set_data_s(p0, p1, p2, p3, p4); } break;
    case 122: { auto p0 = arg<da_handle>(0); sent(121, p0); got = da_dbscan_compute_d(p0); } break;
    case 123: { auto p0 = arg<da_handle>(0); sent(122, p0); got = da_dbscan_compute_s(p0); } break;
    case 124: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const da_int *>(6); auto p7 = arg<const da_int *>(7); sent(123, p0, p1, p2, p3, p4, p5, p6, p7); got = da_tree_set_training_data_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 125: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const da_int *>(6); auto p7 = arg<const da_int *>(7); sent(124, p0, p1, p2, p3, p4, p5, p6, p7); got = da_tree_set_training_data_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 126: { auto p0 = arg<da_handle>(0); sent(125, p0); got = da_tree_fit_d(p0); } break;
    case 127: { auto p0 = arg<da_handle>(0); sent(126, p0); got = da_tree_fit_s(p0); } break;
    case 128: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(127, p0, p1, p2, p3, p4, p5); got = da_tree_predict_d(p0, p1, p2, p3, p4, p5); } break;
    case 129: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(128, p0, p1, p2, p3, p4, p5); got = da_tree_predict_s(p0, p1, p2, p3, p4, p5); } break;
    case 130: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(129, p0, p1, p2, p3, p4, p5, p6, p7); got = da_tree_predict_proba_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 131: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(130, p0, p1, p2, p3, p4, p5, p6, p7); got = da_tree_predict_proba_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 132: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(131, p0, p1, p2, p3, p4, p5, p6, p7); got = da_tree_predict_log_proba_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 133: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(132, p0, p1, p2, p3, p4, p5, p6, p7); got = da_tree_predict_log_proba_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 134: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const da_int *>(5); auto p6 = arg<double *>(6); sent(133, p0, p1, p2, p3, p4, p5, p6); got = da_tree_score_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 135: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const da_int *>(5); auto p6 = arg<float *>(6); sent(134, p0, p1, p2, p3, p4, p5, p6); got = da_tree_score_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 136: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const da_int *>(6); auto p7 = arg<const da_int *>(7); sent(135, p0, p1, p2, p3, p4, p5, p6, p7); got = da_forest_set_training_data_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 137: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const da_int *>(6); auto p7 = arg<const da_int *>(7); sent(136, p0, p1, p2, p3, p4, p5, p6, p7); got = da_forest_set_training_data_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 138: { auto p0 = arg<da_handle>(0); sent(137, p0); got = da_forest_fit_d(p0); } break;
    case 139: { auto p0 = arg<da_handle>(0); sent(138, p0); got = da_forest_fit_s(p0); } break;
    case 140: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(139, p0, p1, p2, p3, p4, p5); got = da_forest_predict_d(p0, p1, p2, p3, p4, p5); } break;
    case 141: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(140, p0, p1, p2, p3, p4, p5); got = da_forest_predict_s(p0, p1, p2, p3, p4, p5); } break;
    case 142: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(141, p0, p1, p2, p3, p4, p5, p6, p7); got = da_forest_predict_proba_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 143: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(142, p0, p1, p2, p3, p4, p5, p6, p7); got = da_forest_predict_proba_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 144: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(143, p0, p1, p2, p3, p4, p5, p6, p7); got = da_forest_predict_log_proba_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 145: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(144, p0, p1, p2, p3, p4, p5, p6, p7); got = da_forest_predict_log_proba_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 146: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const da_int *>(5); auto p6 = arg<double *>(6); sent(145, p0, p1, p2, p3, p4, p5, p6); got = da_forest_score_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 147: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const da_int *>(5); auto p6 = arg<float *>(6); sent(146, p0, p1, p2, p3, p4, p5, p6); got = da_forest_score_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 148: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_resfun_t_d *>(3); auto p4 = arg<da_resgrd_t_d *>(4); auto p5 = arg<da_reshes_t_d *>(5); auto p6 = arg<da_reshp_t_d *>(6); sent(147, p0, p1, p2, p3, p4, p5, p6); got = da_nlls_define_residuals_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 149: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_resfun_t_s *>(3); auto p4 = arg<da_resgrd_t_s *>(4); auto p5 = arg<da_reshes_t_s *>(5); auto p6 = arg<da_reshp_t_s *>(6); sent(148, p0, p1, p2, p3, p4, p5, p6); got = da_nlls_define_residuals_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 150: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<double *>(2); auto p3 = arg<double *>(3); sent(149, p0, p1, p2, p3); got = da_nlls_define_bounds_d(p0, p1, p2, p3); } break;
    case 151: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<float *>(2); auto p3 = arg<float *>(3); sent(150, p0, p1, p2, p3); got = da_nlls_define_bounds_s(p0, p1, p2, p3); } break;
    case 152: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<double *>(2); sent(151, p0, p1, p2); got = da_nlls_define_weights_d(p0, p1, p2); } break;
    case 153: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<float *>(2); sent(152, p0, p1, p2); got = da_nlls_define_weights_s(p0, p1, p2); } break;
    case 154: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<double *>(2); auto p3 = arg<void *>(3); sent(153, p0, p1, p2, p3); got = da_nlls_fit_d(p0, p1, p2, p3); } break;
    case 155: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<float *>(2); auto p3 = arg<void *>(3); sent(154, p0, p1, p2, p3); got = da_nlls_fit_s(p0, p1, p2, p3); } break;
    case 156: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<double>(10); auto p11 = arg<da_metric>(11); sent(155, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); got = da_pairwise_distances_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); } break;
    case 157: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<float>(10); auto p11 = arg<da_metric>(11); sent(156, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); got = da_pairwise_distances_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); } break;
    case 158: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(157, p0, p1, p2, p3, p4); got = da_nn_set_data_d(p0, p1, p2, p3, p4); } break;
    case 159: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(158, p0, p1, p2, p3, p4); got = da_nn_set_data_s(p0, p1, p2, p3, p4); } break;
    case 160: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const da_int *>(2); sent(159, p0, p1, p2); got = da_nn_set_labels_d(p0, p1, p2); } break;
    case 161: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const da_int *>(2); sent(160, p0, p1, p2); got = da_nn_set_labels_s(p0, p1, p2); } break;
    case 162: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const double *>(2); sent(161, p0, p1, p2); got = da_nn_set_targets_d(p0, p1, p2); } break;
    case 163: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const float *>(2); sent(162, p0, p1, p2); got = da_nn_set_targets_s(p0, p1, p2); } break;
    case 164: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); auto p6 = arg<double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<da_int>(8); sent(163, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_nn_kneighbors_d(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 165: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); auto p6 = arg<float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<da_int>(8); sent(164, p0, p1, p2, p3, p4, p5, p6, p7, p8); got = da_nn_kneighbors_s(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 166: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(165, p0, p1, p2, p3, p4, p5, p6, p7); got = da_nn_radius_neighbors_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 167: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float>(5); auto p6 = arg<da_int>(6); auto p7 = arg<da_int>(7); sent(166, p0, p1, p2, p3, p4, p5, p6, p7); got = da_nn_radius_neighbors_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 168: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int *>(1); auto p2 = arg<da_int *>(2); sent(167, p0, p1, p2); got = da_nn_classes_d(p0, p1, p2); } break;
    case 169: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int *>(1); auto p2 = arg<da_int *>(2); sent(168, p0, p1, p2); got = da_nn_classes_s(p0, p1, p2); } break;
    case 170: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_nn_search_mode>(6); sent(169, p0, p1, p2, p3, p4, p5, p6); got = da_nn_classifier_predict_proba_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 171: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_nn_search_mode>(6); sent(170, p0, p1, p2, p3, p4, p5, p6); got = da_nn_classifier_predict_proba_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 172: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); auto p6 = arg<da_nn_search_mode>(6); sent(171, p0, p1, p2, p3, p4, p5, p6); got = da_nn_classifier_predict_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 173: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); auto p6 = arg<da_nn_search_mode>(6); sent(172, p0, p1, p2, p3, p4, p5, p6); got = da_nn_classifier_predict_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 174: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_nn_search_mode>(6); sent(173, p0, p1, p2, p3, p4, p5, p6); got = da_nn_regressor_predict_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 175: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_nn_search_mode>(6); sent(174, p0, p1, p2, p3, p4, p5, p6); got = da_nn_regressor_predict_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 176: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(175, p0, p1, p2, p3, p4); got = da_check_data_d(p0, p1, p2, p3, p4); } break;
    case 177: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(176, p0, p1, p2, p3, p4); got = da_check_data_s(p0, p1, p2, p3, p4); } break;
    case 178: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(177, p0, p1, p2, p3, p4, p5, p6); got = da_switch_order_copy_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 179: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(178, p0, p1, p2, p3, p4, p5, p6); got = da_switch_order_copy_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 180: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); sent(179, p0, p1, p2, p3, p4, p5); got = da_switch_order_in_place_d(p0, p1, p2, p3, p4, p5); } break;
    case 181: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); sent(180, p0, p1, p2, p3, p4, p5); got = da_switch_order_in_place_s(p0, p1, p2, p3, p4, p5); } break;
    case 182: { auto p0 = arg<da_int>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const double *>(5); auto p6 = arg<da_int *>(6); sent(181, p0, p1, p2, p3, p4, p5, p6); got = da_get_shuffled_indices_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 183: { auto p0 = arg<da_int>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const float *>(5); auto p6 = arg<da_int *>(6); sent(182, p0, p1, p2, p3, p4, p5, p6); got = da_get_shuffled_indices_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 184: { auto p0 = arg<da_int>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const da_int *>(5); auto p6 = arg<da_int *>(6); sent(183, p0, p1, p2, p3, p4, p5, p6); got = da_get_shuffled_indices_int(p0, p1, p2, p3, p4, p5, p6); } break;
    case 185: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<const da_int *>(7); auto p8 = arg<double *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<double *>(10); auto p11 = arg<da_int>(11); sent(184, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); got = da_train_test_split_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); } break;
    case 186: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<const da_int *>(7); auto p8 = arg<float *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<float *>(10); auto p11 = arg<da_int>(11); sent(185, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); got = da_train_test_split_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); } break;
    case 187: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const da_int *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); auto p6 = arg<da_int>(6); auto p7 = arg<const da_int *>(7); auto p8 = arg<da_int *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<da_int *>(10); auto p11 = arg<da_int>(11); sent(186, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); got = da_train_test_split_int(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); } break;
    case 188: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<double>(10); sent(187, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); got = da_rbf_kernel_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); } break;
    case 189: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<float>(10); sent(188, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); got = da_rbf_kernel_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10); } break;
    case 190: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<da_int>(9); sent(189, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_linear_kernel_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 191: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<da_int>(9); sent(190, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); got = da_linear_kernel_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9); } break;
    case 192: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<double>(10); auto p11 = arg<da_int>(11); auto p12 = arg<double>(12); sent(191, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12); got = da_polynomial_kernel_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12); } break;
    case 193: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<float>(10); auto p11 = arg<da_int>(11); auto p12 = arg<float>(12); sent(192, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12); got = da_polynomial_kernel_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12); } break;
    case 194: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const double *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<double *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<double>(10); auto p11 = arg<double>(11); sent(193, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); got = da_sigmoid_kernel_d(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); } break;
    case 195: { auto p0 = arg<da_order>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<da_int>(3); auto p4 = arg<const float *>(4); auto p5 = arg<da_int>(5); auto p6 = arg<const float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<float *>(8); auto p9 = arg<da_int>(9); auto p10 = arg<float>(10); auto p11 = arg<float>(11); sent(194, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); got = da_sigmoid_kernel_s(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11); } break;
    case 196: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_svm_model>(1); sent(195, p0, p1); got = da_svm_select_model_d(p0, p1); } break;
    case 197: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_svm_model>(1); sent(196, p0, p1); got = da_svm_select_model_s(p0, p1); } break;
    case 198: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const double *>(5); sent(197, p0, p1, p2, p3, p4, p5); got = da_svm_set_data_d(p0, p1, p2, p3, p4, p5); } break;
    case 199: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const float *>(5); sent(198, p0, p1, p2, p3, p4, p5); got = da_svm_set_data_s(p0, p1, p2, p3, p4, p5); } break;
    case 200: { auto p0 = arg<da_handle>(0); sent(199, p0); got = da_svm_compute_d(p0); } break;
    case 201: { auto p0 = arg<da_handle>(0); sent(200, p0); got = da_svm_compute_s(p0); } break;
    case 202: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); sent(201, p0, p1, p2, p3, p4, p5); got = da_svm_predict_d(p0, p1, p2, p3, p4, p5); } break;
    case 203: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); sent(202, p0, p1, p2, p3, p4, p5); got = da_svm_predict_s(p0, p1, p2, p3, p4, p5); } break;
    case 204: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_svm_decision_function_shape>(5); auto p6 = arg<double *>(6); auto p7 = arg<da_int>(7); sent(203, p0, p1, p2, p3, p4, p5, p6, p7); got = da_svm_decision_function_d(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 205: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_svm_decision_function_shape>(5); auto p6 = arg<float *>(6); auto p7 = arg<da_int>(7); sent(204, p0, p1, p2, p3, p4, p5, p6, p7); got = da_svm_decision_function_s(p0, p1, p2, p3, p4, p5, p6, p7); } break;
    case 206: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const double *>(5); auto p6 = arg<double *>(6); sent(205, p0, p1, p2, p3, p4, p5, p6); got = da_svm_score_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 207: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const float *>(5); auto p6 = arg<float *>(6); sent(206, p0, p1, p2, p3, p4, p5, p6); got = da_svm_score_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 208: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(207, p0, p1, p2, p3, p4, p5, p6); got = da_svm_predict_proba_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 209: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(208, p0, p1, p2, p3, p4, p5, p6); got = da_svm_predict_proba_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 210: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<double *>(5); auto p6 = arg<da_int>(6); sent(209, p0, p1, p2, p3, p4, p5, p6); got = da_svm_predict_log_proba_d(p0, p1, p2, p3, p4, p5, p6); } break;
    case 211: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<float *>(5); auto p6 = arg<da_int>(6); sent(210, p0, p1, p2, p3, p4, p5, p6); got = da_svm_predict_log_proba_s(p0, p1, p2, p3, p4, p5, p6); } break;
    case 212: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_interpolation_model>(1); sent(211, p0, p1); got = da_interpolation_select_model_d(p0, p1); } break;
    case 213: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_interpolation_model>(1); sent(212, p0, p1); got = da_interpolation_select_model_s(p0, p1); } break;
    case 214: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const double *>(2); sent(213, p0, p1, p2); got = da_interpolation_set_sites_d(p0, p1, p2); } break;
    case 215: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const float *>(2); sent(214, p0, p1, p2); got = da_interpolation_set_sites_s(p0, p1, p2); } break;
    case 216: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<double>(2); auto p3 = arg<double>(3); sent(215, p0, p1, p2, p3); got = da_interpolation_set_sites_uniform_d(p0, p1, p2, p3); } break;
    case 217: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<float>(2); auto p3 = arg<float>(3); sent(216, p0, p1, p2, p3); got = da_interpolation_set_sites_uniform_s(p0, p1, p2, p3); } break;
    case 218: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); sent(217, p0, p1, p2, p3, p4, p5); got = da_interpolation_set_values_d(p0, p1, p2, p3, p4, p5); } break;
    case 219: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int>(5); sent(218, p0, p1, p2, p3, p4, p5); got = da_interpolation_set_values_s(p0, p1, p2, p3, p4, p5); } break;
    case 220: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const double *>(2); auto p3 = arg<da_int *>(3); sent(219, p0, p1, p2, p3); got = da_interpolation_search_cells_d(p0, p1, p2, p3); } break;
    case 221: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const float *>(2); auto p3 = arg<da_int *>(3); sent(220, p0, p1, p2, p3); got = da_interpolation_search_cells_s(p0, p1, p2, p3); } break;
    case 222: { auto p0 = arg<da_handle>(0); sent(221, p0); got = da_interpolation_interpolate_d(p0); } break;
    case 223: { auto p0 = arg<da_handle>(0); sent(222, p0); got = da_interpolation_interpolate_s(p0); } break;
    case 224: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const double *>(5); sent(223, p0, p1, p2, p3, p4, p5); got = da_interpolation_set_boundary_conditions_d(p0, p1, p2, p3, p4, p5); } break;
    case 225: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<const float *>(5); sent(224, p0, p1, p2, p3, p4, p5); got = da_interpolation_set_boundary_conditions_s(p0, p1, p2, p3, p4, p5); } break;
    case 226: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const double *>(2); auto p3 = arg<double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(225, p0, p1, p2, p3, p4, p5); got = da_interpolation_evaluate_d(p0, p1, p2, p3, p4, p5); } break;
    case 227: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<const float *>(2); auto p3 = arg<float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); sent(226, p0, p1, p2, p3, p4, p5); got = da_interpolation_evaluate_s(p0, p1, p2, p3, p4, p5); } break;
    case 228: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(227, p0, p1, p2, p3, p4); got = da_approx_nn_set_training_data_d(p0, p1, p2, p3, p4); } break;
    case 229: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(228, p0, p1, p2, p3, p4); got = da_approx_nn_set_training_data_s(p0, p1, p2, p3, p4); } break;
    case 230: { auto p0 = arg<da_handle>(0); sent(229, p0); got = da_approx_nn_train_d(p0); } break;
    case 231: { auto p0 = arg<da_handle>(0); sent(230, p0); got = da_approx_nn_train_s(p0); } break;
    case 232: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); sent(231, p0, p1, p2, p3, p4); got = da_approx_nn_add_d(p0, p1, p2, p3, p4); } break;
    case 233: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); sent(232, p0, p1, p2, p3, p4); got = da_approx_nn_add_s(p0, p1, p2, p3, p4); } break;
    case 234: { auto p0 = arg<da_handle>(0); sent(233, p0); got = da_approx_nn_train_and_add_d(p0); } break;
    case 235: { auto p0 = arg<da_handle>(0); sent(234, p0); got = da_approx_nn_train_and_add_s(p0); } break;
    case 236: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const double *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); auto p6 = arg<double *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<da_int>(8); sent(235, p0, p1, p2, p3, p4, p5, p6, p7, (bool)p8); got = da_approx_nn_kneighbors_d(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
    case 237: { auto p0 = arg<da_handle>(0); auto p1 = arg<da_int>(1); auto p2 = arg<da_int>(2); auto p3 = arg<const float *>(3); auto p4 = arg<da_int>(4); auto p5 = arg<da_int *>(5); auto p6 = arg<float *>(6); auto p7 = arg<da_int>(7); auto p8 = arg<da_int>(8); sent(236, p0, p1, p2, p3, p4, p5, p6, p7, (bool)p8); got = da_approx_nn_kneighbors_s(p0, p1, p2, p3, p4, p5, p6, p7, p8); } break;
#endif

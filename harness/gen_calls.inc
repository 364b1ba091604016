    {"da_approx_nn_set_training_data_d", [](da_handle h) { return da_approx_nn_set_training_data_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_approx_nn, 1},
    {"da_approx_nn_set_training_data_s", [](da_handle h) { return da_approx_nn_set_training_data_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_approx_nn, 0},
    {"da_approx_nn_train_d", [](da_handle h) { return da_approx_nn_train_d(h); }, da_handle_approx_nn, 1},
    {"da_approx_nn_train_s", [](da_handle h) { return da_approx_nn_train_s(h); }, da_handle_approx_nn, 0},
    {"da_approx_nn_add_d", [](da_handle h) { return da_approx_nn_add_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_approx_nn, 1},
    {"da_approx_nn_add_s", [](da_handle h) { return da_approx_nn_add_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_approx_nn, 0},
    {"da_approx_nn_train_and_add_d", [](da_handle h) { return da_approx_nn_train_and_add_d(h); }, da_handle_approx_nn, 1},
    {"da_approx_nn_train_and_add_s", [](da_handle h) { return da_approx_nn_train_and_add_s(h); }, da_handle_approx_nn, 0},
    {"da_approx_nn_kneighbors_d", [](da_handle h) { return da_approx_nn_kneighbors_d(h, I(0), I(1), Pdc(0), I(2), Pi(1), Pd(2), I(3), I(4)); }, da_handle_approx_nn, 1},
    {"da_approx_nn_kneighbors_s", [](da_handle h) { return da_approx_nn_kneighbors_s(h, I(0), I(1), Pfc(0), I(2), Pi(1), Pf(2), I(3), I(4)); }, da_handle_approx_nn, 0},
    {"da_dbscan_set_data_d", [](da_handle h) { return da_dbscan_set_data_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_dbscan, 1},
    {"da_dbscan_set_data_s", [](da_handle h) { return da_dbscan_set_data_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_dbscan, 0},
    {"da_dbscan_compute_d", [](da_handle h) { return da_dbscan_compute_d(h); }, da_handle_dbscan, 1},
    {"da_dbscan_compute_s", [](da_handle h) { return da_dbscan_compute_s(h); }, da_handle_dbscan, 0},
    {"da_tree_set_training_data_d", [](da_handle h) { return da_tree_set_training_data_d(h, I(0), I(1), I(2), Pdc(0), I(3), Pic(1), Pic(2)); }, da_handle_decision_tree, 1},
    {"da_tree_set_training_data_s", [](da_handle h) { return da_tree_set_training_data_s(h, I(0), I(1), I(2), Pfc(0), I(3), Pic(1), Pic(2)); }, da_handle_decision_tree, 0},
    {"da_forest_set_training_data_d", [](da_handle h) { return da_forest_set_training_data_d(h, I(0), I(1), I(2), Pdc(0), I(3), Pic(1), Pic(2)); }, da_handle_decision_forest, 1},
    {"da_forest_set_training_data_s", [](da_handle h) { return da_forest_set_training_data_s(h, I(0), I(1), I(2), Pfc(0), I(3), Pic(1), Pic(2)); }, da_handle_decision_forest, 0},
    {"da_tree_fit_d", [](da_handle h) { return da_tree_fit_d(h); }, da_handle_decision_tree, 1},
    {"da_tree_fit_s", [](da_handle h) { return da_tree_fit_s(h); }, da_handle_decision_tree, 0},
    {"da_forest_fit_d", [](da_handle h) { return da_forest_fit_d(h); }, da_handle_decision_forest, 1},
    {"da_forest_fit_s", [](da_handle h) { return da_forest_fit_s(h); }, da_handle_decision_forest, 0},
    {"da_tree_predict_d", [](da_handle h) { return da_tree_predict_d(h, I(0), I(1), Pdc(0), I(2), Pi(1)); }, da_handle_decision_tree, 1},
    {"da_tree_predict_s", [](da_handle h) { return da_tree_predict_s(h, I(0), I(1), Pfc(0), I(2), Pi(1)); }, da_handle_decision_tree, 0},
    {"da_tree_predict_proba_d", [](da_handle h) { return da_tree_predict_proba_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3), I(4)); }, da_handle_decision_tree, 1},
    {"da_tree_predict_proba_s", [](da_handle h) { return da_tree_predict_proba_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3), I(4)); }, da_handle_decision_tree, 0},
    {"da_tree_predict_log_proba_d", [](da_handle h) { return da_tree_predict_log_proba_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3), I(4)); }, da_handle_decision_tree, 1},
    {"da_tree_predict_log_proba_s", [](da_handle h) { return da_tree_predict_log_proba_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3), I(4)); }, da_handle_decision_tree, 0},
    {"da_forest_predict_d", [](da_handle h) { return da_forest_predict_d(h, I(0), I(1), Pdc(0), I(2), Pi(1)); }, da_handle_decision_forest, 1},
    {"da_forest_predict_s", [](da_handle h) { return da_forest_predict_s(h, I(0), I(1), Pfc(0), I(2), Pi(1)); }, da_handle_decision_forest, 0},
    {"da_forest_predict_proba_d", [](da_handle h) { return da_forest_predict_proba_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3), I(4)); }, da_handle_decision_forest, 1},
    {"da_forest_predict_proba_s", [](da_handle h) { return da_forest_predict_proba_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3), I(4)); }, da_handle_decision_forest, 0},
    {"da_forest_predict_log_proba_d", [](da_handle h) { return da_forest_predict_log_proba_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3), I(4)); }, da_handle_decision_forest, 1},
    {"da_forest_predict_log_proba_s", [](da_handle h) { return da_forest_predict_log_proba_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3), I(4)); }, da_handle_decision_forest, 0},
    {"da_tree_score_d", [](da_handle h) { return da_tree_score_d(h, I(0), I(1), Pdc(0), I(2), Pic(1), Pd(2)); }, da_handle_decision_tree, 1},
    {"da_tree_score_s", [](da_handle h) { return da_tree_score_s(h, I(0), I(1), Pfc(0), I(2), Pic(1), Pf(2)); }, da_handle_decision_tree, 0},
    {"da_forest_score_d", [](da_handle h) { return da_forest_score_d(h, I(0), I(1), Pdc(0), I(2), Pic(1), Pd(2)); }, da_handle_decision_forest, 1},
    {"da_forest_score_s", [](da_handle h) { return da_forest_score_s(h, I(0), I(1), Pfc(0), I(2), Pic(1), Pf(2)); }, da_handle_decision_forest, 0},
    {"da_interpolation_select_model_d", [](da_handle h) { return da_interpolation_select_model_d(h, (da_interpolation_model)0); }, da_handle_interpolation, 1},
    {"da_interpolation_select_model_s", [](da_handle h) { return da_interpolation_select_model_s(h, (da_interpolation_model)0); }, da_handle_interpolation, 0},
    {"da_interpolation_set_sites_d", [](da_handle h) { return da_interpolation_set_sites_d(h, I(0), Pdc(0)); }, da_handle_interpolation, 1},
    {"da_interpolation_set_sites_s", [](da_handle h) { return da_interpolation_set_sites_s(h, I(0), Pfc(0)); }, da_handle_interpolation, 0},
    {"da_interpolation_set_sites_uniform_d", [](da_handle h) { return da_interpolation_set_sites_uniform_d(h, I(0), 1, 1); }, da_handle_interpolation, 1},
    {"da_interpolation_set_sites_uniform_s", [](da_handle h) { return da_interpolation_set_sites_uniform_s(h, I(0), 1, 1); }, da_handle_interpolation, 0},
    {"da_interpolation_set_values_d", [](da_handle h) { return da_interpolation_set_values_d(h, I(0), I(1), Pdc(0), I(2), I(3)); }, da_handle_interpolation, 1},
    {"da_interpolation_set_values_s", [](da_handle h) { return da_interpolation_set_values_s(h, I(0), I(1), Pfc(0), I(2), I(3)); }, da_handle_interpolation, 0},
    {"da_interpolation_search_cells_d", [](da_handle h) { return da_interpolation_search_cells_d(h, I(0), Pdc(0), Pi(1)); }, da_handle_interpolation, 1},
    {"da_interpolation_search_cells_s", [](da_handle h) { return da_interpolation_search_cells_s(h, I(0), Pfc(0), Pi(1)); }, da_handle_interpolation, 0},
    {"da_interpolation_interpolate_d", [](da_handle h) { return da_interpolation_interpolate_d(h); }, da_handle_interpolation, 1},
    {"da_interpolation_interpolate_s", [](da_handle h) { return da_interpolation_interpolate_s(h); }, da_handle_interpolation, 0},
    {"da_interpolation_set_boundary_conditions_d", [](da_handle h) { return da_interpolation_set_boundary_conditions_d(h, I(0), I(1), Pdc(0), I(2), Pdc(1)); }, da_handle_interpolation, 1},
    {"da_interpolation_set_boundary_conditions_s", [](da_handle h) { return da_interpolation_set_boundary_conditions_s(h, I(0), I(1), Pfc(0), I(2), Pfc(1)); }, da_handle_interpolation, 0},
    {"da_interpolation_evaluate_d", [](da_handle h) { return da_interpolation_evaluate_d(h, I(0), Pdc(0), Pd(1), I(1), Pi(2)); }, da_handle_interpolation, 1},
    {"da_interpolation_evaluate_s", [](da_handle h) { return da_interpolation_evaluate_s(h, I(0), Pfc(0), Pf(1), I(1), Pi(2)); }, da_handle_interpolation, 0},
    {"da_kmeans_set_data_d", [](da_handle h) { return da_kmeans_set_data_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_kmeans, 1},
    {"da_kmeans_set_data_s", [](da_handle h) { return da_kmeans_set_data_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_kmeans, 0},
    {"da_kmeans_set_init_centres_d", [](da_handle h) { return da_kmeans_set_init_centres_d(h, Pdc(0), I(0)); }, da_handle_kmeans, 1},
    {"da_kmeans_set_init_centres_s", [](da_handle h) { return da_kmeans_set_init_centres_s(h, Pfc(0), I(0)); }, da_handle_kmeans, 0},
    {"da_kmeans_compute_d", [](da_handle h) { return da_kmeans_compute_d(h); }, da_handle_kmeans, 1},
    {"da_kmeans_compute_s", [](da_handle h) { return da_kmeans_compute_s(h); }, da_handle_kmeans, 0},
    {"da_kmeans_transform_d", [](da_handle h) { return da_kmeans_transform_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3)); }, da_handle_kmeans, 1},
    {"da_kmeans_transform_s", [](da_handle h) { return da_kmeans_transform_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3)); }, da_handle_kmeans, 0},
    {"da_kmeans_predict_d", [](da_handle h) { return da_kmeans_predict_d(h, I(0), I(1), Pdc(0), I(2), Pi(1)); }, da_handle_kmeans, 1},
    {"da_kmeans_predict_s", [](da_handle h) { return da_kmeans_predict_s(h, I(0), I(1), Pfc(0), I(2), Pi(1)); }, da_handle_kmeans, 0},
    {"da_linmod_select_model_s", [](da_handle h) { return da_linmod_select_model_s(h, (linmod_model)0); }, da_handle_linmod, 0},
    {"da_linmod_select_model_d", [](da_handle h) { return da_linmod_select_model_d(h, (linmod_model)0); }, da_handle_linmod, 1},
    {"da_linmod_define_features_d", [](da_handle h) { return da_linmod_define_features_d(h, I(0), I(1), Pdc(0), I(2), Pdc(1)); }, da_handle_linmod, 1},
    {"da_linmod_define_features_s", [](da_handle h) { return da_linmod_define_features_s(h, I(0), I(1), Pfc(0), I(2), Pfc(1)); }, da_handle_linmod, 0},
    {"da_linmod_fit_d", [](da_handle h) { return da_linmod_fit_d(h); }, da_handle_linmod, 1},
    {"da_linmod_fit_s", [](da_handle h) { return da_linmod_fit_s(h); }, da_handle_linmod, 0},
    {"da_linmod_fit_start_d", [](da_handle h) { return da_linmod_fit_start_d(h, I(0), Pdc(0)); }, da_handle_linmod, 1},
    {"da_linmod_fit_start_s", [](da_handle h) { return da_linmod_fit_start_s(h, I(0), Pfc(0)); }, da_handle_linmod, 0},
    {"da_linmod_evaluate_model_d", [](da_handle h) { return da_linmod_evaluate_model_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), Pdc(2), Pd(3)); }, da_handle_linmod, 1},
    {"da_linmod_evaluate_model_s", [](da_handle h) { return da_linmod_evaluate_model_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), Pfc(2), Pf(3)); }, da_handle_linmod, 0},
    {"da_nn_set_data_d", [](da_handle h) { return da_nn_set_data_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_nn, 1},
    {"da_nn_set_data_s", [](da_handle h) { return da_nn_set_data_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_nn, 0},
    {"da_nn_set_labels_s", [](da_handle h) { return da_nn_set_labels_s(h, I(0), Pic(0)); }, da_handle_nn, 0},
    {"da_nn_set_labels_d", [](da_handle h) { return da_nn_set_labels_d(h, I(0), Pic(0)); }, da_handle_nn, 1},
    {"da_nn_set_targets_d", [](da_handle h) { return da_nn_set_targets_d(h, I(0), Pdc(0)); }, da_handle_nn, 1},
    {"da_nn_set_targets_s", [](da_handle h) { return da_nn_set_targets_s(h, I(0), Pfc(0)); }, da_handle_nn, 0},
    {"da_nn_kneighbors_d", [](da_handle h) { return da_nn_kneighbors_d(h, I(0), I(1), Pdc(0), I(2), Pi(1), Pd(2), I(3), I(4)); }, da_handle_nn, 1},
    {"da_nn_kneighbors_s", [](da_handle h) { return da_nn_kneighbors_s(h, I(0), I(1), Pfc(0), I(2), Pi(1), Pf(2), I(3), I(4)); }, da_handle_nn, 0},
    {"da_nn_radius_neighbors_d", [](da_handle h) { return da_nn_radius_neighbors_d(h, I(0), I(1), Pdc(0), I(2), 1, I(3), I(4)); }, da_handle_nn, 1},
    {"da_nn_radius_neighbors_s", [](da_handle h) { return da_nn_radius_neighbors_s(h, I(0), I(1), Pfc(0), I(2), 1, I(3), I(4)); }, da_handle_nn, 0},
    {"da_nn_classes_d", [](da_handle h) { return da_nn_classes_d(h, Pi(0), Pi(1)); }, da_handle_nn, 1},
    {"da_nn_classes_s", [](da_handle h) { return da_nn_classes_s(h, Pi(0), Pi(1)); }, da_handle_nn, 0},
    {"da_nn_classifier_predict_proba_d", [](da_handle h) { return da_nn_classifier_predict_proba_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), (da_nn_search_mode)0); }, da_handle_nn, 1},
    {"da_nn_classifier_predict_proba_s", [](da_handle h) { return da_nn_classifier_predict_proba_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), (da_nn_search_mode)0); }, da_handle_nn, 0},
    {"da_nn_classifier_predict_d", [](da_handle h) { return da_nn_classifier_predict_d(h, I(0), I(1), Pdc(0), I(2), Pi(1), (da_nn_search_mode)0); }, da_handle_nn, 1},
    {"da_nn_classifier_predict_s", [](da_handle h) { return da_nn_classifier_predict_s(h, I(0), I(1), Pfc(0), I(2), Pi(1), (da_nn_search_mode)0); }, da_handle_nn, 0},
    {"da_nn_regressor_predict_d", [](da_handle h) { return da_nn_regressor_predict_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), (da_nn_search_mode)0); }, da_handle_nn, 1},
    {"da_nn_regressor_predict_s", [](da_handle h) { return da_nn_regressor_predict_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), (da_nn_search_mode)0); }, da_handle_nn, 0},
    {"da_nlls_define_residuals_d", [](da_handle h) { return da_nlls_define_residuals_d(h, I(0), I(1), nullptr, nullptr, nullptr, nullptr); }, da_handle_nlls, 1},
    {"da_nlls_define_residuals_s", [](da_handle h) { return da_nlls_define_residuals_s(h, I(0), I(1), nullptr, nullptr, nullptr, nullptr); }, da_handle_nlls, 0},
    {"da_nlls_define_bounds_d", [](da_handle h) { return da_nlls_define_bounds_d(h, I(0), Pd(0), Pd(1)); }, da_handle_nlls, 1},
    {"da_nlls_define_bounds_s", [](da_handle h) { return da_nlls_define_bounds_s(h, I(0), Pf(0), Pf(1)); }, da_handle_nlls, 0},
    {"da_nlls_define_weights_d", [](da_handle h) { return da_nlls_define_weights_d(h, I(0), Pd(0)); }, da_handle_nlls, 1},
    {"da_nlls_define_weights_s", [](da_handle h) { return da_nlls_define_weights_s(h, I(0), Pf(0)); }, da_handle_nlls, 0},
    {"da_nlls_fit_d", [](da_handle h) { return da_nlls_fit_d(h, I(0), Pd(0), nullptr); }, da_handle_nlls, 1},
    {"da_nlls_fit_s", [](da_handle h) { return da_nlls_fit_s(h, I(0), Pf(0), nullptr); }, da_handle_nlls, 0},
    {"da_pca_set_data_d", [](da_handle h) { return da_pca_set_data_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_pca, 1},
    {"da_pca_set_data_s", [](da_handle h) { return da_pca_set_data_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_pca, 0},
    {"da_pca_compute_d", [](da_handle h) { return da_pca_compute_d(h); }, da_handle_pca, 1},
    {"da_pca_compute_s", [](da_handle h) { return da_pca_compute_s(h); }, da_handle_pca, 0},
    {"da_pca_transform_d", [](da_handle h) { return da_pca_transform_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3)); }, da_handle_pca, 1},
    {"da_pca_transform_s", [](da_handle h) { return da_pca_transform_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3)); }, da_handle_pca, 0},
    {"da_pca_inverse_transform_d", [](da_handle h) { return da_pca_inverse_transform_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3)); }, da_handle_pca, 1},
    {"da_pca_inverse_transform_s", [](da_handle h) { return da_pca_inverse_transform_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3)); }, da_handle_pca, 0},
    {"da_kernel_pca_set_data_d", [](da_handle h) { return da_kernel_pca_set_data_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_kernel_pca, 1},
    {"da_kernel_pca_set_data_s", [](da_handle h) { return da_kernel_pca_set_data_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_kernel_pca, 0},
    {"da_kernel_pca_compute_d", [](da_handle h) { return da_kernel_pca_compute_d(h); }, da_handle_kernel_pca, 1},
    {"da_kernel_pca_compute_s", [](da_handle h) { return da_kernel_pca_compute_s(h); }, da_handle_kernel_pca, 0},
    {"da_kernel_pca_transform_d", [](da_handle h) { return da_kernel_pca_transform_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3)); }, da_handle_kernel_pca, 1},
    {"da_kernel_pca_transform_s", [](da_handle h) { return da_kernel_pca_transform_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3)); }, da_handle_kernel_pca, 0},
    {"da_kernel_pca_inverse_transform_d", [](da_handle h) { return da_kernel_pca_inverse_transform_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3)); }, da_handle_kernel_pca, 1},
    {"da_kernel_pca_inverse_transform_s", [](da_handle h) { return da_kernel_pca_inverse_transform_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3)); }, da_handle_kernel_pca, 0},
    {"da_svm_select_model_d", [](da_handle h) { return da_svm_select_model_d(h, (da_svm_model)0); }, da_handle_svm, 1},
    {"da_svm_select_model_s", [](da_handle h) { return da_svm_select_model_s(h, (da_svm_model)0); }, da_handle_svm, 0},
    {"da_svm_set_data_d", [](da_handle h) { return da_svm_set_data_d(h, I(0), I(1), Pdc(0), I(2), Pdc(1)); }, da_handle_svm, 1},
    {"da_svm_set_data_s", [](da_handle h) { return da_svm_set_data_s(h, I(0), I(1), Pfc(0), I(2), Pfc(1)); }, da_handle_svm, 0},
    {"da_svm_compute_d", [](da_handle h) { return da_svm_compute_d(h); }, da_handle_svm, 1},
    {"da_svm_compute_s", [](da_handle h) { return da_svm_compute_s(h); }, da_handle_svm, 0},
    {"da_svm_predict_d", [](da_handle h) { return da_svm_predict_d(h, I(0), I(1), Pdc(0), I(2), Pd(1)); }, da_handle_svm, 1},
    {"da_svm_predict_s", [](da_handle h) { return da_svm_predict_s(h, I(0), I(1), Pfc(0), I(2), Pf(1)); }, da_handle_svm, 0},
    {"da_svm_decision_function_d", [](da_handle h) { return da_svm_decision_function_d(h, I(0), I(1), Pdc(0), I(2), (da_svm_decision_function_shape)0, Pd(1), I(3)); }, da_handle_svm, 1},
    {"da_svm_decision_function_s", [](da_handle h) { return da_svm_decision_function_s(h, I(0), I(1), Pfc(0), I(2), (da_svm_decision_function_shape)0, Pf(1), I(3)); }, da_handle_svm, 0},
    {"da_svm_score_d", [](da_handle h) { return da_svm_score_d(h, I(0), I(1), Pdc(0), I(2), Pdc(1), Pd(2)); }, da_handle_svm, 1},
    {"da_svm_score_s", [](da_handle h) { return da_svm_score_s(h, I(0), I(1), Pfc(0), I(2), Pfc(1), Pf(2)); }, da_handle_svm, 0},
    {"da_svm_predict_proba_d", [](da_handle h) { return da_svm_predict_proba_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3)); }, da_handle_svm, 1},
    {"da_svm_predict_proba_s", [](da_handle h) { return da_svm_predict_proba_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3)); }, da_handle_svm, 0},
    {"da_svm_predict_log_proba_d", [](da_handle h) { return da_svm_predict_log_proba_d(h, I(0), I(1), Pdc(0), I(2), Pd(1), I(3)); }, da_handle_svm, 1},
    {"da_svm_predict_log_proba_s", [](da_handle h) { return da_svm_predict_log_proba_s(h, I(0), I(1), Pfc(0), I(2), Pf(1), I(3)); }, da_handle_svm, 0},
    {"da_tsne_set_data_d", [](da_handle h) { return da_tsne_set_data_d(h, I(0), I(1), Pdc(0), I(2)); }, da_handle_tsne, 1},
    {"da_tsne_set_data_s", [](da_handle h) { return da_tsne_set_data_s(h, I(0), I(1), Pfc(0), I(2)); }, da_handle_tsne, 0},
    {"da_tsne_set_init_embedding_d", [](da_handle h) { return da_tsne_set_init_embedding_d(h, Pdc(0), I(0)); }, da_handle_tsne, 1},
    {"da_tsne_set_init_embedding_s", [](da_handle h) { return da_tsne_set_init_embedding_s(h, Pfc(0), I(0)); }, da_handle_tsne, 0},
    {"da_tsne_compute_d", [](da_handle h) { return da_tsne_compute_d(h); }, da_handle_tsne, 1},
    {"da_tsne_compute_s", [](da_handle h) { return da_tsne_compute_s(h); }, da_handle_tsne, 0},

// Stand-in for AOCL-Sparse's header (not installed): only what the linear model's CG solver names.
#pragma once
typedef int aoclsparse_int;
typedef enum { aoclsparse_status_success = 0, aoclsparse_status_not_implemented, aoclsparse_status_invalid_pointer, aoclsparse_status_invalid_size, aoclsparse_status_internal_error, aoclsparse_status_invalid_value, aoclsparse_status_memory_error, aoclsparse_status_maxit, aoclsparse_status_user_stop, aoclsparse_status_numerical_error } aoclsparse_status;
typedef struct aoclsparse_itsol_handle_ *aoclsparse_itsol_handle;
typedef enum { aoclsparse_rci_interrupt = -1, aoclsparse_rci_stop = 0, aoclsparse_rci_start, aoclsparse_rci_mv, aoclsparse_rci_precond, aoclsparse_rci_stopping_criterion } aoclsparse_itsol_rci_job;
#ifdef __cplusplus
extern "C" {
#endif
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *h);
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *h);
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *h);
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle h, const char *o, const char *v);
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n, const double *b);
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n, const float *b);
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle h, aoclsparse_itsol_rci_job *j, double **u, double **v, double *x, double *rinfo);
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle h, aoclsparse_itsol_rci_job *j, float **u, float **v, float *x, float *rinfo);
#ifdef __cplusplus
}
#endif

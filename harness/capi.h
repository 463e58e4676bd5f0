/* Table of the functions of the C interface, usable from C++ (heffte_c.h itself refuses a C++ compiler). */
#ifndef VERIF_CAPI_H
#define VERIF_CAPI_H
#include <mpi.h>
#ifdef __cplusplus
extern "C" {
typedef void *cplan;
#else
typedef heffte_plan cplan;
#endif
struct capi_table { int stock, fftw, mkl, none, full, symmetric, alg[3], success;
    int (*size_inbox)(cplan const), (*size_outbox)(cplan const), (*size_workspace)(cplan const), (*get_backend)(cplan const), (*is_r2c)(cplan const), (*destroy)(cplan);
    void (*f_s2c)(cplan const,float const*,void*,int), (*f_c2c)(cplan const,void const*,void*,int), (*f_d2z)(cplan const,double const*,void*,int), (*f_z2z)(cplan const,void const*,void*,int);
    void (*fb_s2c)(cplan const,float const*,void*,void*,int), (*fb_c2c)(cplan const,void const*,void*,void*,int), (*fb_d2z)(cplan const,double const*,void*,void*,int), (*fb_z2z)(cplan const,void const*,void*,void*,int);
    void (*b_c2s)(cplan const,void const*,float*,int), (*b_c2c)(cplan const,void const*,void*,int), (*b_z2d)(cplan const,void const*,double*,int), (*b_z2z)(cplan const,void const*,void*,int);
    void (*bb_c2s)(cplan const,void const*,float*,void*,int), (*bb_c2c)(cplan const,void const*,void*,void*,int), (*bb_z2d)(cplan const,void const*,double*,void*,int), (*bb_z2z)(cplan const,void const*,void*,void*,int); };
extern struct capi_table const capi;
int capi_defaults_c(int be, int out[4]);
int capi_create_c(int be, int const *in, int const *iorder, int const *out, int const *oorder, int r2c, MPI_Comm comm, int const *opts, void **plan);
#ifdef __cplusplus
}
#endif
#endif

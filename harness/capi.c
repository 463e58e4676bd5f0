/* The C interface as a C program sees it. */
#include "heffte_c.h"
#include "capi.h"
struct capi_table const capi = {
    Heffte_BACKEND_STOCK, Heffte_BACKEND_FFTW, Heffte_BACKEND_MKL, Heffte_SCALE_NONE, Heffte_SCALE_FULL, Heffte_SCALE_SYMMETRIC,
    {Heffte_RESHAPE_ALGORITHM_ALLTOALLV, Heffte_RESHAPE_ALGORITHM_P2P_PLINED, Heffte_RESHAPE_ALGORITHM_P2P}, Heffte_SUCCESS,
    heffte_size_inbox, heffte_size_outbox, heffte_size_workspace, heffte_get_backend, heffte_is_r2c, heffte_plan_destroy,
    heffte_forward_s2c, heffte_forward_c2c, heffte_forward_d2z, heffte_forward_z2z,
    heffte_forward_s2c_buffered, heffte_forward_c2c_buffered, heffte_forward_d2z_buffered, heffte_forward_z2z_buffered,
    heffte_backward_c2s, heffte_backward_c2c, heffte_backward_z2d, heffte_backward_z2z,
    heffte_backward_c2s_buffered, heffte_backward_c2c_buffered, heffte_backward_z2d_buffered, heffte_backward_z2z_buffered };
int capi_defaults_c(int be, int out[4]){ heffte_plan_options o; int r=heffte_set_default_options(be,&o); if (r==Heffte_SUCCESS){ out[0]=o.use_reorder; out[1]=o.algorithm; out[2]=o.use_pencils; out[3]=o.use_gpu_aware; } return r; }
/* opts: NULL or {reorder, algorithm, pencils, gpu}; -1 keeps the default */
int capi_create_c(int be, int const *in, int const *iorder, int const *out, int const *oorder, int r2c, MPI_Comm comm, int const *opts, void **plan){
    heffte_plan_options o; heffte_plan_options *po=NULL; heffte_plan p=(heffte_plan)0; int r;
    if (opts){ if (heffte_set_default_options(be,&o)!=Heffte_SUCCESS){ o.use_reorder=1; o.algorithm=Heffte_RESHAPE_ALGORITHM_ALLTOALLV; o.use_pencils=1; o.use_gpu_aware=0; } if (opts[0]!=-1) o.use_reorder=opts[0]; if (opts[1]!=-1) o.algorithm=opts[1]; if (opts[2]!=-1) o.use_pencils=opts[2]; if (opts[3]!=-1) o.use_gpu_aware=opts[3]; po=&o; }
    if (r2c<0) r=heffte_plan_create(be,in,in+3,iorder,out,out+3,oorder,comm,po,&p);
    else r=heffte_plan_create_r2c(be,in,in+3,iorder,out,out+3,oorder,r2c,comm,po,&p);
    *plan=(void*)p; return r; }

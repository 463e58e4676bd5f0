#include "hist.h"
std::unique_ptr<plan_base> hist_mkl(hcfg const &c,int me,MPI_Comm comm){
    if (c.kind=="cos") return make_r2r<backend::mkl_cos>(c,me,comm); if (c.kind=="sin") return make_r2r<backend::mkl_sin>(c,me,comm); return make_cpp<backend::mkl>(c,me,comm); }

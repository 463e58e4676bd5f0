#include "hist.h"
std::unique_ptr<plan_base> hist_fftw(hcfg const &c,int me,MPI_Comm comm){
    if (c.kind=="cos") return make_r2r<backend::fftw_cos>(c,me,comm); if (c.kind=="sin") return make_r2r<backend::fftw_sin>(c,me,comm);
    if (c.kind=="cos1") return make_r2r<backend::fftw_cos1>(c,me,comm); if (c.kind=="sin1") return make_r2r<backend::fftw_sin1>(c,me,comm); return make_cpp<backend::fftw>(c,me,comm); }

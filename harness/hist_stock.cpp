#include "hist.h"
std::unique_ptr<plan_base> hist_stock(hcfg const &c,int me,MPI_Comm comm){
    if (c.kind=="cos") return make_r2r<backend::stock_cos>(c,me,comm); if (c.kind=="sin") return make_r2r<backend::stock_sin>(c,me,comm);
    if (c.kind=="cos1") return make_r2r<backend::stock_cos1>(c,me,comm); return make_cpp<backend::stock>(c,me,comm); }

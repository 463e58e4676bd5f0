#include "num.h"
template<class T> r2r_fn pick(bool ll,bool fl){ return ll?(fl?&r2r_rank<T,long long,float>:&r2r_rank<T,long long,double>):(fl?&r2r_rank<T,int,float>:&r2r_rank<T,int,double>); }
r2r_fn r2r_stock(std::string const &k,bool ll,bool fl){
    if (k=="cos") return pick<backend::stock_cos>(ll,fl);
    if (k=="sin") return pick<backend::stock_sin>(ll,fl);
    if (k=="cos1") return pick<backend::stock_cos1>(ll,fl);
    return nullptr; }

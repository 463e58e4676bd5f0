#include "exec.h"
ex_fn ex_stock(bool ll,bool fl){ return ex_pick<backend::stock,false>(ll,fl); }

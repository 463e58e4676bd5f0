#include "exec.h"
ex_fn ex_mkl(bool ll,bool fl){ return ex_pick<backend::mkl,true>(ll,fl); }

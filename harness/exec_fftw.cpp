#include "exec.h"
ex_fn ex_fftw(bool ll,bool fl){ return ex_pick<backend::fftw,true>(ll,fl); }

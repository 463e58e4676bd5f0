#include "num.h"
num_fn num_fftw(bool ll,bool fl){ using T=backend::fftw; return ll?(fl?&num_rank<T,long long,float>:&num_rank<T,long long,double>):(fl?&num_rank<T,int,float>:&num_rank<T,int,double>); }

#include "fort.h"
template<class R,bool r2c,bool realin> static void go(kase const &k,std::vector<std::vector<long>> const &in,std::vector<std::vector<long>> const &out,geo const &g,num_out &o,MPI_Comm comm){
    int me; MPI_Comm_rank(comm,&me); box3d<int> ib=mkbox<int>(in[me]), ob=mkbox<int>(out[me]); fvar<r2c> f;
    f.nosc=k.num("nosc"); f.make((int)k.num("how"),in[me],out[me],(int)g.r2c,comm,opts_of(k,plan_options(true,reshape_algorithm::alltoallv,false)));
    drive_num<fvar<r2c>,R,realin,int>(k,f,ib,ob,me,g,o,comm); if (fort_err()) o.sizes|=4; f.release(); }
template<class R> static void fort_rank(kase const &k,int wr,std::vector<std::vector<long>> const &in,std::vector<std::vector<long>> const &out,geo const &g,num_out &o){
    MPI_Comm comm=MPI_COMM_WORLD; bool own=false; auto perm=k.list("perm");
    if (!perm.empty()){ MPI_Comm_split(MPI_COMM_WORLD, perm[wr]<0?MPI_UNDEFINED:0, (int)perm[wr], &comm); own=true; if (comm==MPI_COMM_NULL) return; }
    if (g.r2c>=0) go<R,true,true>(k,in,out,g,o,comm); else if (g.rin) go<R,false,true>(k,in,out,g,o,comm); else go<R,false,false>(k,in,out,g,o,comm);
    if (own) MPI_Comm_free(&comm); }
static num_fn pick(bool fl){ return fl?&fort_rank<float>:&fort_rank<double>; }
num_fn num_fftw(bool,bool fl){ return pick(fl); } num_fn num_mkl(bool,bool fl){ return pick(fl); } num_fn num_stock(bool,bool fl){ return pick(fl); }

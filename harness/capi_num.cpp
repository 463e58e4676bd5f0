/* Impulse responses of transforms made and used through the C interface. */
#include "num.h"
#include "cfft.h"
namespace {
struct cnum : cfft { box3d<int> ib, ob; double n;
    cnum(box3d<int> const &a,box3d<int> const &b,double count) : ib(a), ob(b), n(count) {}
    long size_inbox() const { return capi.size_inbox(p); } long size_outbox() const { return capi.size_outbox(p); }
    box3d<int> inbox() const { return ib; } box3d<int> outbox() const { return ob; }
    double get_scale_factor(scale s) const { return s==scale::none?1:(s==scale::full?1/n:1/std::sqrt(n)); } };
template<class R,bool realin> void go(kase const &k,std::vector<std::vector<long>> const &in,std::vector<std::vector<long>> const &out,geo const &g,num_out &o,MPI_Comm comm){
    int me; MPI_Comm_rank(comm,&me); cnum f(mkbox<int>(in[me]),mkbox<int>(out[me]),(double)g.n[0]*g.n[1]*g.n[2]); std::string be=k.str("be","stock"); int id=be=="fftw"?capi.fftw:(be=="mkl"?capi.mkl:capi.stock);
    int x[2][6], q[2][3]; for(int i=0;i<6;i++){ x[0][i]=(int)in[me][i]; x[1][i]=(int)out[me][i]; } for(int i=0;i<3;i++){ q[0][i]=(int)in[me][6+i]; q[1][i]=(int)out[me][6+i]; }
    auto dflt=[&](int j){ return k.num("noord") && q[j][0]==0&&q[j][1]==1&&q[j][2]==2; };
    int opts[4]={(int)k.num("reorder",-1), k.has("alg")?capi.alg[k.num("alg")%3]:-1, (int)k.num("pencils",-1), (int)k.num("gpu",-1)}; void *p=nullptr;
    if (capi_create_c(id,x[0],dflt(0)?nullptr:q[0],x[1],dflt(1)?nullptr:q[1],(int)g.r2c,comm,k.num("noopt")?nullptr:opts,&p)!=capi.success) throw std::runtime_error("Cannot split (no reason given through the C interface)");   // judged by the model, as for the other interfaces
    f.p=p; if (capi.get_backend(p)!=id || capi.is_r2c(p)!=(int)(g.r2c>=0)) o.sizes|=32;
    drive_num<cnum,R,realin,int>(k,f,f.ib,f.ob,me,g,o,comm); if (capi.destroy(p)!=capi.success) o.sizes|=64; }
template<class R> void capi_rank(kase const &k,int wr,std::vector<std::vector<long>> const &in,std::vector<std::vector<long>> const &out,geo const &g,num_out &o){
    MPI_Comm comm=MPI_COMM_WORLD; bool own=false; auto perm=k.list("perm");
    if (!perm.empty()){ MPI_Comm_split(MPI_COMM_WORLD, perm[wr]<0?MPI_UNDEFINED:0, (int)perm[wr], &comm); own=true; if (comm==MPI_COMM_NULL) return; }
    if (g.r2c>=0 || g.rin) go<R,true>(k,in,out,g,o,comm); else go<R,false>(k,in,out,g,o,comm);
    if (own) MPI_Comm_free(&comm); }
num_fn pick(bool fl){ return fl?&capi_rank<float>:&capi_rank<double>; }
}
// the C interface has no containers
num_fn num_fftw(bool,bool fl){ return pick(fl); } num_fn num_mkl(bool,bool fl){ return pick(fl); } num_fn num_stock(bool,bool fl){ return pick(fl); }

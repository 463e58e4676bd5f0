/* Plans made and used through the C interface. */
#include "hist.h"
#include "cfft.h"
// the C interface has no containers
template<class TI,class TO> struct vec_fwd<cfft,TI,TO>{ static std::vector<TO> go(cfft &,std::vector<TI> const &,scale){ abort(); } };
template<class TI,class TO> struct vec_bwd<cfft,TI,TO>{ static std::vector<TO> go(cfft &,std::vector<TI> const &,scale){ abort(); } };
template<class TI,class TO> struct vec_real<cfft,TI,TO>{ static std::vector<TO> go(cfft &,std::vector<TI> const &,scale){ abort(); } };
namespace {
struct cplan_t : plan_base { cfft f; int me; MPI_Comm comm;
    ~cplan_t() override { if (capi.destroy(f.p)!=capi.success) mock::report_error("heffte_plan_destroy failed"); }
    template<class R> void go(hop &o){ using C=std::complex<R>; if (c->realin) one_transform<cfft,R,C>(f,*c,o,me); else one_transform<cfft,C,C>(f,*c,o,me); }
    void transform(hop &o,int m) override { me=m; if (o.v[7]) go<float>(o); else go<double>(o); }
    std::vector<long> query() override {     // the numbers of the C++ interface are put beside those of the C interface
        std::unique_ptr<plan_base> q = c->be=="fftw"?hist_fftw(*c,me,comm):(c->be=="mkl"?hist_mkl(*c,me,comm):hist_stock(*c,me,comm)); auto v=q->query();
        std::vector<long> r={capi.size_inbox(f.p),capi.size_outbox(f.p),capi.size_workspace(f.p)}; r.insert(r.end(),v.begin(),v.end());
        int be = c->be=="fftw"?capi.fftw:(c->be=="mkl"?capi.mkl:capi.stock); r.push_back(capi.get_backend(f.p)==be); r.push_back(capi.is_r2c(f.p)); return r; }
    std::unique_ptr<plan_base> steal() override { abort(); } bool take(plan_base &) override { return false; } };
}
std::unique_ptr<plan_base> hist_capi(hcfg const &c,int me,MPI_Comm comm,hop &o,int bad_backend,int bad_alg){
    int be = bad_backend?bad_backend:(c.be=="fftw"?capi.fftw:(c.be=="mkl"?capi.mkl:capi.stock)); int in[6],out[6],io[3],oo[3]; for(int i=0;i<6;i++){ in[i]=(int)c.in[me][i]; out[i]=(int)c.out[me][i]; } for(int i=0;i<3;i++){ io[i]=(int)c.in[me][6+i]; oo[i]=(int)c.out[me][6+i]; }
    auto dflt=[](int *q){ return q[0]==0&&q[1]==1&&q[2]==2; };
    int opts[4]={(int)c.k.num("reorder",-1), bad_alg?bad_alg:(c.k.has("alg")?capi.alg[c.k.num("alg")%3]:-1), (int)c.k.num("pencils",-1), (int)c.k.num("gpu",-1)}; bool any=false; for(int x : opts) if (x!=-1) any=true;
    void *p=nullptr; o.ret=capi_create_c(be,in,dflt(io)?nullptr:io,out,dflt(oo)?nullptr:oo,c.r2c,comm,any?opts:nullptr,&p);
    if (o.ret!=capi.success){ if (p) o.sz|=8; return nullptr; }
    std::unique_ptr<plan_base> r(new cplan_t); r->c=&c; auto *q=static_cast<cplan_t*>(r.get()); q->f.p=p; q->me=me; q->comm=comm; return r; }
// options the C interface fills in for a back end, and those of the C++ interface
void capi_defaults(int be,hop &o){ int v[4]={-7,-7,-7,-7}; int id=be==0?capi.stock:(be==1?capi.fftw:(be==2?capi.mkl:be)); o.ret=capi_defaults_c(id,v);
    if (be>2) { o.sizes.push_back({}); return; }
    plan_options d = be==0?default_options<backend::stock>():(be==1?default_options<backend::fftw>():default_options<backend::mkl>());
    int alg=-1; for(int i=0;i<3;i++) if (v[1]==capi.alg[i]) alg=i;
    o.sizes.push_back({v[0],v[2],v[3],alg,d.use_reorder,d.use_pencils,d.use_gpu_aware,(long)(d.algorithm==reshape_algorithm::p2p_plined?1:(d.algorithm==reshape_algorithm::p2p?2:0))}); }

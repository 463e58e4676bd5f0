/* One redistribution plan applied several times to labelled data; writes what every rank received. */
#include "heffte.h"
#include "common.h"
using namespace heffte;
template<class I> box3d<I> mkbox(std::vector<long> const &g){ return box3d<I>({(I)g[0],(I)g[1],(I)g[2]},{(I)g[3],(I)g[4],(I)g[5]},{(int)g[6],(int)g[7],(int)g[8]}); }
template<class T> struct lab { static T of(long i){ return (T)i; } static long back(T x){ double d=x; return (d>=0 && d<1e7 && d==(long)d) ? (long)d : -1; } };
template<class R> struct lab<std::complex<R>> { static std::complex<R> of(long i){ return {(R)i,(R)(i+3)}; } static long back(std::complex<R> x){ long a=lab<R>::back(x.real()); return (a>=0 && x.imag()==x.real()+3) ? a : -1; } };
struct outc { std::vector<std::vector<std::vector<long>>> res; long guards=0, inmod=0, sizes=0; };
long n0,n1,n2,B;
template<class T,class I> void rank_main(kase const &k,int wr,std::vector<std::vector<long>> const &in,std::vector<std::vector<long>> const &out,outc &o){
    MPI_Comm comm=MPI_COMM_WORLD; bool own=false; auto perm=k.list("perm");
    if (!perm.empty()){ MPI_Comm_split(MPI_COMM_WORLD, perm[wr]<0?MPI_UNDEFINED:0, (int)perm[wr], &comm); own=true; if (comm==MPI_COMM_NULL) return; }
    int me; MPI_Comm_rank(comm,&me);
    { std::vector<box3d<I>> a,b; for(auto &g : in) a.push_back(mkbox<I>(g)); for(auto &g : out) b.push_back(mkbox<I>(g));
    plan_options op(k.num("reorder",1)!=0, static_cast<reshape_algorithm>(k.num("alg")), true); op.use_gpu_aware=k.num("gpu",1);
    auto s=make_reshape3d<backend::stock>(nullptr, a, b, comm, op);
    auto apps=k.list("apps");   // batch size of every application
    for(size_t p=0;p<apps.size();p++){
        int batch=(int)apps[p]; long ni=a[me].count(), no=b[me].count(); bool inplace=k.num("inplace");
        T mi=T(-31), mo=T(-32), mw=T(-33);
        guarded<T> src((inplace?std::max(ni,no):ni)*batch, mi), dst(inplace?0:no*batch, mo), ws(s?s->size_workspace()*batch:0, mw);
        box3d<I> const &x=a[me]; long q=0;
        if (ni>0) for(int j=0;j<batch;j++){ long c[3]; auto od=x.order;
            for(c[od[2]]=x.low[od[2]];c[od[2]]<=x.high[od[2]];c[od[2]]++) for(c[od[1]]=x.low[od[1]];c[od[1]]<=x.high[od[1]];c[od[1]]++) for(c[od[0]]=x.low[od[0]];c[od[0]]<=x.high[od[0]];c[od[0]]++)
                src[q++]=lab<T>::of((long)(p*3+j)*B + c[0]+n0*(c[1]+n1*c[2])); }
        std::vector<T> before(src.data(), src.data()+ni*batch); T *d=inplace?src.data():dst.data();
        if (s){ if (s->size_intput()!=ni || s->size_output()!=no) o.sizes|=1; s->apply(batch, src.data(), d, ws.data()); }
        else if (!inplace) std::copy_n(src.data(), std::min(ni,no)*batch, d);
        if (!src.intact()) o.guards|=1; if (!dst.intact()) o.guards|=2; if (!ws.intact()) o.guards|=4;
        if (!inplace && !before.empty() && memcmp(before.data(), src.data(), before.size()*sizeof(T))) o.inmod=1;
        std::vector<long> r(no*batch); for(size_t i=0;i<r.size();i++) r[i]=lab<T>::back(d[i]);
        o.res[p][me]=r;
        if (k.num("sync",0)) MPI_Barrier(comm);
    } }
    if (own) MPI_Comm_free(&comm);
}
static std::string one(kase const &k){
    auto in=k.lists("in"), out=k.lists("out"); n0=n1=n2=0; for(auto &g : in){ n0=std::max(n0,g[3]+1); n1=std::max(n1,g[4]+1); n2=std::max(n2,g[5]+1); } B=n0*n1*n2;
    auto apps=k.list("apps"); outc o; o.res.assign(apps.size(), std::vector<std::vector<long>>(in.size())); auto perm=k.list("perm"); int nw=perm.empty()?(int)in.size():(int)perm.size();
    std::string ty=k.str("type","d"); bool ll=k.num("ll");
    auto res=mock::run(nw, policy_of(k), k.num("rec"), [&](int wr){
        if (ll){ if (ty=="f") rank_main<float,long long>(k,wr,in,out,o); else if (ty=="d") rank_main<double,long long>(k,wr,in,out,o); else if (ty=="c") rank_main<std::complex<float>,long long>(k,wr,in,out,o); else rank_main<std::complex<double>,long long>(k,wr,in,out,o); }
        else { if (ty=="f") rank_main<float,int>(k,wr,in,out,o); else if (ty=="d") rank_main<double,int>(k,wr,in,out,o); else if (ty=="c") rank_main<std::complex<float>,int>(k,wr,in,out,o); else rank_main<std::complex<double>,int>(k,wr,in,out,o); } });
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(status_of(res))+",\"what\":"+jstr(res.ok()?"":res.what())+",\"n\":["+std::to_string(n0)+","+std::to_string(n1)+","+std::to_string(n2)+"],\"in\":"+box_json(in)+",\"out\":"+box_json(out)+",\"apps\":"+jarr(apps)+",\"guards\":"+std::to_string(o.guards)+",\"inmod\":"+std::to_string(o.inmod)+",\"sizes\":"+std::to_string(o.sizes)+",\"np\":"+std::to_string(nw)+",\"res\":[";
    for(size_t p=0;p<o.res.size();p++){ if (p) s+=","; if (!k.num("pk")){ s+=box_json(o.res[p]); continue; } s+="["; for(size_t r=0;r<out.size();r++){ if (r) s+=","; s+=jpack(o.res[p][r], line_of(out[r])); } s+="]"; }
    s+="]"; if (k.num("pk")) s+=",\"pk\":1";
    if (k.num("rec")) s+=",\"ev\":"+jevents(res);
    return s+"}";
}
int main(int c,char**v){ return run_cases(c,v,one); }

/* Impulse responses of the distributed transforms with the real one-dimensional engines.
   Every output value is turned into an integer: the multiple of 2*pi/L its phase is (complex output), or the
   value in millionths of the scale asked for (real output); complex values get 100000 * the scale class added, -1 marks
   anything that is not such a value. */
#ifndef VERIF_NUM_H
#define VERIF_NUM_H
#include "heffte.h"
#include "calls.h"
#include "common.h"
#include "ctors.h"
#include <array>
using namespace heffte;
template<class I> inline box3d<I> mkbox(std::vector<long> const &g){ return box3d<I>({(I)g[0],(I)g[1],(I)g[2]},{(I)g[3],(I)g[4],(I)g[5]},{(int)g[6],(int)g[7],(int)g[8]}); }
inline plan_options opts_of(kase const &k, plan_options o){
    if (k.has("reorder")) o.use_reorder=k.num("reorder"); if (k.has("alg")) o.algorithm=static_cast<reshape_algorithm>(k.num("alg"));
    if (k.has("pencils")) o.use_pencils=k.num("pencils"); if (k.has("gpu")) o.use_gpu_aware=k.num("gpu");
    if (k.has("sub")) o.use_num_subranks((int)k.num("sub")); return o; }
struct run_rec { int back=0, sc=0; long c[3]={0,0,0}; long s=0; int m=1; int j=0, w=0; std::vector<std::vector<long>> res; };
struct num_out { std::vector<run_rec> runs; long guards=0, inmod=0, sizes=0, lin=0; double maxerr=0; std::vector<std::array<long,2>> cnt; };
inline long gcdl(long a,long b){ while(b){ long t=a%b; a=b; b=t; } return a; }
template<class I> inline long addr_of(box3d<I> const &b, long const *p){ long q[3]; for(int i=0;i<3;i++) q[i]=p[i]-b.low[i]; return (q[b.order[2]]*b.size[b.order[1]]+q[b.order[1]])*(long)b.size[b.order[0]]+q[b.order[0]]; }
template<class I> inline bool inside(box3d<I> const &b, long const *p){ for(int i=0;i<3;i++) if (p[i]<b.low[i]||p[i]>b.high[i]) return false; return true; }
struct geo { long n[3], no[3], L; int r2c; bool rin; double tol; };
inline double amp_of(int cls, double N){ return cls==0?1.0:(cls==1?1.0/N:1.0/std::sqrt(N)); }
// the natural number a scale factor is one over, -1 when there is none
inline long inverse_of(double e){ double x=1/e; if (!(x>0.5 && x<1e15)) return -1; long n=std::llround(x); return std::abs(x/n-1)<1e-12 ? n : -1; }
template<class R> inline long decode_c(std::complex<R> z, geo const &g, int sc, double N, double *err){
    int order[3]={sc,(sc+1)%3,(sc+2)%3};
    for(int t=0;t<3;t++){ double a=amp_of(order[t],N); std::complex<double> w((double)z.real()/a,(double)z.imag()/a); double m=std::abs(w); if (!(m>0.5&&m<1.5)) continue;
        long p=std::lround(std::arg(w)*g.L/(2*M_PI)); p=((p%g.L)+g.L)%g.L; double e=std::abs(w-std::polar(1.0,2*M_PI*p/g.L)); if (e<g.tol){ if (order[t]==sc && e>*err) *err=e; return order[t]*100000+p; } if (t==0 && e<0.1 && e>*err) *err=e; }
    return -1; }
// real output: the value itself in millionths of what scale class sc makes of one
inline long decode_r(double x, int m, geo const &, int sc, double N, double *){
    double w=x/amp_of(sc,N)/m*1e6; if (!(std::abs(w)<1e9)) return 2000000000; return std::lround(w); }
template<class T> inline T nanmark(){ return T(std::numeric_limits<double>::quiet_NaN()); }
template<class R> inline R asT(std::complex<double> z, R*){ return (R)z.real(); }
template<class R> inline std::complex<R> asT(std::complex<double> z, std::complex<R>*){ return {(R)z.real(),(R)z.imag()}; }
inline std::complex<double> toz(float x){ return x; } inline std::complex<double> toz(double x){ return x; }
inline std::complex<double> toz(std::complex<float> x){ return {x.real(),x.imag()}; } inline std::complex<double> toz(std::complex<double> x){ return x; }

// one transform of `batch` items; item j holds the given sparse input
struct item { std::vector<std::array<long,3>> at; std::vector<std::complex<double>> val; std::function<std::complex<double>(long const*)> dense; };
template<class Fft,class TI,class TO,class I> std::vector<std::complex<double>> shoot(kase const &k, Fft &f, bool fwd, box3d<I> const &src, box3d<I> const &dst, std::vector<item> const &items, scale sc, num_out &o){
    using W = typename std::conditional<std::is_floating_point<TI>::value, TO, TI>::type; int batch=(int)items.size();
    long ni=src.count(), no=dst.count(); bool inplace=k.num("inplace") && std::is_same<TI,TO>::value; bool own=k.num("ownws",1);
    long off=k.num("off",0);      // the first element sits `off` elements into the allocation
    TI nm=nanmark<TI>(); TO nmo=nanmark<TO>(); W nmw=nanmark<W>();
    guarded<TI> inb((size_t)(inplace?std::max(ni,no):ni)*batch+off, nm); guarded<TO> outb((inplace?0:(size_t)no*batch)+off, nmo); guarded<W> ws(own?f.size_workspace()*batch:0, nmw);
    TI *in=inb.data()+off;
    for(long i=0;i<ni*batch;i++) in[i]=TI(0);
    for(int j=0;j<batch;j++) for(size_t q=0;q<items[j].at.size();q++){ long const *p=items[j].at[q].data(); if (inside(src,p)) in[j*ni+addr_of(src,p)]+=asT(items[j].val[q],(TI*)nullptr); }
    for(int j=0;j<batch;j++) if (items[j].dense && ni>0){ long p[3]; for(p[2]=src.low[2];p[2]<=src.high[2];p[2]++) for(p[1]=src.low[1];p[1]<=src.high[1];p[1]++) for(p[0]=src.low[0];p[0]<=src.high[0];p[0]++) in[j*ni+addr_of(src,p)]=asT(items[j].dense(p),(TI*)nullptr); }
    std::vector<TI> before(in, in+ni*batch);
    TO *out = inplace ? reinterpret_cast<TO*>(in) : outb.data()+off;
    run_dir(f, fwd, batch, own, (bool)k.num("one",1), (TI const*)in, out, ws.data(), sc);
    if (!inb.intact()) o.guards|=1; if (!outb.intact()) o.guards|=2; if (!ws.intact()) o.guards|=4;
    if (!inplace && !before.empty() && memcmp(before.data(), in, before.size()*sizeof(TI))) o.inmod|=1;
    std::vector<std::complex<double>> r(no*batch); for(long i=0;i<no*batch;i++) r[i]=toz(out[i]); return r;
}
// sc: 0 none, 1 full, 2 symmetric
inline scale sc_of(int s){ return s==0?scale::none:(s==1?scale::full:scale::symmetric); }
template<class Fft,class R,bool realin,class I> void drive_num(kase const &k, Fft &f, box3d<I> const &ib, box3d<I> const &ob, int me, geo const &g, num_out &o, MPI_Comm comm){
    using C=std::complex<R>; using TI=typename std::conditional<realin,R,C>::type; int batch=(int)k.num("batch",1);
    if (f.size_inbox()!=ib.count() || f.size_outbox()!=ob.count() || f.inbox()!=ib || f.outbox()!=ob) o.sizes|=1;
    double N=(double)g.n[0]*g.n[1]*g.n[2];
    { double e=f.get_scale_factor(scale::full), h=f.get_scale_factor(scale::symmetric); o.cnt[me]={inverse_of(e),inverse_of(h*h)}; if (f.get_scale_factor(scale::none)!=1.0) o.sizes|=2; }
    auto turns=[&](long const *c, long const *p){ long h=0; for(int i=0;i<3;i++) h+=c[i]*p[i]%g.n[i]*(g.L/g.n[i]); return h%g.L; };
    for(size_t q=0;q<o.runs.size();q+=batch){
        std::vector<item> items; int n=(int)std::min((size_t)batch, o.runs.size()-q); bool fwd=!o.runs[q].back;
        for(int j=0;j<n;j++){ auto &r=o.runs[q+j]; item it;
            if (r.w){ // a wave: everything comes together in one cell (real data: and in its mirror image)
                run_rec *rp=&r; it.dense=[&g,rp,turns](long const *p){ long h=turns(rp->c,p); h=rp->back?(g.L-h)%g.L:h; std::complex<double> z=std::polar((double)rp->m, 2*M_PI*((h+rp->s)%g.L)/g.L); return z; };
                items.push_back(it); continue; }
            std::complex<double> v=std::polar(1.0, 2*M_PI*r.s/g.L); it.at.push_back({r.c[0],r.c[1],r.c[2]}); it.val.push_back(v);
            if (r.back && realin && r.m==2){ // the mirror image, present only when it is stored
                std::array<long,3> p; for(int i=0;i<3;i++) p[i]=(g.n[i]-r.c[i])%g.n[i]; bool stored=true; for(int i=0;i<3;i++) if (p[i]>=g.no[i]) stored=false;
                if (stored){ it.at.push_back(p); it.val.push_back(std::conj(v)); } }
            items.push_back(it); }
        std::vector<std::complex<double>> r;
        if (fwd) r=shoot<Fft,TI,C,I>(k,f,true,ib,ob,items,sc_of(o.runs[q].sc),o); else r=shoot<Fft,C,TI,I>(k,f,false,ob,ib,items,sc_of(o.runs[q].sc),o);
        long no=fwd?ob.count():ib.count();
        for(int j=0;j<n;j++){ auto &rr=o.runs[q+j]; std::vector<long> v(no); double e=0; bool pk=k.num("pk");
            if (rr.w){ v.clear(); double unit=N*amp_of(rr.sc,N); for(long i=0;i<no;i++){ auto z=r[j*no+i]; if (std::abs(z)/unit<g.tol) continue; v.push_back(i); v.push_back(decode_c(z/N, g, rr.sc, N, &e)); } rr.res[me]=v; o.maxerr=std::max(o.maxerr,e); continue; }
            if (pk && !fwd && realin && no>0){ // the phase whose cosine the value is, when it is
                box3d<I> const &b=ib; long p[3]; double tol=g.tol*1e6+2; for(p[2]=b.low[2];p[2]<=b.high[2];p[2]++) for(p[1]=b.low[1];p[1]<=b.high[1];p[1]++) for(p[0]=b.low[0];p[0]<=b.high[0];p[0]++){
                    long i=addr_of(b,p), ph=(turns(rr.c,p)+rr.s)%g.L; double x=(double)decode_r(r[j*no+i].real(), rr.m, g, rr.sc, N, &e); v[i] = std::abs(x-1e6*std::cos(2*M_PI*ph/g.L))<=tol ? ph : -1; }
                rr.res[me]=v; continue; }
            for(long i=0;i<no;i++){ auto z=r[j*no+i]; v[i] = (!fwd && realin) ? decode_r(z.real(), rr.m, g, rr.sc, N, &e) : decode_c(z, g, rr.sc, N, &e); }
            rr.res[me]=v; o.maxerr=std::max(o.maxerr,e); }
    }
    // dense random data: the response must be the sum of the impulse responses
    if (k.num("lin")){ MPI_Barrier(comm); std::mt19937_64 rng(k.num("lin")*77+5); auto rnd=[&]{ return (double)((long)(rng()%2001)-1000)/500.0; };
        for(int back=0;back<2;back++){ std::vector<item> items; long *nn = back? (long*)g.no : (long*)g.n;
            if (back && realin) continue;
            for(int j=0;j<batch;j++){ item it; for(long z=0;z<nn[2];z++) for(long y=0;y<nn[1];y++) for(long x=0;x<nn[0];x++){ it.at.push_back({x,y,z}); double a=rnd(), b=rnd(); it.val.push_back(realin&&!back?std::complex<double>(a,0):std::complex<double>(a,b)); } items.push_back(it); }
            std::vector<std::complex<double>> r; if (!back) r=shoot<Fft,TI,C,I>(k,f,true,ib,ob,items,scale::none,o); else r=shoot<Fft,C,TI,I>(k,f,false,ob,ib,items,scale::none,o);
            box3d<I> const &dst = back?ib:ob; long p[3], no=dst.count(); std::vector<std::complex<double>> tw(g.L); for(long i=0;i<g.L;i++) tw[i]=std::polar(1.0,(back?1:-1)*2*M_PI*i/g.L);
            for(p[2]=dst.low[2];p[2]<=dst.high[2];p[2]++) for(p[1]=dst.low[1];p[1]<=dst.high[1];p[1]++) for(p[0]=dst.low[0];p[0]<=dst.high[0];p[0]++) for(int j=0;j<batch;j++){
                std::complex<double> e=0; auto &it=items[j]; for(size_t q=0;q<it.at.size();q++){ long ph=0; for(int i=0;i<3;i++) ph+=p[i]*it.at[q][i]%g.n[i]*(g.L/g.n[i]); e+=it.val[q]*tw[ph%g.L]; }
                std::complex<double> got=r[j*no+addr_of(dst,p)]; if (!(std::abs(got-e) < g.tol*4*std::sqrt(N)*8)) o.lin=1+back; } } }
}
template<class Tag,class I,class R> void num_rank(kase const &k,int wr,std::vector<std::vector<long>> const &in,std::vector<std::vector<long>> const &out,geo const &g,num_out &o){
    MPI_Comm comm=MPI_COMM_WORLD; bool own=false; auto perm=k.list("perm");
    if (!perm.empty()){ MPI_Comm_split(MPI_COMM_WORLD, perm[wr]<0?MPI_UNDEFINED:0, (int)perm[wr], &comm); own=true; if (comm==MPI_COMM_NULL) return; }
    int me; MPI_Comm_rank(comm,&me); box3d<I> ib=mkbox<I>(in[me]), ob=mkbox<I>(out[me]); plan_options op=opts_of(k, default_options<Tag>());
    if (g.r2c>=0){ fft3d_r2c<Tag,I> f=ask_r2c<Tag,I>((int)k.num("ctor"),in[me],out[me],g.r2c,comm,op); drive_num<fft3d_r2c<Tag,I>,R,true,I>(k,f,ib,ob,me,g,o,comm); }
    else if (g.rin){ fft3d<Tag,I> f=ask<Tag,I>((int)k.num("ctor"),in[me],out[me],comm,op); drive_num<fft3d<Tag,I>,R,true,I>(k,f,ib,ob,me,g,o,comm); }
    else { fft3d<Tag,I> f=ask<Tag,I>((int)k.num("ctor"),in[me],out[me],comm,op); drive_num<fft3d<Tag,I>,R,false,I>(k,f,ib,ob,me,g,o,comm); }
    if (own) MPI_Comm_free(&comm);
}
typedef void (*num_fn)(kase const&,int,std::vector<std::vector<long>> const&,std::vector<std::vector<long>> const&,geo const&,num_out&);
num_fn num_fftw(bool ll,bool fl); num_fn num_mkl(bool ll,bool fl); num_fn num_stock(bool ll,bool fl);
// r2r: values relative to what the scaling makes of the kernel (forward) or of its inverse (backward)
struct r2r_out { std::vector<std::vector<std::vector<double>>> res; long guards=0,inmod=0,sizes=0,lin=0; std::string kind; long n[3]; double tol; };
inline double r2r_norm(std::string const &kind,long n){ return kind=="cos1"?2.0*(n-1):(kind=="sin1"?2.0*(n+1):2.0*n); }
inline double r2r_kernel(std::string const &kind,bool back,long n,long c,long k){
    if (kind=="cos") return back ? (c==0?1:2)*std::cos(M_PI*c*(2*k+1)/(2.0*n)) : 2*std::cos(M_PI*(2*c+1)*k/(2.0*n));
    if (kind=="sin") return back ? (c==n-1?1:2)*std::sin(M_PI*(c+1)*(2*k+1)/(2.0*n)) : 2*std::sin(M_PI*(2*c+1)*(k+1)/(2.0*n));
    if (kind=="cos1") return (c==0||c==n-1?1:2)*std::cos(M_PI*c*k/(n-1.0));
    return 2*std::sin(M_PI*(c+1)*(k+1)/(n+1.0)); }
template<class Tag,class I,class R> void r2r_rank(kase const &k,int wr,std::vector<std::vector<long>> const &in,std::vector<std::vector<long>> const &out,std::vector<run_rec> const &runs,r2r_out &o){
    MPI_Comm comm=MPI_COMM_WORLD; bool own=false; auto perm=k.list("perm");
    if (!perm.empty()){ MPI_Comm_split(MPI_COMM_WORLD, perm[wr]<0?MPI_UNDEFINED:0, (int)perm[wr], &comm); own=true; if (comm==MPI_COMM_NULL) return; }
    int me; MPI_Comm_rank(comm,&me); box3d<I> ib=mkbox<I>(in[me]), ob=mkbox<I>(out[me]); plan_options op=opts_of(k, default_options<Tag>());
    { using Fft=rtransform<Tag,I>; Fft f=ask<Tag,I>((int)k.num("ctor"),in[me],out[me],comm,op); int batch=(int)k.num("batch",1);
    if (f.size_inbox()!=ib.count() || f.size_outbox()!=ob.count() || f.inbox()!=ib || f.outbox()!=ob) o.sizes|=1;
    num_out no_; double sf=f.get_scale_factor(scale::full), norm=r2r_norm(o.kind,o.n[0])*r2r_norm(o.kind,o.n[1])*r2r_norm(o.kind,o.n[2]);
    auto unit=[&](bool fwd,int sc){ return fwd ? (sc==0?1.0:(sc==1?sf:std::sqrt(sf))) : (sc==1?1.0:(sc==0?1/sf:1/std::sqrt(sf)))/norm; };
    for(size_t q=0;q<runs.size();q+=batch){ std::vector<item> items; int n=(int)std::min((size_t)batch, runs.size()-q); bool fwd=!runs[q].back;
        for(int j=0;j<n;j++){ item it; it.at.push_back({runs[q+j].c[0],runs[q+j].c[1],runs[q+j].c[2]}); it.val.push_back(1.0); items.push_back(it); }
        auto r = fwd ? shoot<Fft,R,R,I>(k,f,true,ib,ob,items,sc_of(runs[q].sc),no_) : shoot<Fft,R,R,I>(k,f,false,ob,ib,items,sc_of(runs[q].sc),no_);
        long m=fwd?ob.count():ib.count(); for(int j=0;j<n;j++){ std::vector<double> v(m); for(long i=0;i<m;i++) v[i]=r[j*m+i].real()/unit(fwd,runs[q].sc); o.res[q+j][me]=v; } }
    if (k.num("lin")) for(int back=0;back<2;back++){ MPI_Barrier(comm); std::mt19937_64 rng(k.num("lin")*77+5); std::vector<item> items;
        for(int j=0;j<batch;j++){ item it; for(long z=0;z<o.n[2];z++) for(long y=0;y<o.n[1];y++) for(long x=0;x<o.n[0];x++){ it.at.push_back({x,y,z}); it.val.push_back((double)((long)(rng()%2001)-1000)/1000.0); } items.push_back(it); }
        auto r = !back ? shoot<Fft,R,R,I>(k,f,true,ib,ob,items,scale::none,no_) : shoot<Fft,R,R,I>(k,f,false,ob,ib,items,scale::full,no_);
        box3d<I> const &dst = back?ib:ob; long p[3], m=dst.count(); double N=(double)o.n[0]*o.n[1]*o.n[2]; std::vector<double> K[3]; for(int d=0;d<3;d++){ K[d].resize(o.n[d]*o.n[d]); for(long c=0;c<o.n[d];c++) for(long q=0;q<o.n[d];q++) K[d][c*o.n[d]+q]=r2r_kernel(o.kind,back,o.n[d],c,q); }
        for(p[2]=dst.low[2];p[2]<=dst.high[2];p[2]++) for(p[1]=dst.low[1];p[1]<=dst.high[1];p[1]++) for(p[0]=dst.low[0];p[0]<=dst.high[0];p[0]++) for(int j=0;j<batch;j++){
            double e=0; auto &it=items[j]; for(size_t q=0;q<it.at.size();q++){ double w=it.val[q].real(); for(int d=0;d<3;d++) w*=K[d][it.at[q][d]*o.n[d]+p[d]]; e+=w; }
            double got=r[j*m+addr_of(dst,p)].real()/unit(!back,back?1:0); if (!(std::abs(got-e) < o.tol*8*8*std::sqrt(N))) o.lin=1+back; } }
    o.guards|=no_.guards; o.inmod|=no_.inmod; }
    if (own) MPI_Comm_free(&comm);
}
typedef void (*r2r_fn)(kase const&,int,std::vector<std::vector<long>> const&,std::vector<std::vector<long>> const&,std::vector<run_rec> const&,r2r_out&);
r2r_fn r2r_fftw(std::string const &kind,bool ll,bool fl); r2r_fn r2r_mkl(std::string const &kind,bool ll,bool fl); r2r_fn r2r_stock(std::string const &kind,bool ll,bool fl);
#endif

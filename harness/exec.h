/* Node-local engines of the real back ends on one box.  Every line (plane, box) of the transformed directions gets one
   impulse, at a position and with a phase that differ from line to line; the outputs are turned into integers: the
   phase in units of 2 pi / L (-1 if the value is not of modulus one), or millionths for real outputs. */
#ifndef VERIF_EXEC_H
#define VERIF_EXEC_H
#include "num.h"
struct ex_run { int bk, real; long c[3]; long s, a, b; std::vector<long> res; };
struct ex_out { std::vector<ex_run> runs; long guards=0, inmod=0, sizes=0, lin=0; };
struct ex_geo { long low[3], n[3], no[3], L; bool t[3]; int r2c; double tol; };
template<class I> inline void coords(box3d<I> const &b, long a, long *p){ int o0=b.order[0],o1=b.order[1],o2=b.order[2]; p[o0]=a%b.size[o0]; a/=b.size[o0]; p[o1]=a%b.size[o1]; p[o2]=a/b.size[o1]; }
inline long decode_p(std::complex<double> z,long L,double tol){ long p=std::lround(std::arg(z)*L/(2*M_PI)); p=(p%L+L)%L; return std::abs(z-std::polar(1.0,2*M_PI*p/L))<tol ? p : -1; }
// where the impulse of the line through q sits, and its phase
inline void impulse(ex_geo const &g, ex_run const &r, long const *q, long *c, long *s){
    long h=0; for(int i=0;i<3;i++) if (!g.t[i]) h+=q[i]*(i+1);
    bool self=true; for(int i=0;i<3;i++){ long m=(r.bk?g.no[i]:g.n[i]); c[i]= g.t[i] ? (r.c[i]+r.a*h)%m : q[i]; if (g.t[i] && (2*c[i])%g.n[i]) self=false; }
    *s=(r.s+r.b*h)%g.L; if ((r.real && !r.bk) || (g.r2c>=0 && r.bk && self)) *s=(*s%2)*(g.L/2); }
template<class Ex,class R,class I> void ex_drive(kase const &k, Ex &f, box3d<I> const &ib, box3d<I> const &ob, ex_geo const &g, ex_out &o){
    using C=std::complex<R>; long ni=ib.count(), no=ob.count(), off=k.num("off"); if (f.box_size()!=ni) o.sizes|=1; if (g.r2c>=0 && f.complex_size()!=no) o.sizes|=2;
    R nr=nanmark<R>(); C nc(nr,nr);
    for(size_t q=0;q<=o.runs.size();q++){ bool dense=q==o.runs.size(); if (dense && !k.num("lin")) break;
      for(int back=0;back<(dense?2:1);back++){
        ex_run rr; if (!dense) rr=o.runs[q]; else { rr.bk=back; rr.real=(g.r2c>=0); if (g.r2c>=0 && back) break; }
        bool bk=rr.bk; box3d<I> const &src=bk?ob:ib, &dst=bk?ib:ob; long n1=src.count(), n2=dst.count();
        std::vector<std::complex<double>> val(n1,0.0); long p[3],c[3],s; std::mt19937_64 rng(k.num("lin")*91+back);
        for(long a=0;a<n1;a++){ coords(src,a,p); if (dense){ double x=((long)(rng()%2001)-1000)/500.0, y=((long)(rng()%2001)-1000)/500.0; val[a]=std::complex<double>(x, rr.real?0:y); continue; } impulse(g,rr,p,c,&s); bool here=true; for(int i=0;i<3;i++) if (c[i]!=p[i]) here=false; if (here) val[a]=std::polar(1.0,2*M_PI*s/g.L); }
        guarded<C> ws(f.workspace_size()*2, nc); std::vector<std::complex<double>> got(n2);
        if (!rr.real){ guarded<C> d((size_t)n1+off, nc); for(long a=0;a<n1;a++) d[off+a]=C((R)val[a].real(),(R)val[a].imag());
            if (bk) f.backward(d.data()+off, ws.data()); else f.forward(d.data()+off, ws.data());
            if (!d.intact()) o.guards|=1; for(long a=0;a<n2;a++) got[a]=toz(d[off+a]);
        } else if (!bk){ guarded<R> x((size_t)n1+off, nr); guarded<C> y((size_t)n2+off, nc); for(long a=0;a<n1;a++) x[off+a]=(R)val[a].real(); std::vector<R> keep(x.data()+off,x.data()+off+n1);
            f.forward((R const*)(x.data()+off), y.data()+off, ws.data());
            if (!x.intact()||!y.intact()) o.guards|=2; if (n1 && memcmp(keep.data(),x.data()+off,n1*sizeof(R))) o.inmod|=1; for(long a=0;a<n2;a++) got[a]=toz(y[off+a]);
        } else { guarded<C> x((size_t)n1+off, nc); guarded<R> y((size_t)n2+off, nr); for(long a=0;a<n1;a++) x[off+a]=C((R)val[a].real(),(R)val[a].imag());
            f.backward(x.data()+off, y.data()+off, ws.data()); if (!x.intact()||!y.intact()) o.guards|=4; for(long a=0;a<n2;a++) got[a]=toz(y[off+a]); }
        if (!ws.intact()) o.guards|=8;
        if (dense){ // against the sum
            double N=1; for(int i=0;i<3;i++) if (g.t[i]) N*=g.n[i];
            std::vector<std::complex<double>> w(g.L); for(long i=0;i<g.L;i++) w[i]=std::polar(1.0,2*M_PI*i/g.L);
            for(long a=0;a<n2;a++){ long x[3]; coords(dst,a,x); std::complex<double> e=0; long lo[3],hi[3]; for(int i=0;i<3;i++){ lo[i]=g.t[i]?0:x[i]; hi[i]=g.t[i]?(long)src.size[i]-1:x[i]; }
                long y[3]; for(y[2]=lo[2];y[2]<=hi[2];y[2]++) for(y[1]=lo[1];y[1]<=hi[1];y[1]++) for(y[0]=lo[0];y[0]<=hi[0];y[0]++){ long ph=0; for(int i=0;i<3;i++) if (g.t[i]) ph+=(x[i]*y[i])%g.n[i]*(g.L/g.n[i]); ph%=g.L; e+=val[(y[src.order[2]]*src.size[src.order[1]]+y[src.order[1]])*src.size[src.order[0]]+y[src.order[0]]]*w[bk?ph:(g.L-ph)%g.L]; }
                if (!(std::abs(got[a]-e) < g.tol*8*std::sqrt(N))) o.lin=1+back; }
        } else if (k.num("lp")){ // by lines of the one transformed direction: runs of evenly changing phases, line, first, step, number
            int d=0; while(!g.t[d]) d++; int u=(d+1)%3, v=(d+2)%3; auto &res=o.runs[q].res; long x[3],len=dst.size[d]; std::vector<long> ph(len);
            for(x[v]=0;x[v]<(long)dst.size[v];x[v]++) for(x[u]=0;x[u]<(long)dst.size[u];x[u]++){
                for(x[d]=0;x[d]<len;x[d]++){ long a=(x[dst.order[2]]*dst.size[dst.order[1]]+x[dst.order[1]])*dst.size[dst.order[0]]+x[dst.order[0]];
                    if (rr.real && bk){ // the phase whose cosine the value is, when it is
                        impulse(g,rr,x,c,&s); bool self=(2*c[d])%g.n[d]==0; long e=(s+(long)((__int128)c[d]*x[d]%g.n[d])*(g.L/g.n[d]))%g.L; double m=(g.r2c>=0 && !self)?2:1;
                        ph[x[d]] = std::abs(got[a].real()/m-std::cos(2*M_PI*e/g.L))<g.tol ? e : -1; }
                    else ph[x[d]]=decode_p(got[a],g.L,g.tol); }
                for(long i=0;i<len;){ long e=i+1, st=0; auto diff=[&](long j){ return ph[j-1]<0||ph[j]<0 ? -1 : ((ph[j]-ph[j-1])%g.L+g.L)%g.L; }; if (e<len && diff(e)>=0){ st=diff(e); e++; while(e<len && diff(e)==st) e++; }
                    res.push_back(x[u]); res.push_back(x[v]); res.push_back(ph[i]); res.push_back(st); res.push_back(e-i); i=e; if (res.size()>5000) break; } }
        } else { auto &res=o.runs[q].res; res.resize(n2); for(long a=0;a<n2;a++){
            if (rr.real && bk){ double w=got[a].real()*1e6; res[a]=std::abs(w)<1e9?std::lround(w):2000000000; }
            else { double e=0; geo gg; gg.L=g.L; gg.tol=g.tol; res[a]=decode_c(got[a], gg, 0, 1e30, &e); } } }
      } }
}
template<class Tag,class R,class I,bool multi> struct mk { static std::unique_ptr<typename one_dim_backend<Tag>::executor> get(box3d<I> const &b, std::vector<int> const &d){
    if (d.size()==1) return make_executor<Tag>(nullptr,b,d[0]); if (d.size()==2) return make_executor<Tag>(nullptr,b,d[0],d[1]); return make_executor<Tag>(nullptr,b); } };
template<class Tag,class R,class I> struct mk<Tag,R,I,false> { static std::unique_ptr<typename one_dim_backend<Tag>::executor> get(box3d<I> const &b, std::vector<int> const &d){ return make_executor<Tag>(nullptr,b,d[0]); } };
template<class Tag,class I,class R,bool multi> void ex_one(kase const &k, ex_geo const &g, ex_out &o){
    box3d<I> ib=mkbox<I>(k.list("box")), ob=g.r2c>=0?ib.r2c(g.r2c):ib; std::vector<int> d; for(long x : k.list("dirs")) d.push_back((int)x);
    if (g.r2c>=0){ auto f=make_executor_r2c<Tag>(nullptr,ib,g.r2c); if (!f){ o.sizes|=4; return; } 
        for(int i=0;i<3;i++) if (ob.size[i]!=g.no[i] || ob.order[i]!=ib.order[i]) o.sizes|=8;
        ex_drive<typename one_dim_backend<Tag>::executor_r2c,R,I>(k,*f,ib,ob,g,o); }
    else { auto f=mk<Tag,R,I,multi>::get(ib,d); if (!f){ o.sizes|=4; return; } ex_drive<typename one_dim_backend<Tag>::executor,R,I>(k,*f,ib,ob,g,o); } }
typedef void (*ex_fn)(kase const&,ex_geo const&,ex_out&);
template<class Tag,bool multi> ex_fn ex_pick(bool ll,bool fl){ return ll?(fl?&ex_one<Tag,long long,float,multi>:&ex_one<Tag,long long,double,multi>):(fl?&ex_one<Tag,int,float,multi>:&ex_one<Tag,int,double,multi>); }
ex_fn ex_fftw(bool ll,bool fl); ex_fn ex_mkl(bool ll,bool fl); ex_fn ex_stock(bool ll,bool fl);
#endif

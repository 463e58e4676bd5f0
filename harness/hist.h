/* Histories of plans: several plans alive at once, made, used, moved and destroyed in any order. */
#ifndef VERIF_HIST_H
#define VERIF_HIST_H
#include "num.h"
#include <memory>
struct hcfg { kase k; std::vector<std::vector<long>> in, out; std::vector<long> ranks; std::string kind, be; geo g; bool realin=false; int r2c=-1; };
struct hop { std::vector<long> v; int ret=0; std::vector<long> live; std::vector<std::vector<long>> sizes; std::vector<run_rec> runs; long sz=0, guards=0, inmod=0; double maxerr=0; };
struct plan_base {
    hcfg const *c=nullptr; virtual ~plan_base(){}
    virtual void transform(hop &o, int me)=0;
    virtual std::vector<long> query()=0;
    virtual std::unique_ptr<plan_base> steal()=0;               // move construction into a new object
    virtual bool take(plan_base &)=0;                            // move assignment from a plan of the same type
};
inline kase call_kase(hop const &o){ kase k; k.kv["inplace"]=std::to_string(o.v[10]); k.kv["ownws"]=std::to_string(o.v[9]); k.kv["off"]=std::to_string(o.v[11]); k.kv["one"]=std::to_string(o.v[12]); return k; }
template<class F> double f_factor(F &f){ return f.get_scale_factor(scale::full); }
/* the overloads on containers */
template<class Fft,class TI,class TO> struct vec_fwd{ static std::vector<TO> go(Fft &f,std::vector<TI> const &x,scale s){ return f.forward(x,s); } };
template<class Fft,class TI,class TO> struct vec_bwd{ static std::vector<TO> go(Fft &f,std::vector<TI> const &x,scale s){ return f.backward(x,s); } };
template<class Fft,class TI,class TO> struct vec_real{ static std::vector<TO> go(Fft &f,std::vector<TI> const &x,scale s){ return f.backward_real(x,s); } };
template<class Tag,class TI,class TO> struct vec_real<fft3d_r2c<Tag>,TI,TO>{ static std::vector<TO> go(fft3d_r2c<Tag> &f,std::vector<TI> const &x,scale s){ return f.backward(x,s); } };
template<class Fft,class TI,class TO> std::vector<TO> vec_dir(Fft &f,bool fwd,std::vector<TI> const &x,scale s,std::true_type /*forward only*/){ (void)fwd; return vec_fwd<Fft,TI,TO>::go(f,x,s); }
template<class Fft,class TI,class TO> std::vector<TO> vec_dir(Fft &f,bool fwd,std::vector<TI> const &x,scale s,std::false_type){
    constexpr bool toreal=std::is_floating_point<TO>::value && !std::is_floating_point<TI>::value;
    if (fwd && !toreal) return std::conditional<toreal, vec_real<Fft,TI,TO>, vec_fwd<Fft,TI,TO>>::type::go(f,x,s);
    return std::conditional<toreal, vec_real<Fft,TI,TO>, vec_bwd<Fft,TI,TO>>::type::go(f,x,s); }
template<class TI,class TO> using only_fwd = std::integral_constant<bool, std::is_floating_point<TI>::value && !std::is_floating_point<TO>::value>;
template<class Fft,class TI,class TO> std::vector<std::complex<double>> vshoot(Fft &f,bool fwd,box3d<> const &src,box3d<> const &dst,item const &it,scale sc,long extra,num_out &o){
    long ni=src.count(), no=dst.count(); std::vector<TI> in(ni+extra, nanmark<TI>()); for(long i=0;i<ni;i++) in[i]=TI(0);
    for(size_t q=0;q<it.at.size();q++){ long const *p=it.at[q].data(); if (inside(src,p)) in[addr_of(src,p)]+=asT(it.val[q],(TI*)nullptr); }
    std::vector<TI> before(in); std::vector<TO> out=vec_dir<Fft,TI,TO>(f,fwd,in,sc,only_fwd<TI,TO>());
    if (in.size()!=before.size() || (in.size() && memcmp(in.data(),before.data(),in.size()*sizeof(TI)))) o.inmod|=1;
    if ((long)out.size()!=no) o.guards|=8;
    std::vector<std::complex<double>> r(no); for(long i=0;i<no && i<(long)out.size();i++) r[i]=toz(out[i]); return r; }
/* a container that is too small: refused with the documented exception, before anything was read, written or sent */
template<class Fft,class TI,class TO> void short_call(Fft &f,bool fwd,box3d<> const &src,long less,hop &o,int wr){
    long n=src.count(); if (n==0) return; less=1+less%n; std::vector<TI> in(n,TI(3)); in.resize(n-less); long m0=mock::messages_sent_by(wr); bool thrown=false;
    try{ vec_dir<Fft,TI,TO>(f,fwd,in,scale::none,only_fwd<TI,TO>()); } catch(std::invalid_argument &){ thrown=true; }
    if (!thrown) o.sz|=4; else o.ret=1; for(auto &x : in) if (x!=TI(3)) o.sz|=8; if (mock::messages_sent_by(wr)!=m0) o.sz|=16; }
template<class Fft,class TI,class TO> void one_transform(Fft &f, hcfg const &c, hop &o, int me){
    auto &r0=o.runs[0]; int n=(int)o.runs.size(); bool fwd=!r0.back; box3d<> ib=mkbox<int>(c.in[me]), ob=mkbox<int>(c.out[me]); num_out no; kase k=call_kase(o); geo g=c.g; g.tol=o.v[7]?1e-4:1e-11; constexpr bool r2r=std::is_floating_point<TO>::value;
    std::vector<item> items; double N=(double)g.n[0]*g.n[1]*g.n[2];
    for(int j=0;j<n;j++){ auto &r=o.runs[j]; item it; std::complex<double> v = r2r?std::complex<double>(1.0):std::polar(1.0, 2*M_PI*r.s/g.L); it.at.push_back({r.c[0],r.c[1],r.c[2]}); it.val.push_back(v);
        if (!r2r && !fwd && c.realin && r.m==2){ std::array<long,3> p; for(int i=0;i<3;i++) p[i]=(g.n[i]-r.c[i])%g.n[i]; bool stored=true; for(int i=0;i<3;i++) if (p[i]>=g.no[i]) stored=false; if (stored){ it.at.push_back(p); it.val.push_back(std::conj(v)); } }
        items.push_back(it); }
    if (o.v[0]==11){ if (o.v[2]) short_call<Fft,TO,TI>(f,false,ob,o.v[4],o,mock::world_rank()); else short_call<Fft,TI,TO>(f,true,ib,o.v[4],o,mock::world_rank()); return; }
    std::vector<std::complex<double>> r; if (o.v[0]==10){ if (fwd) r=vshoot<Fft,TI,TO>(f,true,ib,ob,items[0],sc_of(r0.sc),o.v[14],no); else r=vshoot<Fft,TO,TI>(f,false,ob,ib,items[0],sc_of(r0.sc),o.v[14],no); }
    else if (fwd) r=shoot<Fft,TI,TO,int>(k,f,true,ib,ob,items,sc_of(r0.sc),no); else r=shoot<Fft,TO,TI,int>(k,f,false,ob,ib,items,sc_of(r0.sc),no);
    long m=fwd?ob.count():ib.count();
    double unit=1; if (r2r){ double sf=1; for(int i=0;i<3;i++) sf/=r2r_norm(c.kind,g.n[i]); double full=f_factor(f); unit = fwd ? (r0.sc==0?1.0:(r0.sc==1?full:std::sqrt(full))) : (r0.sc==1?1.0:(r0.sc==0?1/full:1/std::sqrt(full)))*sf; }
    for(int j=0;j<n;j++){ auto &rr=o.runs[j]; std::vector<long> v(m); for(long i=0;i<m;i++){ auto z=r[j*m+i]; double x=z.real()/unit;
            v[i] = r2r ? (std::abs(x)<1000?std::lround(x*1e6):2000000000) : ((!fwd && c.realin) ? decode_r(z.real(), rr.m, g, rr.sc, N, &o.maxerr) : decode_c(z, g, rr.sc, N, &o.maxerr)); } rr.res[me]=v; }
    o.guards|=no.guards; o.inmod|=no.inmod;
}
template<class Fft,bool r2r,bool r2c> struct plan_t : plan_base {
    Fft f; plan_t(Fft &&x) : f(std::move(x)) {}
    template<class R> void go(hop &o,int me);
    void transform(hop &o,int me) override { if (o.v[7]) go<float>(o,me); else go<double>(o,me); }
    std::vector<long> query() override { return {(long)f.size_inbox(), (long)f.size_outbox(), (long)f.size_workspace()}; }
    std::unique_ptr<plan_base> steal() override { std::unique_ptr<plan_base> p(new plan_t(std::move(f))); p->c=c; return p; }
    bool take(plan_base &q) override { auto *s=dynamic_cast<plan_t*>(&q); if (!s) return false; assign(s->f, std::is_move_assignable<Fft>()); c=s->c; return true; }
    void assign(Fft &s,std::true_type){ f=std::move(s); } void assign(Fft &,std::false_type){ abort(); }
};
template<class Fft,bool r2r,bool r2c> struct runner;
template<class Fft> struct runner<Fft,true,false>{ template<class R> static void go(Fft &f,hcfg const &c,hop &o,int me){ one_transform<Fft,R,R>(f,c,o,me); } };
template<class Fft> struct runner<Fft,false,true>{ template<class R> static void go(Fft &f,hcfg const &c,hop &o,int me){ one_transform<Fft,R,std::complex<R>>(f,c,o,me); } };
template<class Fft> struct runner<Fft,false,false>{ template<class R> static void go(Fft &f,hcfg const &c,hop &o,int me){ if (c.realin) one_transform<Fft,R,std::complex<R>>(f,c,o,me); else one_transform<Fft,std::complex<R>,std::complex<R>>(f,c,o,me); } };
template<class Fft,bool r2r,bool r2c> template<class R> void plan_t<Fft,r2r,r2c>::go(hop &o,int me){ runner<Fft,r2r,r2c>::template go<R>(f,*c,o,me); }
template<class Tag> std::unique_ptr<plan_base> make_cpp(hcfg const &c, int me, MPI_Comm comm){
    box3d<> ib=mkbox<int>(c.in[me]), ob=mkbox<int>(c.out[me]); plan_options op=opts_of(c.k, default_options<Tag>()); std::unique_ptr<plan_base> p;
    if (c.r2c>=0){ using F=fft3d_r2c<Tag>; p.reset(new plan_t<F,false,true>(F(ib,ob,c.r2c,comm,op))); } else { using F=fft3d<Tag>; p.reset(new plan_t<F,false,false>(F(ib,ob,comm,op))); }
    p->c=&c; return p; }
template<class Tag> std::unique_ptr<plan_base> make_r2r(hcfg const &c, int me, MPI_Comm comm){
    box3d<> ib=mkbox<int>(c.in[me]), ob=mkbox<int>(c.out[me]); plan_options op=opts_of(c.k, default_options<Tag>()); using F=rtransform<Tag>; std::unique_ptr<plan_base> p(new plan_t<F,true,false>(F(ib,ob,comm,op))); p->c=&c; return p; }
std::unique_ptr<plan_base> hist_fftw(hcfg const&,int,MPI_Comm), hist_mkl(hcfg const&,int,MPI_Comm), hist_stock(hcfg const&,int,MPI_Comm);
std::unique_ptr<plan_base> hist_capi(hcfg const&,int,MPI_Comm,hop&,int backend_shift,int bad_alg);
void capi_defaults(int be, hop &o);
int capi_last_null();
#endif

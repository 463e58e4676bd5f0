/* Symbolic backends: every array element carries the cell it stands for, its batch index and the set of
   directions already transformed; the executors write down what they were given and move the set. */
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include "heffte.h"
#include "common.h"

struct sym_event { int rank, phase, back, kind; std::array<long,9> box; std::vector<long> dims; std::vector<long> v; };
struct sym_log {
    std::vector<sym_event> ev; int phase=0; long n0=0,n1=0,n2=0,B=0; bool ws=false; bool bad_ws=false;
    static sym_log& get(){ static sym_log l; return l; }
};
template<class R> inline long enc(std::complex<R> const &c){ double x=c.real(), m=c.imag(); if (!(x>=0 && x<1e6) || !(m>=0 && m<=7) || x!=(long)x || m!=(long)m) return -1; return (long)x*8+(long)m; }
inline long enc1(double x){ if (!(x>=0 && x<1e6) || x!=(long)x) return -1; return (long)x*8; }
inline long enc(double x){ return enc1(x); }
inline long enc(float x){ return enc1(x); }

namespace heffte {
namespace backend { struct sym1{}; struct sym3{};
    template<> struct is_enabled<sym1> : std::true_type{};
    template<> struct is_enabled<sym3> : std::true_type{};
    template<> inline std::string name<sym1>(){ return "sym1"; }
    template<> inline std::string name<sym3>(){ return "sym3"; }
}
template<> constexpr bool has_executor2d<backend::sym1>(){ return false; }
template<> constexpr bool has_executor3d<backend::sym1>(){ return false; }
template<> struct default_plan_options<backend::sym1>{ static constexpr bool use_reorder=true; };
template<> struct default_plan_options<backend::sym3>{ static constexpr bool use_reorder=false; };

class sym_executor : public executor_base {
public:
    using executor_base::forward; using executor_base::backward;
    template<class I> void init(box3d<I> const &b, std::vector<long> d){ for(int i=0;i<3;i++){ box[i]=b.low[i]; box[3+i]=b.high[i]; box[6+i]=b.order[i]; } dims=d; n=(int)b.count(); }
    template<class I> sym_executor(void*, box3d<I> const b, int d){ init(b,{d}); }
    template<class I> sym_executor(void*, box3d<I> const b, int d1, int d2){ init(b,{d1,d2}); }
    template<class I> sym_executor(void*, box3d<I> const b){ init(b,{0,1,2}); }
    int mask() const { int m=0; for(long d : dims) m|=1<<d; return m; }
    template<class T> std::vector<long> grab(T const *x) const { std::vector<long> v(n); for(int i=0;i<n;i++) v[i]=enc(x[i]); return v; }
    void rec(int back, int kind, std::vector<long> const &v) const { auto &l=sym_log::get(); l.ev.push_back({mock::world_rank(), l.phase, back, kind, box, dims, v}); }
    template<class R> void touch(std::complex<R> *w) const { if (workspace_size()){ if (!w) sym_log::get().bad_ws=true; else for(size_t i=0;i<workspace_size();i++) w[i]={-55,-55}; } }
    template<class R> void fwd(std::complex<R> *x, std::complex<R> *w) const { touch(w); rec(0,0,grab(x)); for(int i=0;i<n;i++) x[i]=std::complex<R>(x[i].real(), x[i].imag()+mask()); }
    template<class R> void bwd(std::complex<R> *x, std::complex<R> *w) const { touch(w); rec(1,0,grab(x)); for(int i=0;i<n;i++) x[i]=std::complex<R>(x[i].real(), x[i].imag()-mask()); }
    void forward(std::complex<float> x[], std::complex<float> *w) const override { fwd(x,w); }
    void forward(std::complex<double> x[], std::complex<double> *w) const override { fwd(x,w); }
    void backward(std::complex<float> x[], std::complex<float> *w) const override { bwd(x,w); }
    void backward(std::complex<double> x[], std::complex<double> *w) const override { bwd(x,w); }
    template<class R> void fwdr(R const *x, std::complex<R> *y, std::complex<R> *w) const { touch(w); rec(0,1,grab(x)); for(int i=0;i<n;i++) y[i]=std::complex<R>(x[i], mask()); }
    template<class R> void bwdr(std::complex<R> *x, R *y, std::complex<R> *w) const { touch(w); rec(1,1,grab(x)); for(int i=0;i<n;i++) y[i]=(x[i].imag()==mask())?x[i].real():-99; }
    void forward(float const x[], std::complex<float> y[], std::complex<float> *w) const override { fwdr(x,y,w); }
    void forward(double const x[], std::complex<double> y[], std::complex<double> *w) const override { fwdr(x,y,w); }
    void backward(std::complex<float> x[], float y[], std::complex<float> *w) const override { bwdr(x,y,w); }
    void backward(std::complex<double> x[], double y[], std::complex<double> *w) const override { bwdr(x,y,w); }
    int box_size() const override { return n; }
    size_t workspace_size() const override { return sym_log::get().ws ? (size_t)n/2+3 : 0; }
    int complex_size() const override { return n; }
protected:
    std::array<long,9> box; std::vector<long> dims; int n;
};
class sym_executor_r2c : public executor_base {
public:
    using executor_base::forward; using executor_base::backward;
    template<class I> sym_executor_r2c(void*, box3d<I> const b, int d) : dir(d) { for(int i=0;i<3;i++){ lo[i]=b.low[i]; sz[i]=b.size[i]; od[i]=b.order[i]; box[i]=b.low[i]; box[3+i]=b.high[i]; box[6+i]=b.order[i]; } n=(int)b.count(); nc=n/sz[d]*(sz[d]/2+1); }
    template<class R> void fwd(R const *x, std::complex<R> *y, std::complex<R> *w) const {
        touch(w); std::vector<long> v(n); for(int i=0;i<n;i++) v[i]=enc(x[i]); rec(0,v);
        each([&](int a, int c){ y[c]=std::complex<R>(x[a], 1<<dir); }); }
    template<class R> void bwd(std::complex<R> *x, R *y, std::complex<R> *w) const {
        touch(w); std::vector<long> v(nc); for(int i=0;i<nc;i++) v[i]=enc(x[i]); rec(1,v);
        // the cells beyond the reduced range are rebuilt from the line they belong to
        auto &l=sym_log::get(); long mul = dir==0?1:(dir==1?l.n0:l.n0*l.n1);
        std::vector<R> out(n,-98);
        each_line([&](std::vector<int> const &a, std::vector<int> const &c){ std::complex<R> f=x[c[0]]; bool ok=f.imag()==(1<<dir); for(size_t i=0;i<c.size();i++) if (x[c[i]]!=std::complex<R>(f.real()+(R)(i*mul), f.imag())) ok=false; for(size_t i=0;i<a.size();i++) out[a[i]]= ok ? f.real()+(R)(i*mul) : -97; });
        for(int i=0;i<n;i++) y[i]=out[i]; }
    void forward(float const x[], std::complex<float> y[], std::complex<float> *w) const override { fwd(x,y,w); }
    void forward(double const x[], std::complex<double> y[], std::complex<double> *w) const override { fwd(x,y,w); }
    void backward(std::complex<float> x[], float y[], std::complex<float> *w) const override { bwd(x,y,w); }
    void backward(std::complex<double> x[], double y[], std::complex<double> *w) const override { bwd(x,y,w); }
    int box_size() const override { return n; }
    int complex_size() const override { return nc; }
    size_t workspace_size() const override { return sym_log::get().ws ? (size_t)n/2+3 : 0; }
private:
    template<class R> void touch(std::complex<R> *w) const { if (workspace_size()){ if (!w) sym_log::get().bad_ws=true; else for(size_t i=0;i<workspace_size();i++) w[i]={-55,-55}; } }
    void rec(int back, std::vector<long> const &v) const { auto &l=sym_log::get(); l.ev.push_back({mock::world_rank(), l.phase, back, 2, box, {dir}, v}); }
    template<class F> void each_line(F f) const {
        long csz[3]={sz[0],sz[1],sz[2]}; csz[dir]=sz[dir]/2+1;
        auto at=[&](long const *s, long const *p){ return (int)((p[od[2]]*s[od[1]]+p[od[1]])*s[od[0]]+p[od[0]]); };
        int u=(dir+1)%3, w=(dir+2)%3; long p[3];
        for(p[u]=0;p[u]<sz[u];p[u]++) for(p[w]=0;p[w]<sz[w];p[w]++){ std::vector<int> a,c; for(p[dir]=0;p[dir]<sz[dir];p[dir]++){ a.push_back(at(sz,p)); if (p[dir]<csz[dir]) c.push_back(at(csz,p)); } f(a,c); }
    }
    template<class F> void each(F f) const { each_line([&](std::vector<int> const &a, std::vector<int> const &c){ for(size_t i=0;i<c.size();i++) f(a[i],c[i]); }); }
    long lo[3], sz[3], od[3]; int dir; std::array<long,9> box; int n, nc;
};
template<> struct one_dim_backend<backend::sym1>{ using executor=sym_executor; using executor_r2c=sym_executor_r2c; };
template<> struct one_dim_backend<backend::sym3>{ using executor=sym_executor; using executor_r2c=sym_executor_r2c; };
}
#endif

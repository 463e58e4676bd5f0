/* A variable of the Fortran interface, dressed up so that the drivers of the C++ interface can use it. VF_BE: the back end's name. */
#ifndef VERIF_FORT_H
#define VERIF_FORT_H
#include "num.h"
#define VF_CAT_(a,b,c) a##b##c
#define VF_CAT(a,b,c) VF_CAT_(a,b,c)
#define VF_C(name) VF_CAT(VF_CAT(vfort_,VF_BE,_c_),name,)
#define VF_R(name) VF_CAT(VF_CAT(vfort_,VF_BE,_r_),name,)
#define VF_TR(T1,T2,T3,n) (void*,int,int,T1*,long,T2*,long,T3*,long,int)
#define VF_DECL(P) void *P(var)(); void P(drop)(void*); void P(new)(void*,int,int const*,int const*,int,int,int,int,int); void P(assign)(void*,void*); void P(release)(void*); \
    long long P(size_inbox)(void*), P(size_outbox)(void*); size_t P(size_workspace)(void*), P(size_comm_buffers)(void*); double P(scale)(void*,int); \
    void P(forward0)(void*,int,int,void const*,long,void*,long,void*,long,int), P(forward2)(void*,int,int,void const*,long,void*,long,void*,long,int), P(backward0)(void*,int,int,void const*,long,void*,long,void*,long,int), P(backward2)(void*,int,int,void const*,long,void*,long,void*,long,int);
extern "C" { VF_DECL(VF_C) VF_DECL(VF_R)
    void VF_C(forward1)(void*,int,int,void const*,long,void*,long,void*,long,int), VF_C(forward3)(void*,int,int,void const*,long,void*,long,void*,long,int), VF_C(backward1)(void*,int,int,void const*,long,void*,long,void*,long,int), VF_C(backward3)(void*,int,int,void const*,long,void*,long,void*,long,int);
    int VF_CAT(vfort_,VF_BE,_err)(); }
inline int fort_err(){ return VF_CAT(vfort_,VF_BE,_err)(); }
typedef void (*fort_go)(void*,int,int,void const*,long,void*,long,void*,long,int);
template<class R,class S> struct fort_kind; // real/complex side of a transform: the overload's number
template<class C> struct fort_kind<float,C>{ static constexpr int v=0; }; template<class C> struct fort_kind<std::complex<float>,C>{ static constexpr int v=1; };
template<class C> struct fort_kind<double,C>{ static constexpr int v=2; }; template<class C> struct fort_kind<std::complex<double>,C>{ static constexpr int v=3; };
inline int fort_sc(heffte::scale s){ return s==heffte::scale::none?0:(s==heffte::scale::full?1:2); }
/* the interface has no containers */
struct no_container { template<class T> operator std::vector<T>() const { abort(); } };
template<bool r2c> struct fvar {
    void *h; std::vector<long> ib, ob; bool nosc=false;
    fvar() : h(r2c?VF_R(var)():VF_C(var)()), ib({0,0,0,-1,-1,-1,0,1,2}), ob(ib) {}
    fvar(fvar const&)=delete;
    ~fvar(){ if (r2c) VF_R(drop)(h); else VF_C(drop)(h); }
    void make(int how,std::vector<long> const &a,std::vector<long> const &b,int d,MPI_Comm comm,heffte::plan_options const &op){
        int x[9], y[9]; for(int i=0;i<9;i++){ x[i]=(int)a[i]; y[i]=(int)b[i]; } ib=a; ob=b; int c=(int)MPI_Comm_c2f(comm);
        (r2c?VF_R(new):VF_C(new))(h,how,x,y,d,c,(int)op.use_reorder,(int)op.algorithm,(int)op.use_pencils); }
    void assign(fvar &o){ (r2c?VF_R(assign):VF_C(assign))(h,o.h); ib=o.ib; ob=o.ob; }
    void release(){ (r2c?VF_R(release):VF_C(release))(h); }
    long long size_inbox() const { return (r2c?VF_R(size_inbox):VF_C(size_inbox))(h); }
    long long size_outbox() const { return (r2c?VF_R(size_outbox):VF_C(size_outbox))(h); }
    size_t size_workspace() const { return (r2c?VF_R(size_workspace):VF_C(size_workspace))(h); }
    size_t size_comm_buffers() const { return (r2c?VF_R(size_comm_buffers):VF_C(size_comm_buffers))(h); }
    double get_scale_factor(heffte::scale s) const { return (r2c?VF_R(scale):VF_C(scale))(h,fort_sc(s)); }
    heffte::box3d<> inbox() const { return mkbox<int>(ib); } heffte::box3d<> outbox() const { return mkbox<int>(ob); }
    void go(fort_go f,int form,int b,void const *x,long nx,void *y,long ny,void *w,heffte::scale s){ if (nosc && s==heffte::scale::none) form&=3; f(h,form,b,x,nx*b,y,ny*b,w,(long)(form&2?size_workspace()*b:1),fort_sc(s)); }
    template<class TI,class TO> void fwd(int form,int b,TI const *x,TO *y,void *w,heffte::scale s){ constexpr int t=fort_kind<TI,TO>::v; fort_go f = r2c ? (t==0?VF_R(forward0):VF_R(forward2)) : (t==0?VF_C(forward0):(t==1?VF_C(forward1):(t==2?VF_C(forward2):VF_C(forward3)))); go(f,form,b,x,(long)inbox().count(),y,(long)outbox().count(),w,s); }
    template<class TI,class TO> void bwd(int form,int b,TI const *x,TO *y,void *w,heffte::scale s){ constexpr int t=fort_kind<TO,TI>::v; fort_go f = r2c ? (t==0?VF_R(backward0):VF_R(backward2)) : (t==0?VF_C(backward0):(t==1?VF_C(backward1):(t==2?VF_C(backward2):VF_C(backward3)))); go(f,form,b,x,(long)outbox().count(),y,(long)inbox().count(),w,s); }
    template<class TI,class TO,class W> void forward(TI const*x,TO*y,W*w,heffte::scale s){ fwd(6,1,x,y,w,s); }
    template<class TI,class TO,class W> void forward(int b,TI const*x,TO*y,W*w,heffte::scale s){ fwd(7,b,x,y,w,s); }
    template<class TI,class TO> void forward(TI const*x,TO*y,heffte::scale s){ fwd(4,1,x,y,nullptr,s); }
    template<class TI,class TO> void forward(int b,TI const*x,TO*y,heffte::scale s){ fwd(5,b,x,y,nullptr,s); }
    template<class TI,class TO,class W> void backward(TI const*x,TO*y,W*w,heffte::scale s){ bwd(6,1,x,y,w,s); }
    template<class TI,class TO,class W> void backward(int b,TI const*x,TO*y,W*w,heffte::scale s){ bwd(7,b,x,y,w,s); }
    template<class TI,class TO> void backward(TI const*x,TO*y,heffte::scale s){ bwd(4,1,x,y,nullptr,s); }
    template<class TI,class TO> void backward(int b,TI const*x,TO*y,heffte::scale s){ bwd(5,b,x,y,nullptr,s); }
    template<class T> no_container forward(std::vector<T> const&,heffte::scale){ return {}; } template<class T> no_container backward(std::vector<T> const&,heffte::scale){ return {}; } template<class T> no_container backward_real(std::vector<T> const&,heffte::scale){ return {}; }
};
#endif

/* A plan of the C interface, dressed up so that the drivers of the C++ interface can use it. */
#ifndef VERIF_CFFT_H
#define VERIF_CFFT_H
#include "heffte.h"
#include "capi.h"
#include "mock.h"
using namespace heffte;
struct cfft { cplan p; using cf=std::complex<float>; using cd=std::complex<double>;
    int sc(scale s) const { return s==scale::none?capi.none:(s==scale::full?capi.full:capi.symmetric); }
    size_t size_workspace() const { return (size_t)capi.size_workspace(p); }
    double get_scale_factor(scale) const { return 1; }
    void forward(float const*i,cf*o,scale s) const { capi.f_s2c(p,i,o,sc(s)); }             void forward(float const*i,cf*o,cf*w,scale s) const { capi.fb_s2c(p,i,o,w,sc(s)); }
    void forward(cf const*i,cf*o,scale s) const { capi.f_c2c(p,i,o,sc(s)); }                void forward(cf const*i,cf*o,cf*w,scale s) const { capi.fb_c2c(p,i,o,w,sc(s)); }
    void forward(double const*i,cd*o,scale s) const { capi.f_d2z(p,i,o,sc(s)); }            void forward(double const*i,cd*o,cd*w,scale s) const { capi.fb_d2z(p,i,o,w,sc(s)); }
    void forward(cd const*i,cd*o,scale s) const { capi.f_z2z(p,i,o,sc(s)); }                void forward(cd const*i,cd*o,cd*w,scale s) const { capi.fb_z2z(p,i,o,w,sc(s)); }
    void backward(cf const*i,float*o,scale s) const { capi.b_c2s(p,i,o,sc(s)); }            void backward(cf const*i,float*o,cf*w,scale s) const { capi.bb_c2s(p,i,o,w,sc(s)); }
    void backward(cf const*i,cf*o,scale s) const { capi.b_c2c(p,i,o,sc(s)); }               void backward(cf const*i,cf*o,cf*w,scale s) const { capi.bb_c2c(p,i,o,w,sc(s)); }
    void backward(cd const*i,double*o,scale s) const { capi.b_z2d(p,i,o,sc(s)); }           void backward(cd const*i,double*o,cd*w,scale s) const { capi.bb_z2d(p,i,o,w,sc(s)); }
    void backward(cd const*i,cd*o,scale s) const { capi.b_z2z(p,i,o,sc(s)); }               void backward(cd const*i,cd*o,cd*w,scale s) const { capi.bb_z2z(p,i,o,w,sc(s)); }
    template<class TI,class TO> void forward(int,TI const*,TO*,scale) const { abort(); }    template<class TI,class TO,class W> void forward(int,TI const*,TO*,W*,scale) const { abort(); }
    template<class TI,class TO> void backward(int,TI const*,TO*,scale) const { abort(); }   template<class TI,class TO,class W> void backward(int,TI const*,TO*,W*,scale) const { abort(); }
};
#endif

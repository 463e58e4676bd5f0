/* Picks among the overloads of forward/backward. */
#ifndef VERIF_CALLS_H
#define VERIF_CALLS_H
#include "heffte.h"
// own: pass a workspace; one: use the overload without a batch size (batch must be 1)
template<class Fft,class TI,class TO,class W> struct call_fwd{ static void go(Fft &f,int b,bool own,bool one,TI const*i,TO*o,W*w,heffte::scale s){ if (own){ if (b==1&&one) f.forward(i,o,w,s); else f.forward(b,i,o,w,s);} else { if (b==1&&one) f.forward(i,o,s); else f.forward(b,i,o,s);} } };
template<class Fft,class TI,class TO,class W> struct call_bwd{ static void go(Fft &f,int b,bool own,bool one,TI const*i,TO*o,W*w,heffte::scale s){ if (own){ if (b==1&&one) f.backward(i,o,w,s); else f.backward(b,i,o,w,s);} else { if (b==1&&one) f.backward(i,o,s); else f.backward(b,i,o,s);} } };
template<class Fft,class TI,class TO,class W> struct call_none{ static void go(Fft &,int,bool,bool,TI const*,TO*,W*,heffte::scale){ abort(); } };
template<class Fft,class TI,class TO,class W> void run_dir(Fft &f,bool fwd,int b,bool own,bool one,TI const*i,TO*o,W*w,heffte::scale s=heffte::scale::none){
    constexpr bool same = std::is_same<TI,TO>::value;
    constexpr bool canf = same || !std::is_floating_point<TO>::value, canb = same || !std::is_floating_point<TI>::value;
    if (fwd) std::conditional<canf, call_fwd<Fft,TI,TO,W>, call_none<Fft,TI,TO,W>>::type::go(f,b,own,one,i,o,w,s);
    else     std::conditional<canb, call_bwd<Fft,TI,TO,W>, call_none<Fft,TI,TO,W>>::type::go(f,b,own,one,i,o,w,s);
}
#endif

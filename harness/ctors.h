#ifndef VF_CTORS_H
#define VF_CTORS_H
#include "calls.h"
/* The ways in which a plan can be asked for. Which one is used must make no difference.
   0 boxes; 1 with a stream; 2 corner by corner with options; 3 corner by corner; 4 the same without orders;
   5 default options; 6 factory (c2c only); 7 two-dimensional boxes when the third direction allows it */
inline bool plain(std::vector<long> const &g){ return g[6]==0 && g[7]==1 && g[8]==2; }
template<class I> heffte::box3d<I> flat(std::vector<long> const &g){
    if (g[2]==0 && g[5]==0 && g[8]==2) return (g[6]==0) ? heffte::box3d<I>(std::array<I,2>{(I)g[0],(I)g[1]},std::array<I,2>{(I)g[3],(I)g[4]}) : heffte::box3d<I>(std::array<I,2>{(I)g[0],(I)g[1]},std::array<I,2>{(I)g[3],(I)g[4]},std::array<int,2>{(int)g[6],(int)g[7]});
    return heffte::box3d<I>({(I)g[0],(I)g[1],(I)g[2]},{(I)g[3],(I)g[4],(I)g[5]},{(int)g[6],(int)g[7],(int)g[8]}); }
#define VF_SIX(g) (int)g[0],(int)g[1],(int)g[2],(int)g[3],(int)g[4],(int)g[5]
#define VF_NINE(g) VF_SIX(g),(int)g[6],(int)g[7],(int)g[8]
template<class Tag,class I> heffte::fft3d<Tag,I> ask(int how,std::vector<long> const &a,std::vector<long> const &b,MPI_Comm comm,heffte::plan_options const &op){
    using F=heffte::fft3d<Tag,I>; heffte::box3d<I> ib({(I)a[0],(I)a[1],(I)a[2]},{(I)a[3],(I)a[4],(I)a[5]},{(int)a[6],(int)a[7],(int)a[8]}), ob({(I)b[0],(I)b[1],(I)b[2]},{(I)b[3],(I)b[4],(I)b[5]},{(int)b[6],(int)b[7],(int)b[8]});
    typename heffte::backend::device_instance<typename heffte::backend::buffer_traits<Tag>::location>::stream_type q=nullptr;
    switch(how){
        case 1: return F(q,ib,ob,comm,op);
        case 2: return F(VF_NINE(a),VF_NINE(b),comm,op.use_reorder,(int)op.algorithm,op.use_pencils);
        case 3: return F(VF_NINE(a),VF_NINE(b),comm);
        case 4: return plain(a)&&plain(b) ? F(VF_SIX(a),VF_SIX(b),comm) : F(VF_NINE(a),VF_NINE(b),comm);
        case 5: return F(ib,ob,comm);
        case 6: return heffte::make_fft3d<Tag>(ib,ob,comm,op);
        case 7: return F(flat<I>(a),flat<I>(b),comm,op);
        default: return F(ib,ob,comm,op); } }
template<class Tag,class I> heffte::fft3d_r2c<Tag,I> ask_r2c(int how,std::vector<long> const &a,std::vector<long> const &b,int d,MPI_Comm comm,heffte::plan_options const &op){
    using F=heffte::fft3d_r2c<Tag,I>; heffte::box3d<I> ib({(I)a[0],(I)a[1],(I)a[2]},{(I)a[3],(I)a[4],(I)a[5]},{(int)a[6],(int)a[7],(int)a[8]}), ob({(I)b[0],(I)b[1],(I)b[2]},{(I)b[3],(I)b[4],(I)b[5]},{(int)b[6],(int)b[7],(int)b[8]});
    typename heffte::backend::device_instance<typename heffte::backend::buffer_traits<Tag>::location>::stream_type q=nullptr;
    switch(how){
        case 1: return F(q,ib,ob,d,comm,op);
        case 2: return F(VF_NINE(a),VF_NINE(b),d,comm,op.use_reorder,(int)op.algorithm,op.use_pencils);
        case 3: return F(VF_NINE(a),VF_NINE(b),d,comm);
        case 4: return plain(a)&&plain(b) ? F(VF_SIX(a),VF_SIX(b),d,comm) : F(VF_NINE(a),VF_NINE(b),d,comm);
        case 5: return F(ib,ob,d,comm);
        case 7: return F(flat<I>(a),flat<I>(b),d,comm,op);
        default: return F(ib,ob,d,comm,op); } }
#endif

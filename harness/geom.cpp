/* An operation is left out (NO_x) when the library has no function of that name and signature any more.
   The plan of operations and the geometry functions: called directly, results written out as they are. */
#include "heffte.h"
#include "common.h"
using namespace heffte;
using std::to_string;
template<class I> box3d<I> mkbox(std::vector<long> const &g){ return box3d<I>({(I)g[0],(I)g[1],(I)g[2]},{(I)g[3],(I)g[4],(I)g[5]},{(int)g[6],(int)g[7],(int)g[8]}); }
template<class I> std::vector<box3d<I>> mkboxes(std::vector<std::vector<long>> const &g){ std::vector<box3d<I>> r; for(auto &b : g) r.push_back(mkbox<I>(b)); return r; }
template<class I> std::vector<long> raw(box3d<I> const &b){ std::vector<long> r; for(int i=0;i<3;i++) r.push_back((long)b.low[i]); for(int i=0;i<3;i++) r.push_back((long)b.high[i]); for(int i=0;i<3;i++) r.push_back(b.order[i]); return r; }
template<class I> std::vector<std::vector<long>> raw(std::vector<box3d<I>> const &b){ std::vector<std::vector<long>> r; for(auto &x : b) r.push_back(raw(x)); return r; }
template<class I> bool sizes_ok(std::vector<box3d<I>> const &v){ for(auto &b : v) for(int i=0;i<3;i++) if (b.size[i]!=b.high[i]-b.low[i]+1) return false; return true; }
static bool same(std::vector<std::vector<long>> const &a,std::vector<std::vector<long>> const &b){ return a==b; }
static std::string jbool(bool b){ return b?"true":"false"; }
static long mods(long long x,long p){ return (long)(((x%p)+p)%p); }
static std::vector<int> remap_of(int n,int sub){ std::vector<int> m; if (sub>0&&sub<n){ m.assign(n,-1); for(int i=0;i<sub;i++) m[i]=i; } return m; }
struct absent{};
template<class I> std::string run(kase const &k){
    std::string op=k.str("op"), s; auto in=k.lists("in"), out=k.lists("out"); auto W=k.list("world"); auto ord=k.list("order"); int sub=(int)k.num("sub",-1);
    std::array<int,3> od={0,1,2}; if (ord.size()==3) od={(int)ord[0],(int)ord[1],(int)ord[2]};
    auto remap=[&](int n){ rank_remap r(0); if (sub>0&&sub<n) r.set_subranks((size_t)n,sub); return r; };
#ifndef NO_plan
    if (op=="plan"){
        ioboxes<I> io; io.in=mkboxes<I>(in); io.out=mkboxes<I>(out);
        plan_options o(k.num("reorder",1)!=0, reshape_algorithm::alltoallv, k.num("pencils",1)!=0); if (sub>0) o.use_num_subranks(sub); int r2c=(int)k.num("r2c",-1);
        auto p=plan_operations(io,r2c,o,0); bool agree=true, sz=true;
        for(size_t r=1;r<in.size();r++){ auto q=plan_operations(io,r2c,o,(int)r); for(int i=0;i<4;i++) if (!same(raw(p.in_shape[i]),raw(q.in_shape[i]))||!same(raw(p.out_shape[i]),raw(q.out_shape[i]))) agree=false;
            if (p.fft_direction!=q.fft_direction||p.index_count!=q.index_count||p.fft_sizes!=q.fft_sizes||q.mpi_rank!=(int)r) agree=false; }
        for(int i=0;i<4;i++) sz=sz&&sizes_ok(p.in_shape[i])&&sizes_ok(p.out_shape[i]);
        auto g=compute_grids(p);
        s+=",\"in\":"+box_json(in)+",\"out\":"+box_json(out)+",\"r2c\":"+to_string(r2c)+",\"reorder\":"+jbool(k.num("reorder",1))+",\"agree\":"+jbool(agree)+",\"sizes\":"+jbool(sz)+",\"si\":[";
        for(int i=0;i<4;i++) s+=(i?",":"")+box_json(raw(p.in_shape[i])); s+="],\"so\":["; for(int i=0;i<4;i++) s+=(i?",":"")+box_json(raw(p.out_shape[i])); s+="]";
        s+=",\"dir\":"+jarr(std::vector<long>(p.fft_direction.begin(),p.fft_direction.end()))+",\"len\":"+jarr(std::vector<long>(p.fft_sizes.begin(),p.fft_sizes.end()))+",\"cnt\":["+to_string(mods(p.index_count,30011))+","+to_string(mods(p.index_count,32003))+"],\"grids\":["; for(size_t i=0;i<g.size();i++) s+=(i?",":"")+jarr(std::vector<long>(g[i].begin(),g[i].end())); s+="]";
        return s; }
#endif
#ifndef NO_split
    if (op=="split"){ auto g=k.list("grid"); int n=(int)(g[0]*g[1]*g[2]); int tot=(int)k.num("ranks",n);
        rank_remap r(0); if (tot>n) r.set_subranks((size_t)tot,n);
        auto b=split_world(mkbox<I>(W), {(int)g[0],(int)g[1],(int)g[2]}, r); s+=",\"world\":"+jarr(W)+",\"grid\":"+jarr(g)+",\"ranks\":"+to_string(tot)+",\"sizes\":"+jbool(sizes_ok(b))+",\"res\":"+box_json(raw(b));
        return s; }
#endif
#ifndef NO_surf
    if (op=="surf"){ auto g=proc_setup_min_surface(mkbox<I>(W),(int)k.num("np")); s+=",\"world\":"+jarr(W)+",\"np\":"+to_string(k.num("np"))+",\"res\":"+jarr(std::vector<long>(g.begin(),g.end()));
        return s; }
#endif
#ifndef NO_grid2
    if (op=="grid2"){ auto g=make_procgrid((int)k.num("np")); s+=",\"np\":"+to_string(k.num("np"))+",\"res\":"+jarr(std::vector<long>(g.begin(),g.end()));
        return s; }
#endif
#ifndef NO_grid3
    if (op=="grid3"){ auto c=k.list("grid"); auto g=make_procgrid2d(mkbox<I>(W),(int)k.num("dim"),{(int)c[0],(int)c[1]}); s+=",\"world\":"+jarr(W)+",\"grid\":"+jarr(c)+",\"dim\":"+to_string(k.num("dim"))+",\"res\":"+jarr(std::vector<long>(g.begin(),g.end()));
        return s; }
#endif
#ifndef NO_pencils
    if (op=="pencils"||op=="slabs"){ auto src=mkboxes<I>(in); int n=(int)in.size(); int m=(sub>0&&sub<n)?sub:n; std::vector<box3d<I>> b;
        if (op=="pencils") b=make_pencils(mkbox<I>(W), make_procgrid(m), (int)k.num("dim"), src, od, remap(n)); else b=make_slabs(mkbox<I>(W), m, (int)k.num("dim"), (int)k.num("dim2"), src, od, remap(n));
        s+=",\"world\":"+jarr(W)+",\"in\":"+box_json(in)+",\"m\":"+to_string(m)+",\"dim\":"+to_string(k.num("dim"))+",\"dim2\":"+to_string(k.num("dim2"))+",\"order\":"+jarr(std::vector<long>(od.begin(),od.end()))+",\"sizes\":"+jbool(sizes_ok(b))+",\"res\":"+box_json(raw(b));
        return s; }
#endif
#ifndef NO_overlap
    if (op=="overlap"){ int n=(int)in.size(); auto b=maximize_overlap(mkboxes<I>(in),mkboxes<I>(out),od,remap(n));
        s+=",\"in\":"+box_json(in)+",\"old\":"+box_json(out)+",\"order\":"+jarr(std::vector<long>(od.begin(),od.end()))+",\"m\":"+to_string((sub>0&&sub<n)?sub:n)+",\"sizes\":"+jbool(sizes_ok(b))+",\"res\":"+box_json(raw(b));
        return s; }
#endif
#ifndef NO_rel
    if (op=="rel"){ auto a=mkboxes<I>(in), c=mkboxes<I>(out); auto w=find_world(a); std::string why="complete"; try{ if (!world_complete(a,w)) why="false"; }catch(std::invalid_argument &e){ why="refused"; }
        s+=",\"in\":"+box_json(in)+",\"old\":"+box_json(out)+",\"world\":"+jarr(raw(w))+",\"complete\":"+jstr(why)+",\"match\":"+jbool(match(a,c))+",\"pencils\":["; for(int i=0;i<3;i++) s+=(i?",":"")+jbool(is_pencils(w,a,i));
        s+="],\"slabs\":["; for(int i=0;i<3;i++){ s+=(i?",[":"["); for(int j=0;j<3;j++) s+=(j?",":"")+jbool(is_slab(w,a,i,j)); s+="]"; }
        auto ro=reorder(a,od); s+="],\"conn\":"+to_string(count_connections(a,c))+",\"order\":"+jarr(std::vector<long>(od.begin(),od.end()))+",\"reordered\":"+box_json(raw(ro));
        s+=",\"box\":["; for(size_t i=0;i<a.size();i++){ auto &b=a[i]; auto &q=c[i%c.size()]; auto x=b.collide(q);
            s+=std::string(i?",":"")+"{\"hit\":"+jarr(raw(x))+",\"empty\":"+jbool(b.empty())+",\"n\":"+jarr(digits(b.count()))+",\"half\":["; for(int d=0;d<3;d++) s+=(d?",":"")+jarr(raw(b.r2c(d)));
            s+="],\"eq\":"+jbool(b==q)+",\"ne\":"+jbool(b!=q)+",\"same\":"+jbool(b.ordered_same_as(q))+",\"flat\":"+jbool(b.is2d())+",\"size\":["+to_string(b.size[0])+","+to_string(b.size[1])+","+to_string(b.size[2])+"],\"pos\":["+to_string(b.find_order(0))+","+to_string(b.find_order(1))+","+to_string(b.find_order(2))+"],\"os\":["+to_string(b.osize(0))+","+to_string(b.osize(1))+","+to_string(b.osize(2))+"],\"many\":["; for(int d=0;d<3;d++) s+=(d?",":"")+to_string(fft1d_get_howmany(b,d)); s+="],\"stride\":["; for(int d=0;d<3;d++) s+=(d?",":"")+to_string(fft1d_get_stride(b,d)); s+="]}"; }
        s+="],\"flat\":"; { std::array<I,2> lo={1,2}, hi={4,3}; std::array<int,2> o2={1,0}; box2d<I> f(lo,hi), g(lo,hi,o2); s+=box_json({raw(f),raw(g)}); }
        return s; }
#endif
    throw absent();
}
static std::string one(kase const &k){
    std::string st="ok", s, what; try{ s = k.num("ll")?run<long long>(k):run<int>(k); }catch(absent&){ st="absent"; }catch(std::exception &e){ what=e.what(); st = what.find("Cannot split")!=std::string::npos?"nosplit":"exception"; s="";
        auto in=k.lists("in"), out=k.lists("out"); s=",\"in\":"+box_json(in)+",\"out\":"+box_json(out)+",\"r2c\":"+to_string(k.num("r2c",-1))+",\"world\":"+jarr(k.list("world"))+",\"grid\":"+jarr(k.list("grid"))+",\"dim\":"+to_string(k.num("dim")); }
    return "{\"id\":"+jstr(k.id)+",\"status\":"+jstr(st)+",\"op\":"+jstr(k.str("op"))+",\"sub\":"+to_string(k.num("sub",-1))+",\"what\":"+jstr(what)+s+"}";
}
int main(int c,char**v){ return run_cases(c,v,one); }

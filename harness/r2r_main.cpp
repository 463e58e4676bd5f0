#include "num.h"
static std::string run_one(kase const &k){
    auto in=k.lists("in"), out=k.lists("out"); r2r_out o; for(int i=0;i<3;i++) o.n[i]=0; for(auto &b : in) for(int i=0;i<3;i++) o.n[i]=std::max(o.n[i],b[3+i]+1);
    o.kind=k.str("kind","cos"); long L=4; for(int i=0;i<3;i++){ long m=2*(long)r2r_norm(o.kind,o.n[i]); L=L/gcdl(L,m)*m; }
    bool fl=k.num("float"), ll=k.num("ll"); o.tol=fl?k.num("tolf",100)*1e-6:k.num("told",100)*1e-13; std::vector<run_rec> runs;
    for(auto &v : k.lists("runs")){ run_rec r; r.back=(int)v[0]; r.sc=(int)v[1]; for(int i=0;i<3;i++) r.c[i]=v[2+i]; runs.push_back(r); }
    o.res.assign(runs.size(), std::vector<std::vector<double>>(in.size()));
    auto perm=k.list("perm"); int nw=perm.empty()?(int)in.size():(int)perm.size(); std::string be=k.str("be","stock");
    r2r_fn fn = be=="fftw"?r2r_fftw(o.kind,ll,fl):(be=="mkl"?r2r_mkl(o.kind,ll,fl):r2r_stock(o.kind,ll,fl));
    auto res=mock::run(nw, policy_of(k), false, [&](int wr){ fn(k,wr,in,out,runs,o); });
    std::vector<long> t(L/2+1); for(size_t p=0;p<t.size();p++) t[p]=std::lround(1e6*std::cos(2*M_PI*p/L));
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(status_of(res))+",\"sub\":"+std::to_string(k.num("sub",-1))+",\"r2c\":-1,\"what\":"+jstr(res.ok()?"":res.what())+",\"n\":["+std::to_string(o.n[0])+","+std::to_string(o.n[1])+","+std::to_string(o.n[2])+"],\"kind\":"+jstr(o.kind)+",\"L\":"+std::to_string(L)+",\"tol\":"+std::to_string((long)(8*o.tol*1e6)+10)+",\"cos\":"+jarr(t);
    s+=",\"in\":"+box_json(in)+",\"out\":"+box_json(out)+",\"guards\":"+std::to_string(o.guards)+",\"inmod\":"+std::to_string(o.inmod)+",\"sizes\":"+std::to_string(o.sizes)+",\"lin\":"+std::to_string(o.lin)+",\"runs\":[";
    for(size_t q=0;q<runs.size();q++){ auto &r=runs[q]; s+=std::string(q?",":"")+"{\"bk\":"+std::to_string(r.back)+",\"sc\":"+std::to_string(r.sc)+",\"c\":["+std::to_string(r.c[0])+","+std::to_string(r.c[1])+","+std::to_string(r.c[2])+"],\"res\":[";
        for(size_t w=0;w<in.size();w++){ std::vector<long> v; for(double x : o.res[q][w]) v.push_back(std::abs(x)<1000?std::lround(x*1e6):2000000000); s+=(w?",":"")+jarr(v); } s+="]}"; }
    return s+"]}";
}
int main(int c,char**v){ return run_cases(c,v,run_one); }

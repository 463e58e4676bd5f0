#include "num.h"
static std::string run_one(kase const &k){
    auto in=k.lists("in"), out=k.lists("out"); geo g; for(int i=0;i<3;i++){ g.n[i]=0; g.no[i]=0; } for(auto &b : in) for(int i=0;i<3;i++) g.n[i]=std::max(g.n[i],b[3+i]+1); for(auto &b : out) for(int i=0;i<3;i++) g.no[i]=std::max(g.no[i],b[3+i]+1);
    g.r2c=(int)k.num("r2c",-1); g.rin=k.num("rin"); g.L=4; for(int i=0;i<3;i++) g.L=g.L/gcdl(g.L,g.n[i])*g.n[i]; bool fl=k.num("float"), ll=k.num("ll"); g.tol=fl?k.num("tolf",100)*1e-6:k.num("told",100)*1e-13;
    if (k.has("L")) g.L=k.num("L");
    num_out o; bool realin=g.rin||g.r2c>=0;
    // runs: dir,scale,x,y,z,shift
    for(auto &v : k.lists("runs")){ run_rec r; r.back=(int)v[0]; r.sc=(int)v[1]; for(int i=0;i<3;i++) r.c[i]=v[2+i]; r.s=v[5]; if (v.size()>6) r.w=(int)v[6];
        bool self=true; for(int i=0;i<3;i++) if ((2*r.c[i])%g.n[i]) self=false;
        r.m = (realin && r.back && !self) ? 2 : 1; if (realin && (!r.back || self)) r.s = (r.s%2)*(g.L/2);
        if (r.w && realin){ r.s=v[5]; r.m = (r.back||self)?1:2; if (r.m==1) r.s=(r.s%2)*(g.L/2); }
        r.s%=g.L; r.res.assign(in.size(),{}); o.runs.push_back(r); }
    o.cnt.assign(in.size(),{{-1,-1}}); auto perm=k.list("perm"); int nw=perm.empty()?(int)in.size():(int)perm.size(); std::string be=k.str("be","stock");
    num_fn fn = be=="fftw"?num_fftw(ll,fl):(be=="mkl"?num_mkl(ll,fl):num_stock(ll,fl));
    auto res=mock::run(nw, policy_of(k), false, [&](int wr){ fn(k,wr,in,out,g,o); });
        std::string st=status_of(res);
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(st)+",\"sub\":"+std::to_string(k.num("sub",-1))+",\"what\":"+jstr(res.ok()?"":res.what())+",\"n\":["+std::to_string(g.n[0])+","+std::to_string(g.n[1])+","+std::to_string(g.n[2])+"],\"L\":"+std::to_string(g.L)+",\"r2c\":"+std::to_string(g.r2c)+",\"real\":"+std::to_string((int)realin);
    s+=",\"in\":"+box_json(in)+",\"out\":"+box_json(out)+",\"guards\":"+std::to_string(o.guards)+",\"inmod\":"+std::to_string(o.inmod)+",\"sizes\":"+std::to_string(o.sizes)+",\"lin\":"+std::to_string(o.lin);
    s+=",\"cnt\":["; for(size_t i=0;i<o.cnt.size();i++) s+=std::string(i?",[":"[")+jarr(digits(o.cnt[i][0]))+","+jarr(digits(o.cnt[i][1]))+"]"; s+="]";
    bool pk=k.num("pk"); if (pk) s+=",\"pk\":1";
    if (realin && !pk){ std::vector<long> t(g.L/2+1); for(size_t p=0;p<t.size();p++) t[p]=std::lround(1e6*std::cos(2*M_PI*p/g.L)); s+=",\"tol\":"+std::to_string((long)(g.tol*1e6)+2)+",\"cos\":"+jarr(t); }
    char b[64]; snprintf(b,64,"%.3e",o.maxerr); s+=",\"maxerr\":\""+std::string(b)+"\",\"runs\":[";
    for(size_t q=0;q<o.runs.size();q++){ auto &r=o.runs[q]; if (q) s+=","; s+="{\"bk\":"+std::to_string(r.back)+",\"sc\":"+std::to_string(r.sc)+",\"c\":["+std::to_string(r.c[0])+","+std::to_string(r.c[1])+","+std::to_string(r.c[2])+"],\"s\":"+std::to_string(r.s)+",\"m\":"+std::to_string(r.m);
        if (r.w){ s+=",\"w\":1,\"res\":["; for(size_t i=0;i<r.res.size();i++){ if (i) s+=","; s+="["; for(size_t a=0;a<r.res[i].size();a+=2){ if (a) s+=","; s+="["+std::to_string(r.res[i][a])+","+std::to_string(r.res[i][a+1])+"]"; } s+="]"; } s+="]}"; }
        else if (pk){ s+=",\"res\":["; for(size_t i=0;i<r.res.size();i++){ if (i) s+=","; s+=jpack(r.res[i], line_of(r.back?in[i]:out[i]), g.L); } s+="]}"; }
        else s+=",\"res\":"+box_json(r.res)+"}"; }
    return s+"]}";
}
int main(int c,char**v){ return run_cases(c,v,run_one); }

/* Variables of the Fortran interface over a session: op: 0 create var cfg how; 1 transform var bk sc x y z s prec batch own inplace off one nosc; 2 assign to from; 3 release var; 4 query var; 5 use of a variable without plan var what */
#include "fort.h"
#include "hist.h"
template<bool r2c> static void transform(fvar<r2c> &f,hcfg const &c,hop &o,int me,std::true_type){ if (o.v[7]) one_transform<fvar<r2c>,float,std::complex<float>>(f,c,o,me); else one_transform<fvar<r2c>,double,std::complex<double>>(f,c,o,me); }
template<bool r2c> static void transform(fvar<r2c> &f,hcfg const &c,hop &o,int me,std::false_type){ if (c.realin) return transform<r2c>(f,c,o,me,std::true_type()); if (o.v[7]) one_transform<fvar<r2c>,std::complex<float>,std::complex<float>>(f,c,o,me); else one_transform<fvar<r2c>,std::complex<double>,std::complex<double>>(f,c,o,me); }
static char const *NAMES[]={"create","transform","assign","release","query","unset"};
template<bool r2c> static void session(kase const &k,std::vector<hcfg> const &cf,std::vector<hop> &ops,int wr,std::vector<long> &base,std::vector<long> &fin){
    int ns=(int)k.num("slots",3); MPI_Comm W=MPI_COMM_WORLD; if (k.num("split")) MPI_Comm_split(MPI_COMM_WORLD,0,-wr*0+wr,&W); base[wr]=mock::live_comms_of(wr);
    { std::vector<std::unique_ptr<fvar<r2c>>> v; for(int i=0;i<ns;i++) v.emplace_back(new fvar<r2c>()); std::vector<int> has(ns,-1);
    for(auto &o : ops){ int s=(int)o.v[1];
        switch(o.v[0]){
            case 0: { hcfg const &c=cf[o.v[2]]; v[s]->make((int)o.v[3],c.in[wr],c.out[wr],c.r2c,W,opts_of(c.k,plan_options(true,reshape_algorithm::alltoallv,false))); has[s]=(int)o.v[2]; break; }
            case 1: v[s]->nosc=o.v[13]; transform<r2c>(*v[s],cf[has[s]],o,wr,std::integral_constant<bool,r2c>()); break;
            case 2: v[s]->assign(*v[o.v[2]]); has[s]=has[o.v[2]]; break;
            case 3: v[s]->release(); has[s]=-1; break;
            case 4: o.sizes[wr]={(long)v[s]->size_inbox(),(long)v[s]->size_outbox(),(long)v[s]->size_workspace(),(long)v[s]->size_comm_buffers(),std::lround(1e8*v[s]->get_scale_factor(scale::full)*cf[has[s]].g.n[0]*cf[has[s]].g.n[1]*cf[has[s]].g.n[2])}; break;
            case 5: { double z[2]={3,3}; int w=(int)o.v[2]; if (w==0) v[s]->size_inbox(); else if (w==1) v[s]->size_workspace(); else if (w==2) v[s]->get_scale_factor(scale::full); else { v[s]->ib={0,0,0,0,0,0,0,1,2}; v[s]->ob=v[s]->ib; if (w==3) (r2c?VF_R(forward2):VF_C(forward2))(v[s]->h,0,1,z,1,z,1,z,1,0); else (r2c?VF_R(backward2):VF_C(backward2))(v[s]->h,4,1,z,1,z,1,z,1,1); if (z[0]!=3 || z[1]!=3) o.sz|=8; } break; } }
        int e=fort_err(); if (e) o.ret=e; o.live[wr]=mock::live_comms_of(wr)-base[wr]; }
    for(auto &x : v) x->release(); }
    fin[wr]=mock::live_comms_of(wr)-base[wr]; MPI_Barrier(W); if (W!=MPI_COMM_WORLD) MPI_Comm_free(&W); }
static std::string run_one(kase const &k){
    std::vector<hcfg> cf; int nw=(int)k.num("nw",1);
    for(int i=0; k.has("c"+std::to_string(i)+".in"); i++){ hcfg c; std::string pre="c"+std::to_string(i)+"."; for(auto &kv : k.kv) if (kv.first.compare(0,pre.size(),pre)==0) c.k.kv[kv.first.substr(pre.size())]=kv.second;
        c.in=c.k.lists("in"); c.out=c.k.lists("out"); c.kind="fft"; c.r2c=(int)c.k.num("r2c",-1); geo &g=c.g; for(int j=0;j<3;j++){ g.n[j]=0; g.no[j]=0; } for(auto &b : c.in) for(int j=0;j<3;j++) g.n[j]=std::max(g.n[j],b[3+j]+1); for(auto &b : c.out) for(int j=0;j<3;j++) g.no[j]=std::max(g.no[j],b[3+j]+1);
        g.r2c=c.r2c; g.rin=c.k.num("rin"); c.realin=g.rin||c.r2c>=0; g.L=4; for(int j=0;j<3;j++) g.L=g.L/gcdl(g.L,g.n[j])*g.n[j]; g.tol=1e-4; cf.push_back(c); }
    std::vector<hop> ops; for(auto &v : k.lists("ops")){ hop o; o.v=v; o.live.assign(nw,0); ops.push_back(o); }
    std::vector<int> holds(k.num("slots",3),-1);
    for(auto &o : ops){ int c=(int)o.v[0], s=(int)o.v[1]; if (c==0) holds[s]=(int)o.v[2]; if (c==2) holds[s]=holds[o.v[2]]; if (c==3) holds[s]=-1; if (c==4) o.sizes.assign(nw,{});
        if (c==1){ hcfg &q=cf[holds[s]]; int b=(int)o.v[8]; for(int j=0;j<b;j++){ run_rec r; r.back=(int)o.v[2]; r.sc=(int)o.v[3]; long *n = r.back?q.g.no:q.g.n; for(int i=0;i<3;i++) r.c[i]=(o.v[4+i]+j*(i+1))%n[i]; r.s=(o.v[14]+7*j)%q.g.L;
            bool self=true; for(int i=0;i<3;i++) if ((2*r.c[i])%q.g.n[i]) self=false; r.m=(q.realin && r.back && !self)?2:1; if (q.realin && (!r.back||self)) r.s=(r.s%2)*(q.g.L/2); r.j=holds[s]; r.res.assign(q.in.size(),{}); o.runs.push_back(r); } } }
    std::vector<long> base(nw,0), fin(nw,0); bool r2c=cf[0].r2c>=0;
    auto res=mock::run(nw, policy_of(k), false, [&](int wr){ if (r2c) session<true>(k,cf,ops,wr,base,fin); else session<false>(k,cf,ops,wr,base,fin); });
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(status_of(res))+",\"what\":"+jstr(res.ok()?"":res.what())+",\"slots\":"+std::to_string(k.num("slots",3))+",\"nw\":"+std::to_string(nw)+",\"fin\":"+jarr(fin)+",\"cfg\":[";
    for(size_t i=0;i<cf.size();i++){ auto &c=cf[i]; s+=std::string(i?",":"")+"{\"in\":"+box_json(c.in)+",\"out\":"+box_json(c.out)+",\"n\":["+std::to_string(c.g.n[0])+","+std::to_string(c.g.n[1])+","+std::to_string(c.g.n[2])+"],\"L\":"+std::to_string(c.g.L)+",\"r2c\":"+std::to_string(c.r2c)+",\"real\":"+std::to_string((int)c.realin)+",\"tol\":"+std::to_string(102);
        std::vector<long> t(c.g.L/2+1); for(size_t p=0;p<t.size();p++) t[p]=std::lround(1e6*std::cos(2*M_PI*p/c.g.L)); s+=",\"cos\":"+jarr(t)+"}"; }
    s+="],\"ops\":["; bool first=true;
    for(auto &o : ops){ s+=std::string(first?"":",")+"{\"op\":"+jstr(NAMES[o.v[0]])+",\"v\":"+jarr(o.v)+",\"ret\":"+std::to_string(o.ret)+",\"live\":"+jarr(o.live)+",\"sz\":"+std::to_string(o.sz)+",\"guards\":"+std::to_string(o.guards)+",\"inmod\":"+std::to_string(o.inmod)+",\"sizes\":"+box_json(o.sizes)+",\"runs\":["; first=false;
        for(size_t q=0;q<o.runs.size();q++){ auto &r=o.runs[q]; if (q) s+=","; s+="{\"bk\":"+std::to_string(r.back)+",\"sc\":"+std::to_string(r.sc)+",\"c\":["+std::to_string(r.c[0])+","+std::to_string(r.c[1])+","+std::to_string(r.c[2])+"],\"s\":"+std::to_string(r.s)+",\"m\":"+std::to_string(r.m)+",\"res\":"+box_json(r.res)+"}"; }
        s+="]}"; }
    return s+"]}";
}
int main(int c,char**v){ return run_cases(c,v,run_one); }

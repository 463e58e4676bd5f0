/* Runs a history of creations, transforms, moves and destructions of plans on all ranks.
   op: code, slot, ...: 0 create slot cfg; 1 transform slot bk sc x y z s prec batch own inplace off one; 2 move src dst how; 3 destroy slot; 4 query slot;
   5 create from invalid boxes slot cfg; 6 create with an unknown back end; 7 create with an unknown algorithm; 8 default options; 9 swap; 10 transform through containers (one item, extra elements last); 11 refused: container too small by v[4] */
#include "hist.h"
static char const *NAMES[]={"create","transform","move","destroy","query","bad_boxes","bad_backend","bad_alg","defaults","swap","vtransform","short"};
static std::string run_one(kase const &k){
    std::vector<hcfg> cf; int nw=1, ns=(int)k.num("slots",3); bool capi=k.num("capi"); MPI_Comm W=MPI_COMM_WORLD; (void)W;
    for(int i=0; k.has("c"+std::to_string(i)+".in"); i++){ hcfg c; std::string pre="c"+std::to_string(i)+"."; for(auto &kv : k.kv) if (kv.first.compare(0,pre.size(),pre)==0) c.k.kv[kv.first.substr(pre.size())]=kv.second;
        c.in=c.k.lists("in"); c.out=c.k.lists("out"); c.ranks=c.k.list("ranks"); if (c.ranks.empty()) for(size_t r=0;r<c.in.size();r++) c.ranks.push_back((long)r);
        for(long r : c.ranks) nw=std::max(nw,(int)r+1);
        c.kind=c.k.str("kind","fft"); c.be=c.k.str("be","stock"); c.r2c=(int)c.k.num("r2c",-1); geo &g=c.g; for(int j=0;j<3;j++){ g.n[j]=0; g.no[j]=0; } for(auto &b : c.in) for(int j=0;j<3;j++) g.n[j]=std::max(g.n[j],b[3+j]+1); for(auto &b : c.out) for(int j=0;j<3;j++) g.no[j]=std::max(g.no[j],b[3+j]+1);
        g.r2c=c.r2c; g.rin=c.k.num("rin"); c.realin=g.rin||c.r2c>=0; g.L=4; for(int j=0;j<3;j++){ long m = c.kind=="fft"?g.n[j]:2*(long)r2r_norm(c.kind,g.n[j]); g.L=g.L/gcdl(g.L,m)*m; } g.tol=1e-4; cf.push_back(c); }
    std::vector<hop> ops; for(auto &v : k.lists("ops")){ hop o; o.v=v; o.live.assign(nw,0);
        ops.push_back(o); }
    std::vector<int> holds(ns,-1);          // which configuration a slot has, to lay out the results
    for(auto &o : ops){ int c=(int)o.v[0], s=(int)o.v[1]; if (c==0) holds[s]=(int)o.v[2]; if (c==2){ holds[o.v[2]]=holds[s]; holds[s]=-1; } if (c==3) holds[s]=-1; if (c==9) std::swap(holds[s],holds[o.v[2]]);
        if (c==4 && holds[s]>=0) o.sizes.assign(cf[holds[s]].in.size(),{});
        if ((c==1||c==10||c==11) && holds[s]>=0){ hcfg &q=cf[holds[s]]; int b=(int)o.v[8]; for(int j=0;j<b;j++){ run_rec r; r.back=(int)o.v[2]; r.sc=(int)o.v[3]; long *n = r.back?q.g.no:q.g.n; for(int i=0;i<3;i++) r.c[i]=(o.v[4+i]+j*(i+1))%n[i]; r.s=(o.v[13]+7*j)%q.g.L;
            bool self=true; for(int i=0;i<3;i++) if ((2*r.c[i])%q.g.n[i]) self=false; r.m=(q.realin && r.back && !self)?2:1; if (q.realin && (!r.back||self)) r.s=(r.s%2)*(q.g.L/2); r.j=holds[s]; r.res.assign(q.in.size(),{}); o.runs.push_back(r); } } }
    std::vector<long> base(nw,0), fin(nw,0);
    auto res=mock::run(nw, policy_of(k), false, [&](int wr){
        std::vector<MPI_Comm> comm; for(auto &c : cf){ long pos=-1; bool plain=c.ranks.size()==(size_t)nw; for(size_t i=0;i<c.ranks.size();i++){ if (c.ranks[i]==wr) pos=(long)i; if (c.ranks[i]!=(long)i) plain=false; }
            MPI_Comm q=MPI_COMM_WORLD; if (!plain || c.k.num("split")) MPI_Comm_split(MPI_COMM_WORLD, pos<0?MPI_UNDEFINED:0, (int)pos, &q); comm.push_back(q); }
        auto rank_in=[&](int c){ for(size_t i=0;i<cf[c].ranks.size();i++) if (cf[c].ranks[i]==wr) return (int)i; return -1; };
        base[wr]=mock::live_comms_of(wr); std::vector<std::unique_ptr<plan_base>> slot(ns); std::vector<int> has(ns,-1);
        auto make=[&](hop &o,int c,int bb,int ba){ int me=rank_in(c); std::unique_ptr<plan_base> p; if (me<0) return p;
            if (capi) return hist_capi(cf[c],me,comm[c],o,bb,ba);
            return cf[c].be=="fftw"?hist_fftw(cf[c],me,comm[c]):(cf[c].be=="mkl"?hist_mkl(cf[c],me,comm[c]):hist_stock(cf[c],me,comm[c])); };
        for(auto &o : ops){ int code=(int)o.v[0], s=(int)o.v[1];
            switch(code){
                case 0: { auto p=make(o,(int)o.v[2],0,0); slot[s]=std::move(p); has[s]=(int)o.v[2]; break; }
                case 1: case 10: case 11: if (has[s]>=0 && slot[s]) slot[s]->transform(o,rank_in(has[s])); break;
                case 2: { int d=(int)o.v[2]; if (slot[s]){ if (capi) slot[d]=std::move(slot[s]); else if (o.v[3] && slot[d] && slot[d]->take(*slot[s])) slot[s].reset(); else { slot[d]=slot[s]->steal(); slot[s].reset(); } } else slot[d].reset(); has[d]=has[s]; has[s]=-1; break; }
                case 3: slot[s].reset(); has[s]=-1; break;
                case 4: if (slot[s]) o.sizes[rank_in(has[s])]=slot[s]->query(); break;
                case 5: { int me=rank_in((int)o.v[2]); if (me<0) break; if (capi){ auto p=make(o,(int)o.v[2],0,0); if (p) o.sz|=4; } else { bool thrown=false; try{ make(o,(int)o.v[2],0,0); } catch(std::exception &){ thrown=true; } if (!thrown) o.sz|=4; else o.ret=1; } break; }
                case 6: { auto p=make(o,(int)o.v[2],77,0); if (p) o.sz|=4; break; }
                case 7: { auto p=make(o,(int)o.v[2],0,(int)o.v[3]); if (p) o.sz|=4; break; }
                case 8: if (wr==0) capi_defaults(s,o); break;
                case 9: { int d=(int)o.v[2]; std::swap(slot[s],slot[d]); std::swap(has[s],has[d]); break; } }
            o.live[wr]=mock::live_comms_of(wr)-base[wr]; }
        slot.clear(); fin[wr]=mock::live_comms_of(wr)-base[wr];
        for(size_t i=0;i<comm.size();i++) if (comm[i]!=MPI_COMM_NULL){ MPI_Barrier(comm[i]); if (comm[i]!=MPI_COMM_WORLD) MPI_Comm_free(&comm[i]); }
    });
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(status_of(res))+",\"what\":"+jstr(res.ok()?"":res.what())+",\"capi\":"+std::to_string((int)capi)+",\"slots\":"+std::to_string(ns)+",\"nw\":"+std::to_string(nw)+",\"fin\":"+jarr(fin)+",\"cfg\":[";
    for(size_t i=0;i<cf.size();i++){ auto &c=cf[i]; bool r2r=c.kind!="fft"; s+=std::string(i?",":"")+"{\"kind\":"+jstr(c.kind)+",\"ranks\":"+jarr(c.ranks)+",\"in\":"+box_json(c.in)+",\"out\":"+box_json(c.out)+",\"n\":["+std::to_string(c.g.n[0])+","+std::to_string(c.g.n[1])+","+std::to_string(c.g.n[2])+"],\"L\":"+std::to_string(c.g.L)+",\"r2c\":"+std::to_string(c.r2c)+",\"real\":"+std::to_string((int)c.realin)+",\"tol\":"+(r2r?"900":"150");
        std::vector<long> t(c.g.L/2+1); for(size_t p=0;p<t.size();p++) t[p]=std::lround(1e6*std::cos(2*M_PI*p/c.g.L)); s+=",\"cos\":"+jarr(t)+"}"; }
    s+="],\"ops\":["; bool first=true;
    for(auto &o : ops){ s+=std::string(first?"":",")+"{\"op\":"+jstr(NAMES[o.v[0]])+",\"v\":"+jarr(o.v)+",\"ret\":"+std::to_string(o.ret)+",\"live\":"+jarr(o.live)+",\"sz\":"+std::to_string(o.sz)+",\"guards\":"+std::to_string(o.guards)+",\"inmod\":"+std::to_string(o.inmod)+",\"sizes\":"+box_json(o.sizes)+",\"runs\":["; first=false;
        for(size_t q=0;q<o.runs.size();q++){ auto &r=o.runs[q]; if (q) s+=","; s+="{\"bk\":"+std::to_string(r.back)+",\"sc\":"+std::to_string(r.sc)+",\"c\":["+std::to_string(r.c[0])+","+std::to_string(r.c[1])+","+std::to_string(r.c[2])+"],\"s\":"+std::to_string(r.s)+",\"m\":"+std::to_string(r.m)+",\"res\":"+box_json(r.res)+"}"; }
        s+="]}"; }
    return s+"]}";
}
int main(int c,char**v){ return run_cases(c,v,run_one); }

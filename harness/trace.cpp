/* Sessions of event tracing around scopes of the user and transforms.  Compiled once with tracing and once without.
   ops: init,who,file  begin,who,len  end,who  flood,who,count  run,plan,dir,seed  final,who ; who is -1 (all) or a rank */
#include "num.h"
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
struct tstep { std::vector<long> v; };
struct obs { std::string op; long t0=0,t1=0; std::string name; std::vector<std::array<std::string,3>> lines; long key=-1; };
/* an interval of the file, or a run of intervals of one flood that follow each other */
struct span { std::string n; int u; long s,d,c; };
static bool micros(std::string const &a, long &r){ char *e; double x=strtod(a.c_str(),&e)*1e6; bool good=a.size()&&!*e&&std::abs(x)<1e9&&std::abs(x-std::round(x))<1e-3; r=good?std::lround(x):-1; return good; }
static std::vector<span> spans(std::vector<std::array<std::string,3>> const &lines){ std::vector<span> v;
    for(auto &a : lines){ span x; x.n=a[0]; x.c=1; x.u=a[0].size()>1&&a[0][0]=='u'&&isdigit((unsigned char)a[0][1]); bool good=micros(a[1],x.s) & micros(a[2],x.d); if (!good) x.s=x.d=-1;
        if (good && x.d>=0 && !v.empty() && v.back().n==x.n && x.n.find("flood")!=std::string::npos && v.back().s>=0 && x.s>=v.back().s+v.back().d){ v.back().d=x.s+x.d-v.back().s; v.back().c++; } else v.push_back(x); }
    return v; }
static long tick(){ return std::lround(MPI_Wtime()*1e6); }
#ifdef Heffte_ENABLE_TRACING
/* every rank gets its own copy of the record the library keeps; should the library keep it under other names, only sessions of one rank are possible */
struct no_such_name{};
static no_such_name event_log, log_filename;
namespace heffte { namespace vf_record {
    static std::vector<decltype(event_log)> logs; static std::vector<decltype(log_filename)> files;
    static bool separate(){ return !std::is_same<decltype(event_log),no_such_name>::value && !std::is_same<decltype(log_filename),no_such_name>::value; }
    static void turn(int r){ std::swap(event_log,logs[r]); std::swap(log_filename,files[r]); }
    static void reset(int n){ logs.clear(); logs.resize(n); files.clear(); files.resize(n); }
}}
#endif
static uint64_t mix(uint64_t h,uint64_t x){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); return h; }
static std::string scope_name(long id,long len){ std::string s="u"+std::to_string(id); if (len==1) s+=" with words"; if (len==2) s+=std::string(50,'-'); return s; }
template<class Fft,class TI,class TO> std::vector<std::complex<double>> go(Fft &f,box3d<> const &ib,box3d<> const &ob,bool fwd,int seed,int batch,bool own){
    std::mt19937 rng(seed); num_out no; kase k; k.kv["ownws"]=own?"1":"0"; std::vector<item> its; for(int j=0;j<batch;j++){ item it; box3d<> w = fwd?ib:ob; for(int z=w.low[2];z<=w.high[2];z++) for(int y=w.low[1];y<=w.high[1];y++) for(int x=w.low[0];x<=w.high[0];x++){ it.at.push_back({x,y,z}); it.val.push_back({(double)(rng()%1000)/500-1,(double)(rng()%1000)/500-1}); } its.push_back(it); }
    return fwd ? shoot<Fft,TI,TO,int>(k,f,true,ib,ob,its,scale::none,no) : shoot<Fft,TO,TI,int>(k,f,false,ob,ib,its,scale::full,no); }
struct anyplan { virtual ~anyplan(){} virtual std::vector<std::complex<double>> run(bool fwd,int seed,int batch,bool own)=0; };
template<class Fft,bool real> struct plan_of : anyplan { Fft f; box3d<> ib,ob; plan_of(Fft &&x,box3d<> i,box3d<> o):f(std::move(x)),ib(i),ob(o){}
    std::vector<std::complex<double>> run(bool fwd,int seed,int batch,bool own) override { using TI=typename std::conditional<real,double,std::complex<double>>::type; return go<Fft,TI,std::complex<double>>(f,ib,ob,fwd,seed,batch,own); } };
template<class Tag> std::unique_ptr<anyplan> mk(kase const &k,box3d<> ib,box3d<> ob,MPI_Comm comm){ plan_options o=opts_of(k,default_options<Tag>()); int d=(int)k.num("r2c",-1);
    if (d>=0) return std::unique_ptr<anyplan>(new plan_of<fft3d_r2c<Tag>,true>(fft3d_r2c<Tag>(ib,ob,d,comm,o),ib,ob)); return std::unique_ptr<anyplan>(new plan_of<fft3d<Tag>,false>(fft3d<Tag>(ib,ob,comm,o),ib,ob)); }
static std::string one(kase const &k){
    auto in=k.lists("in"), out=k.lists("out"); auto ops=k.lists("ops"); auto perm=k.list("perm"); int nw=perm.empty()?(int)in.size():(int)perm.size(); std::vector<std::vector<obs>> O(nw); std::vector<uint64_t> dig(nw,0);
    char dir[]="trXXXXXX"; if (!mkdtemp(dir)) abort(); std::string base=std::string(dir)+"/";
#ifdef Heffte_ENABLE_TRACING
    heffte::vf_record::reset(nw); mock::on_resume=heffte::vf_record::turn; mock::on_suspend=heffte::vf_record::turn;
#endif
    auto pol=policy_of(k); pol.clock=(int)k.num("clock",0);
    auto res=mock::run(nw, pol, true, [&](int wr){
        MPI_Comm comm=MPI_COMM_WORLD; if (!perm.empty()) MPI_Comm_split(MPI_COMM_WORLD, perm[wr]<0?MPI_UNDEFINED:0, (int)perm[wr], &comm);
        std::unique_ptr<anyplan> p; if (comm!=MPI_COMM_NULL){ int me; MPI_Comm_rank(comm,&me); auto ib=mkbox<int>(in[me]), ob=mkbox<int>(out[me]); std::string be=k.str("be","stock"); p = be=="fftw"?mk<backend::fftw>(k,ib,ob,comm):(be=="mkl"?mk<backend::mkl>(k,ib,ob,comm):mk<backend::stock>(k,ib,ob,comm)); }
        std::vector<std::pair<long,std::unique_ptr<heffte::add_trace>>> open; long id=0;
        for(auto &v : ops){ bool mine = v[1]<0 || v[1]==wr; obs o; o.t0=tick();
            if (v[0]==3){ o.op="run"; o.key=v[1]*100+v[2]*2+v[3]%2; if (p){ auto r=p->run(v[1]==0,(int)v[2]+wr,(int)v[2]%3+1,v[3]%2); for(auto &z : r){ double a=z.real(), b=z.imag(); uint64_t x,y; memcpy(&x,&a,8); memcpy(&y,&b,8); dig[wr]=mix(mix(dig[wr],x),y); } } }
            else if (!mine) continue;
            else if (v[0]==0){ o.op="init"; o.name=base+"s"+std::to_string(v[2]); heffte::init_tracing(o.name); }
            else if (v[0]==1){ o.op="begin"; o.name=scope_name(++id,v[2]); open.emplace_back(id,std::unique_ptr<heffte::add_trace>(new heffte::add_trace(o.name))); }
            else if (v[0]==2){ o.op="end"; open.back().second.reset(); open.pop_back(); }
            else if (v[0]==5){ o.op="flood"; o.name="u"+std::to_string(++id)+"flood"; o.key=v[2]; for(long q=0;q<v[2];q++) heffte::add_trace t(o.name); }
            else if (v[0]==4){ o.op="final"; heffte::finalize_tracing(); }
            o.t1=tick(); O[wr].push_back(o);
            if (v[0]==4){ std::string cur; for(auto &q : O[wr]) if (q.op=="init") cur=q.name; std::ifstream f(cur+"_"+std::to_string(wr)+".log"); std::string l; auto &b=O[wr].back();
                if (!f.good()) b.lines.push_back({"missing","0","0"});
                while(std::getline(f,l)){ std::array<std::string,3> a; for(int q=2;q>0;q--){ size_t e=l.find_last_not_of(' '); if (e==std::string::npos) break; size_t s=l.find_last_of(' ',e); a[q]=l.substr(s==std::string::npos?0:s+1,e-(s==std::string::npos?-1:(long)s)); l=s==std::string::npos?"":l.substr(0,s); } size_t s=l.find_first_not_of(' '), e=l.find_last_not_of(' '); a[0]=s==std::string::npos?"":l.substr(s,e-s+1); b.lines.push_back(a); } } }
        while(!open.empty()) open.pop_back();
        p.reset(); if (comm!=MPI_COMM_WORLD && comm!=MPI_COMM_NULL) MPI_Comm_free(&comm);
    });
    mock::on_resume=nullptr; mock::on_suspend=nullptr;
    std::vector<std::string> names; if (DIR *d=opendir(dir)){ while(dirent *e=readdir(d)){ std::string n=e->d_name; if (n!="."&&n!=".."){ names.push_back(n); unlink((base+n).c_str()); } } closedir(d); } rmdir(dir); std::sort(names.begin(),names.end());
    uint64_t ev=0; for(auto &e : res.events){ ev=mix(ev,(uint64_t)e.rank); ev=mix(ev,e.kind); ev=mix(ev,e.comm); ev=mix(ev,e.peer+7); ev=mix(ev,e.tag+3); ev=mix(ev,e.bytes); }
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(status_of(res))+",\"what\":"+jstr(res.ok()?"":res.what())+",\"nw\":"+std::to_string(nw)+",\"events\":\""+std::to_string(ev)+"\",\"nev\":"+std::to_string(res.events.size())+",\"digest\":[";
    for(int r=0;r<nw;r++) s+=std::string(r?",":"")+"\""+std::to_string(dig[r])+"\"";
    s+="],\"files\":["; for(size_t i=0;i<names.size();i++) s+=(i?",":"")+jstr(names[i]); s+="],\"ranks\":[";
    for(int r=0;r<nw;r++){ s+=r?",[":"["; for(size_t i=0;i<O[r].size();i++){ auto &o=O[r][i]; std::string nm=o.op=="init"?o.name.substr(base.size()):o.name; s+=std::string(i?",":"")+"{\"op\":"+jstr(o.op)+",\"t0\":"+std::to_string(o.t0)+",\"t1\":"+std::to_string(o.t1)+",\"name\":"+jstr(nm)+",\"key\":"+std::to_string(o.key)+",\"lines\":[";
        auto sp=spans(o.lines); for(size_t q=0;q<sp.size();q++) s+=std::string(q?",":"")+"{\"n\":"+jstr(sp[q].n)+",\"u\":"+std::to_string(sp[q].u)+",\"c\":"+std::to_string(sp[q].c)+",\"s\":"+std::to_string(sp[q].s)+",\"d\":"+std::to_string(sp[q].d)+"}";
        s+="]}"; } s+="]"; }
    return s+"]}";
}
int main(int c,char**v){
#ifdef Heffte_ENABLE_TRACING
    if (c==2 && std::string(v[1])=="separate"){ puts(heffte::vf_record::separate()?"yes":"no"); return 0; }
#endif
    return run_cases(c,v,one); }

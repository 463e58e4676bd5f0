/* Shared pieces of the drivers: case parsing, crash-isolated execution, JSON output. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <array>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <execinfo.h>
#include "mock.h"

struct kase {
    std::map<std::string, std::string> kv; std::string id;
    bool has(std::string const &k) const { return kv.count(k)!=0; }
    std::string str(std::string const &k, std::string const &d="") const { auto i=kv.find(k); return i==kv.end()?d:i->second; }
    long num(std::string const &k, long d=0) const { auto i=kv.find(k); return i==kv.end()?d:atol(i->second.c_str()); }
    std::vector<long> list(std::string const &k) const { std::vector<long> r; std::string s=str(k); std::stringstream ss(s); std::string t; while(std::getline(ss,t,',')) if(!t.empty()) r.push_back(atol(t.c_str())); return r; }
    // groups separated by ';'
    std::vector<std::vector<long>> lists(std::string const &k) const { std::vector<std::vector<long>> r; std::stringstream s(str(k)); std::string g; while(std::getline(s,g,';')){ std::vector<long> v; std::stringstream ss(g); std::string t; while(std::getline(ss,t,',')) if(!t.empty()) v.push_back(atol(t.c_str())); r.push_back(v);} return r; }
};
inline std::vector<kase> read_cases(std::string const &file){
    std::vector<kase> r; std::ifstream f(file); std::string line;
    while(std::getline(f,line)){ if (line.empty()) continue; kase k; std::stringstream ss(line); std::string t;
        while(ss>>t){ auto e=t.find('='); if (e==std::string::npos) continue; k.kv[t.substr(0,e)]=t.substr(e+1); }
        k.id=k.str("id"); r.push_back(k); }
    return r;
}
// natural numbers for Big.tla: digits of base 10^4, least first
inline std::vector<long> digits(long x){ std::vector<long> r; if (x<0) return {-1}; for(;x;x/=10000) r.push_back(x%10000); return r; }
template<class T> inline std::string jarr(std::vector<T> const &v){ std::string s="["; for(size_t i=0;i<v.size();i++){ if(i) s+=","; s+=std::to_string(v[i]); } return s+"]"; }
/* Values written without loss as runs [first, step, number]; a run never crosses the end of a line of s0 values.
   mod > 0: values are 100000 * class + phase, and steps are those of the phase modulo mod. */
inline std::string jpack(std::vector<long> const &v, long s0, long mod=0){
    std::string s="["; size_t i=0; if (s0<1) s0=1;
    auto follows=[&](long a, long b, long *st){ if (!mod){ *st=b-a; return true; } if (a<0 || b<0 || a/100000!=b/100000) return false; *st=((b-a)%mod+mod)%mod; return true; };
    while(i<v.size()){ size_t e=std::min(v.size(), (i/s0+1)*s0), q=i+1; long st=0, t;
        if (q<e && follows(v[i],v[q],&st)){ q++; while(q<e && follows(v[q-1],v[q],&t) && t==st) q++; }
        if (i) s+=","; s+="["+std::to_string(v[i])+","+std::to_string(st)+","+std::to_string(q-i)+"]"; i=q; }
    return s+"]"; }
/* extent of the fastest direction of a box given as nine numbers */
inline long line_of(std::vector<long> const &b){ return b[3+b[6]]-b[b[6]]+1; }
inline std::string jstr(std::string const &v){ std::string s="\""; for(char c : v){ if (c=='"'||c=='\\'){ s+='\\'; s+=c; } else if ((unsigned char)c<32) s+=' '; else s+=c; } return s+"\""; }
inline mock::policy policy_of(kase const &k){ mock::policy p; p.seed=(uint64_t)k.num("sseed",1); p.send_mode=(int)k.num("smode",2); p.deliver=(int)k.num("deliver",2); p.sched=(int)k.num("sched",1); p.waitany=(int)k.num("waitany",2); return p; }

/* The MPI events of a run: [rank, kind, comm, peer, tag, bytes, id, id2, name, members] */
inline std::string jevents(mock::result const &r){
    std::string s="["; bool first=true;
    for(auto &e : r.events){ if (!first) s+=","; first=false;
        s+="{\"r\":"+std::to_string(e.rank)+",\"k\":"+std::to_string(e.kind)+",\"c\":"+std::to_string(e.comm)+",\"p\":"+std::to_string(e.peer)+",\"t\":"+std::to_string(e.tag)+",\"b\":"+std::to_string(e.bytes)+",\"i\":"+std::to_string(e.id)+",\"j\":"+std::to_string(e.id2)+",\"n\":"+jstr(e.name)+",\"m\":"+jarr(e.members)+"}"; }
    return s+"]"; }
inline std::string status_of(mock::result const &res){
    bool ex=false; for(auto &e : res.exceptions) if (!e.empty()) ex=true;
    std::string st = res.deadlock?"deadlock":(ex?"exception":(res.errors.size()?"mpi-misuse":(res.ok()?"ok":"leak")));
    if (st=="exception" && res.what().find("Cannot split")!=std::string::npos) st="nosplit";
    return st; }
inline std::string box_json(std::vector<std::vector<long>> const &b){ std::string s="["; for(size_t i=0;i<b.size();i++){ if(i) s+=","; s+=jarr(b[i]); } return s+"]"; }
#ifdef VF_COV
extern "C" void __gcov_dump(void);
#else
inline void __gcov_dump(){}
#endif
inline unsigned& guard_seq(){ static unsigned n=0; return n; }
/* Runs every case in forked workers; a crash or hang costs only the case that caused it.
   fn returns the JSON line of the case. Lines go to out.<worker>, concatenated by the caller. */
inline int run_cases(int argc, char **argv, std::function<std::string(kase const&)> fn){
    if (argc<3){ fprintf(stderr,"usage: %s cases out [workers] [timeout]\n", argv[0]); return 2; }
    std::vector<kase> cases=read_cases(argv[1]); int nw = argc>3?atoi(argv[3]):8; int tmo = argc>4?atoi(argv[4]):30;
    std::vector<pid_t> pids;
    for(int w=0; w<nw; w++){
        pid_t p=fork();
        if (p==0){
            std::string of=std::string(argv[2])+"."+std::to_string(w);
            { std::ofstream o(of, std::ios::trunc); }
            volatile long *cur=(volatile long*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
            size_t next=w; int restarts=0, hangs=0;
            while(next<cases.size()){
                fflush(stdout);
                pid_t c=fork();
                if (c==0){
                    int dn=open_memstream?0:0; (void)dn;
                    FILE *e=freopen((of+".err").c_str(),"a",stderr); (void)e;
                    std::ofstream o(of, std::ios::app);
                    for(size_t i=next;i<cases.size();i+=nw){ cur[0]=(long)i; cur[1]=0; alarm(tmo); { unsigned h=7; for(char c : cases[i].id) h=h*31u+(unsigned char)c; guard_seq()=h; } std::string s=fn(cases[i]); o<<s<<"\n"; o.flush(); cur[1]=1; }
                    o.close(); __gcov_dump(); _exit(0);
                }
                int st=0; waitpid(c,&st,0);
                if (WIFEXITED(st) && WEXITSTATUS(st)==0) break;
                long i=cur[0]; int sig=WIFSIGNALED(st)?WTERMSIG(st):0;
                if (cur[1]==0){
                    std::ofstream o(of, std::ios::app);
                    std::string why = sig==SIGALRM?"hang":(sig==SIGABRT?"abort":(sig==SIGSEGV||sig==SIGBUS?"segv":(sig==SIGFPE?"fpe":"exit"+std::to_string(WIFEXITED(st)?WEXITSTATUS(st):-sig))));
                    o<<"{\"id\":"<<jstr(cases[i].id)<<",\"status\":\""<<why<<"\"}\n";
                }
                next=(size_t)i+nw; if (++restarts>20000) break;
                if (sig==SIGALRM && ++hangs==2){ std::ofstream o(of, std::ios::app); for(;next<cases.size();next+=nw) o<<"{\"id\":"<<jstr(cases[next].id)<<",\"status\":\"skipped\"}\n"; }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    int bad=0; for(pid_t p : pids){ int st; waitpid(p,&st,0); if (!WIFEXITED(st)||WEXITSTATUS(st)!=0) bad=1; }
    return bad;
}

/* A buffer with guard zones. Every other buffer of a case starts where only the scalar type is aligned (8 bytes for complex double). */
template<class T> struct guarded {
    std::vector<T> v; size_t n; T mark; T *p; static constexpr size_t G=24;
    guarded(size_t size, T fill) : v(size+2*G+1, fill), n(size), mark(fill) {
        bool const shift = ((guard_seq()++ * 2654435761u) >> 16) & 1u;
        p = reinterpret_cast<T*>(reinterpret_cast<char*>(v.data()) + (shift ? alignof(T) : 0));
        if (shift && sizeof(T)>alignof(T)) for(size_t i=0;i<size+2*G;i++) memcpy((void*)(p+i), (void const*)&mark, sizeof(T));
    }
    guarded(guarded const&) = delete;
    T* data(){ return p+G; }
    T& operator[](size_t i){ return p[G+i]; }
    bool intact() const { for(size_t i=0;i<G;i++) if (memcmp((void const*)(p+i),(void const*)&mark,sizeof(T))||memcmp((void const*)(p+G+n+i),(void const*)&mark,sizeof(T))) return false; return true; }
};
#endif

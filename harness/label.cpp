/* Runs fft3d / fft3d_r2c over symbolic data and writes what every executor saw and every rank received. */
#include "sym.h"
#include "calls.h"
using namespace heffte;
template<class I> box3d<I> mkbox(std::vector<long> const &g){ return box3d<I>({(I)g[0],(I)g[1],(I)g[2]},{(I)g[3],(I)g[4],(I)g[5]},{(int)g[6],(int)g[7],(int)g[8]}); }
plan_options opts_of(kase const &k, plan_options o){
    if (k.has("reorder")) o.use_reorder=k.num("reorder"); if (k.has("alg")) o.algorithm=static_cast<reshape_algorithm>(k.num("alg"));
    if (k.has("pencils")) o.use_pencils=k.num("pencils"); if (k.has("gpu")) o.use_gpu_aware=k.num("gpu");
    if (k.has("sub")) o.use_num_subranks((int)k.num("sub")); return o; }
template<class T> T lab(long id, int mask);
template<> float lab<float>(long id, int){ return (float)id; }
template<> double lab<double>(long id, int){ return (double)id; }
template<> std::complex<float> lab(long id, int m){ return {(float)id,(float)m}; }
template<> std::complex<double> lab(long id, int m){ return {(double)id,(double)m}; }
template<class T> T mark(double v);
template<> float mark<float>(double v){ return (float)v; }
template<> double mark<double>(double v){ return v; }
template<> std::complex<float> mark(double v){ return {(float)v,(float)v}; }
template<> std::complex<double> mark(double v){ return {v,v}; }

struct outcome { std::vector<std::vector<std::vector<long>>> fin; long guards=0, inmod=0, sizes=0; std::vector<long> ws; };

// fill a buffer with the labels of a box, address = order of the box
template<class T, class I> void fill(T *x, box3d<I> const &b, int batch, int mask){
    auto &l=sym_log::get(); if (b.empty()) return; long a=0;
    for(int j=0;j<batch;j++) { I p[3];
        for(p[b.order[2]]=b.low[b.order[2]]; p[b.order[2]]<=b.high[b.order[2]]; p[b.order[2]]++)
        for(p[b.order[1]]=b.low[b.order[1]]; p[b.order[1]]<=b.high[b.order[1]]; p[b.order[1]]++)
        for(p[b.order[0]]=b.low[b.order[0]]; p[b.order[0]]<=b.high[b.order[0]]; p[b.order[0]]++)
            x[a++]=lab<T>(j*l.B + p[0]+l.n0*(p[1]+l.n1*(long)p[2]), mask); }
}
template<class Fft, class TI, class TO, class I> void transform(kase const &k, Fft &f, bool fwd, box3d<I> const &src, box3d<I> const &dst, int batch, int me, outcome &o, int phase){
    using W = typename std::conditional<std::is_floating_point<TI>::value, TO, TI>::type; // complex side
    long ni=src.count()*batch, no=dst.count()*batch; bool inplace=k.num("inplace") && std::is_same<TI,TO>::value;
    long pad = k.num("pad",0);   // user buffers may be larger than needed
    guarded<TI> in((size_t)(inplace?std::max(ni,no):ni)+pad, mark<TI>(-31)); guarded<TO> out(inplace?0:(size_t)no+pad, mark<TO>(-32));
    guarded<W> ws(k.num("ownws",1) ? f.size_workspace()*batch : 0, mark<W>(-33));
    fill(in.data(), src, batch, fwd?0:7);
    std::vector<TI> before(in.data(), in.data()+ni);
    TO *po = inplace ? reinterpret_cast<TO*>(in.data()) : out.data();
    TI const *pi=in.data();
    bool own=k.num("ownws",1), one=k.num("one",1);
    run_dir(f, fwd, batch, own, one, pi, po, ws.data());
    if (!in.intact()) o.guards|=1; if (!out.intact()) o.guards|=2; if (!ws.intact()) o.guards|=4;
    if (!inplace){ for(long i=0;i<ni;i++) if (memcmp(&before[i],&in[i],sizeof(TI))) o.inmod|=1; for(long i=no;i<no+pad;i++){ TO m=mark<TO>(-32); if (memcmp(&m,&out[i],sizeof(TO))) o.guards|=8; } for(long i=ni;i<ni+pad;i++){ TI m=mark<TI>(-31); if (memcmp(&m,&in[i],sizeof(TI))) o.guards|=8; } }
    std::vector<long> r(no); for(long i=0;i<no;i++) r[i]=enc(po[i]);
    o.fin[phase][me]=r;
}
// Fft built by mk; real input when rin
template<class Fft, class R, bool rin, class I> void drive(kase const &k, Fft &f, box3d<I> const &ib, box3d<I> const &ob, int me, outcome &o, MPI_Comm comm){
    using C=std::complex<R>; using TI=typename std::conditional<rin,R,C>::type; int batch=(int)k.num("batch",1);
    if (f.size_inbox()!=ib.count() || f.size_outbox()!=ob.count() || f.inbox()!=ib || f.outbox()!=ob) o.sizes|=1;
    o.ws[me]=(long)f.size_workspace();
    std::string seq=k.str("seq","fb");
    for(size_t p=0;p<seq.size();p++){
        MPI_Barrier(comm); sym_log::get().phase=(int)p;      // phases are separated so that events carry the right phase
        if (seq[p]=='f') transform<Fft,TI,C,I>(k,f,true,ib,ob,batch,me,o,(int)p); else transform<Fft,C,TI,I>(k,f,false,ob,ib,batch,me,o,(int)p);
        MPI_Barrier(comm);
    }
}
template<class Tag, class I, class R> void rank_main(kase const &k, int wr, std::vector<std::vector<long>> const &in, std::vector<std::vector<long>> const &out, outcome &o){
    MPI_Comm comm=MPI_COMM_WORLD; bool own=false; int n=(int)in.size();
    auto perm=k.list("perm");   // perm[w] = rank in the communicator of world rank w, -1 when outside
    if (!perm.empty()){ MPI_Comm_split(MPI_COMM_WORLD, perm[wr]<0?MPI_UNDEFINED:0, (int)perm[wr], &comm); own=true; if (comm==MPI_COMM_NULL) return; }
    int me; MPI_Comm_rank(comm,&me); (void)n;
    box3d<I> ib=mkbox<I>(in[me]), ob=mkbox<I>(out[me]); int r2c=(int)k.num("r2c",-1);
    plan_options op=opts_of(k, default_options<Tag>());
    auto part=k.list("part"); MPI_Comm sub=MPI_COMM_NULL;   // part: ranks that make up the communicator of use_subcomm
    if (!part.empty()){ bool in_it=false; for(long q : part) if (q==me) in_it=true; MPI_Comm_split(comm, in_it?0:MPI_UNDEFINED, me, &sub); op.use_subcomm(sub); }
    if (r2c>=0){ fft3d_r2c<Tag,I> f(ib,ob,r2c,comm,op); drive<fft3d_r2c<Tag,I>,R,true,I>(k,f,ib,ob,me,o,comm); }
    else if (k.num("rin")){ fft3d<Tag,I> f(ib,ob,comm,op); drive<fft3d<Tag,I>,R,true,I>(k,f,ib,ob,me,o,comm); }
    else { fft3d<Tag,I> f(ib,ob,comm,op); drive<fft3d<Tag,I>,R,false,I>(k,f,ib,ob,me,o,comm); }
    if (sub!=MPI_COMM_NULL) MPI_Comm_free(&sub);
    if (own) MPI_Comm_free(&comm);
}
std::string one(kase const &k){
    auto in=k.lists("in"), out=k.lists("out"); auto &l=sym_log::get(); l.ev.clear(); l.phase=0; l.bad_ws=false; l.ws=k.num("exws");
    l.n0=l.n1=l.n2=0; for(auto &g : in){ l.n0=std::max(l.n0,g[3]+1); l.n1=std::max(l.n1,g[4]+1); l.n2=std::max(l.n2,g[5]+1); } l.B=l.n0*l.n1*l.n2;
    int n=(int)in.size(); std::string seq=k.str("seq","fb"); outcome o; o.fin.assign(seq.size(), std::vector<std::vector<long>>(n)); o.ws.assign(n,-1);
    auto perm=k.list("perm"); int nw = perm.empty()?n:(int)perm.size();
    bool ll=k.num("ll"), fl=k.num("float"); int tag=(int)k.num("tag",3);
    auto res=mock::run(nw, policy_of(k), k.num("rec"), [&](int wr){
        if (tag==1){ if (ll){ if (fl) rank_main<backend::sym1,long long,float>(k,wr,in,out,o); else rank_main<backend::sym1,long long,double>(k,wr,in,out,o);} else { if (fl) rank_main<backend::sym1,int,float>(k,wr,in,out,o); else rank_main<backend::sym1,int,double>(k,wr,in,out,o);} }
        else { if (ll){ if (fl) rank_main<backend::sym3,long long,float>(k,wr,in,out,o); else rank_main<backend::sym3,long long,double>(k,wr,in,out,o);} else { if (fl) rank_main<backend::sym3,int,float>(k,wr,in,out,o); else rank_main<backend::sym3,int,double>(k,wr,in,out,o);} }
    });
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":";     std::string st=status_of(res);
    s+=jstr(st)+",\"sub\":"+std::to_string(k.num("sub",-1))+",\"part\":"+jarr(k.list("part"))+",\"what\":"+jstr(res.ok()?"":res.what());
    s+=",\"n\":["+std::to_string(l.n0)+","+std::to_string(l.n1)+","+std::to_string(l.n2)+"],\"r2c\":"+std::to_string(k.num("r2c",-1))+",\"batch\":"+std::to_string(k.num("batch",1))+",\"seq\":[";
    for(size_t i=0;i<seq.size();i++){ if(i) s+=","; s+=seq[i]=='f'?"0":"1"; }
    s+="],\"in\":"+box_json(in)+",\"out\":"+box_json(out)+",\"guards\":"+std::to_string(o.guards)+",\"inmod\":"+std::to_string(o.inmod)+",\"sizes\":"+std::to_string(o.sizes)+",\"badws\":"+std::to_string((int)l.bad_ws);
    bool pk=k.num("pk"); if (pk) s+=",\"pk\":1";
    // lines of the data handed to an engine (the reduced box when a backward real transform is entered)
    auto fast=[&](sym_event const &e){ std::vector<long> b(e.box.begin(),e.box.end()); long x=line_of(b); return (e.kind==2 && e.back && e.dims[0]==b[6]) ? x/2+1 : x; };
    s+=",\"ex\":["; 
    std::vector<int> w2c(nw); for(int i=0;i<nw;i++) w2c[i]=perm.empty()?i:(int)perm[i];
    for(size_t i=0;i<l.ev.size();i++){ auto &e=l.ev[i]; if(i) s+=","; std::vector<long> b(e.box.begin(),e.box.end()); s+="{\"r\":"+std::to_string(w2c[e.rank]+1)+",\"p\":"+std::to_string(e.phase+1)+",\"bk\":"+std::to_string(e.back)+",\"k\":"+std::to_string(e.kind)+",\"b\":"+jarr(b)+",\"d\":"+jarr(e.dims)+",\"v\":"+(pk?jpack(e.v, fast(e)):jarr(e.v))+"}"; }
    s+="],\"fin\":["; for(size_t p=0;p<o.fin.size();p++){ if(p) s+=","; s+="["; for(int r=0;r<n;r++){ if(r) s+=","; s+=pk?jpack(o.fin[p][r], line_of(seq[p]=='f'?out[r]:in[r])):jarr(o.fin[p][r]); } s+="]"; }
    s+="]"; if (k.num("rec")) s+=",\"np\":"+std::to_string(nw)+",\"ev\":"+jevents(res);
    return s+"}";
}
int main(int c, char **v){ return run_cases(c,v,one); }

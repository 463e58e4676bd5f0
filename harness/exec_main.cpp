#include "exec.h"
/* Rader's algorithm is only chosen for primes beyond a hundred thousand; here the node is made by hand, with packs of L numbers */
template<class F,int L> void rader(kase const &k, ex_geo const &g, ex_out &o){
    long p=g.n[0]; std::vector<stock::biFuncNode<F,L>> v(1+stock::getNumNodes(p-1)); size_t a=stock::primeRoot(p); v[0]=stock::biFuncNode<F,L>(p,a,stock::modPow(a,p-2,p)); stock::init_fft_tree(v.data()+1,p-1); v[0].left=1; v[0].right=v.size();
    int lanes=(int)g.n[1];
    for(auto &r : o.runs){ stock::complex_vector<F,L> x(p), y(p); long q[3]={0,0,0}, c[3], s;
        for(long i=0;i<p;i++){ std::complex<F> z[L]; for(int j=0;j<L;j++) z[j]=std::complex<F>(0); for(int j=0;j<lanes;j++){ q[0]=i; q[1]=j; impulse(g,r,q,c,&s); if (c[0]==i){ auto w=std::polar(1.0,2*M_PI*s/g.L); z[j]=std::complex<F>((F)w.real(),(F)w.imag()); } } x[i]=stock::Complex<F,L>(z); }
        v[0].fptr(x.data(),y.data(),1,1,v.data(),r.bk?direction::backward:direction::forward);
        r.res.resize(p*lanes); geo gg; gg.L=g.L; gg.tol=g.tol; double e=0; for(int j=0;j<lanes;j++) for(long i=0;i<p;i++) r.res[j*p+i]=decode_c(y[i][j],gg,0,1e30,&e); } }
/* the call graphs of a list of lengths */
static std::string trees(kase const &k){
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":\"ok\",\"trees\":[", sep;
    for(long n : k.list("ns")){ size_t num=stock::getNumNodes(n); std::vector<stock::biFuncNode<double,1>> v(num+64); size_t used=stock::init_fft_tree(v.data(),n);
        s+=sep+"{\"n\":"+std::to_string(n)+",\"num\":"+std::to_string(num)+",\"used\":"+std::to_string(used)+",\"nodes\":["; sep=",";
        for(size_t i=0;i<used;i++) s+=std::string(i?",":"")+"["+std::to_string(v[i].sz)+","+std::to_string(v[i].left)+","+std::to_string(v[i].right)+"]"; s+="]}"; }
    return s+"]}"; }
static std::string run_one(kase const &k){
    if (k.str("be","")=="tree") return trees(k);
    ex_geo g; auto b=k.list("box"); g.r2c=(int)k.num("r2c",-1); for(int i=0;i<3;i++){ g.low[i]=b[i]; g.n[i]=g.no[i]=b[3+i]-b[i]+1; g.t[i]=false; }
    for(long d : k.list("dirs")) g.t[d]=true; if (g.r2c>=0){ g.t[g.r2c]=true; g.no[g.r2c]=g.n[g.r2c]/2+1; }
    g.L=4; for(int i=0;i<3;i++) if (g.t[i]) g.L=g.L/gcdl(g.L,g.n[i])*g.n[i];
    bool fl=k.num("float"), ll=k.num("ll"); g.tol=fl?k.num("tolf",100)*1e-6:k.num("told",100)*1e-13; ex_out o;
    for(auto &v : k.lists("runs")){ ex_run r; r.bk=(int)v[0]; r.real=(int)v[1]; for(int i=0;i<3;i++) r.c[i]=v[2+i]; r.s=v[5]; r.a=v[6]; r.b=v[7]; o.runs.push_back(r); }
    std::string be=k.str("be","stock"), st="ok", what; 
    try { if (be=="rader"){ int L=(int)k.num("pack",1);
#if defined(Heffte_ENABLE_AVX512)
            if (fl) rader<float,16>(k,g,o); else rader<double,8>(k,g,o);
#elif defined(Heffte_ENABLE_AVX)
            if (fl){ if (L==1) rader<float,1>(k,g,o); else if (L==4) rader<float,4>(k,g,o); else rader<float,8>(k,g,o); } else { if (L==1) rader<double,1>(k,g,o); else if (L==2) rader<double,2>(k,g,o); else rader<double,4>(k,g,o); }
#else
            if (fl) rader<float,1>(k,g,o); else rader<double,1>(k,g,o);
#endif
          } else (be=="fftw"?ex_fftw(ll,fl):(be=="mkl"?ex_mkl(ll,fl):ex_stock(ll,fl)))(k,g,o); }
    catch(std::exception &e){ st="exception"; what=e.what(); }
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(st)+",\"what\":"+jstr(what)+",\"box\":"+jarr(b)+",\"L\":"+std::to_string(g.L)+",\"r2c\":"+std::to_string(g.r2c)+",\"t\":["+std::to_string((int)g.t[0])+","+std::to_string((int)g.t[1])+","+std::to_string((int)g.t[2])+"],\"guards\":"+std::to_string(o.guards)+",\"inmod\":"+std::to_string(o.inmod)+",\"sizes\":"+std::to_string(o.sizes)+",\"lin\":"+std::to_string(o.lin);
    bool rb=false; for(auto &r : o.runs) if (r.real && r.bk) rb=true;
    bool lp=k.num("lp"); if (lp) s+=",\"lp\":1"; std::vector<long> t; if (rb && !lp){ t.resize(g.L/2+1); for(size_t p=0;p<t.size();p++) t[p]=std::lround(1e6*std::cos(2*M_PI*p/g.L)); }
    s+=",\"tol\":"+std::to_string((long)(g.tol*1e6*2)+3)+",\"cos\":"+jarr(t)+",\"runs\":[";
    for(size_t q=0;q<o.runs.size();q++){ auto &r=o.runs[q]; if (q) s+=","; s+="{\"bk\":"+std::to_string(r.bk)+",\"real\":"+std::to_string(r.real)+",\"c\":["+std::to_string(r.c[0])+","+std::to_string(r.c[1])+","+std::to_string(r.c[2])+"],\"s\":"+std::to_string(r.s)+",\"a\":"+std::to_string(r.a)+",\"b\":"+std::to_string(r.b)+",\"res\":"; if (!lp) s+=jarr(r.res); else { s+="["; for(size_t i=0;i+4<r.res.size();i+=5) s+=(i?",":"")+jarr(std::vector<long>(r.res.begin()+i,r.res.begin()+i+5)); s+="]"; } s+="}"; }
    return s+"]}";
}
int main(int c,char**v){ return run_cases(c,v,run_one); }

/* Requests for a plan, sound or not: what every rank is told. be=plan asks the planner alone (no buffers, any extent). */
#include "hist.h"
using std::to_string;
template<class I> void plan_only(kase const &k, hcfg const &c, int me){
    auto mk=[](std::vector<long> const &g){ return box3d<I>({(I)g[0],(I)g[1],(I)g[2]},{(I)g[3],(I)g[4],(I)g[5]},{(int)g[6],(int)g[7],(int)g[8]}); };
    ioboxes<I> io; for(auto &b : c.in) io.in.push_back(mk(b)); for(auto &b : c.out) io.out.push_back(mk(b));
    plan_options o=opts_of(k, default_options<backend::stock>()); (void)plan_operations(io,c.r2c,o,me); }
static std::string run_one(kase const &k){
    hcfg c; c.k=k; c.in=k.lists("in"); c.out=k.lists("out"); c.kind=k.str("kind","fft"); c.be=k.str("be","stock"); c.r2c=(int)k.num("r2c",-1); int n=(int)c.in.size(); std::vector<std::string> told(n,"none");
    auto res=mock::run(n, policy_of(k), false, [&](int me){
        try{ if (c.be=="plan"){ if (k.num("ll")) plan_only<long long>(k,c,me); else plan_only<int>(k,c,me); }
             else { auto p = c.be=="fftw"?hist_fftw(c,me,MPI_COMM_WORLD):(c.be=="mkl"?hist_mkl(c,me,MPI_COMM_WORLD):hist_stock(c,me,MPI_COMM_WORLD)); }
             told[me]="accepted";
        }catch(std::invalid_argument &){ told[me]="invalid"; }catch(std::exception &e){ told[me]=std::string(e.what()).find("Cannot split")!=std::string::npos?"nosplit":"exception"; } });
    std::string s="{\"id\":"+jstr(k.id)+",\"status\":"+jstr(status_of(res))+",\"told\":["; for(int i=0;i<n;i++) s+=(i?",":"")+jstr(told[i]); return s+"]}";
}
int main(int c,char**v){ return run_cases(c,v,run_one); }

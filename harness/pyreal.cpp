/* Part of the library that Python calls: runs a world whose ranks execute `body`. */
#include "common.h"
#include "mock.h"
extern "C" int vf_world(int n, long const *p, void (*body)(int), char *what, int len){
    mock::policy pol; pol.seed=(uint64_t)p[0]; pol.send_mode=(int)p[1]; pol.deliver=(int)p[2]; pol.sched=(int)p[3]; pol.waitany=(int)p[4];
    auto res=mock::run(n,pol,false,[&](int r){ body(r); });
    std::string s=status_of(res)+"|"+(res.ok()?"":res.what()); snprintf(what,len,"%s",s.c_str()); return res.ok()?0:1; }
extern "C" void *vf_world_comm(){ return MPI_COMM_WORLD; }
extern "C" void *vf_comm_split(int color,int key){ MPI_Comm c=MPI_COMM_NULL; MPI_Comm_split(MPI_COMM_WORLD,color<0?MPI_UNDEFINED:color,key,&c); return c; }
extern "C" void vf_comm_free(void *c){ MPI_Comm m=(MPI_Comm)c; if (m) MPI_Comm_free(&m); }
extern "C" int vf_comm_rank(void *c){ int r; MPI_Comm_rank((MPI_Comm)c,&r); return r; }
extern "C" int vf_comm_size(void *c){ int r; MPI_Comm_size((MPI_Comm)c,&r); return r; }

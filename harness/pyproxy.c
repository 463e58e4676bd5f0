/* The library as Python loads it: every call of a rank's thread is carried out by that rank's coroutine, so that the
   schedule is the one the policy gives, whatever the threads of the interpreter do. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "heffte_c.h"
#define MAXR 64
static void *real;   /* global: the engines load further libraries that refer to it */
static void *sym(char const *n){ void *f=dlsym(real,n); if (!f){ fprintf(stderr,"no symbol %s\n",n); abort(); } return f; }
static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv=PTHREAD_COND_INITIALIZER;
static __thread int me=-1; static int dead, nr;
static struct { void (*fn)(void*); void *arg; int state; } slot[MAXR];      /* state: 0 idle, 1 asked, 2 the thread has finished */
void vf_load(char const *path){ real=dlopen(path,RTLD_NOW|RTLD_GLOBAL); if (!real){ fprintf(stderr,"%s\n",dlerror()); abort(); } }
static void post(void (*fn)(void*),void *arg){ pthread_mutex_lock(&mu); if (!dead && me>=0){ slot[me].fn=fn; slot[me].arg=arg; slot[me].state=1; pthread_cond_broadcast(&cv); while(slot[me].state==1 && !dead) pthread_cond_wait(&cv,&mu); } pthread_mutex_unlock(&mu); }
static void body(int r){ for(;;){ pthread_mutex_lock(&mu); while(slot[r].state==0) pthread_cond_wait(&cv,&mu); int s=slot[r].state; pthread_mutex_unlock(&mu); if (s==2) return; slot[r].fn(slot[r].arg); pthread_mutex_lock(&mu); slot[r].state=0; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); } }
void vf_prepare(int n){ nr=n; dead=0; memset(slot,0,sizeof slot); }
int vf_run(long const *pol, char *what, int len){ int (*w)(int,long const*,void(*)(int),char*,int)=sym("vf_world"); int s=w(nr,pol,body,what,len); pthread_mutex_lock(&mu); dead=1; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); return s; }
void vf_enter(int r){ me=r; }
void vf_leave(void){ pthread_mutex_lock(&mu); slot[me].state=2; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); me=-1; }
int vf_dead(void){ return dead; }
int vf_rank(void){ return me; }
int vf_nranks(void){ return nr; }
void *vf_world_handle(void){ void *(*f)(void)=sym("vf_world_comm"); return f(); }
struct split { int color,key; void *c; };
static void t_split(void *v){ struct split *s=v; void *(*f)(int,int)=sym("vf_comm_split"); s->c=f(s->color,s->key); }
void *vf_split(int color,int key){ struct split s={color,key,NULL}; post(t_split,&s); return s.c; }
static void t_free(void *v){ void (*f)(void*)=sym("vf_comm_free"); f(v); }
void vf_free(void *c){ post(t_free,c); }
struct ask { void *c; int r; }; 
static void t_rank(void *v){ struct ask *a=v; int (*f)(void*)=sym("vf_comm_rank"); a->r=f(a->c); } int vf_rank_in(void *c){ struct ask a={c,-1}; post(t_rank,&a); return a.r; }
static void t_size(void *v){ struct ask *a=v; int (*f)(void*)=sym("vf_comm_size"); a->r=f(a->c); } int vf_size_in(void *c){ struct ask a={c,-1}; post(t_size,&a); return a.r; }
/* the C interface */
struct create { int be; int const *a,*b,*c,*d,*e,*f; int r2c; MPI_Comm comm; heffte_plan_options const *o; heffte_plan *p; int res; };
static void t_create(void *v){ struct create *x=v; int (*f)(int,int const*,int const*,int const*,int const*,int const*,int const*,MPI_Comm,heffte_plan_options const*,heffte_plan*)=sym("heffte_plan_create"); x->res=f(x->be,x->a,x->b,x->c,x->d,x->e,x->f,x->comm,x->o,x->p); }
static void t_create_r2c(void *v){ struct create *x=v; int (*f)(int,int const*,int const*,int const*,int const*,int const*,int const*,int,MPI_Comm,heffte_plan_options const*,heffte_plan*)=sym("heffte_plan_create_r2c"); x->res=f(x->be,x->a,x->b,x->c,x->d,x->e,x->f,x->r2c,x->comm,x->o,x->p); }
int heffte_plan_create(int be,int const a[3],int const b[3],int const *c,int const d[3],int const e[3],int const *f,MPI_Comm const comm,heffte_plan_options const *o,heffte_plan *p){ struct create x={be,a,b,c,d,e,f,-1,comm,o,p,99}; post(t_create,&x); return x.res; }
int heffte_plan_create_r2c(int be,int const a[3],int const b[3],int const *c,int const d[3],int const e[3],int const *f,int r2c,MPI_Comm const comm,heffte_plan_options const *o,heffte_plan *p){ struct create x={be,a,b,c,d,e,f,r2c,comm,o,p,99}; post(t_create_r2c,&x); return x.res; }
struct query { heffte_plan p; int res; };
#define QUERY(name,CONST) static void t_##name(void *v){ struct query *x=v; int (*f)(heffte_plan)=sym(#name); x->res=f(x->p); } int name(heffte_plan CONST p){ struct query x={p,-1}; post(t_##name,&x); return x.res; }
QUERY(heffte_plan_destroy,) QUERY(heffte_size_inbox,const) QUERY(heffte_size_outbox,const) QUERY(heffte_size_workspace,const) QUERY(heffte_get_backend,const) QUERY(heffte_is_r2c,const)
struct go { heffte_plan p; void const *in; void *out, *ws; int sc; };
#define GO(name,TI,TO) static void t_##name(void *v){ struct go *x=v; void (*f)(heffte_plan,TI const*,TO*,int)=sym(#name); f(x->p,x->in,x->out,x->sc); } void name(heffte_plan const p,TI const *in,TO *out,int sc){ struct go x={p,in,out,NULL,sc}; post(t_##name,&x); } \
  static void t_##name##_buffered(void *v){ struct go *x=v; void (*f)(heffte_plan,TI const*,TO*,void*,int)=sym(#name "_buffered"); f(x->p,x->in,x->out,x->ws,x->sc); } void name##_buffered(heffte_plan const p,TI const *in,TO *out,void *ws,int sc){ struct go x={p,in,out,ws,sc}; post(t_##name##_buffered,&x); }
GO(heffte_forward_s2c,float,void) GO(heffte_forward_c2c,void,void) GO(heffte_forward_d2z,double,void) GO(heffte_forward_z2z,void,void)
GO(heffte_backward_c2s,void,float) GO(heffte_backward_c2c,void,void) GO(heffte_backward_z2d,void,double) GO(heffte_backward_z2z,void,void)

#include "mock.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <random>
#include <algorithm>
#include <set>
#include <stdexcept>
#include <complex>
#include <cxxabi.h>

struct mock_group_h { std::vector<int> ranks; bool live; };
struct coll_op;
struct mock_comm_h {
    int id; std::vector<int> ranks; std::vector<char> freed; std::vector<long> seq;
    std::map<long, std::shared_ptr<coll_op>> ops;
    int rank_of(int w) const { for(size_t i=0;i<ranks.size();i++) if (ranks[i]==w) return (int)i; return -1; }
};
struct mock_req_h {
    int id, owner; bool is_recv, active, done, persistent, coll, freed;
    char *buf; const char *sbuf; long bytes; int peer, tag; MPI_Comm comm;
    std::vector<char> copy; bool buffered; uint64_t sum;
    mock_req_h *match; int st_source, st_tag; long st_bytes;
    bool matched, sync; MPI_Datatype type;
};
struct mock_comm_h mock_comm_world_obj, mock_comm_self_obj;
struct mock_group_h mock_group_empty_obj;

namespace __cxxabiv1 { struct __cxa_eh_globals; }
namespace {
typedef MPI_Request Req;
}
struct coll_op {
    std::string kind; long seq; int arrived=0; bool done=false; MPI_Comm comm;
    std::vector<std::function<void()>> deposit;
    struct args { bool in=false; const char* sb=nullptr; char* rb=nullptr; long scount=0, rcount=0;
        std::vector<long> sc, sd, rc, rd; MPI_Datatype st=0, rt=0; int root=0; MPI_Op op=0;
        std::vector<int> group; MPI_Comm *newcomm=nullptr; int color=0, key=0; std::vector<char> scopy; bool out=false; Req req=nullptr; };
    std::vector<args> a;
    int exited=0;
};
namespace {
using mock::policy; using mock::result;
size_t const STACK = 512*1024;
struct rank_ctx {
    ucontext_t ctx; char *stack=nullptr; bool finished=false, started=false; std::function<bool()> pred; std::string where; std::string exc; int id;
    char eh[32];
};
struct world {
    int n; policy p; std::mt19937_64 rng; std::vector<std::unique_ptr<rank_ctx>> r; ucontext_t main; int cur=-1; result res; bool record=false;
    std::function<void(int)> fn;
    std::deque<Req> sends, recvs;     // unmatched, in posting order
    std::vector<Req> transfers;       // matched sends not yet moved (the send side)
    std::vector<std::unique_ptr<mock_req_h>> all; std::vector<std::unique_ptr<mock_comm_h>> comms; std::vector<std::unique_ptr<mock_group_h>> groups;
    std::vector<long> msgs, bytes; int next_comm=2, next_req=1; long ticks=0; uint64_t calls=0;
};
world *W = nullptr;
std::vector<char*> stack_pool;

int choose(int n){ if (n<=1) return 0; W->res.choices++; return (int)(W->rng()%(uint64_t)n); }
void err(std::string const &e){ if (W && W->res.errors.size()<20) W->res.errors.push_back("rank "+std::to_string(W->cur)+": "+e); }
void evr(int rank, int kind, int comm, int peer, int tag, long bytes, int id, std::string const &name="", int id2=0, std::vector<int> const &members={}){
    if (W->record) W->res.events.push_back({rank, kind, comm, peer, tag, bytes, id, name, id2, members});
}
void ev(int kind, int comm, int peer, int tag, long bytes, int id, std::string const &name=""){ evr(W->cur, kind, comm, peer, tag, bytes, id, name); }
bool overlap(const char *a, long n, const char *b, long m){ return n>0 && m>0 && a<b+m && b<a+n; }
void save_eh(rank_ctx *r){ memcpy(r->eh, (void*)abi::__cxa_get_globals(), 16); }
void load_eh(rank_ctx *r){ memcpy((void*)abi::__cxa_get_globals(), r->eh, 16); }
void to_scheduler(){
    rank_ctx *me = W->r[W->cur].get(); save_eh(me); swapcontext(&me->ctx, &W->main); load_eh(me);
}
void block(std::string const &where, std::function<bool()> pred){
    rank_ctx *me = W->r[W->cur].get();
    // a call that could return at once still lets others run first, as a real library may
    me->pred = pred; me->where = where; to_scheduler(); me->pred = nullptr;
}
void maybe_yield(){
    if (W->p.sched == 1 && choose(4)==0) block("yield", []{return true;});
}
void trampoline(){
    world *w = W; rank_ctx *me = w->r[w->cur].get();
    try { w->fn(me->id); }
    catch(std::exception const &e){ me->exc = std::string("exception: ") + e.what(); if (me->exc.size()==11) me->exc += "?"; }
    catch(...){ me->exc = "exception: unknown"; }
    me->finished = true;
    swapcontext(&me->ctx, &w->main);
}
uint64_t hash(const char *b, long n){ uint64_t h=1469598103934665603ull; for(long i=0;i<n;i++){ h^=(unsigned char)b[i]; h*=1099511628211ull; } return h; }

void do_transfer(Req s){
    Req r = s->match;
    const char *src = s->buffered ? s->copy.data() : s->sbuf;
    if (!s->buffered && hash(src, s->bytes) != s->sum) err("send buffer of message "+std::to_string(s->owner)+"->"+std::to_string(r->owner)+" changed before the send completed");
    long n = s->bytes;
    if (n > r->bytes){ err("message truncated: "+std::to_string(s->owner)+"->"+std::to_string(r->owner)+" sent "+std::to_string(s->bytes)+" bytes, room for "+std::to_string(r->bytes)); n = r->bytes; }
    for(long i=0;i<r->bytes;i++) if (r->buf[i]!=(char)0xff){ err("receive buffer of message "+std::to_string(s->owner)+"->"+std::to_string(r->owner)+" was written while the receive was pending"); break; }
    if (n>0) memcpy(r->buf, src, n);
    r->done = true; s->done = true; r->st_source = s->comm->rank_of(s->owner); r->st_tag = s->tag; r->st_bytes = n;
    evr(r->owner, mock::EV_DELIVER, s->comm->id, s->owner, s->tag, s->bytes, s->id, "", r->id);
}
void try_match(){
    // MPI order: for each receive in posting order the first fitting send in posting order
    for(size_t i=0; i<W->recvs.size();){
        Req r = W->recvs[i]; bool hit=false;
        for(size_t j=0; j<W->sends.size(); j++){
            Req s = W->sends[j];
            if (s->comm != r->comm) continue;
            if (s->comm->ranks[s->peer] != r->owner) continue;
            if (r->peer != MPI_ANY_SOURCE && r->comm->ranks[r->peer] != s->owner) continue;
            if (r->tag != MPI_ANY_TAG && r->tag != s->tag) continue;
            s->match = r; r->match = s; s->matched = r->matched = true;
            if (s->type != r->type && (s->type&0xff)!=1 && (r->type&0xff)!=1) err("type mismatch in message");
            W->sends.erase(W->sends.begin()+j); W->recvs.erase(W->recvs.begin()+i); hit=true;
            if (W->p.deliver == 0) do_transfer(s); else W->transfers.push_back(s);
            break;
        }
        if (!hit) i++;
    }
}
bool deliver_one(){
    if (W->transfers.empty()) return false;
    int k = choose((int)W->transfers.size());
    Req s = W->transfers[k]; W->transfers.erase(W->transfers.begin()+k); do_transfer(s); return true;
}
void random_delivery(){ if (W->p.deliver == 2 && !W->transfers.empty() && choose(3)==0) deliver_one(); }

Req new_req(){ W->all.emplace_back(new mock_req_h()); Req q = W->all.back().get(); memset((void*)&q->id, 0, sizeof(int)); q->id = W->next_req++; q->owner = W->cur;
    q->is_recv=q->active=q->done=q->persistent=q->coll=q->freed=q->buffered=q->matched=q->sync=false; q->buf=nullptr; q->sbuf=nullptr; q->bytes=0; q->match=nullptr; q->comm=nullptr; q->peer=q->tag=0; q->sum=0; q->st_source=q->st_tag=0; q->st_bytes=0; q->type=0; return q; }
bool comm_ok(MPI_Comm c, const char *fn){
    if (!c){ err(std::string(fn)+" on MPI_COMM_NULL"); return false; }
    int me = c->rank_of(W->cur);
    if (me<0){ err(std::string(fn)+" on a communicator this rank is not part of"); return false; }
    if (c->freed[me]){ err(std::string(fn)+" on a freed communicator"); return false; }
    return true;
}
long tsize(MPI_Datatype t){ return t & 0xff; }
void start_send(Req q){
    q->active=true; q->done=false; q->matched=false; q->match=nullptr; q->sum = hash(q->sbuf, q->bytes);
    for(auto &o : W->all) if (o.get()!=q && o->owner==q->owner && o->active && !o->done && !o->coll && o->is_recv && overlap(o->buf,o->bytes,q->sbuf,q->bytes)) err("a send from the buffer of a pending receive");
    W->res.messages++; W->res.bytes += q->bytes; W->msgs[W->cur]++; W->bytes[W->cur]+=q->bytes;
    if (q->buffered) q->copy.assign(q->sbuf, q->sbuf+q->bytes);
    W->sends.push_back(q); try_match();
}
void start_recv(Req q){
    q->active=true; q->done=false; q->matched=false; q->match=nullptr;
    for(auto &o : W->all) if (o.get()!=q && o->owner==q->owner && o->active && !o->done && !o->coll){
        if (o->is_recv && overlap(o->buf,o->bytes,q->buf,q->bytes)) err("two pending receives share memory");
        if (!o->is_recv && !o->buffered && overlap(o->sbuf,o->bytes,q->buf,q->bytes)) err("a receive was posted into the buffer of a pending send"); }
    if (q->bytes>0) memset(q->buf, 0xff, q->bytes);   // contents are undefined while the receive is pending
    W->recvs.push_back(q); try_match();
}
int post_send(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request *rq, int evk, bool sync){
    if (!comm_ok(c, "send")) { *rq=nullptr; return MPI_ERR_OTHER; }
    if (dest == MPI_PROC_NULL){ Req q=new_req(); q->done=q->active=true; *rq=q; return MPI_SUCCESS; }
    if (dest<0 || dest>=(int)c->ranks.size() || n<0){ err("invalid send arguments"); *rq=nullptr; return MPI_ERR_OTHER; }
    Req q=new_req(); q->sbuf=(const char*)b; q->bytes=n*tsize(t); q->peer=dest; q->tag=tag; q->comm=c; q->type=t; q->sync=sync;
    ev(evk, c->id, c->ranks[dest], tag, q->bytes, q->id);
    start_send(q); *rq=q; return MPI_SUCCESS;
}
int post_recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *rq){
    if (!comm_ok(c, "recv")) { *rq=nullptr; return MPI_ERR_OTHER; }
    if (src == MPI_PROC_NULL){ Req q=new_req(); q->is_recv=true; q->done=q->active=true; *rq=q; return MPI_SUCCESS; }
    if (src>=(int)c->ranks.size() || (src<0 && src!=MPI_ANY_SOURCE) || n<0){ err("invalid receive arguments"); *rq=nullptr; return MPI_ERR_OTHER; }
    Req q=new_req(); q->is_recv=true; q->buf=(char*)b; q->bytes=n*tsize(t); q->peer=src; q->tag=tag; q->comm=c; q->type=t;
    ev(mock::EV_IRECV, c->id, src<0?-1:c->ranks[src], tag, q->bytes, q->id);
    start_recv(q); *rq=q; return MPI_SUCCESS;
}
void finish(MPI_Request *rq, MPI_Status *st){
    Req q=*rq; if (st){ st->MPI_SOURCE=q->st_source; st->MPI_TAG=q->st_tag; st->MPI_ERROR=0; st->mock_bytes=q->st_bytes; }
    ev(q->is_recv ? mock::EV_RECV_DONE : mock::EV_SEND_DONE, q->comm?q->comm->id:0, q->is_recv ? (q->match?q->match->owner:-1) : (q->match?q->match->owner:(q->comm?q->comm->ranks[q->peer]:-1)), q->tag, q->bytes, q->id);
    q->active=false; if (!q->persistent){ q->freed=true; *rq=nullptr; }
}
bool req_ok(Req q, const char *fn){
    if (q->freed){ err(std::string(fn)+": request used after completion"); return false; }
    if (q->owner != W->cur){ err(std::string(fn)+": request of another rank"); return false; }
    return true;
}

// ---------------------------------------------------------------- collectives
void run_coll(coll_op &o);
std::shared_ptr<coll_op> enter(MPI_Comm c, std::string const &kind, coll_op::args &&a){
    int me = c->rank_of(W->cur); long seq = c->seq[me]++;
    auto &slot = c->ops[seq];
    if (!slot){ slot = std::make_shared<coll_op>(); slot->kind=kind; slot->seq=seq; slot->comm=c; slot->a.resize(c->ranks.size()); W->res.collectives++; }
    auto o = slot;
    if (o->kind != kind) err("collective mismatch: "+kind+" while others call "+o->kind);
    a.in = true; o->a[me] = std::move(a); o->arrived++;
    ev(mock::EV_COLL_ENTER, c->id, -1, 0, 0, (int)seq, kind);
    if (o->arrived == (int)c->ranks.size()){ run_coll(*o); o->done = true; for(auto &x : o->a) if (x.req) x.req->done=true; c->ops.erase(seq); }
    return o;
}
int coll(MPI_Comm c, std::string const &kind, coll_op::args &&a){
    if (!comm_ok(c, kind.c_str())) return MPI_ERR_OTHER;
    auto o = enter(c, kind, std::move(a));
    block(kind, [o]{ return o->done; });
    ev(mock::EV_COLL_EXIT, c->id, -1, 0, 0, (int)o->seq, kind);
    return MPI_SUCCESS;
}
template<class T> void red(MPI_Op op, T *acc, const T *x, long n){
    for(long i=0;i<n;i++) switch(op){ case MPI_SUM: acc[i]=acc[i]+x[i]; break; case MPI_PROD: acc[i]=acc[i]*x[i]; break;
        case MPI_MAX: acc[i]=std::max(acc[i],x[i]); break; case MPI_MIN: acc[i]=std::min(acc[i],x[i]); break;
        case MPI_LAND: acc[i]=(T)(acc[i]&&x[i]); break; case MPI_LOR: acc[i]=(T)(acc[i]||x[i]); break;
        case MPI_BAND: acc[i]=(T)((long long)acc[i]&(long long)x[i]); break; case MPI_BOR: acc[i]=(T)((long long)acc[i]|(long long)x[i]); break; }
}
void reduce_t(MPI_Datatype t, MPI_Op op, char *acc, const char *x, long n){
    if (t==MPI_DOUBLE) red(op,(double*)acc,(const double*)x,n); else if (t==MPI_FLOAT) red(op,(float*)acc,(const float*)x,n);
    else if (t==MPI_C_DOUBLE_COMPLEX||t==MPI_CXX_DOUBLE_COMPLEX) red(op==MPI_SUM?MPI_SUM:op,(double*)acc,(const double*)x,2*n);
    else if (t==MPI_C_COMPLEX||t==MPI_CXX_FLOAT_COMPLEX) red(op,(float*)acc,(const float*)x,2*n);
    else if (tsize(t)==4) red(op,(int*)acc,(const int*)x,n); else if (tsize(t)==8) red(op,(long long*)acc,(const long long*)x,n);
    else red(op,(signed char*)acc,(const signed char*)x,n);
}
MPI_Comm make_comm(std::vector<int> const &ranks){
    W->comms.emplace_back(new mock_comm_h()); MPI_Comm c=W->comms.back().get(); c->id=W->next_comm++; c->ranks=ranks; c->freed.assign(ranks.size(),0); c->seq.assign(ranks.size(),0);
    W->res.comms_created++; return c;
}
void run_coll(coll_op &o){
    MPI_Comm c=o.comm; int n=(int)c->ranks.size(); auto &a=o.a; std::string const &k=o.kind;
    for(auto &x : a) if (x.scopy.empty() && x.sb && x.scount>0 && x.sb!=(const char*)MPI_IN_PLACE) x.scopy.assign(x.sb, x.sb+x.scount*tsize(x.st));
    if (k=="barrier") return;
    if (k=="comm_create" || k=="comm_create_group"){
        std::map<std::vector<int>, MPI_Comm> made;
        for(int i=0;i<n;i++){
            auto const &g=a[i].group; *a[i].newcomm=nullptr;
            bool member = std::find(g.begin(), g.end(), c->ranks[i])!=g.end();
            if (!member) continue;
            for(int w : g){ int j=c->rank_of(w); if (j<0){ err("comm_create: group has a rank outside the communicator"); return; } if (a[j].group != g){ err("comm_create: members of one group passed different groups"); } }
            auto it=made.find(g); if (it==made.end()){ MPI_Comm nc=make_comm(g); it=made.emplace(g,nc).first; for(int w: g) evr(w, mock::EV_COMM_NEW, nc->id, (int)g.size(), 0,0,0,"",0,g); }
            *a[i].newcomm=it->second;
        }
        return;
    }
    if (k=="comm_split"){
        std::map<int, std::vector<std::pair<int,int>>> col;
        for(int i=0;i<n;i++) if (a[i].color!=MPI_UNDEFINED) col[a[i].color].push_back({a[i].key,i});
        for(int i=0;i<n;i++) *a[i].newcomm=nullptr;
        for(auto &kv : col){ std::stable_sort(kv.second.begin(), kv.second.end()); std::vector<int> g; for(auto &p : kv.second) g.push_back(c->ranks[p.second]);
            MPI_Comm nc=make_comm(g); for(auto &p : kv.second) *a[p.second].newcomm=nc; for(int w: g) evr(w, mock::EV_COMM_NEW, nc->id, (int)g.size(),0,0,0,"",0,g); }
        return;
    }
    if (k=="comm_dup"){ MPI_Comm nc=make_comm(c->ranks); for(int i=0;i<n;i++) *a[i].newcomm=nc; for(int w: c->ranks) evr(w, mock::EV_COMM_NEW, nc->id, n,0,0,0,"",0,c->ranks); return; }
    if (k=="bcast"){ int root=a[0].root; for(int i=0;i<n;i++){ if (a[i].root!=root) err("bcast: roots differ"); if (a[i].scount*tsize(a[i].st)!=a[root].scount*tsize(a[root].st)) err("bcast: sizes differ"); if (i!=root) memcpy(a[i].rb, a[root].scopy.data(), a[root].scopy.size()); } return; }
    if (k=="allgather"){ std::vector<std::vector<char>> blk(n); for(int j=0;j<n;j++){ if (a[j].sb==(const char*)MPI_IN_PLACE){ long b=a[j].rcount*tsize(a[j].rt); blk[j].assign(a[j].rb+j*b, a[j].rb+(j+1)*b);} else blk[j]=a[j].scopy; }
        for(int i=0;i<n;i++) for(int j=0;j<n;j++){ long b=a[i].rcount*tsize(a[i].rt); if (b!=(long)blk[j].size()){ err("allgather: sizes differ"); continue; } if (b) memcpy(a[i].rb+j*b, blk[j].data(), b); } return; }
    if (k=="allgatherv" || k=="gatherv"){ int root=a[0].root; std::vector<std::vector<char>> blk(n); for(int j=0;j<n;j++) blk[j]=a[j].scopy;
        for(int i=0;i<n;i++){ if (k=="gatherv" && i!=root) continue; for(int j=0;j<n;j++){ long b=a[i].rc[j]*tsize(a[i].rt); if (a[j].sb==(const char*)MPI_IN_PLACE && j==i) continue; if (b!=(long)blk[j].size()){ err(k+": sizes differ"); continue; } if (b) memcpy(a[i].rb+a[i].rd[j]*tsize(a[i].rt), blk[j].data(), b); } } return; }
    if (k=="gather"){ int root=a[0].root; for(int j=0;j<n;j++){ if (a[j].root!=root) err("gather: roots differ"); long b=a[root].rcount*tsize(a[root].rt); if (a[j].sb==(const char*)MPI_IN_PLACE) continue; if (b!=(long)a[j].scopy.size()){ err("gather: sizes differ"); continue; } if (b) memcpy(a[root].rb+j*b, a[j].scopy.data(), b); } return; }
    if (k=="scatter"){ int root=a[0].root; for(int j=0;j<n;j++){ long b=a[root].scount*tsize(a[root].st)/1; long per=b; if (a[j].rb==(char*)MPI_IN_PLACE) continue; memcpy(a[j].rb, a[root].sb+j*per, per); } return; }
    if (k=="alltoall"){
        for(int i=0;i<n;i++) for(int j=0;j<n;j++) if (a[i].scount*tsize(a[i].st) != a[j].rcount*tsize(a[j].rt)) { err("alltoall: block sizes differ between ranks"); return; }
        for(int i=0;i<n;i++) if (a[i].sb!=(const char*)MPI_IN_PLACE && overlap(a[i].sb, a[i].scount*tsize(a[i].st)*n, a[i].rb, a[i].rcount*tsize(a[i].rt)*n)) err("alltoall: send and receive buffers overlap");
        std::vector<std::vector<char>> full(n);
        for(int i=0;i<n;i++){ long b=a[i].scount*tsize(a[i].st); const char *src = a[i].sb==(const char*)MPI_IN_PLACE ? a[i].rb : a[i].sb; full[i].assign(src, src+b*n); }
        for(int i=0;i<n;i++){ long b=a[i].rcount*tsize(a[i].rt); for(int j=0;j<n;j++) if (b) memcpy(a[i].rb+j*b, full[j].data()+i*b, b); }
        for(int i=0;i<n;i++) for(int j=0;j<n;j++) if (i!=j){ long b=a[i].scount*tsize(a[i].st); W->bytes[c->ranks[i]]+=b; if (b) W->msgs[c->ranks[i]]++; }
        return;
    }
    if (k=="alltoallv"){
        for(int i=0;i<n;i++) for(int j=0;j<n;j++) if (a[i].sc[j]*tsize(a[i].st) != a[j].rc[i]*tsize(a[j].rt)) { err("alltoallv: counts differ, "+std::to_string(i)+"->"+std::to_string(j)+": sent "+std::to_string(a[i].sc[j])+", expected "+std::to_string(a[j].rc[i])); return; }
        for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int h=0;h<n;h++){ long z=tsize(a[i].st), y=tsize(a[i].rt);
            if (overlap(a[i].sb+a[i].sd[j]*z, a[i].sc[j]*z, a[i].rb+a[i].rd[h]*y, a[i].rc[h]*y)) err("alltoallv: send and receive buffers overlap");
            if (j<h && overlap(a[i].rb+a[i].rd[j]*y, a[i].rc[j]*y, a[i].rb+a[i].rd[h]*y, a[i].rc[h]*y)) err("alltoallv: receive blocks overlap"); }
        std::vector<std::vector<std::vector<char>>> m(n, std::vector<std::vector<char>>(n));
        for(int i=0;i<n;i++) for(int j=0;j<n;j++){ long z=tsize(a[i].st); const char *src=a[i].sb; m[i][j].assign(src+a[i].sd[j]*z, src+(a[i].sd[j]+a[i].sc[j])*z); }
        for(int i=0;i<n;i++) for(int j=0;j<n;j++) if (!m[j][i].empty()) memcpy(a[i].rb+a[i].rd[j]*tsize(a[i].rt), m[j][i].data(), m[j][i].size());
        for(int i=0;i<n;i++) for(int j=0;j<n;j++) if (i!=j && !m[i][j].empty()){ W->bytes[c->ranks[i]]+=m[i][j].size(); W->msgs[c->ranks[i]]++; }
        return;
    }
    if (k=="allreduce" || k=="reduce"){ int root=a[0].root; std::vector<char> acc; for(int i=0;i<n;i++){ std::vector<char> x = a[i].sb==(const char*)MPI_IN_PLACE ? std::vector<char>(a[i].rb, a[i].rb+a[i].scount*tsize(a[i].st)) : a[i].scopy; if (i==0) acc=x; else { if (x.size()!=acc.size()){ err(k+": sizes differ"); return; } reduce_t(a[i].st, a[i].op, acc.data(), x.data(), a[i].scount); } }
        for(int i=0;i<n;i++) if (k=="allreduce" || i==root) if (!acc.empty()) memcpy(a[i].rb, acc.data(), acc.size()); return; }
    err("unknown collective "+k);
}
std::vector<long> lv(const int *p, int n){ return std::vector<long>(p, p+n); }
}

namespace mock {
bool result::ok() const {
    if (deadlock || !errors.empty() || live_comms || live_groups || live_requests || undelivered) return false;
    for(auto &e : exceptions) if (!e.empty()) return false;
    return true;
}
std::string result::what() const {
    std::string s;
    if (deadlock){ s += "deadlock:"; for(size_t i=0;i<blocked.size();i++) s += " rank"+std::to_string(i)+"="+blocked[i]; s += "; "; }
    for(auto &e : errors) s += e + "; ";
    for(size_t i=0;i<exceptions.size();i++) if (!exceptions[i].empty()) s += "rank "+std::to_string(i)+" "+exceptions[i]+"; ";
    if (live_comms) s += std::to_string(live_comms)+" communicator handles not freed; ";
    if (live_groups) s += std::to_string(live_groups)+" groups not freed; ";
    if (live_requests) s += std::to_string(live_requests)+" requests not completed; ";
    if (undelivered) s += std::to_string(undelivered)+" messages never received; ";
    return s;
}
int world_rank(){ return W ? W->cur : 0; }
void user_event(std::string const &name, int a, int b, int c){ if (W) ev(EV_USER, a, b, c, 0, 0, name); }
void report_error(std::string const &e){ err(e); }
void yield(){ block("yield", []{return true;}); }
long live_comms_of(int w){ long n=0; for(auto &c : W->comms){ int k=c->rank_of(w); if (k>=0 && !c->freed[k]) n++; } return n; }
long messages_sent_by(int w){ return W->msgs[w]; }
long bytes_sent_by(int w){ return W->bytes[w]; }
void reset_counters(){ std::fill(W->msgs.begin(),W->msgs.end(),0); std::fill(W->bytes.begin(),W->bytes.end(),0); }

void (*on_resume)(int)=nullptr; void (*on_suspend)(int)=nullptr;
result run(int n, policy const &p, bool record, std::function<void(int)> const &fn){
    world *prev = W; world w; W=&w; w.n=n; w.p=p; w.rng.seed(p.seed*0x9E3779B97F4A7C15ull + 12345); w.record=record; w.fn=fn; w.msgs.assign(n,0); w.bytes.assign(n,0);
    auto &cw=mock_comm_world_obj; cw.id=1; cw.ranks.clear(); for(int i=0;i<n;i++) cw.ranks.push_back(i); cw.freed.assign(n,0); cw.seq.assign(n,0); cw.ops.clear();
    auto &cs=mock_comm_self_obj; cs.id=0;
    char eh0[16]; memcpy(eh0, (void*)abi::__cxa_get_globals(), 16);
    for(int i=0;i<n;i++){
        w.r.emplace_back(new rank_ctx()); rank_ctx *r=w.r.back().get(); r->id=i; memset(r->eh,0,sizeof r->eh);
        if (!stack_pool.empty()){ r->stack=stack_pool.back(); stack_pool.pop_back(); }
        else { r->stack=(char*)mmap(nullptr, STACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); if (r->stack==(char*)MAP_FAILED){ perror("mmap"); abort(); } }
        getcontext(&r->ctx); r->ctx.uc_stack.ss_sp=r->stack; r->ctx.uc_stack.ss_size=STACK; r->ctx.uc_link=nullptr;
        makecontext(&r->ctx, (void(*)())trampoline, 0);
    }
    for(;;){
        std::vector<int> ready; bool alive=false;
        for(int i=0;i<n;i++){ rank_ctx *r=w.r[i].get(); if (r->finished) continue; alive=true; if (!r->pred || r->pred()) ready.push_back(i); }
        if (!alive) break;
        if (p.deliver==2 && !w.transfers.empty() && choose(3)==0){ deliver_one(); continue; }
        if (ready.empty()){ if (deliver_one()) continue; w.res.deadlock=true; for(int i=0;i<n;i++) w.res.blocked.push_back(w.r[i]->finished ? "finished" : w.r[i]->where); break; }
        int pick = p.sched==0 ? ready.front() : (p.sched==2 ? ready.back() : ready[choose((int)ready.size())]);
        // "lowest/highest first" must not starve a rank that only yields: rotate after a yield
        if (p.sched!=1 && ready.size()>1 && w.cur==pick && w.r[pick]->where=="yield"){ size_t k=std::find(ready.begin(),ready.end(),pick)-ready.begin(); pick=ready[(k+1)%ready.size()]; }
        w.cur=pick; w.res.switches++;
        rank_ctx *r=w.r[pick].get(); load_eh(r); if (on_resume) on_resume(pick); swapcontext(&w.main, &r->ctx); if (on_suspend) on_suspend(pick);
    }
    memcpy((void*)abi::__cxa_get_globals(), eh0, 16);
    while(deliver_one()){}
    for(int i=0;i<n;i++) w.res.exceptions.push_back(w.r[i]->exc);
    if (!w.res.deadlock){
        for(auto &c : w.comms) for(size_t i=0;i<c->freed.size();i++) if (!c->freed[i]) w.res.live_comms++;
        for(auto &g : w.groups) if (g->live) w.res.live_groups++;
        for(auto &q : w.all) if (!q->freed && (q->active || q->persistent)) w.res.live_requests++;
        w.res.undelivered = (long)w.sends.size();
    }
    for(int i=0;i<n;i++) stack_pool.push_back(w.r[i]->stack);
    W=prev; return std::move(w.res);
}
}

extern "C" {
int MPI_Init(int*, char***){ return 0; }
int MPI_Init_thread(int*, char***, int, int *p){ if (p) *p=MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int *f){ *f=1; return 0; }
int MPI_Finalized(int *f){ *f=0; return 0; }
int MPI_Query_thread(int *p){ *p=MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize(void){ return 0; }
int MPI_Abort(MPI_Comm, int c){ throw std::runtime_error("MPI_Abort("+std::to_string(c)+")"); }
double MPI_Wtime(void){ static double t0=0; if (!W) return t0+=1e-6; if (W->p.clock==0) return (double)(++W->ticks)*1e-6; uint64_t h=(W->p.seed+1)*0x9E3779B97F4A7C15ull+(++W->calls)*0xD1B54A32D192ED03ull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32;
    W->ticks += W->p.clock==1 ? (long)(h%4) : (long)(h%5==0); return (double)W->ticks*1e-6; }
double MPI_Wtick(void){ return 1e-6; }
int MPI_Get_processor_name(char *n, int *l){ strcpy(n,"mock"); *l=4; return 0; }
int MPI_Error_string(int, char *s, int *l){ strcpy(s,"error"); *l=5; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler){ return 0; }
int MPI_Type_size(MPI_Datatype t, int *s){ *s=(int)tsize(t); return 0; }

static MPI_Comm fix(MPI_Comm c){
    if (c==MPI_COMM_SELF){ // one self communicator per rank, made on demand
        static thread_local mock_comm_h self; self.id=0; self.ranks.assign(1,W?W->cur:0); self.freed.assign(1,0); if (self.seq.size()!=1) self.seq.assign(1,0); return &self; }
    return c; }
int MPI_Comm_rank(MPI_Comm c, int *r){ c=fix(c); if (!W){ *r=0; return 0; } if (!comm_ok(c,"comm_rank")){ *r=-1; return MPI_ERR_OTHER; } *r=c->rank_of(W->cur); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n){ c=fix(c); if (!W){ *n=1; return 0; } if (!comm_ok(c,"comm_size")){ *n=0; return MPI_ERR_OTHER; } *n=(int)c->ranks.size(); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r){ a=fix(a); b=fix(b); *r = a==b?MPI_IDENT:(a->ranks==b->ranks?MPI_CONGRUENT:MPI_UNEQUAL); return 0; }
static MPI_Group new_group(std::vector<int> const &r){ W->groups.emplace_back(new mock_group_h()); W->groups.back()->ranks=r; W->groups.back()->live=true; return W->groups.back().get(); }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g){ c=fix(c); if (!comm_ok(c,"comm_group")){ *g=nullptr; return MPI_ERR_OTHER; } *g=new_group(c->ranks); return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o){ if (n==0){ *o=MPI_GROUP_EMPTY; return 0; } std::vector<int> v; for(int i=0;i<n;i++){ if (r[i]<0||r[i]>=(int)g->ranks.size()){ err("group_incl: rank out of range"); return MPI_ERR_OTHER; } v.push_back(g->ranks[r[i]]); } *o=new_group(v); return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o){ std::vector<int> v; for(size_t i=0;i<g->ranks.size();i++){ bool x=false; for(int k=0;k<n;k++) if (r[k]==(int)i) x=true; if (!x) v.push_back(g->ranks[i]); } *o = v.empty()?MPI_GROUP_EMPTY:new_group(v); return 0; }
int MPI_Group_free(MPI_Group *g){ if (*g && *g!=MPI_GROUP_EMPTY){ if (!(*g)->live) err("group freed twice"); (*g)->live=false; } *g=nullptr; return 0; }
int MPI_Group_size(MPI_Group g, int *n){ *n=(int)g->ranks.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *n){ *n=MPI_UNDEFINED; for(size_t i=0;i<g->ranks.size();i++) if (g->ranks[i]==W->cur) *n=(int)i; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb){ for(int i=0;i<n;i++){ rb[i]=MPI_UNDEFINED; for(size_t k=0;k<b->ranks.size();k++) if (b->ranks[k]==a->ranks[ra[i]]) rb[i]=(int)k; } return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o){ c=fix(c); coll_op::args a; a.group=g->ranks; a.newcomm=o; return coll(c,"comm_create",std::move(a)); }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int, MPI_Comm *o){
    // collective over the group only: use a hidden communicator keyed by the group
    static std::map<std::pair<world*,std::vector<int>>, mock_comm_h*> hidden; (void)c;
    if (g==MPI_GROUP_EMPTY){ *o=nullptr; return 0; }
    auto key=std::make_pair(W,g->ranks); auto &h=hidden[key];
    bool mine=false; for(auto &x : W->comms) if (x.get()==h) mine=true;
    if (!mine){ W->comms.emplace_back(new mock_comm_h()); h=W->comms.back().get(); h->id=-1; h->ranks=g->ranks; h->freed.assign(g->ranks.size(),1); h->seq.assign(g->ranks.size(),0); }
    coll_op::args a; a.group=g->ranks; a.newcomm=o; auto op=enter(h,"comm_create_group",std::move(a)); block("comm_create_group",[op]{return op->done;}); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o){ c=fix(c); coll_op::args a; a.color=color; a.key=key; a.newcomm=o; return coll(c,"comm_split",std::move(a)); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o){ c=fix(c); coll_op::args a; a.newcomm=o; return coll(c,"comm_dup",std::move(a)); }
int MPI_Comm_free(MPI_Comm *c){ if (!*c){ err("comm_free of MPI_COMM_NULL"); return MPI_ERR_OTHER; } if (*c==MPI_COMM_WORLD){ err("comm_free of MPI_COMM_WORLD"); return MPI_ERR_OTHER; }
    if (!W) return 0; if (!comm_ok(*c,"comm_free")) return MPI_ERR_OTHER; (*c)->freed[(*c)->rank_of(W->cur)]=1; ev(mock::EV_COMM_FREE,(*c)->id,0,0,0,0); *c=nullptr; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ if (f==1) return MPI_COMM_WORLD; for(auto &x : W->comms) if (x->id==f) return x.get(); return nullptr; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c ? c->id : -1; }

int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q){ c=fix(c); int e=post_send(b,n,t,d,tag,c,q,mock::EV_ISEND,false); maybe_yield(); return e; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q){ return MPI_Isend(b,n,t,d,tag,c,q); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q){ c=fix(c); int e=post_recv(b,n,t,s,tag,c,q); maybe_yield(); return e; }
static int send_mode(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, int mode){
    c=fix(c); if (d==MPI_PROC_NULL) return 0; if (!comm_ok(c,"send")) return MPI_ERR_OTHER;
    if (mode==2) mode=choose(2);
    if (d<0||d>=(int)c->ranks.size()||n<0){ err("invalid send arguments"); return MPI_ERR_OTHER; }
    Req q=new_req(); q->sbuf=(const char*)b; q->bytes=n*tsize(t); q->peer=d; q->tag=tag; q->comm=c; q->type=t; q->buffered=(mode==0);
    ev(mock::EV_SEND, c->id, c->ranks[d], tag, q->bytes, q->id);
    start_send(q);
    if (mode==0){ ev(mock::EV_SEND_DONE, c->id, c->ranks[d], tag, q->bytes, q->id); q->freed=true; q->active=false; maybe_yield(); }
    else { block("send to "+std::to_string(c->ranks[d]), [q]{ return q->done; }); ev(mock::EV_SEND_DONE, c->id, c->ranks[d], tag, q->bytes, q->id); q->freed=true; q->active=false; }
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c){ return send_mode(b,n,t,d,tag,c,W->p.send_mode); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c){ return send_mode(b,n,t,d,tag,c,1); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c){ return send_mode(b,n,t,d,tag,c,1); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c){ return send_mode(b,n,t,d,tag,c,0); }
int MPI_Wait(MPI_Request *q, MPI_Status *st){ if (!*q) return 0; if (!req_ok(*q,"wait")) return MPI_ERR_OTHER; if (!(*q)->active) return 0; Req r=*q; block("wait",[r]{return r->done;}); finish(q,st); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st){ c=fix(c); MPI_Request q; int e=post_recv(b,n,t,s,tag,c,&q); if (e) return e; Req r=q; block("recv from "+std::to_string(s),[r]{return r->done;}); finish(&q,st); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stat){ MPI_Request a,b; c=fix(c); if (post_recv(rb,rn,rt,s,rtag,c,&a)) return MPI_ERR_OTHER; if (post_send(sb,sn,st,d,stag,c,&b,mock::EV_ISEND,false)) return MPI_ERR_OTHER; MPI_Wait(&b,MPI_STATUS_IGNORE); return MPI_Wait(&a,stat); }
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *o){ c=fix(c); Req q=new_req(); q->sbuf=(const char*)b; q->bytes=n*tsize(t); q->peer=d; q->tag=tag; q->comm=c; q->type=t; q->persistent=true; *o=q; return 0; }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *o){ c=fix(c); Req q=new_req(); q->is_recv=true; q->buf=(char*)b; q->bytes=n*tsize(t); q->peer=s; q->tag=tag; q->comm=c; q->type=t; q->persistent=true; *o=q; return 0; }
int MPI_Start(MPI_Request *o){ Req q=*o; if (q->active){ err("start of an active request"); return MPI_ERR_OTHER; } if (q->is_recv){ ev(mock::EV_IRECV,q->comm->id,q->comm->ranks[q->peer],q->tag,q->bytes,q->id); start_recv(q);} else { ev(mock::EV_ISEND,q->comm->id,q->comm->ranks[q->peer],q->tag,q->bytes,q->id); start_send(q);} return 0; }
int MPI_Startall(int n, MPI_Request *o){ for(int i=0;i<n;i++) MPI_Start(o+i); return 0; }
int MPI_Request_free(MPI_Request *o){ if (!*o){ err("request_free of a null request"); return MPI_ERR_OTHER; } (*o)->freed=true; (*o)->persistent=false; *o=nullptr; return 0; }
int MPI_Cancel(MPI_Request*){ return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st){
    for(int i=0;i<n;i++) if (q[i] && !req_ok(q[i],"waitall")) return MPI_ERR_OTHER;
    block("waitall",[=]{ for(int i=0;i<n;i++) if (q[i] && q[i]->active && !q[i]->done) return false; return true; });
    for(int i=0;i<n;i++) if (q[i] && q[i]->active) finish(q+i, st?st+i:nullptr); return 0; }
static int pick_done(int n, MPI_Request *q){ std::vector<int> d; for(int i=0;i<n;i++) if (q[i] && q[i]->active && q[i]->done) d.push_back(i); if (d.empty()) return -1; return W->p.waitany==0?d.front():(W->p.waitany==1?d.back():d[choose((int)d.size())]); }
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st){
    bool any=false; for(int i=0;i<n;i++) if (q[i]){ if (!req_ok(q[i],"waitany")) return MPI_ERR_OTHER; if (q[i]->active) any=true; }
    if (!any){ *idx=MPI_UNDEFINED; return 0; }
    block("waitany",[=]{ for(int i=0;i<n;i++) if (q[i] && q[i]->active && q[i]->done) return true; return false; });
    int k=pick_done(n,q); *idx=k; finish(q+k,st); return 0; }
int MPI_Waitsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st){
    bool any=false; for(int i=0;i<n;i++) if (q[i] && q[i]->active) any=true; if (!any){ *out=MPI_UNDEFINED; return 0; }
    block("waitsome",[=]{ for(int i=0;i<n;i++) if (q[i] && q[i]->active && q[i]->done) return true; return false; });
    int m=0; for(;;){ int k=pick_done(n,q); if (k<0) break; idx[m]=k; finish(q+k,st?st+m:nullptr); m++; } *out=m; return 0; }
int MPI_Test(MPI_Request *q, int *f, MPI_Status *st){ if (!*q || !(*q)->active){ *f=1; return 0; } Req r=*q; int tries=0; (void)tries; block("yield",[]{return true;}); if (!r->done) deliver_one(); if (r->done){ *f=1; finish(q,st);} else *f=0; return 0; }
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *st){ block("yield",[]{return true;}); *f=1; for(int i=0;i<n;i++) if (q[i] && q[i]->active && !q[i]->done) *f=0; if (!*f){ deliver_one(); return 0; } for(int i=0;i<n;i++) if (q[i] && q[i]->active) finish(q+i, st?st+i:nullptr); return 0; }
int MPI_Testany(int n, MPI_Request *q, int *idx, int *f, MPI_Status *st){ block("yield",[]{return true;}); bool any=false; for(int i=0;i<n;i++) if (q[i] && q[i]->active) any=true; if (!any){ *f=1; *idx=MPI_UNDEFINED; return 0; } int k=pick_done(n,q); if (k<0){ deliver_one(); *f=0; *idx=MPI_UNDEFINED; return 0; } *f=1; *idx=k; finish(q+k,st); return 0; }
int MPI_Testsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st){ block("yield",[]{return true;}); bool any=false; for(int i=0;i<n;i++) if (q[i] && q[i]->active) any=true; if (!any){ *out=MPI_UNDEFINED; return 0; } int m=0; for(;;){ int k=pick_done(n,q); if (k<0) break; idx[m]=k; finish(q+k,st?st+m:nullptr); m++; } if (m==0) deliver_one(); *out=m; return 0; }
static Req find_probe(int s, int tag, MPI_Comm c){ for(Req q : W->sends){ if (q->comm!=c || c->ranks[q->peer]!=W->cur) continue; if (s!=MPI_ANY_SOURCE && c->ranks[s]!=q->owner) continue; if (tag!=MPI_ANY_TAG && tag!=q->tag) continue; return q; } return nullptr; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st){ c=fix(c); block("probe",[=]{ return find_probe(s,tag,c)!=nullptr; }); Req q=find_probe(s,tag,c); if (st){ st->MPI_SOURCE=c->rank_of(q->owner); st->MPI_TAG=q->tag; st->mock_bytes=q->bytes; } return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st){ c=fix(c); block("yield",[]{return true;}); Req q=find_probe(s,tag,c); *f=(q!=nullptr); if (q && st){ st->MPI_SOURCE=c->rank_of(q->owner); st->MPI_TAG=q->tag; st->mock_bytes=q->bytes; } return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n){ *n=(int)(st->mock_bytes/tsize(t)); return 0; }

int MPI_Barrier(MPI_Comm c){ return coll(fix(c),"barrier",coll_op::args()); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c){ coll_op::args a; a.sb=(const char*)b; a.rb=(char*)b; a.scount=n; a.st=a.rt=t; a.root=root; return coll(fix(c),"bcast",std::move(a)); }
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c){ coll_op::args a; a.sb=(const char*)sb; a.scount=sn; a.st=st; a.rb=(char*)rb; a.rcount=rn; a.rt=rt; a.root=root; return coll(fix(c),"gather",std::move(a)); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c){ c=fix(c); coll_op::args a; a.sb=(const char*)sb; a.scount=sn; a.st=st; a.rb=(char*)rb; a.rt=rt; a.root=root; if (c->rank_of(W->cur)==root){ a.rc=lv(rc,(int)c->ranks.size()); a.rd=lv(rd,(int)c->ranks.size()); } return coll(c,"gatherv",std::move(a)); }
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c){ coll_op::args a; a.sb=(const char*)sb; a.scount=sn; a.st=st; a.rb=(char*)rb; a.rcount=rn; a.rt=rt; a.root=root; return coll(fix(c),"scatter",std::move(a)); }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c){ coll_op::args a; a.sb=(const char*)sb; a.scount=sn; a.st=st; a.rb=(char*)rb; a.rcount=rn; a.rt=rt; return coll(fix(c),"allgather",std::move(a)); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c){ c=fix(c); coll_op::args a; a.sb=(const char*)sb; a.scount=sn; a.st=st; a.rb=(char*)rb; a.rt=rt; a.rc=lv(rc,(int)c->ranks.size()); a.rd=lv(rd,(int)c->ranks.size()); return coll(c,"allgatherv",std::move(a)); }
static coll_op::args a2a(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt){ coll_op::args a; a.sb=(const char*)sb; a.scount=sn; a.st=st; a.rb=(char*)rb; a.rcount=rn; a.rt=rt; if (sb==MPI_IN_PLACE){ a.scount=rn; a.st=rt; } return a; }
static coll_op::args a2av(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int n){ coll_op::args a; a.sb=(const char*)sb; a.st=st; a.rb=(char*)rb; a.rt=rt; a.sc=lv(sc,n); a.sd=lv(sd,n); a.rc=lv(rc,n); a.rd=lv(rd,n); return a; }
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c){ return coll(fix(c),"alltoall",a2a(sb,sn,st,rb,rn,rt)); }
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c){ c=fix(c); if (!comm_ok(c,"alltoallv")) return MPI_ERR_OTHER; return coll(c,"alltoallv",a2av(sb,sc,sd,st,rb,rc,rd,rt,(int)c->ranks.size())); }
int MPI_Ialltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q){ c=fix(c); *q=new_req(); (*q)->active=true; (*q)->comm=c; auto a=a2a(sb,sn,st,rb,rn,rt); a.req=*q; enter(c,"alltoall",std::move(a)); return 0; }
int MPI_Ialltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q){ c=fix(c); *q=new_req(); (*q)->active=true; (*q)->comm=c; auto a=a2av(sb,sc,sd,st,rb,rc,rd,rt,(int)c->ranks.size()); a.req=*q; enter(c,"alltoallv",std::move(a)); return 0; }
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c){ coll_op::args a; a.sb=(const char*)sb; a.rb=(char*)rb; a.scount=n; a.st=a.rt=t; a.op=op; a.root=root; return coll(fix(c),"reduce",std::move(a)); }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){ coll_op::args a; a.sb=(const char*)sb; a.rb=(char*)rb; a.scount=n; a.st=a.rt=t; a.op=op; return coll(fix(c),"allreduce",std::move(a)); }
}

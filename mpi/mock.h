/* Control interface of the in-process MPI stand-in. */
#ifndef MOCK_CONTROL_H
#define MOCK_CONTROL_H
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
#include "mpi.h"
namespace mock {
struct policy {
    uint64_t seed = 1;
    int send_mode = 2;   // MPI_Send: 0 always buffers, 1 always waits for the receiver, 2 chosen per message
    int deliver = 2;     // moving matched messages: 0 at once, 1 as late as possible, 2 at a random time
    int sched = 1;       // which rank runs next: 0 lowest first, 1 random, 2 highest first
    int waitany = 2;     // which completed request is reported: 0 first, 1 last, 2 random
    int clock = 0;       // MPI_Wtime: 0 always advances by a microsecond, 1 by zero to three, 2 stands still most of the time
};
enum ev_kind { EV_IRECV=1, EV_ISEND, EV_SEND, EV_SEND_DONE, EV_RECV_DONE, EV_DELIVER,
               EV_COLL_ENTER, EV_COLL_EXIT, EV_COMM_NEW, EV_COMM_FREE, EV_USER };
struct event { int rank; int kind; int comm; int peer; int tag; long bytes; int id; std::string name; int id2; std::vector<int> members; };
struct result {
    bool deadlock = false;
    std::vector<std::string> errors;       // misuse of MPI (mismatched sizes, touched buffers, use after free ...)
    std::vector<std::string> exceptions;   // one per rank, empty when the rank returned normally
    std::vector<std::string> blocked;      // for a deadlock: where each rank waits
    long live_comms = 0, live_groups = 0, live_requests = 0, undelivered = 0;
    long messages = 0, collectives = 0, bytes = 0, comms_created = 0, switches = 0, choices = 0;
    std::vector<event> events;
    bool ok() const;
    std::string what() const;
};
result run(int nranks, policy const &p, bool record, std::function<void(int)> const &fn);
int  world_rank();                 // rank of the running coroutine
void user_event(std::string const &name, int a=0, int b=0, int c=0);
void report_error(std::string const &e);
extern void (*on_resume)(int rank); extern void (*on_suspend)(int rank);   // called around every stretch a rank runs
void yield();                      // let other ranks run
// counters visible to the running program
long live_comms_of(int world_rank);
long messages_sent_by(int world_rank);
long bytes_sent_by(int world_rank);
void reset_counters();
}
#endif

/* In-process stand-in for MPI used by the verification harness.
 * All ranks of a "world" live in one process as coroutines; a controlled scheduler decides which
 * rank runs, when a matched message is really moved, whether MPI_Send buffers or waits, and which
 * completed request MPI_Waitany reports.  See mock_mpi.cpp. */
#ifndef MOCK_MPI_H
#define MOCK_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

struct mock_comm_h; struct mock_group_h; struct mock_req_h;
typedef struct mock_comm_h  *MPI_Comm;
typedef struct mock_group_h *MPI_Group;
typedef struct mock_req_h   *MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
typedef void *MPI_Info;
typedef void *MPI_Errhandler;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long mock_bytes; } MPI_Status;

extern struct mock_comm_h mock_comm_world_obj, mock_comm_self_obj;
extern struct mock_group_h mock_group_empty_obj;
#define MPI_COMM_WORLD (&mock_comm_world_obj)
#define MPI_COMM_SELF  (&mock_comm_self_obj)
#define MPI_COMM_NULL  ((MPI_Comm)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_GROUP_EMPTY (&mock_group_empty_obj)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)1)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)2)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256

/* a data type is its size in bytes (low byte) plus a kind tag */
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE            (0x100 + 1)
#define MPI_CHAR            (0x200 + 1)
#define MPI_SIGNED_CHAR     (0x300 + 1)
#define MPI_UNSIGNED_CHAR   (0x400 + 1)
#define MPI_INT             (0x500 + 4)
#define MPI_UNSIGNED        (0x600 + 4)
#define MPI_LONG            (0x700 + 8)
#define MPI_UNSIGNED_LONG   (0x800 + 8)
#define MPI_LONG_LONG       (0x900 + 8)
#define MPI_LONG_LONG_INT   MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG (0xa00 + 8)
#define MPI_FLOAT           (0xb00 + 4)
#define MPI_DOUBLE          (0xc00 + 8)
#define MPI_C_COMPLEX       (0xd00 + 8)
#define MPI_C_FLOAT_COMPLEX MPI_C_COMPLEX
#define MPI_C_DOUBLE_COMPLEX (0xe00 + 16)
#define MPI_CXX_FLOAT_COMPLEX (0xf00 + 8)
#define MPI_CXX_DOUBLE_COMPLEX (0x1000 + 16)
#define MPI_C_BOOL          (0x1100 + 1)
#define MPI_INT32_T         (0x1200 + 4)
#define MPI_INT64_T         (0x1300 + 8)
#define MPI_UINT64_T        (0x1400 + 8)
#define MPI_CXX_BOOL        (0x1500 + 1)
#define MPI_SHORT           (0x1600 + 2)

#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LAND 4
#define MPI_LOR 5
#define MPI_BAND 6
#define MPI_BOR 7
#define MPI_PROD 8

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Query_thread(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);

int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_free(MPI_Group*);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Send_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv_init(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Start(MPI_Request*);
int MPI_Startall(int, MPI_Request*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Type_size(MPI_Datatype, int*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Ialltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ialltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);

#ifdef __cplusplus
}
#endif
#endif

// Interface of the simulated MPI (sim/simmpi.cc): many ranks in one process,
// with every source of nondeterminism decided by the model checker.
#ifndef VERIF_SHIM_MPI_H
#define VERIF_SHIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Win;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int count_; int cancelled_; } MPI_Status;
typedef void (MPI_Comm_errhandler_function)(MPI_Comm*, int*, ...);
typedef void (MPI_User_function)(void*, void*, int*, MPI_Datatype*);

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_WIN_NULL 0
#define MPI_INFO_NULL 0
#define MPI_ERRHANDLER_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_MAX_ERROR_STRING 512
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_TAG_UB 1
#define MPI_WIN_BASE 2
#define MPI_WIN_SIZE 3
#define MPI_COMM_TYPE_SHARED 1
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

enum {
  MPI_DATATYPE_NULL = 0, MPI_BYTE, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR,
  MPI_WCHAR, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG,
  MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_LONG_LONG_INT = MPI_LONG_LONG,
  MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_C_BOOL,
  MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T, MPI_UINT8_T, MPI_UINT16_T,
  MPI_UINT32_T, MPI_UINT64_T, MPI_CXX_BOOL, MPI_DATATYPE_LAST_
};
enum { MPI_OP_NULL = 0, MPI_SUM, MPI_PROD, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR,
       MPI_BAND, MPI_BOR, MPI_BXOR, MPI_REPLACE, MPI_NO_OP };

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_version(int*, int*);
int MPI_Get_library_version(char*, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_free(MPI_Group*);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Cancel(MPI_Request*);
int MPI_Request_free(MPI_Request*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*);
int MPI_Free_mem(void*);
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*);
int MPI_Win_free(MPI_Win*);
int MPI_Win_fence(int, MPI_Win);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Put(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void*, void*, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Rget(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
int MPI_Rput(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
int MPI_Raccumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request*);
#ifdef __cplusplus
}
#endif
#endif

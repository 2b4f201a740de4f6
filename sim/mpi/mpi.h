// The message-passing interface as the simulator provides it (see ../mpi.cpp).
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long long MPI_Count;
typedef struct simmpi_req *MPI_Request;
typedef struct simmpi_msg *MPI_Message;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long long sim_bytes; int sim_cancelled; } MPI_Status;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_ERR_TRUNCATE 15
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_MESSAGE_NULL ((MPI_Message)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_TAG_UB 2147483647
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_ERRORS_RETURN 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 0x101
#define MPI_SIGNED_CHAR 0x111
#define MPI_UNSIGNED_CHAR 0x121
#define MPI_BYTE 0x131
#define MPI_SHORT 0x201
#define MPI_UNSIGNED_SHORT 0x211
#define MPI_INT 0x401
#define MPI_UNSIGNED 0x411
#define MPI_FLOAT 0x421
#define MPI_LONG 0x801
#define MPI_UNSIGNED_LONG 0x811
#define MPI_DOUBLE 0x821
#define MPI_LONG_LONG 0x831
#define MPI_LONG_LONG_INT 0x831
#define MPI_UNSIGNED_LONG_LONG 0x841
#define MPI_INT8_T 0x141
#define MPI_UINT8_T 0x151
#define MPI_INT16_T 0x221
#define MPI_UINT16_T 0x231
#define MPI_INT32_T 0x431
#define MPI_UINT32_T 0x441
#define MPI_INT64_T 0x851
#define MPI_UINT64_T 0x861
#define MPI_C_BOOL 0x161
#define MPI_CXX_BOOL 0x171
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_LAND 4
#define MPI_LOR 5
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Get_processor_name(char *, int *);
int MPI_Type_size(MPI_Datatype, int *);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Error_string(int, char *, int *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ibsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Buffer_attach(void *, int);
int MPI_Buffer_detach(void *, int *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message *, MPI_Status *);
int MPI_Improbe(int, int, MPI_Comm, int *, MPI_Message *, MPI_Status *);
int MPI_Mrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Status *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Request_free(MPI_Request *);
int MPI_Cancel(MPI_Request *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif

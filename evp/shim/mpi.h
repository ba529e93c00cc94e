// Simulated MPI: ranks are fibers of one process; every call may hand control to another rank.
#pragma once
#include <cstddef>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef long MPI_Offset;
typedef long MPI_Aint;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
struct mpisim_file;
typedef mpisim_file* MPI_File;
enum { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 91, MPI_COMM_SELF = 92 };
enum { MPI_DATATYPE_NULL = 0, MPI_CHAR = 1, MPI_INT = 2, MPI_FLOAT = 3, MPI_DOUBLE = 4, MPI_LONG_DOUBLE = 5, MPI_UNSIGNED = 6, MPI_LONG = 7, MPI_UNSIGNED_LONG = 8, MPI_C_BOOL = 9 };
enum { MPI_OP_NULL = 0, MPI_SUM = 1, MPI_MAX = 2, MPI_MIN = 3, MPI_LOR = 4, MPI_LAND = 5, MPI_PROD = 6 };
enum { MPI_INFO_NULL = 0 };
enum { MPI_ORDER_C = 56, MPI_ORDER_FORTRAN = 57 };
enum { MPI_MODE_CREATE = 1, MPI_MODE_RDONLY = 2, MPI_MODE_WRONLY = 4, MPI_MODE_RDWR = 8, MPI_MODE_UNIQUE_OPEN = 32 };
enum { MPI_SUCCESS = 0, MPI_ERR_OTHER = 15, MPI_UNDEFINED = -32766 };
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
double MPI_Wtime();
int MPI_Barrier(MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Info_create(MPI_Info*);
int MPI_Info_set(MPI_Info, const char*, const char*);
int MPI_Info_free(MPI_Info*);
int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*);
int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char*, MPI_Info);
int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_all(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_close(MPI_File*);

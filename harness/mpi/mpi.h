// Stand-in for MPI: one process plays one rank (verif_rank) of a world of verif_size.
// Communication is not modelled; calls to it abort.
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#include <stdint.h>
#include <stdlib.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Status;
#define MPI_COMM_WORLD 0
#define MPI_INT 1
#define MPI_BYTE 2
#define MPI_UINT64_T 3
#define MPI_DOUBLE 4
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
extern int verif_rank, verif_size;
extern "C" {
int MPI_Initialized(int*); int MPI_Init(int*, char***);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
}
#endif

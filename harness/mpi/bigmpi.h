#ifndef VERIF_BIGMPI_H
#define VERIF_BIGMPI_H
#include "mpi.h"
extern "C" {
int MPIX_Recv_x(void*, size_t, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPIX_Send_x(const void*, size_t, MPI_Datatype, int, int, MPI_Comm);
}
#endif

#ifndef VP_SC_COMPAT_H
#define VP_SC_COMPAT_H
#include <sc.h>
#include <sc_mpi.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifndef sc_MPI_PACKED
#define sc_MPI_PACKED MPI_PACKED
#define sc_MPI_Pack MPI_Pack
#define sc_MPI_Unpack MPI_Unpack
#define sc_MPI_Pack_size MPI_Pack_size
#define sc_MPI_INT8_T MPI_INT8_T
#endif
int sc_get_package_id (void);
int sc_mpi_comm_get_and_attach (sc_MPI_Comm comm);
#ifdef __cplusplus
}
#endif
#endif

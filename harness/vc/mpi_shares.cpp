// Verification entry points for the share computations of the MPI code: they only read the
// results out of the class, so that the contracts do not depend on where the fields lie.
#include "vcstd.h"
#define private public
#define protected public
#include "stempy/reader_mpi.cpp"
#include "stempy/electron_mpi.cpp"
#undef private
#undef protected
using namespace stempy;
using Rd = SectorStreamMultiPassThreadedReader;
extern "C" {
extern const unsigned long vc_off_streams = __builtin_offsetof(Rd, m_streams), vc_off_scanmap = __builtin_offsetof(Rd, m_scanMap),
  vc_sizeof_stream = sizeof(*((Rd*)0)->m_streams.data()), vc_sizeof_pos = sizeof(*((Rd*)0)->m_scanMap.data());
void vc_streams(Rd* r, uint64_t* offset, uint64_t* size)
{
  r->initMPI();
  *offset = r->m_streamsOffset;
  *size = r->m_streamsSize;
}
void vc_positions(Rd* r, int rank, int worldSize, uint64_t* offset, uint64_t* size)
{
  r->m_rank = rank;
  r->m_worldSize = worldSize;
  r->partitionScanMap();
  *offset = r->m_scanMapOffset;
  *size = r->m_scanMapSize;
}
}

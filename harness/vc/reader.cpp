// The readers of raw files, and where their fields lie.
#include "vcstd.h"
#include <regex>
#define private public
#define protected public
#include "stempy/reader.cpp"
#undef private
#undef protected
#define OFF(T, f) __builtin_offsetof(T, f)
using namespace stempy;
extern "C" {
extern const unsigned long
  vc_stream = OFF(StreamReader, m_stream), vc_files = OFF(StreamReader, m_files), vc_index = OFF(StreamReader, m_curFileIndex),
  vc_version = OFF(StreamReader, m_version),
  vc_scan = OFF(Header, scanDimensions), vc_frame = OFF(Header, frameDimensions), vc_images = OFF(Header, imagesInBlock),
  vc_hversion = OFF(Header, version), vc_timestamp = OFF(Header, timestamp), vc_frameNumber = OFF(Header, frameNumber),
  vc_scanNumber = OFF(Header, scanNumber), vc_numbers = OFF(Header, imageNumbers), vc_complete = OFF(Header, complete),
  vc_block_data = OFF(Block, data), vc_block_header = OFF(Block, header);
extern const unsigned long vc_xversion = OFF(SectorStreamReader, m_version);
#define ITER(prefix, R) extern const unsigned long vc_##prefix##it_reader = OFF(R::iterator, m_streamReader), vc_##prefix##it_block = OFF(R::iterator, m_block); \
  void vc_##prefix##begin(R* r, R::iterator* out) { new (out) R::iterator(r->begin()); } \
  void vc_##prefix##end(R* r, R::iterator* out) { new (out) R::iterator(r->end()); } \
  void vc_##prefix##next(R::iterator* it) { ++*it; }
ITER(s_, StreamReader)
ITER(x_, SectorStreamReader)
typedef std::pair<const uint32_t, SectorStreamReader::Frame> Cached;
extern const unsigned long vc_x_streams = OFF(SectorStreamReader, m_streams), vc_x_iterator = OFF(SectorStreamReader, m_streamsIterator), vc_x_cache = OFF(SectorStreamReader, m_frameCache),
  vc_c_size = sizeof(Cached), vc_c_frame = OFF(Cached, second), vc_fr_block = OFF(SectorStreamReader::Frame, block), vc_fr_count = OFF(SectorStreamReader::Frame, sectorCount);
typedef SectorStreamMultiPassThreadedReader Multi;
extern const unsigned long vc_m_scanmap = OFF(Multi, m_scanMap), vc_m_scandims = OFF(Multi, m_scanDimensions), vc_m_scannumber = OFF(Multi, m_scanNumber),
  vc_m_perscan = OFF(Multi, m_numFramesPerScan), vc_m_processed = OFF(Multi, m_processed), vc_m_offset = OFF(Multi, m_scanMapOffset), vc_m_size = OFF(Multi, m_scanMapSize),
  vc_m_streams = OFF(Multi, m_streams), vc_m_soffset = OFF(Multi, m_streamsOffset), vc_m_ssize = OFF(Multi, m_streamsSize), vc_m_mutexes = OFF(Multi, m_scanPositionMutexes),
  vc_l_sector = OFF(SectorLocation, sector), vc_l_stream = OFF(SectorLocation, sectorStream), vc_l_offset = OFF(SectorLocation, offset), vc_l_size = sizeof(SectorLocation),
  vc_ss_stream = OFF(SectorStreamReader::SectorStream, stream), vc_ss_sector = OFF(SectorStreamReader::SectorStream, sector),
  vc_ss_mutex = OFF(SectorStreamReader::SectorStream, mutex), vc_ss_size = sizeof(SectorStreamReader::SectorStream), vc_map_size = sizeof(ScanMap::value_type);
struct VcSink { void operator()(Block& b) const; };
void vc_process(Multi* r, VcSink& f, uint32_t image, uint32_t number, std::array<SectorLocation, 4>& m) { r->processFrame(f, image, number, m); }
void vc_frames(Multi* r, VcSink& f, uint32_t image, const std::vector<uint32_t>& idx) { r->readFrames(f, image, idx); }
void vc_all(Multi* r, VcSink& f) { r->processFrames(f); }
uint32_t vc_count(Multi* r) { return r->numFramesPerScan(); }
void vc_headers(Multi* r) { r->readHeaders(); }
}

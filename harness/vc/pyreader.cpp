// The reader of in-memory and HDF5 data sets, and where its fields lie.
#include "vcstd.h"
#include <regex>
#include "pybind11/numpy.h"
#define private public
#define protected public
#include "stempy/reader.cpp"
#include "python/pyreader.cpp"
#undef private
#undef protected
#define OFF(T, f) __builtin_offsetof(T, f)
using namespace stempy;
template <typename T> using A = py::array_t<T>;
extern "C" {
extern const unsigned long
  vc_dataset = OFF(PyReader, m_pydataset), vc_rscan = OFF(PyReader, m_scanDimensions), vc_rnumbers = OFF(PyReader, m_imageNumbers),
  vc_curr = OFF(PyReader, m_currIndex), vc_blocksize = OFF(PyReader, m_imageNumInBlock), vc_total = OFF(PyReader, m_totalImageNum),
  vc_o_start = OFF(py::object, start), vc_o_stop = OFF(py::object, stop), vc_o_step = OFF(py::object, step),
  vc_a_data = OFF(A<uint16_t>, m_data), vc_a_shape = OFF(A<uint16_t>, m_shape),
  vc_block_data = OFF(PyBlock, data.array), vc_block_header = OFF(PyBlock, header),
  vc_scan = OFF(Header, scanDimensions), vc_frame = OFF(Header, frameDimensions), vc_images = OFF(Header, imagesInBlock),
  vc_hversion = OFF(Header, version), vc_numbers = OFF(Header, imageNumbers), vc_complete = OFF(Header, complete),
  vc_it_reader = OFF(PyReader::iterator, m_PyReader), vc_it_block = OFF(PyReader::iterator, m_block);
// the iterator, as the drivers use it
void vc_it_begin(PyReader* r, PyReader::iterator* out) { new (out) PyReader::iterator(r->begin()); }
void vc_it_end(PyReader* r, PyReader::iterator* out) { new (out) PyReader::iterator(r->end()); }
void vc_it_next(PyReader::iterator* it) { ++*it; }
bool vc_it_more(PyReader::iterator* a, PyReader::iterator* b) { return *a != *b; }
PyBlock* vc_it_get(PyReader::iterator* a) { return &**a; }
}

// Direct access to the per-frame templates of the real code (they have no binding).
#include "stempy/electron.cpp"
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
namespace py = pybind11;
using namespace stempy;
using F32 = py::array_t<float, py::array::c_style | py::array::forcecast>;

template <typename T>
static std::vector<uint32_t> mp(const std::vector<T>& f, uint32_t w, uint32_t h)
{
  return maximalPoints<T>(f, Dimensions2D{ w, h });
}

template <typename T, bool dark>
static std::pair<std::vector<uint32_t>, std::vector<T>> ec(
  std::vector<T> frame, uint32_t w, uint32_t h, std::vector<float> darkRef, double bg,
  double xray, std::vector<float> gain, bool rowDark, float mean, bool useMean)
{
  auto ev = electronCount<T, dark>(
    frame, Dimensions2D{ w, h }, darkRef.empty() ? nullptr : darkRef.data(), bg, xray,
    gain.empty() ? nullptr : gain.data(), rowDark, mean, useMean);
  return { ev, frame };
}

PYBIND11_MODULE(_verif, m)
{
  m.def("mp_u16", &mp<uint16_t>);
  m.def("mp_f32", &mp<float>);
  m.def("ec_u16_dark", &ec<uint16_t, true>);
  m.def("ec_u16", &ec<uint16_t, false>);
  m.def("ec_f32_dark", &ec<float, true>);
  m.def("ec_f32", &ec<float, false>);
}

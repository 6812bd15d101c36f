#pragma once
#include "pybind11.h"
namespace pybind11 {
extern "C" void vc_to_array(const object* o, int flags, int elementSize, void* out);
template <typename T, int Flags = array::forcecast> struct array_t : array {
  const T* m_data = nullptr;
  ssize_t m_shape[3];
  array_t() {}
  array_t(const object& o) { vc_to_array(&o, Flags, sizeof(T), this); }
  // conversion between array types: from C order to any layout there is nothing to do
  template <int F2> array_t(const array_t<T, F2>& o) { static_assert((F2 & array::c_style) || !(Flags & array::c_style), "layout");
    m_data = o.m_data; m_shape[0] = o.m_shape[0]; m_shape[1] = o.m_shape[1]; m_shape[2] = o.m_shape[2]; }
  const T* data() const { return m_data; }
  const ssize_t* shape() const { return m_shape; }
  ssize_t shape(ssize_t i) const { return m_shape[i]; }
  ssize_t ndim() const { return 3; }
  ssize_t size() const { return m_shape[0] * m_shape[1] * m_shape[2]; }
};
}

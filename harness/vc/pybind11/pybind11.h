// The part of pybind11 that python/pyreader.* use, as declarations: what the calls do is given by the contracts
// in proofs/c13.py (vc_slice_items, vc_to_array).  Everything else here only passes values on.
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#define PYBIND11_EXPORT
#define PYBIND11_NAMESPACE pybind11
namespace pybind11 {
using ssize_t = long;
struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };
struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} };
struct slice { ssize_t start, stop, step; slice(ssize_t a, ssize_t b, ssize_t c) : start(a), stop(b), step(c) {} };
struct object;
// a Python object: the data set, its bound __getitem__, or the items start, start + step, ... < stop of it
struct object {
  const void* h = nullptr;
  ssize_t start = 0, stop = 0, step = 0;
  object() {}
  // attributes: only __getitem__ (its name has 11 letters)
  template <unsigned long N> object attr(const char (&)[N]) const { static_assert(N == 12, "__getitem__"); return *this; }
  object operator()(const slice& s) const;
  object operator[](const slice& s) const { return (*this)(s); }
};
extern "C" void vc_slice_items(const object* o, ssize_t start, ssize_t stop, ssize_t step, object* out);
inline object object::operator()(const slice& s) const { object o; vc_slice_items(this, s.start, s.stop, s.step, &o); return o; }
struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
}

// Stand-in for the cereal serialisation library (not available here): archives accept
// everything and move nothing.  Only used to compile the MPI sources.
#ifndef VERIF_CEREAL_H
#define VERIF_CEREAL_H
#include <iostream>
#include <utility>
namespace cereal {
namespace specialization { enum { non_member_load_save }; }
template <class A, class T, int S> struct specialize {};
struct BinaryInputArchive {
  explicit BinaryInputArchive(std::istream&) {}
  template <class... T> void operator()(T&&...) {}
  void loadBinary(void*, std::size_t) {}
};
struct BinaryOutputArchive {
  explicit BinaryOutputArchive(std::ostream&) {}
  template <class... T> void operator()(T&&...) {}
  void saveBinary(const void*, std::size_t) {}
};
}
#endif

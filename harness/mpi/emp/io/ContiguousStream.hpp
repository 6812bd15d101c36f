#ifndef VERIF_EMP_H
#define VERIF_EMP_H
#include <ostream>
namespace emp {
class ContiguousStream : public std::ostream {
public:
  ContiguousStream() : std::ostream(nullptr) {}
  std::size_t GetSize() { return 0; }
  const char* GetData() { return nullptr; }
};
}
#endif

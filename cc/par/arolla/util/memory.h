#ifndef VERIF_AROLLA_MEMORY_H_
#define VERIF_AROLLA_MEMORY_H_
#include <cstddef>
#include <memory>
#include <new>
namespace arolla {
struct AlignedFree {
  std::align_val_t alignment{1};
  void operator()(void* p) const { ::operator delete(p, alignment); }
};
using AlignedPtr = std::unique_ptr<void, AlignedFree>;
inline AlignedPtr AlignedAlloc(std::align_val_t a, size_t size) {
  return AlignedPtr(::operator new(size ? size : 1, a), AlignedFree{a});
}
}  // namespace arolla
#endif

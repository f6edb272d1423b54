// The few out-of-line functions of LLVM's ADT headers.
#include <cstdlib>
#include <cstring>
#include <new>
#include "llvm/ADT/SmallVector.h"
#include "llvm/Support/MemAlloc.h"
namespace llvm {
void* allocate_buffer(size_t n, size_t a) { return ::operator new(n, std::align_val_t(a)); }
void deallocate_buffer(void* p, size_t n, size_t a) { (void)n; ::operator delete(p, std::align_val_t(a)); }
template <class S> void SmallVectorBase<S>::grow_pod(void* first, size_t min, size_t ts) {
  size_t cap = 2 * this->capacity() + 1;
  if (cap < min) cap = min;
  void* p = std::malloc(cap * ts);
  std::memcpy(p, this->BeginX, this->size() * ts);
  if (this->BeginX != first) std::free(this->BeginX);
  this->BeginX = p;
  this->Capacity = static_cast<S>(cap);
}
template class SmallVectorBase<uint32_t>;
}  // namespace llvm

// Instrumented stand-ins for the LLVM/libc support routines that live in
// shared libraries and would otherwise have to be enumerated: same contract,
// compiled with the engine's instrumentation.
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringMap.h"
#include <cctype>
#include <cstdlib>
#include <cstring>
using namespace llvm;

template <class S>
static size_t newCap(size_t minSize, size_t oldCap) {
  size_t c = 2 * oldCap + 1;
  return c < minSize ? minSize : c;
}
template <class S>
void *SmallVectorBase<S>::mallocForGrow(void *FirstEl, size_t MinSize,
                                        size_t TSize, size_t &NewCapacity) {
  NewCapacity = newCap<S>(MinSize, this->capacity());
  return malloc(NewCapacity * TSize);
}
template <class S>
void SmallVectorBase<S>::grow_pod(void *FirstEl, size_t MinSize, size_t TSize) {
  size_t cap = newCap<S>(MinSize, this->capacity());
  void *n = malloc(cap * TSize);
  memcpy(n, this->BeginX, size() * TSize);
  if (this->BeginX != FirstEl)
    free(this->BeginX);
  this->BeginX = n;
  this->Capacity = cap;
}
template class llvm::SmallVectorBase<uint32_t>;
template class llvm::SmallVectorBase<uint64_t>;

extern "C" {
#undef isspace
#undef isdigit
#undef isalpha
#undef isalnum
int isspace(int c) { return (int)((c == 32) | ((c >= 9) & (c <= 13))); }
int isdigit(int c) { return (int)((c >= '0') & (c <= '9')); }
int isalpha(int c) { c |= 32; return (int)((c >= 'a') & (c <= 'z')); }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int tolower(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
int toupper(int c) { return ((c >= 'a') & (c <= 'z')) ? c - 32 : c; }
}

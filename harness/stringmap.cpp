// Instrumented stand-in for llvm::StringMapImpl (same layout and contract): one
// probe sequence from the first bucket, comparing keys byte by byte, so that a
// look-up with a symbolic key forks on the stored keys instead of enumerating
// its hash.
#include "llvm/ADT/StringMap.h"
#include <cstdlib>
#include <cstring>
using namespace llvm;

static inline unsigned *hashes(StringMapEntryBase **t, unsigned n) {
  return reinterpret_cast<unsigned *>(t + n + 1);
}
static StringMapEntryBase **table(unsigned n) {
  auto **t = static_cast<StringMapEntryBase **>(
      calloc(n + 1, sizeof(StringMapEntryBase *) + sizeof(unsigned)));
  t[n] = (StringMapEntryBase *)2;
  return t;
}
static bool sameKey(StringRef a, const char *b, size_t n) {
  if (a.size() != n)
    return false;
  unsigned d = 0;
  for (size_t i = 0; i < n; ++i)
    d |= (unsigned char)(a.data()[i] ^ b[i]);
  return d == 0;
}
StringMapImpl::StringMapImpl(unsigned InitSize, unsigned itemSize) {
  ItemSize = itemSize;
  TheTable = nullptr;
  NumBuckets = NumItems = NumTombstones = 0;
  if (InitSize)
    init(128);
}
void StringMapImpl::init(unsigned n) {
  NumItems = NumTombstones = 0;
  NumBuckets = n ? n : 16;
  TheTable = table(NumBuckets);
}
uint32_t StringMapImpl::hash(StringRef) { return 0; }
unsigned StringMapImpl::LookupBucketFor(StringRef Name, uint32_t h) {
  if (NumBuckets == 0)
    init(16);
  int tomb = -1;
  for (unsigned i = 0;; ++i) {
    StringMapEntryBase *e = TheTable[i];
    if (!e) {
      unsigned at = tomb != -1 ? tomb : i;
      hashes(TheTable, NumBuckets)[at] = h;
      return at;
    }
    if (e == getTombstoneVal()) {
      if (tomb == -1)
        tomb = i;
    } else if (sameKey(Name, (const char *)e + ItemSize, e->getKeyLength()))
      return i;
  }
}
int StringMapImpl::FindKey(StringRef Key, uint32_t) const {
  for (unsigned i = 0; i < NumBuckets; ++i) {
    StringMapEntryBase *e = TheTable[i];
    if (!e)
      return -1;
    if (e != getTombstoneVal() && sameKey(Key, (const char *)e + ItemSize, e->getKeyLength()))
      return i;
  }
  return -1;
}
void StringMapImpl::RemoveKey(StringMapEntryBase *V) {
  RemoveKey(StringRef((const char *)V + ItemSize, V->getKeyLength()));
}
StringMapEntryBase *StringMapImpl::RemoveKey(StringRef Key) {
  int b = FindKey(Key, 0);
  if (b == -1)
    return nullptr;
  StringMapEntryBase *r = TheTable[b];
  TheTable[b] = getTombstoneVal();
  --NumItems;
  ++NumTombstones;
  return r;
}
unsigned StringMapImpl::RehashTable(unsigned BucketNo) {
  if (NumItems * 4 <= NumBuckets * 3 && NumBuckets - (NumItems + NumTombstones) > NumBuckets / 8)
    return BucketNo;
  unsigned n = NumItems * 4 > NumBuckets * 3 ? NumBuckets * 2 : NumBuckets;
  StringMapEntryBase **t = table(n);
  unsigned at = BucketNo, k = 0;
  for (unsigned i = 0; i < NumBuckets; ++i)
    if (TheTable[i] && TheTable[i] != getTombstoneVal()) {
      if (i == BucketNo)
        at = k;
      t[k++] = TheTable[i];
    }
  free(TheTable);
  TheTable = t;
  NumBuckets = n;
  NumTombstones = 0;
  return at;
}

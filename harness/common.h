// Shared helpers of the Modeling harnesses: reference (spec) geometry over
// symbolic integer boxes, kept free of branches so that the specification adds
// no paths of its own.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "sym.h"
#include "marco/Modeling/IndexSet.h"
#include "marco/Modeling/MultidimensionalRange.h"
#include "marco/Modeling/Point.h"
#include "marco/Modeling/Range.h"
#include "llvm/ADT/SmallVector.h"
#include <string>

namespace spec {
using namespace marco::modeling;
using i64 = int64_t;
constexpr unsigned MAXR = 4;

struct Box {
  unsigned r = 0;
  i64 lo[MAXR], hi[MAXR];
};
struct Pt {
  unsigned r = 0;
  i64 c[MAXR];
};

static inline bool in(const Box &b, const Pt &p) {
  bool res = true;
  for (unsigned d = 0; d < b.r; ++d)
    res &= (p.c[d] >= b.lo[d]) & (p.c[d] < b.hi[d]);
  return res;
}
static inline i64 volume(const Box &b) {
  i64 v = 1;
  for (unsigned d = 0; d < b.r; ++d)
    v *= b.hi[d] - b.lo[d];
  return v;
}
static inline i64 imax(i64 a, i64 b) { return a > b ? a : b; }
static inline i64 imin(i64 a, i64 b) { return a < b ? a : b; }
/// Volume of the intersection of two boxes.
static inline i64 volumeAnd(const Box &a, const Box &b) {
  i64 v = 1;
  for (unsigned d = 0; d < a.r; ++d)
    v *= imax(0, imin(a.hi[d], b.hi[d]) - imax(a.lo[d], b.lo[d]));
  return v;
}
static inline Box boxAnd(const Box &a, const Box &b) {
  Box c;
  c.r = a.r;
  for (unsigned d = 0; d < a.r; ++d) {
    c.lo[d] = imax(a.lo[d], b.lo[d]);
    c.hi[d] = imax(c.lo[d], imin(a.hi[d], b.hi[d]));
  }
  return c;
}
static inline bool overlap(const Box &a, const Box &b) {
  bool res = true;
  for (unsigned d = 0; d < a.r; ++d)
    res &= (a.lo[d] < b.hi[d]) & (b.lo[d] < a.hi[d]);
  return res;
}
/// b contains a (a non-empty).
static inline bool covers(const Box &b, const Box &a) {
  bool res = true;
  for (unsigned d = 0; d < a.r; ++d)
    res &= (b.lo[d] <= a.lo[d]) & (a.hi[d] <= b.hi[d]);
  return res;
}
static inline bool sameBox(const Box &a, const Box &b) {
  bool res = a.r == b.r;
  if (!res)
    return false;
  for (unsigned d = 0; d < a.r; ++d)
    res &= (a.lo[d] == b.lo[d]) & (a.hi[d] == b.hi[d]);
  return res;
}

static inline Box symBox(unsigned r, i64 lo, i64 hi, const char *n = "b") {
  Box b;
  b.r = r;
  for (unsigned d = 0; d < r; ++d) {
    b.lo[d] = sym_int(n, lo, hi - 1);
    b.hi[d] = sym_int(n, lo + 1, hi);
    sym_assume(b.lo[d] < b.hi[d]);
  }
  return b;
}
/// As symBox, but the bounds in the dimensions after the first are enumerated,
/// one path for each: areas then are linear in what is left symbolic.
static inline Box symBoxPin(unsigned r, i64 lo, i64 hi, i64 lo1, i64 hi1, const char *n = "b") {
  Box b;
  b.r = r;
  b.lo[0] = sym_int(n, lo, hi - 1);
  b.hi[0] = sym_int(n, lo + 1, hi);
  sym_assume(b.lo[0] < b.hi[0]);
  for (unsigned d = 1; d < r; ++d) {
    b.lo[d] = sym_pick(n, lo1, hi1 - 1);
    b.hi[d] = sym_pick(n, b.lo[d] + 1, hi1);
  }
  return b;
}
static inline Pt symPt(unsigned r, i64 lo, i64 hi, const char *n = "p") {
  Pt p;
  p.r = r;
  for (unsigned d = 0; d < r; ++d)
    p.c[d] = sym_int(n, lo, hi);
  return p;
}
static inline MultidimensionalRange mdr(const Box &b) {
  llvm::SmallVector<Range, 4> rs;
  for (unsigned d = 0; d < b.r; ++d)
    rs.push_back(Range(b.lo[d], b.hi[d]));
  return MultidimensionalRange(rs);
}
static inline Point pnt(const Pt &p) {
  return Point(llvm::ArrayRef<i64>(p.c, p.r));
}
static inline Box boxOf(const MultidimensionalRange &m) {
  Box b;
  b.r = m.rank();
  for (unsigned d = 0; d < b.r && d < MAXR; ++d) {
    b.lo[d] = m[d].getBegin();
    b.hi[d] = m[d].getEnd();
  }
  return b;
}
static inline bool wellFormed(const Box &b) {
  bool res = true;
  for (unsigned d = 0; d < b.r; ++d)
    res &= b.lo[d] < b.hi[d];
  return res;
}
/// Number of stored ranges of a set that contain a point (0 or 1 when the set
/// stores a partition).
static inline i64 countIn(const IndexSet &s, const Pt &p, const char *rankId) {
  i64 n = 0;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it) {
    Box b = boxOf(*it);
    sym_assert(b.r == p.r, rankId);
    sym_assert(wellFormed(b), rankId);
    n += in(b, p) ? 1 : 0;
  }
  return n;
}
static inline i64 sumVolumes(const IndexSet &s) {
  i64 n = 0;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it)
    n += volume(boxOf(*it));
  return n;
}
} // namespace spec
#endif

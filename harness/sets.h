// Shared by the IndexSet harnesses: a set under test together with the
// membership predicate it must have at one arbitrary (symbolic) point.
#ifndef VERIF_SETS_H
#define VERIF_SETS_H
#include "common.h"
#include <vector>
namespace spec {
/// What must hold of a set whose points are exactly those p with m(p).
/// Since p is symbolic, "count == m" for every p means: the stored ranges are
/// pairwise disjoint and cover exactly the specified points.
static inline void checkSet(const IndexSet &s, const Pt &p, bool m, const char *id,
                            bool full = true) {
  i64 n = 0, sz = 0, k = 0;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it) {
    Box b = boxOf(*it);
    sym_assert(b.r == p.r, "rank-of-stored-range");
    sym_assert(wellFormed(b), "stored-range-wellformed");
    n += in(b, p) ? 1 : 0;
    sz += volume(b);
    ++k;
  }
  sym_assert(n == (m ? 1 : 0), id);
  sym_assert((k == 0) == s.empty(), "empty");
  if (full) {
    sym_assert((i64)s.size() == sz, "size");
    sym_assert(s.contains(pnt(p)) == m, "contains-point");
  }
}
static inline IndexSet small() { return IndexSet(1, 2); }
/// A tree already holding n ranges that no insertion of the harness touches:
/// unit boxes at -1000-3*i in dimension 0 (and 0 elsewhere).
static inline Box farBox(unsigned r, int i) {
  Box b;
  b.r = r;
  for (unsigned d = 0; d < r; ++d) {
    b.lo[d] = d == 0 ? -1000 - 3 * i : 0;
    b.hi[d] = b.lo[d] + 1;
  }
  return b;
}
/// Layout k of up to n disjoint boxes scattered over [0, ext)^r: the trees built
/// from them have several levels, and sibling nodes with overlapping boundaries.
static inline std::vector<Box> scatter(unsigned r, unsigned k, unsigned n, i64 ext) {
  std::vector<Box> v;
  uint64_t x = 0x9E3779B97F4A7C15ull * (k + 1);
  auto next = [&](i64 m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (i64)((x >> 33) % m); };
  for (int t = 0; t < 400 && v.size() < n; ++t) {
    Box b;
    b.r = r;
    for (unsigned d = 0; d < r; ++d) {
      b.lo[d] = next(ext);
      b.hi[d] = imin(ext, b.lo[d] + 1 + next(3));
    }
    bool free = true;
    for (const Box &o : v) free &= !overlap(o, b);
    if (free) v.push_back(b);
  }
  return v;
}
static inline bool inAny(const std::vector<Box> &v, const Pt &p) {
  bool r = false;
  for (const Box &b : v) r |= in(b, p);
  return r;
}
static inline IndexSet setOf(const std::vector<Box> &v, IndexSet s) {
  for (const Box &b : v) s += mdr(b);
  return s;
}
/// The boxes moved by an arbitrary offset of up to w in each dimension.
static inline std::vector<Box> moved(std::vector<Box> v, unsigned r, i64 w) {
  for (unsigned d = 0; d < r; ++d) {
    i64 o = sym_int("shift", -w, w);
    for (Box &b : v) { b.lo[d] += o; b.hi[d] += o; }
  }
  return v;
}
/// Two operands: a symbolic box against a layout (0: first, 1: second is the
/// box), or two layouts at every offset from each other (2).
struct Pair { std::vector<Box> a, b; IndexSet x, y; };
static inline Pair scatteredPair(unsigned r, int mode, int na, int nb, i64 ext, int layouts, IndexSet ea, IndexSet eb) {
  unsigned k = sym_choice("layout", layouts);
  Pair q;
  if (mode == 0) q.a.push_back(symBox(r, 0, ext)); else q.a = scatter(r, 2 * k, na, ext);
  if (mode == 1) q.b.push_back(symBox(r, 0, ext)); else q.b = scatter(r, 2 * k + 1, nb, ext);
  if (mode == 2) q.b = moved(q.b, r, ext);
  q.x = setOf(q.a, ea);
  q.y = setOf(q.b, eb);
  return q;
}
} // namespace spec
#endif

// C06: operations on the dimensions of a set (slice, take, drop, prepend,
// append) and its compact form keep exactly the specified points.
#include "sets.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/ADT/SmallBitVector.h"
using namespace spec;

struct Built {
  IndexSet s;
  llvm::SmallVector<Box, 4> b;
};
static Built built(unsigned r, int n, i64 lo, i64 hi, bool pin, IndexSet s = IndexSet()) {
  Built x;
  x.s = s;
  for (int i = 0; i < n; ++i) {
    Box b = pin && r > 1 ? symBoxPin(r, lo, hi, 0, 2) : symBox(r, lo, hi);
    x.b.push_back(b);
    x.s += mdr(b);
  }
  return x;
}
static Box project(const Box &b, unsigned mask) {
  Box c;
  c.r = 0;
  for (unsigned d = 0; d < b.r; ++d)
    if (mask >> d & 1) {
      c.lo[c.r] = b.lo[d];
      c.hi[c.r++] = b.hi[d];
    }
  return c;
}
static unsigned popcount(unsigned m) { return __builtin_popcount(m); }
static bool projected(const Built &x, unsigned mask, const Pt &q) {
  bool m = false;
  for (const Box &b : x.b)
    m |= in(project(b, mask), q);
  return m;
}
template <int R, int N> static void dims(i64 lo, i64 hi, bool pin) {
  Built x = built(R, N, lo, hi, pin);
  Pt all = symPt(R, lo, hi);
  unsigned op = sym_choice("op", 6);
  IndexSet y;
  unsigned mask = 0, full = (1u << R) - 1;
  if (op == 0 || op == 1) {
    mask = 1 + sym_choice("mask", full);
    if (op == 0) {
      llvm::BitVector f(R);
      for (unsigned d = 0; d < R; ++d)
        if (mask >> d & 1)
          f.set(d);
      y = x.s.slice(f);
    } else {
      llvm::SmallBitVector f(R);
      for (unsigned d = 0; d < R; ++d)
        if (mask >> d & 1)
          f.set(d);
      y = x.s.takeDimensions(f);
    }
  } else if (op == 2 || op == 3) {
    unsigned n = 1 + sym_choice("n", R);
    mask = op == 2 ? (1u << n) - 1 : full & ~((1u << (R - n)) - 1);
    y = op == 2 ? x.s.takeFirstDimensions(n) : x.s.takeLastDimensions(n);
  } else {
    unsigned n = sym_choice("n", R);
    mask = op == 4 ? full & ~((1u << n) - 1) : (1u << (R - n)) - 1;
    y = op == 4 ? x.s.dropFirstDimensions(n) : x.s.dropLastDimensions(n);
  }
  Pt q;
  q.r = 0;
  for (unsigned d = 0; d < R; ++d)
    if (mask >> d & 1)
      q.c[q.r++] = all.c[d];
  bool m = projected(x, mask, q);
  static const char *const names[] = {"slice", "takeDimensions", "takeFirstDimensions", "takeLastDimensions",
                                      "dropFirstDimensions", "dropLastDimensions"};
  sym_assert(N == 0 || y.rank() == popcount(mask), "rank");
  checkSet(y, q, m, names[op], N < 2 || pin || R == 1);
  sym_reach("done");
}
HARNESS(dims_1d2) { dims<1, 2>(-1000, 1000, false); }
HARNESS(dims_2d0) { dims<2, 0>(-1000, 1000, false); }
HARNESS(dims_2d1) { dims<2, 1>(-1000, 1000, false); }
HARNESS(dims_2d2) { dims<2, 2>(0, 30, true); }
HARNESS(dims_2d3) { dims<2, 3>(0, 30, true); }
HARNESS(dims_3d1) { dims<3, 1>(-1000, 1000, false); }
HARNESS(dims_3d2) { dims<3, 2>(0, 30, true); }

template <int R, int Q>
static void product(i64 lo, i64 hi, int na, int nb, bool pin, IndexSet s, IndexSet t) {
  Built x = built(R, na, lo, hi, pin, s), y = built(Q, nb, lo, hi, pin, t);
  Pt p = symPt(R, lo, hi), q = symPt(Q, lo, hi, "q");
  bool mx = false, my = false;
  for (const Box &b : x.b)
    mx |= in(b, p);
  for (const Box &b : y.b)
    my |= in(b, q);
  Pt pq, qp;
  pq.r = qp.r = R + Q;
  for (int d = 0; d < R; ++d)
    pq.c[d] = p.c[d], qp.c[Q + d] = p.c[d];
  for (int d = 0; d < Q; ++d)
    pq.c[R + d] = q.c[d], qp.c[d] = q.c[d];
  checkSet(x.s.append(y.s), pq, mx & my, "append", R + Q < 3 && na + nb < 3);
  checkSet(x.s.prepend(y.s), qp, mx & my, "prepend", R + Q < 3 && na + nb < 3);
  sym_reach("done");
}
HARNESS(prod_11_11) { product<1, 1>(-1000, 1000, 1, 1, false, IndexSet(), IndexSet()); }
HARNESS(prod_11_21) { product<1, 1>(-1000, 1000, 2, 1, false, IndexSet(), IndexSet()); }
HARNESS(prod_11_12) { product<1, 1>(-1000, 1000, 1, 2, false, IndexSet(), IndexSet()); }
HARNESS(prod_11_22) { product<1, 1>(-1000, 1000, 2, 2, false, IndexSet(), IndexSet()); }
HARNESS(prod_12_11) { product<1, 2>(-1000, 1000, 1, 1, false, IndexSet(), IndexSet()); }
HARNESS(prod_21_12) { product<2, 1>(0, 30, 1, 2, true, IndexSet(), IndexSet()); }
HARNESS(prod_11_10) { product<1, 1>(-1000, 1000, 1, 0, false, IndexSet(), IndexSet()); }
HARNESS(prod_11_01) { product<1, 1>(-1000, 1000, 0, 1, false, IndexSet(), IndexSet()); }

// the compact ranges are a partition of the set
template <int R, int N> static void compact(i64 lo, i64 hi, bool pin, IndexSet s) {
  Built x = built(R, N, lo, hi, pin, s);
  Pt p = symPt(R, lo, hi);
  bool m = false;
  for (const Box &b : x.b)
    m |= in(b, p);
  llvm::SmallVector<MultidimensionalRange> v;
  x.s.getCompactRanges(v);
  i64 n = 0;
  for (const MultidimensionalRange &r : v) {
    Box b = boxOf(r);
    sym_assert(b.r == R, "compact-rank");
    sym_assert(wellFormed(b), "compact-wellformed");
    n += in(b, p) ? 1 : 0;
  }
  sym_assert(n == (m ? 1 : 0), "compact-ranges");
  sym_assert(N == 0 || (i64)v.size() >= 1, "compact-empty");
  checkSet(x.s, p, m, "operand-unchanged", false);
  sym_reach("done");
}
HARNESS(compact_1d0) { compact<1, 0>(-1000, 1000, false, IndexSet()); }
HARNESS(compact_1d3) { compact<1, 3>(-1000, 1000, false, IndexSet()); }
HARNESS(compact_1d3s) { compact<1, 3>(0, 30, false, small()); }
HARNESS(compact_2d1) { compact<2, 1>(-1000, 1000, false, IndexSet()); }
HARNESS(compact_2d2) { compact<2, 2>(0, 30, false, IndexSet()); }
HARNESS(compact_2d2p) { compact<2, 2>(0, 30, true, small()); }
HARNESS(compact_2d3p) { compact<2, 3>(0, 30, true, IndexSet()); }
HARNESS(compact_3d2p) { compact<3, 2>(0, 30, true, IndexSet()); }

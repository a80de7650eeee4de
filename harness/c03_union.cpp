// C03: building a set from ranges or points, and uniting sets, yields exactly
// the union of the points, stored as disjoint ranges.
#include "sets.h"
using namespace spec;
static const i64 LIM = 1ll << 20;

template <int R, int N> static void build(i64 lo, i64 hi) {
  llvm::SmallVector<MultidimensionalRange, 4> v;
  Pt p = symPt(R, lo, hi);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(R, lo, hi);
    v.push_back(mdr(b));
    m |= in(b, p);
  }
  IndexSet s{llvm::ArrayRef<MultidimensionalRange>(v)};
  sym_assert(s.rank() == R, "rank");
  checkSet(s, p, m, "build-union");
  sym_reach("done");
}
HARNESS(build_1d3) { build<1, 3>(-LIM, LIM); }
HARNESS(build_1d4) { build<1, 4>(-LIM, LIM); }
HARNESS(build_2d2) { build<2, 2>(-LIM, LIM); }
HARNESS(build_3d2) { build<3, 2>(0, 1000); }
HARNESS(build_2d3g) { build<2, 3>(0, 3); }
HARNESS(build_2d3) { build<2, 3>(0, 1000); }
HARNESS(build_2d4g) { build<2, 4>(0, 3); }
HARNESS(build_3d3g) { build<3, 3>(0, 2); }

// one symbolic range among concrete ones that sort before and after it
HARNESS(build_scan) {
  Pt p = symPt(2, 0, 12);
  llvm::SmallVector<MultidimensionalRange, 4> v;
  bool m = false;
  const i64 fixed[2][4] = {{0, 10, 0, 2}, {1, 2, 5, 6}};
  for (auto &f : fixed) {
    Box b;
    b.r = 2;
    b.lo[0] = f[0], b.hi[0] = f[1], b.lo[1] = f[2], b.hi[1] = f[3];
    v.push_back(mdr(b));
    m |= in(b, p);
  }
  for (int i = 0; i < 2; ++i) {
    Box b = symBox(2, 0, 12);
    v.push_back(mdr(b));
    m |= in(b, p);
  }
  IndexSet s{llvm::ArrayRef<MultidimensionalRange>(v)};
  checkSet(s, p, m, "build-union");
  sym_reach("done");
}
template <int R, int N> static void plus(i64 lo, i64 hi, IndexSet s) {
  Pt p = symPt(R, lo, hi);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(R, lo, hi);
    m |= in(b, p);
    s += mdr(b);
  }
  checkSet(s, p, m, "plus-union");
  sym_assert(s.rank() == R, "rank");
  sym_reach("done");
}
HARNESS(plus_1d3) { plus<1, 3>(-LIM, LIM, IndexSet()); }
HARNESS(plus_1d4) { plus<1, 4>(-LIM, LIM, IndexSet()); }
HARNESS(plus_1d4s) { plus<1, 4>(0, 30, small()); }
HARNESS(plus_1d5s) { plus<1, 5>(0, 30, small()); }
HARNESS(plus_2d2) { plus<2, 2>(-LIM, LIM, IndexSet()); }
template <int R, int N> static void plusPin(IndexSet s) {
  Pt p = symPt(R, 0, 30);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBoxPin(R, 0, 30, 0, 2);
    m |= in(b, p);
    s += mdr(b);
  }
  checkSet(s, p, m, "plus-union");
  sym_reach("done");
}
HARNESS(plus_2d2s) { plusPin<2, 2>(small()); }
HARNESS(plus_2d3s) { plusPin<2, 3>(small()); }
HARNESS(plus_2d4s) { plusPin<2, 4>(small()); }
HARNESS(plus_3d2) { plus<3, 2>(0, 1000, IndexSet()); }
HARNESS(plus_2d3) { plus<2, 3>(0, 1000, IndexSet()); }
HARNESS(plus_2d3g) { plus<2, 3>(0, 3, IndexSet()); }

// Inserting into a tree whose root is a full leaf of the default fan-out, so
// that it splits.
template <int R, int N, int K> static void full() {
  IndexSet s;
  Pt p = symPt(R, -2000, 100);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = farBox(R, i);
    s += mdr(b);
    m |= in(b, p);
  }
  for (int i = 0; i < K; ++i) {
    Box b = symBox(R, -2000, 100);
    // few enough relations with the concrete ranges
    sym_assume(b.lo[0] >= -1010);
    s += mdr(b);
    m |= in(b, p);
  }
  checkSet(s, p, m, "plus-union", false);
  sym_assert(s.contains(pnt(p)) == m, "contains-point");
  sym_reach("done");
}
HARNESS(full_1d16) { full<1, 16, 1>(); }
HARNESS(full_2d16) { full<2, 16, 1>(); }
HARNESS(full_1d16x2) { full<1, 16, 2>(); }
// Building more than 16 ranges at once uses the bulk loader.
HARNESS(bulk) {
  unsigned n = 17 + sym_choice("n", 8);
  llvm::SmallVector<MultidimensionalRange> v;
  Pt p = symPt(2, -2000, 100);
  bool m = false;
  for (unsigned i = 0; i < n; ++i) {
    Box b = farBox(2, i);
    v.push_back(mdr(b));
    m |= in(b, p);
  }
  Box b = symBox(2, -1004, 100);
  v.push_back(mdr(b));
  m |= in(b, p);
  IndexSet s{llvm::ArrayRef<MultidimensionalRange>(v)};
  checkSet(s, p, m, "build-union", false);
  sym_assert(s.contains(pnt(p)) == m, "contains-point");
  sym_reach("done");
}
HARNESS(bulk_deep) {
  // enough ranges for three levels of nodes
  llvm::SmallVector<MultidimensionalRange> v;
  unsigned n = 64 + sym_choice("n", 8);
  Pt p = symPt(1, -3000, 100);
  bool m = false;
  for (unsigned i = 0; i < n; ++i) {
    Box b = farBox(1, i);
    v.push_back(mdr(b));
    m |= in(b, p);
  }
  IndexSet s{llvm::ArrayRef<MultidimensionalRange>(v)};
  sym_assert(s.size() == n, "size");
  sym_assert(s.contains(pnt(p)) == m, "contains-point");
  Box b = symBox(1, -1002, 100);
  s += mdr(b);
  m |= in(b, p);
  sym_assert(s.contains(pnt(p)) == m, "contains-point");
  sym_reach("done");
}

// set + set, with the operands unchanged by the non-assigning form
template <int R> static void sets(i64 lo, i64 hi, int na, int nb, IndexSet x, IndexSet y) {
  Pt p = symPt(R, lo, hi);
  bool ma = false, mb = false;
  for (int i = 0; i < na; ++i) {
    Box b = symBox(R, lo, hi);
    ma |= in(b, p);
    x += mdr(b);
  }
  for (int i = 0; i < nb; ++i) {
    Box b = symBox(R, lo, hi);
    mb |= in(b, p);
    y += mdr(b);
  }
  IndexSet z = x + y;
  checkSet(z, p, ma | mb, "set-union");
  checkSet(x, p, ma, "left-operand-unchanged", false);
  checkSet(y, p, mb, "right-operand-unchanged", false);
  x += y;
  checkSet(x, p, ma | mb, "set-union-assign", false);
  sym_reach("done");
}
HARNESS(sets_1d21) { sets<1>(-LIM, LIM, 2, 1, IndexSet(), IndexSet()); }
HARNESS(sets_1d12) { sets<1>(-LIM, LIM, 1, 2, IndexSet(), IndexSet()); }
HARNESS(sets_1d22s) { sets<1>(0, 30, 2, 2, small(), small()); }
HARNESS(sets_2d11) { sets<2>(-LIM, LIM, 1, 1, IndexSet(), IndexSet()); }
HARNESS(sets_2d10) { sets<2>(-LIM, LIM, 1, 0, IndexSet(), IndexSet()); }
HARNESS(sets_2d01) { sets<2>(-LIM, LIM, 0, 1, IndexSet(), IndexSet()); }
HARNESS(sets_2d21g) { sets<2>(0, 3, 2, 1, small(), small()); }

template <int R, int N> static void points(i64 lo, i64 hi) {
  llvm::SmallVector<Point, 4> v;
  Pt p = symPt(R, lo, hi);
  bool m = false;
  IndexSet t;
  for (int i = 0; i < N; ++i) {
    Pt q = symPt(R, lo, hi, "q");
    v.push_back(pnt(q));
    t += pnt(q);
    bool eq = true;
    for (int d = 0; d < R; ++d)
      eq &= p.c[d] == q.c[d];
    m |= eq;
  }
  IndexSet s{llvm::ArrayRef<Point>(v)};
  checkSet(s, p, m, "points-build");
  checkSet(t, p, m, "points-plus");
  sym_reach("done");
}
HARNESS(points_1d3) { points<1, 3>(-LIM, LIM); }
HARNESS(points_2d2) { points<2, 2>(-LIM, LIM); }
HARNESS(points_2d3g) { points<2, 3>(0, 3); }

// setFromRanges replaces the previous content
HARNESS(replace) {
  Pt p = symPt(1, -LIM, LIM);
  Box a = symBox(1, -LIM, LIM, "a"), b = symBox(1, -LIM, LIM, "b"), c = symBox(1, -LIM, LIM, "c");
  IndexSet s{llvm::ArrayRef<MultidimensionalRange>({mdr(a)})};
  llvm::SmallVector<MultidimensionalRange, 2> v;
  v.push_back(mdr(b));
  v.push_back(mdr(c));
  s.setFromRanges(v);
  checkSet(s, p, in(b, p) | in(c, p), "replace");
  IndexSet u(s);
  checkSet(u, p, in(b, p) | in(c, p), "copy");
  s.clear();
  checkSet(s, p, false, "clear");
  checkSet(u, p, in(b, p) | in(c, p), "copy-independent");
  s = u;
  checkSet(s, p, in(b, p) | in(c, p), "assign");
  sym_reach("done");
}

// Deep trees on either side: a symbolic box, or a second layout at every offset.
template <int R> static void scattered(int mode, int na, int nb, i64 ext, int layouts, IndexSet ea, IndexSet eb) {
  Pair q = scatteredPair(R, mode, na, nb, ext, layouts, ea, eb);
  Pt p = symPt(R, -ext, 2 * ext);
  bool ma = inAny(q.a, p), mb = inAny(q.b, p);
  IndexSet z = q.x + q.y;
  checkSet(z, p, ma | mb, "union", false);
  checkSet(q.x, p, ma, "left-operand-unchanged", false);
  checkSet(q.y, p, mb, "right-operand-unchanged", false);
  sym_reach("done");
}
HARNESS(scat_box1) { scattered<1>(0, 0, 12, 24, 4, small(), small()); }
HARNESS(scat_box2) { scattered<2>(1, 14, 0, 6, 3, small(), small()); }
HARNESS(scat_box2d) { scattered<2>(1, 26, 0, 8, 2, IndexSet(), IndexSet()); }
HARNESS(scat_box3) { scattered<3>(1, 10, 0, 4, 2, small(), small()); }
HARNESS(scat_two1) { scattered<1>(2, 10, 10, 24, 8, small(), small()); }
HARNESS(scat_two2) { scattered<2>(2, 12, 12, 7, 4, small(), small()); }
HARNESS(scat_two2d) { scattered<2>(2, 24, 24, 7, 2, IndexSet(), IndexSet()); }
HARNESS(scat_two2m) { scattered<2>(2, 5, 24, 8, 3, small(), IndexSet()); }
HARNESS(scat_two3) { scattered<3>(2, 14, 14, 5, 2, small(), small()); }

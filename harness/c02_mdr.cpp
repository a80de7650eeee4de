// C02: multidimensional ranges behave as the boxes of points they denote.
#include "common.h"
#include "llvm/ADT/SmallBitVector.h"
using namespace spec;
static const i64 LIM = 1ll << 20;

template <int R> static void relations() {
  Box a = symBox(R, -LIM, LIM, "a"), b = symBox(R, -LIM, LIM, "b");
  MultidimensionalRange x = mdr(a), y = mdr(b);
  Pt p = symPt(R, -LIM, LIM);
  sym_assert(x.rank() == R, "rank");
  sym_assert(sameBox(boxOf(x), a), "construction");
  sym_assert(x.contains(pnt(p)) == in(a, p), "contains-point");
  sym_assert(x.contains(y) == covers(a, b), "contains-range");
  sym_assert(x.overlaps(y) == overlap(a, b), "overlaps");
  bool eq = sameBox(a, b);
  sym_assert((x == y) == eq, "eq");
  sym_assert((x != y) == !eq, "neq");
  bool any = false;
  for (int d = 0; d < R; ++d)
    any |= (a.lo[d] < b.hi[d]) & (b.lo[d] < a.hi[d]);
  sym_assert(x.anyDimensionOverlaps(y) == any, "any-dimension");
  int c = x.compare(y), e = y.compare(x);
  sym_assert((c == 0) == eq, "compare-zero");
  sym_assert((c < 0) == (e > 0), "compare-antisymmetric");
  sym_assert((x < y) == (c < 0), "less");
  sym_assert((x > y) == (c > 0), "greater");
  sym_reach("done");
}
HARNESS(mdr_rel1) { relations<1>(); }
HARNESS(mdr_rel2) { relations<2>(); }
HARNESS(mdr_rel3) { relations<3>(); }

template <int R> static void pointEq() {
  Box a = symBox(R, -LIM, LIM, "a");
  Pt p = symPt(R, -LIM, LIM);
  MultidimensionalRange x = mdr(a);
  bool eq = true;
  for (int d = 0; d < R; ++d)
    eq &= (a.lo[d] == p.c[d]) & (a.hi[d] == p.c[d] + 1);
  sym_assert((x == pnt(p)) == eq, "eq-point");
  sym_assert((x != pnt(p)) == !eq, "neq-point");
  MultidimensionalRange q(pnt(p));
  sym_assert(q == pnt(p), "point-range-eq");
  sym_assert(q.contains(pnt(p)), "point-range-contains");
  sym_assert(q.size() == 1, "point-range-size");
  sym_reach("done");
}
HARNESS(mdr_point1) { pointEq<1>(); }
HARNESS(mdr_point2) { pointEq<2>(); }
HARNESS(mdr_point3) { pointEq<3>(); }

template <int R> static void setops() {
  Box a = symBox(R, -LIM, LIM, "a"), b = symBox(R, -LIM, LIM, "b");
  MultidimensionalRange x = mdr(a), y = mdr(b);
  Pt p = symPt(R, -LIM, LIM);
  bool ia = in(a, p), ib = in(b, p);
  if (x.overlaps(y)) {
    sym_reach("overlap");
    Box z = boxOf(x.intersect(y));
    sym_assert(z.r == R && wellFormed(z), "intersect-wellformed");
    sym_assert(in(z, p) == (ia & ib), "intersect");
  }
  i64 n = 0;
  for (const MultidimensionalRange &m : x.subtract(y)) {
    Box z = boxOf(m);
    sym_assert(z.r == R && wellFormed(z), "subtract-wellformed");
    n += in(z, p) ? 1 : 0;
  }
  sym_assert(n == ((ia & !ib) ? 1 : 0), "subtract-partition");
}
HARNESS(mdr_set1) { setops<1>(); }
HARNESS(mdr_set2) { setops<2>(); }
HARNESS(mdr_set3) { setops<3>(); }

template <int R> static void merging() {
  Box a = symBox(R, -LIM, LIM, "a"), b = symBox(R, -LIM, LIM, "b");
  MultidimensionalRange x = mdr(a), y = mdr(b);
  Pt p = symPt(R, -LIM, LIM);
  auto m = x.canBeMerged(y);
  if (m.first) {
    sym_reach("merge");
    sym_assert(m.second < R, "merge-dimension");
    Box z = boxOf(x.merge(y, m.second));
    sym_assert(z.r == R && wellFormed(z), "merge-wellformed");
    sym_assert(in(z, p) == (in(a, p) | in(b, p)), "merge-union");
  } else {
    // not mergeable: equal, or the union is not a box along one dimension
    int diff = 0;
    bool apart = false;
    for (int d = 0; d < R; ++d) {
      bool same = (a.lo[d] == b.lo[d]) & (a.hi[d] == b.hi[d]);
      diff += same ? 0 : 1;
      apart |= (a.hi[d] < b.lo[d]) | (b.hi[d] < a.lo[d]);
    }
    sym_assert((diff != 1) | apart, "merge-complete");
  }
}
HARNESS(mdr_merge1) { merging<1>(); }
HARNESS(mdr_merge2) { merging<2>(); }
HARNESS(mdr_merge3) { merging<3>(); }

template <int R> static void dims() {
  Box a = symBox(R, -LIM, LIM, "a");
  MultidimensionalRange x = mdr(a);
  unsigned k = 1 + sym_choice("k", R); // 1..R
  auto sub = [&](unsigned from, unsigned n) {
    Box s;
    s.r = n;
    for (unsigned d = 0; d < n; ++d) {
      s.lo[d] = a.lo[from + d];
      s.hi[d] = a.hi[from + d];
    }
    return s;
  };
  sym_assert(sameBox(boxOf(x.takeFirstDimensions(k)), sub(0, k)), "take-first");
  sym_assert(sameBox(boxOf(x.takeLastDimensions(k)), sub(R - k, k)), "take-last");
  sym_assert(sameBox(boxOf(x.slice(k)), sub(0, k)), "slice");
  if (k < R) {
    sym_assert(sameBox(boxOf(x.dropFirstDimensions(k)), sub(k, R - k)), "drop-first");
    sym_assert(sameBox(boxOf(x.dropLastDimensions(k)), sub(0, R - k)), "drop-last");
  }
  unsigned mask = 1 + sym_choice("mask", (1u << R) - 1);
  llvm::BitVector bv(R);
  llvm::SmallBitVector sbv(R);
  Box s;
  s.r = 0;
  for (int d = 0; d < R; ++d)
    if (mask >> d & 1) {
      bv.set(d);
      sbv.set(d);
      s.lo[s.r] = a.lo[d];
      s.hi[s.r] = a.hi[d];
      ++s.r;
    }
  sym_assert(sameBox(boxOf(x.slice(bv)), s), "slice-mask");
  sym_assert(sameBox(boxOf(x.takeDimensions(sbv)), s), "take-mask");
  Box b = symBox(1, -LIM, LIM, "b");
  Box ba = sub(0, R), ab = sub(0, R);
  ba.r = ab.r = R + 1;
  for (int d = R; d > 0; --d) {
    ba.lo[d] = a.lo[d - 1];
    ba.hi[d] = a.hi[d - 1];
  }
  ba.lo[0] = b.lo[0];
  ba.hi[0] = b.hi[0];
  ab.lo[R] = b.lo[0];
  ab.hi[R] = b.hi[0];
  sym_assert(sameBox(boxOf(x.prepend(mdr(b))), ba), "prepend");
  sym_assert(sameBox(boxOf(x.append(mdr(b))), ab), "append");
  sym_reach("done");
}
HARNESS(mdr_dims1) { dims<1>(); }
HARNESS(mdr_dims2) { dims<2>(); }
HARNESS(mdr_dims3) { dims<3>(); }

template <int R> static void sizes() {
  Box a = symBox(R, 0, 200, "a");
  MultidimensionalRange x = mdr(a);
  sym_assert((i64)x.size() == volume(a), "size");
  llvm::SmallVector<size_t> sz;
  x.getSizes(sz);
  sym_assert(sz.size() == R, "sizes-count");
  for (int d = 0; d < R; ++d)
    sym_assert((i64)sz[d] == a.hi[d] - a.lo[d], "sizes");
  sym_reach("done");
}
// Sizes of large boxes: every bound free, or one dimension free and the others
// picked, so that volumes pass 2^31 and 2^32.
template <int R> static void bigSizes() {
  Box a;
  a.r = R;
  i64 v = 1;
  unsigned f = sym_choice("free", R);
  for (unsigned d = 0; d < R; ++d) {
    i64 w = d == f ? sym_int("width", 1, 1 << 20) : (i64)1 << (9 * sym_choice("log", 4));
    a.lo[d] = sym_int("lo", -(1 << 20), 1 << 20);
    a.hi[d] = a.lo[d] + w;
    v *= w;
  }
  MultidimensionalRange x = mdr(a);
  sym_assert((i64)x.size() == v, "size");
  sym_reach("done");
}
HARNESS(mdr_big1) { bigSizes<1>(); }
HARNESS(mdr_big2) { bigSizes<2>(); }
HARNESS(mdr_big3) { bigSizes<3>(); }
HARNESS(mdr_size2) { sizes<2>(); }
HARNESS(mdr_size3) { sizes<3>(); }

// Iteration visits every point once, in lexicographic order.
template <int R, int E> static void iteration() {
  Box a;
  a.r = R;
  i64 total = 1;
  for (int d = 0; d < R; ++d) {
    a.lo[d] = sym_int("lo", -LIM, LIM);
    i64 n = 1 + sym_choice("n", E);
    a.hi[d] = a.lo[d] + n;
    total *= n;
  }
  MultidimensionalRange x = mdr(a);
  i64 cnt = 0;
  Pt prev;
  prev.r = R;
  for (Point q : x) {
    sym_assert(q.rank() == R, "iter-rank");
    Pt p;
    p.r = R;
    for (int d = 0; d < R; ++d)
      p.c[d] = q[d];
    sym_assert(in(a, p), "iter-inside");
    if (cnt > 0) {
      bool lt = false, eq = true;
      for (int d = 0; d < R; ++d) {
        lt |= eq & (prev.c[d] < p.c[d]);
        eq &= prev.c[d] == p.c[d];
      }
      sym_assert(lt, "iter-order");
    }
    prev = p;
    ++cnt;
    sym_assert(cnt <= total, "iter-length");
  }
  sym_assert(cnt == total, "iter-count");
  sym_reach("done");
}
HARNESS(mdr_iter1) { iteration<1, 5>(); }
HARNESS(mdr_iter2) { iteration<2, 3>(); }
HARNESS(mdr_iter3) { iteration<3, 2>(); }

// Points
template <int R> static void points() {
  Pt p = symPt(R, -LIM, LIM, "p"), q = symPt(R, -LIM, LIM, "q");
  Point x = pnt(p), y = pnt(q);
  bool eq = true, lt = false;
  for (int d = 0; d < R; ++d) {
    lt |= eq & (p.c[d] < q.c[d]);
    eq &= p.c[d] == q.c[d];
  }
  sym_assert((x == y) == eq, "point-eq");
  sym_assert((x != y) == !eq, "point-neq");
  int c = x.compare(y);
  sym_assert((c == 0) == eq, "point-compare");
  sym_assert((c < 0) == lt, "point-compare-less");
  sym_assert((x < y) == lt, "point-less");
  Point z = x.append(y);
  sym_assert(z.rank() == 2 * R, "point-append-rank");
  for (int d = 0; d < R; ++d) {
    sym_assert(z[d] == p.c[d], "point-append");
    sym_assert(z[R + d] == q.c[d], "point-append");
  }
  unsigned k = 1 + sym_choice("k", R);
  Point f = x.takeFront(k), b = x.takeBack(k);
  sym_assert(f.rank() == k && b.rank() == k, "point-take-rank");
  for (unsigned d = 0; d < k; ++d) {
    sym_assert(f[d] == p.c[d], "point-front");
    sym_assert(b[d] == p.c[R - k + d], "point-back");
  }
  unsigned mask = sym_choice("mask", 1u << R);
  llvm::BitVector bv(R);
  for (int d = 0; d < R; ++d)
    if (mask >> d & 1)
      bv.set(d);
  Point s = x.slice(bv);
  unsigned j = 0;
  for (int d = 0; d < R; ++d)
    if (mask >> d & 1) {
      sym_assert(j < s.rank() && s[j] == p.c[d], "point-slice");
      ++j;
    }
  sym_assert(j == s.rank(), "point-slice-rank");
  sym_reach("done");
}
HARNESS(point1) { points<1>(); }
HARNESS(point2) { points<2>(); }
HARNESS(point3) { points<3>(); }

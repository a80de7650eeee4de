// C05: containment, overlap and intersection answer exactly what the two point
// sets say, whatever the operands and the shape of their trees.
#include "sets.h"
using namespace spec;
static const i64 LIM = 1ll << 20;

/// A set built from n boxes (by insertion, or in bulk), with its specification.
struct Built {
  IndexSet s;
  llvm::SmallVector<Box, 8> b;
  bool has(const Pt &p) const {
    bool m = false;
    for (const Box &x : b)
      m |= in(x, p);
    return m;
  }
};
static Built built(unsigned r, int n, i64 lo, i64 hi, IndexSet s, bool pin, bool bulk = false) {
  Built x;
  x.s = s;
  llvm::SmallVector<MultidimensionalRange, 4> v;
  for (int i = 0; i < n; ++i) {
    Box b = pin && r > 1 ? symBoxPin(r, lo, hi, 0, 2) : symBox(r, lo, hi);
    x.b.push_back(b);
    if (bulk)
      v.push_back(mdr(b));
    else
      x.s += mdr(b);
  }
  if (bulk)
    x.s.setFromRanges(v);
  return x;
}
static i64 common(const IndexSet &s, const Box &q) {
  i64 n = 0;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it)
    n += volumeAnd(boxOf(*it), q);
  return n;
}
static i64 common(const IndexSet &s, const IndexSet &t) {
  i64 n = 0;
  for (auto it = t.rangesBegin(), e = t.rangesEnd(); it != e; ++it)
    n += common(s, boxOf(*it));
  return n;
}
// set against a range
template <int R, int N> static void rng(i64 lo, i64 hi, IndexSet s, bool pin, bool bulk = false) {
  Built x = built(R, N, lo, hi, s, pin, bulk);
  Box q = pin && R > 1 ? symBoxPin(R, lo, hi, 0, 2, "q") : symBox(R, lo, hi, "q");
  Pt p = symPt(R, lo, hi);
  bool m = x.has(p);
  bool c = x.s.contains(mdr(q)), o = x.s.overlaps(mdr(q)), any = false;
  for (const Box &b : x.b)
    any |= overlap(b, q);
  sym_assert(o == any, "overlaps-range");
  sym_assert(!c | !in(q, p) | m, "contains-range-unsound");
  // the stored ranges partition the set (C03): the box is missing a point iff
  // the stored ranges do not fill it
  sym_assert(c == (common(x.s, q) == volume(q)), "contains-range");
  IndexSet y = x.s.intersect(mdr(q));
  checkSet(y, p, m & in(q, p), "intersect-range");
  checkSet(x.s, p, m, "operand-unchanged", false);
  sym_reach("done");
}
HARNESS(rng_1d0) { rng<1, 0>(-LIM, LIM, IndexSet(), false); }
HARNESS(rng_1d1) { rng<1, 1>(-LIM, LIM, IndexSet(), false); }
HARNESS(rng_1d2) { rng<1, 2>(-LIM, LIM, IndexSet(), false); }
HARNESS(rng_1d3) { rng<1, 3>(-LIM, LIM, IndexSet(), false, true); }
HARNESS(rng_1d3s) { rng<1, 3>(0, 30, small(), false); }
HARNESS(rng_2d1) { rng<2, 1>(0, 30, IndexSet(), true); }
HARNESS(rng_2d2) { rng<2, 2>(0, 30, IndexSet(), true); }
HARNESS(rng_2d2s) { rng<2, 2>(0, 30, small(), true); }
HARNESS(rng_2d3s) { rng<2, 3>(0, 30, small(), true); }
HARNESS(rng_3d1) { rng<3, 1>(0, 30, IndexSet(), true); }

// contains / overlap only, with every bound of the two boxes free: the areas
// are not needed for one stored range
template <int R> static void one() {
  Box a = symBox(R, -LIM, LIM), q = symBox(R, -LIM, LIM, "q");
  Pt p = symPt(R, -LIM, LIM);
  IndexSet s(mdr(a));
  sym_assert(s.contains(mdr(q)) == covers(a, q), "contains-range");
  sym_assert(s.overlaps(mdr(q)) == overlap(a, q), "overlaps-range");
  sym_assert(s.contains(IndexSet(mdr(q))) == covers(a, q), "contains-set");
  sym_assert(s.overlaps(IndexSet(mdr(q))) == overlap(a, q), "overlaps-set");
  sym_assert(s.contains(pnt(p)) == in(a, p), "contains-point");
  checkSet(s.intersect(mdr(q)), p, in(a, p) & in(q, p), "intersect-range", false);
  checkSet(s.intersect(IndexSet(mdr(q))), p, in(a, p) & in(q, p), "intersect-set", false);
  sym_reach("done");
}
HARNESS(one_2d) { one<2>(); }
HARNESS(one_3d) { one<3>(); }

// set against a set
template <int R>
static void set(i64 lo, i64 hi, int na, int nb, IndexSet s, IndexSet t, bool pin) {
  Built x = built(R, na, lo, hi, s, pin), y = built(R, nb, lo, hi, t, pin);
  Pt p = symPt(R, lo, hi);
  bool mx = x.has(p), my = y.has(p);
  bool any = false;
  for (const Box &a : x.b)
    for (const Box &b : y.b)
      any |= overlap(a, b);
  sym_assert(x.s.overlaps(y.s) == any, "overlaps-set");
  bool c = x.s.contains(y.s);
  sym_assert(!c | !my | mx, "contains-set-unsound");
  sym_assert(c == (common(x.s, y.s) == (i64)y.s.size()), "contains-set");
  IndexSet z = x.s.intersect(y.s);
  checkSet(z, p, mx & my, "intersect-set");
  checkSet(x.s, p, mx, "left-unchanged", false);
  checkSet(y.s, p, my, "right-unchanged", false);
  sym_reach("done");
}
HARNESS(set_1d00) { set<1>(-LIM, LIM, 0, 0, IndexSet(), IndexSet(), false); }
HARNESS(set_1d10) { set<1>(-LIM, LIM, 1, 0, IndexSet(), IndexSet(), false); }
HARNESS(set_1d01) { set<1>(-LIM, LIM, 0, 1, IndexSet(), IndexSet(), false); }
HARNESS(set_1d11) { set<1>(-LIM, LIM, 1, 1, IndexSet(), IndexSet(), false); }
HARNESS(set_1d21) { set<1>(-LIM, LIM, 2, 1, IndexSet(), IndexSet(), false); }
HARNESS(set_1d12) { set<1>(-LIM, LIM, 1, 2, IndexSet(), IndexSet(), false); }
HARNESS(set_1d22) { set<1>(-LIM, LIM, 2, 2, IndexSet(), IndexSet(), false); }
HARNESS(set_1d13s) { set<1>(0, 30, 1, 3, small(), small(), false); }
HARNESS(set_1d31s) { set<1>(0, 30, 3, 1, small(), small(), false); }
HARNESS(set_1d23s) { set<1>(0, 30, 2, 3, small(), small(), false); }
HARNESS(set_1d32s) { set<1>(0, 30, 3, 2, small(), small(), false); }
HARNESS(set_2d11) { set<2>(0, 30, 1, 1, IndexSet(), IndexSet(), true); }
HARNESS(set_2d21s) { set<2>(0, 30, 2, 1, small(), small(), true); }
HARNESS(set_2d12s) { set<2>(0, 30, 1, 2, small(), small(), true); }
HARNESS(set_2d22s) { set<2>(0, 30, 2, 2, small(), small(), true); }

// deep trees: n separate ranges (one path of construction), symbolic query
static Built spread(unsigned r, int n, i64 step, i64 len, i64 at, IndexSet s) {
  Built x;
  x.s = s;
  for (int i = 0; i < n; ++i) {
    Box b;
    b.r = r;
    for (unsigned d = 0; d < r; ++d)
      b.lo[d] = d == 0 ? at + step * i : 0, b.hi[d] = d == 0 ? b.lo[0] + len : 2;
    x.b.push_back(b);
    x.s += mdr(b);
  }
  return x;
}
template <int R> static void deep(int n, IndexSet s) {
  Built x = spread(R, n, 3, 2, 0, s);
  i64 hi = 3 * n + 5;
  Box q = R == 1 ? symBox(1, -5, hi, "q") : symBoxPin(R, -5, hi, 0, 3, "q");
  Pt p = symPt(R, -5, hi);
  bool m = x.has(p), any = false;
  for (const Box &b : x.b)
    any |= overlap(b, q);
  bool c = x.s.contains(mdr(q));
  sym_assert(x.s.overlaps(mdr(q)) == any, "overlaps-range");
  sym_assert(c == (common(x.s, q) == volume(q)), "contains-range");
  checkSet(x.s.intersect(mdr(q)), p, m & in(q, p), "intersect-range", false);
  sym_assert(x.s.contains(pnt(p)) == m, "contains-point");
  sym_reach("done");
}
HARNESS(deep_6s) { deep<1>(6, small()); }
HARNESS(deep_9s) { deep<1>(9, small()); }
HARNESS(deep_20) { deep<1>(20, IndexSet()); }
HARNESS(deep_2d7s) { deep<2>(7, small()); }

// two deep trees, the second shifted by a symbolic amount and cut by a
// symbolic length: every relative position of the nodes
template <int R> static void deep2(int n, int k, IndexSet s, IndexSet t) {
  Built x = spread(R, n, 3, 2, 0, s);
  i64 at = sym_int("at", -4, 3 * n + 4), len = sym_int("len", 1, 3);
  Built y = spread(R, k, 3, len, at, t);
  Pt p = symPt(R, -5, 3 * (n + k) + 10);
  bool mx = x.has(p), my = y.has(p), any = false;
  for (const Box &a : x.b)
    for (const Box &b : y.b)
      any |= overlap(a, b);
  sym_assert(x.s.overlaps(y.s) == any, "overlaps-set");
  sym_assert(y.s.overlaps(x.s) == any, "overlaps-set");
  sym_assert(x.s.contains(y.s) == (common(x.s, y.s) == (i64)y.s.size()), "contains-set");
  sym_assert(y.s.contains(x.s) == (common(x.s, y.s) == (i64)x.s.size()), "contains-set");
  checkSet(x.s.intersect(y.s), p, mx & my, "intersect-set", false);
  checkSet(y.s.intersect(x.s), p, mx & my, "intersect-set", false);
  sym_reach("done");
}
HARNESS(deep2_31s) { deep2<1>(3, 1, small(), small()); }
HARNESS(deep2_63s) { deep2<1>(6, 3, small(), small()); }
HARNESS(deep2_36s) { deep2<1>(3, 6, small(), small()); }
HARNESS(deep2_20_5) { deep2<1>(20, 5, IndexSet(), small()); }
HARNESS(deep2_2d42s) { deep2<2>(4, 2, small(), small()); }

// Deep trees with overlapping nodes: a symbolic box, or a second layout at
// every offset.
template <int R> static void scattered(int mode, int na, int nb, i64 ext, int layouts, IndexSet ea, IndexSet eb, bool sub) {
  Pair q = scatteredPair(R, mode, na, nb, ext, layouts, ea, eb);
  if (sub) {
    // The second is a part of the first, up to one box.
    q.b.clear();
    q.y = eb;
    unsigned k = sym_choice("skip", 4), w = sym_choice("extra", 3);
    for (size_t i = 0; i < q.a.size(); ++i)
      if (i % 4 != k) q.b.push_back(q.a[i]);
    if (w) q.b.push_back(symBox(R, 0, ext));
    q.y = setOf(q.b, eb);
  }
  Pt p = symPt(R, -ext, 2 * ext);
  bool ma = inAny(q.a, p), mb = inAny(q.b, p), any = false;
  for (const Box &u : q.a) for (const Box &v : q.b) any |= overlap(u, v);
  IndexSet xy = q.x.intersect(q.y);
  checkSet(xy, p, ma & mb, "intersect", false);
  checkSet(q.y.intersect(q.x), p, ma & mb, "intersect", false);
  sym_assert(q.x.overlaps(q.y) == any, "overlaps");
  sym_assert(q.y.overlaps(q.x) == any, "overlaps");
  bool c = q.x.contains(q.y);
  sym_assert(!c | !mb | ma, "contains");
  i64 common = sumVolumes(xy), all = sumVolumes(q.y);
  sym_assert(c == (common == all), "contains-set");
  sym_reach("done");
}
template <int R> static void scatteredPoint(int n, i64 ext, int layouts, IndexSet e) {
  std::vector<Box> a = scatter(R, sym_choice("layout", layouts), n, ext);
  IndexSet s = setOf(a, e);
  Pt p = symPt(R, -1, ext);
  bool c = s.contains(pnt(p));
  sym_assert(c == inAny(a, p), "contains-point");
  sym_reach("done");
}
HARNESS(scat_pt1) { scatteredPoint<1>(12, 24, 6, small()); }
HARNESS(scat_pt2) { scatteredPoint<2>(16, 8, 6, small()); }
HARNESS(scat_pt2d) { scatteredPoint<2>(40, 11, 4, IndexSet()); }
HARNESS(scat_pt3) { scatteredPoint<3>(20, 5, 4, small()); }
HARNESS(scat_box1) { scattered<1>(0, 0, 12, 24, 4, small(), small(), false); }
HARNESS(scat_box2) { scattered<2>(1, 14, 0, 6, 3, small(), small(), false); }
HARNESS(scat_box2d) { scattered<2>(1, 26, 0, 8, 2, IndexSet(), IndexSet(), false); }
HARNESS(scat_two1) { scattered<1>(2, 10, 10, 24, 8, small(), small(), false); }
HARNESS(scat_two2) { scattered<2>(2, 12, 12, 7, 4, small(), small(), false); }
HARNESS(scat_two2d) { scattered<2>(2, 24, 24, 9, 3, IndexSet(), IndexSet(), false); }
HARNESS(scat_two3) { scattered<3>(2, 14, 14, 5, 2, small(), small(), false); }
HARNESS(scat_part1) { scattered<1>(3, 12, 0, 24, 4, small(), small(), true); }
HARNESS(scat_part2) { scattered<2>(3, 14, 0, 6, 3, small(), small(), true); }
HARNESS(scat_part2d) { scattered<2>(3, 26, 0, 8, 2, IndexSet(), IndexSet(), true); }

// C07: what can be observed of a set depends on its points only, not on how it
// was obtained: equality, hash, iteration over the points, copies.
#include "sets.h"
using namespace spec;
static const i64 LIM = 1ll << 20;

static void checkSame(const IndexSet &a, const IndexSet &b, const char *id, bool hash = true) {
  sym_assert(a == b, id);
  sym_assert(b == a, id);
  sym_assert(!(a != b), id);
  sym_assert((llvm::DenseMapInfo<IndexSet>::isEqual(a, b)), id);
  if (!hash)
    return;
  sym_assert((size_t)hash_value(a) == (size_t)hash_value(b), "hash");
  sym_assert(llvm::DenseMapInfo<IndexSet>::getHashValue(a) == llvm::DenseMapInfo<IndexSet>::getHashValue(b), "hash");
}
static Box pinnedBox(unsigned r, i64 lo, i64 hi) {
  Box b;
  b.r = r;
  for (unsigned d = 0; d < r; ++d) {
    b.lo[d] = sym_pick("b", lo, hi - 1);
    b.hi[d] = sym_pick("b", b.lo[d] + 1, hi);
  }
  return b;
}
// the same boxes inserted in two orders, and in bulk
template <int R, int N, bool HASH = false> static void orders(i64 lo, i64 hi, bool pin, IndexSet base) {
  llvm::SmallVector<MultidimensionalRange, 4> v;
  for (int i = 0; i < N; ++i)
    if (HASH) // the mixing function is beyond the solver: enumerate the sizes
      v.push_back(mdr(pinnedBox(R, lo, hi)));
    else
      v.push_back(mdr(pin && R > 1 ? symBoxPin(R, lo, hi, 0, 2) : symBox(R, lo, hi)));
  IndexSet a = base, b = base;
  for (int i = 0; i < N; ++i)
    a += v[i];
  for (int i = N; i-- > 0;)
    b += v[i];
  checkSame(a, b, "equal-orders", HASH);
  IndexSet c{llvm::ArrayRef<MultidimensionalRange>(v)};
  checkSame(a, c, "equal-bulk", HASH);
  sym_reach("done");
}
HARNESS(orders_1d2) { orders<1, 2>(-LIM, LIM, false, IndexSet()); }
HARNESS(orders_1d3) { orders<1, 3>(-LIM, LIM, false, IndexSet()); }
HARNESS(orders_1d3s) { orders<1, 3>(0, 30, false, small()); }
HARNESS(orders_2d2) { orders<2, 2>(0, 30, true, IndexSet()); }
HARNESS(orders_2d2s) { orders<2, 2>(0, 30, true, small()); }
HARNESS(orders_2d3s) { orders<2, 3>(0, 30, true, small()); }

HARNESS(hash_1d3) { orders<1, 3, true>(0, 5, false, small()); }
HARNESS(hash_2d2) { orders<2, 2, true>(0, 2, false, IndexSet()); }

// equality is exact: two sets are equal iff no point tells them apart
template <int R> static void exact(i64 lo, i64 hi, int na, int nb, bool pin, IndexSet a, IndexSet b) {
  Pt p = symPt(R, lo, hi);
  bool ma = false, mb = false;
  for (int i = 0; i < na; ++i) {
    Box x = pin && R > 1 ? symBoxPin(R, lo, hi, 0, 2) : symBox(R, lo, hi);
    a += mdr(x);
    ma |= in(x, p);
  }
  for (int i = 0; i < nb; ++i) {
    Box x = pin && R > 1 ? symBoxPin(R, lo, hi, 0, 2) : symBox(R, lo, hi);
    b += mdr(x);
    mb |= in(x, p);
  }
  i64 common = 0;
  for (auto i = a.rangesBegin(), e = a.rangesEnd(); i != e; ++i)
    for (auto j = b.rangesBegin(), f = b.rangesEnd(); j != f; ++j)
      common += volumeAnd(boxOf(*i), boxOf(*j));
  bool eq = a == b;
  sym_assert(eq == (b == a), "equality-symmetric");
  sym_assert(eq != (a != b), "inequality");
  sym_assert(!eq | (ma == mb), "equal-but-different-points");
  sym_assert(eq == ((common == (i64)a.size()) & (common == (i64)b.size())), "equality");
  if (a.compare(b) == 0)
    sym_assert(eq, "compare-zero-of-different-sets");
  int c = a.compare(b), d = b.compare(a);
  sym_assert((c < 0) == (d > 0), "compare-antisymmetric");
  sym_reach("done");
}
HARNESS(exact_1d11) { exact<1>(-LIM, LIM, 1, 1, false, IndexSet(), IndexSet()); }
HARNESS(exact_1d21) { exact<1>(-LIM, LIM, 2, 1, false, IndexSet(), IndexSet()); }
HARNESS(exact_1d22) { exact<1>(-LIM, LIM, 2, 2, false, IndexSet(), IndexSet()); }
HARNESS(exact_1d10) { exact<1>(-LIM, LIM, 1, 0, false, IndexSet(), IndexSet()); }
HARNESS(exact_1d31s) { exact<1>(0, 30, 3, 1, false, small(), small()); }
HARNESS(exact_2d11) { exact<2>(0, 30, 1, 1, true, IndexSet(), IndexSet()); }
HARNESS(exact_2d21s) { exact<2>(0, 30, 2, 1, true, small(), IndexSet()); }

// a set emptied in any way equals any other empty set
HARNESS(emptied) {
  Box a = symBox(1, -LIM, LIM), b = symBox(1, -LIM, LIM, "c");
  IndexSet none, s(mdr(a)), t(mdr(b));
  checkSame(s - s, none, "equal-empty");
  checkSame(none - s, s - s, "equal-empty");
  s -= mdr(a);
  sym_assert(s.empty(), "emptied");
  checkSame(s, none, "equal-empty");
  IndexSet x(mdr(a));
  if (!overlap(a, b)) {
    checkSame(x.intersect(t), none, "equal-empty");
    checkSame(x.intersect(t), x.intersect(mdr(b)), "equal-empty");
    checkSame(x.intersect(t), x - x, "equal-empty");
    sym_reach("disjoint");
  }
  sym_assert(!(x == s) & !(s == x), "empty-vs-nonempty");
  x.clear();
  checkSame(x, none, "equal-empty");
  sym_reach("done");
}
HARNESS(emptied_2d) {
  Box a = symBox(2, -LIM, LIM), b = symBox(2, -LIM, LIM, "c");
  IndexSet none, s(mdr(a)), t(mdr(b));
  checkSame(s.intersect(t) - s, s - s, "equal-empty");
  checkSame(t.intersect(s) - s, none, "equal-empty");
  sym_reach("done");
}
// the iteration over the points visits every point exactly once
template <int R, int N> static void iterate(i64 hi, IndexSet s) {
  Pt p = symPt(R, 0, hi);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(R, 0, hi);
    m |= in(b, p);
    s += mdr(b);
  }
  if (sym_choice("cut", 2)) {
    Box c = symBox(R, 0, hi, "c");
    s -= mdr(c);
    m &= !in(c, p);
  }
  i64 n = 0, total = 0;
  for (auto it = s.begin(), e = s.end(); it != e; ++it) {
    Point q = *it;
    bool eq = true;
    for (int d = 0; d < R; ++d)
      eq &= q[d] == p.c[d];
    sym_assert(q.rank() == R, "iteration-rank");
    n += eq ? 1 : 0;
    ++total;
  }
  sym_assert(n == (m ? 1 : 0), "iteration");
  sym_assert(total == (i64)s.size(), "iteration-count");
  sym_reach("done");
}
HARNESS(iter_1d1) { iterate<1, 1>(4, IndexSet()); }
HARNESS(iter_1d2) { iterate<1, 2>(5, small()); }
HARNESS(iter_2d1) { iterate<2, 1>(2, IndexSet()); }
HARNESS(iter_2d2) { iterate<2, 2>(2, small()); }
HARNESS(iter_3d1) { iterate<3, 1>(2, IndexSet()); }

// copies and moves: later changes of one do not show in the other
template <int N> static void copies(IndexSet s) {
  Pt p = symPt(1, 0, 30);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(1, 0, 30);
    m |= in(b, p);
    s += mdr(b);
  }
  Box c = symBox(1, 0, 30, "c");
  IndexSet copy(s), assigned;
  assigned = s;
  copy -= mdr(c);
  assigned += mdr(c);
  checkSet(s, p, m, "copy-source", false);
  checkSet(copy, p, m & !in(c, p), "copy", false);
  checkSet(assigned, p, m | in(c, p), "assigned", false);
  s -= mdr(c);
  IndexSet moved(std::move(s));
  checkSet(moved, p, m & !in(c, p), "moved", false);
  checkSame(moved, copy, "equal-moved", false);
  moved = std::move(assigned);
  moved += mdr(c);
  checkSet(moved, p, m | in(c, p), "move-assigned", false);
  sym_reach("done");
}
HARNESS(copies_2s) { copies<2>(small()); }
HARNESS(copies_3s) { copies<3>(small()); }
HARNESS(copies_1) { copies<1>(IndexSet()); }

// a set used as both operands
template <int N> static void alias(IndexSet s) {
  Pt p = symPt(1, 0, 30);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(1, 0, 30);
    m |= in(b, p);
    s += mdr(b);
  }
  sym_assert(s.contains(s), "self-contains");
  sym_assert(s.overlaps(s) == (N > 0), "self-overlaps");
  checkSame(s.intersect(s), s, "self-intersect", false);
  IndexSet &r = s;
  s += r;
  checkSet(s, p, m, "self-union", false);
  s = r;
  checkSet(s, p, m, "self-assign", false);
  s -= r;
  checkSet(s, p, false, "self-difference", false);
  sym_reach("done");
}
HARNESS(alias_0) { alias<0>(IndexSet()); }
HARNESS(alias_1) { alias<1>(IndexSet()); }
HARNESS(alias_2) { alias<2>(IndexSet()); }
HARNESS(alias_2s) { alias<2>(small()); }
HARNESS(alias_3s) { alias<3>(small()); }

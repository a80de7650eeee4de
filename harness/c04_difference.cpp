// C04: removing a range, a point or a set, and complementing, leave exactly
// the specified points.
#include "sets.h"
using namespace spec;
static const i64 LIM = 1ll << 20;

// s = union of N boxes (in bulk or one by one), then K boxes removed.
template <int R, int N, int K> static void sub(i64 lo, i64 hi, IndexSet s, bool bulk = false) {
  Pt p = symPt(R, lo, hi);
  bool m = false;
  llvm::SmallVector<MultidimensionalRange, 4> v;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(R, lo, hi);
    m |= in(b, p);
    if (bulk)
      v.push_back(mdr(b));
    else
      s += mdr(b);
  }
  if (bulk)
    s.setFromRanges(v);
  for (int i = 0; i < K; ++i) {
    Box c = symBox(R, lo, hi, "c");
    s -= mdr(c);
    m &= !in(c, p);
  }
  checkSet(s, p, m, "minus-range");
  sym_reach("done");
}
HARNESS(sub_1d1) { sub<1, 1, 1>(-LIM, LIM, IndexSet()); }
HARNESS(sub_1d21) { sub<1, 2, 1>(-LIM, LIM, IndexSet()); }
HARNESS(sub_1d22) { sub<1, 2, 2>(-LIM, LIM, IndexSet()); }
HARNESS(sub_1d31) { sub<1, 3, 1>(-LIM, LIM, IndexSet(), true); }
HARNESS(sub_1d31s) { sub<1, 3, 1>(0, 30, small()); }
HARNESS(sub_1d32s) { sub<1, 3, 2>(0, 30, small()); }
HARNESS(sub_1d41s) { sub<1, 4, 1>(0, 30, small()); }
HARNESS(sub_2d11) { sub<2, 1, 1>(-LIM, LIM, IndexSet()); }
HARNESS(sub_2d12) { sub<2, 1, 2>(0, 1000, IndexSet()); }
HARNESS(sub_2d21) { sub<2, 2, 1>(0, 1000, IndexSet()); }
HARNESS(sub_2d21g) { sub<2, 2, 1>(0, 3, IndexSet()); }
HARNESS(sub_3d11) { sub<3, 1, 1>(0, 1000, IndexSet()); }

template <int R> static void spread(int n, int k, IndexSet s) {
  // well separated concrete ranges in a deep tree; the removed range is
  // symbolic and takes away any run of them
  Pt p = symPt(R, -10, 3 * n + 20);
  bool m = false;
  for (int i = 0; i < n; ++i) {
    Box b;
    b.r = R;
    for (int d = 0; d < R; ++d)
      b.lo[d] = d == 0 ? 3 * i : 0, b.hi[d] = d == 0 ? 3 * i + 2 : 2;
    s += mdr(b);
    m |= in(b, p);
  }
  for (int i = 0; i < k; ++i) {
    Box c = R == 1 ? symBox(1, -10, 3 * n + 20, "c") : symBoxPin(R, -10, 3 * n + 20, 0, 2, "c");
    s -= mdr(c);
    m &= !in(c, p);
  }
  checkSet(s, p, m, "minus-range");
  sym_reach("done");
}
HARNESS(spread_5s) { spread<1>(5, 1, small()); }
HARNESS(spread_8s) { spread<1>(8, 1, small()); }
HARNESS(spread_8s2) { spread<1>(8, 2, small()); }
HARNESS(spread_12s) { spread<1>(12, 1, IndexSet(2, 4)); }
HARNESS(spread_12s2) { spread<1>(12, 2, IndexSet(2, 4)); }
HARNESS(spread_18) { spread<1>(18, 1, IndexSet()); }
HARNESS(spread_24) { spread<1>(24, 1, IndexSet()); }
HARNESS(spread_18x2) { spread<1>(18, 2, IndexSet()); }
HARNESS(spread_2d8s) { spread<2>(8, 1, small()); }
HARNESS(spread_2d18) { spread<2>(18, 1, IndexSet()); }

// set minus set
template <int R> static void sets(i64 lo, i64 hi, int na, int nb, IndexSet x, IndexSet y) {
  Pt p = symPt(R, lo, hi);
  bool ma = false, mb = false;
  for (int i = 0; i < na; ++i) {
    Box b = symBox(R, lo, hi);
    ma |= in(b, p);
    x += mdr(b);
  }
  for (int i = 0; i < nb; ++i) {
    Box b = symBox(R, lo, hi);
    mb |= in(b, p);
    y += mdr(b);
  }
  IndexSet z = x - y;
  checkSet(z, p, ma & !mb, "minus-set");
  checkSet(x, p, ma, "left-operand-unchanged", false);
  checkSet(y, p, mb, "right-operand-unchanged", false);
  x -= y;
  checkSet(x, p, ma & !mb, "minus-set-assign", false);
  sym_reach("done");
}
HARNESS(sets_1d21) { sets<1>(-LIM, LIM, 2, 1, IndexSet(), IndexSet()); }
HARNESS(sets_1d12) { sets<1>(-LIM, LIM, 1, 2, IndexSet(), IndexSet()); }
HARNESS(sets_1d22) { sets<1>(-LIM, LIM, 2, 2, IndexSet(), IndexSet()); }
HARNESS(sets_1d31s) { sets<1>(0, 30, 3, 1, small(), small()); }
HARNESS(sets_1d13s) { sets<1>(0, 30, 1, 3, small(), small()); }
HARNESS(sets_1d32s) { sets<1>(0, 30, 3, 2, small(), small()); }
HARNESS(sets_2d11) { sets<2>(-LIM, LIM, 1, 1, IndexSet(), IndexSet()); }
HARNESS(sets_1d10) { sets<1>(-LIM, LIM, 1, 0, IndexSet(), IndexSet()); }
HARNESS(sets_1d01) { sets<1>(-LIM, LIM, 0, 1, IndexSet(), IndexSet()); }

template <int R, int N> static void pts(i64 lo, i64 hi) {
  Pt p = symPt(R, lo, hi), q = symPt(R, lo, hi, "q");
  IndexSet s;
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(R, lo, hi);
    m |= in(b, p);
    s += mdr(b);
  }
  bool eq = true;
  for (int d = 0; d < R; ++d)
    eq &= p.c[d] == q.c[d];
  IndexSet t = s - pnt(q);
  checkSet(t, p, m & !eq, "minus-point");
  t += pnt(q);
  checkSet(t, p, m | eq, "minus-plus-point");
  s -= pnt(q);
  checkSet(s, p, m & !eq, "minus-point-assign", false);
  sym_reach("done");
}
HARNESS(pts_1d2) { pts<1, 2>(-LIM, LIM); }
HARNESS(pts_2d1) { pts<2, 1>(-LIM, LIM); }
HARNESS(pts_3d1) { pts<3, 1>(0, 1000); }

// complement within a box
template <int R, int N> static void compl_(i64 lo, i64 hi, IndexSet s) {
  Pt p = symPt(R, lo, hi);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = symBox(R, lo, hi);
    m |= in(b, p);
    s += mdr(b);
  }
  Box w = symBox(R, lo, hi, "w");
  IndexSet c = s.complement(mdr(w));
  checkSet(c, p, in(w, p) & !m, "complement");
  checkSet(s, p, m, "operand-unchanged", false);
  sym_reach("done");
}
HARNESS(compl_1d0) { compl_<1, 0>(-LIM, LIM, IndexSet()); }
HARNESS(compl_1d2) { compl_<1, 2>(-LIM, LIM, IndexSet()); }
HARNESS(compl_1d3s) { compl_<1, 3>(0, 30, small()); }
HARNESS(compl_2d1) { compl_<2, 1>(-LIM, LIM, IndexSet()); }
HARNESS(compl_2d2) { compl_<2, 2>(0, 1000, IndexSet()); }
HARNESS(compl_3d1) { compl_<3, 1>(0, 1000, IndexSet()); }

// mixed histories: every operation of a sequence is chosen by the solver
template <int R, int N> static void history(i64 lo, i64 hi, IndexSet s, bool pin) {
  Pt p = symPt(R, lo, hi);
  bool m = false;
  for (int i = 0; i < N; ++i) {
    Box b = pin ? symBoxPin(R, lo, hi, 0, 2) : symBox(R, lo, hi);
    if (i > 0 && sym_choice("op", 2)) {
      s -= mdr(b);
      m &= !in(b, p);
    } else {
      s += mdr(b);
      m |= in(b, p);
    }
  }
  checkSet(s, p, m, "history");
  sym_reach("done");
}
HARNESS(history_1d3) { history<1, 3>(-LIM, LIM, IndexSet(), false); }
HARNESS(history_1d4) { history<1, 4>(-LIM, LIM, IndexSet(), false); }
HARNESS(history_1d4s) { history<1, 4>(0, 30, small(), false); }
HARNESS(history_1d5s) { history<1, 5>(0, 30, small(), false); }
HARNESS(history_2d3s) { history<2, 3>(0, 30, small(), true); }

// Deep trees on either side: a symbolic box, or a second layout at every offset.
template <int R> static void scattered(int mode, int na, int nb, i64 ext, int layouts, IndexSet ea, IndexSet eb) {
  Pair q = scatteredPair(R, mode, na, nb, ext, layouts, ea, eb);
  Pt p = symPt(R, -ext, 2 * ext);
  bool ma = inAny(q.a, p), mb = inAny(q.b, p);
  IndexSet z = q.x - q.y;
  checkSet(z, p, ma & !mb, "minus", false);
  checkSet(q.x, p, ma, "left-operand-unchanged", false);
  checkSet(q.y, p, mb, "right-operand-unchanged", false);
  sym_reach("done");
}
HARNESS(scat_box1) { scattered<1>(0, 0, 12, 24, 4, small(), small()); }
HARNESS(scat_box2) { scattered<2>(0, 0, 14, 7, 3, small(), small()); }
HARNESS(scat_box2d) { scattered<2>(0, 0, 26, 9, 2, IndexSet(), IndexSet()); }
HARNESS(scat_sub2) { scattered<2>(1, 14, 0, 7, 3, small(), small()); }
HARNESS(scat_sub2d) { scattered<2>(1, 26, 0, 9, 2, IndexSet(), IndexSet()); }
HARNESS(scat_two1) { scattered<1>(2, 10, 10, 24, 8, small(), small()); }
HARNESS(scat_two2) { scattered<2>(2, 12, 12, 7, 4, small(), small()); }
HARNESS(scat_two2d) { scattered<2>(2, 24, 24, 9, 3, IndexSet(), IndexSet()); }
HARNESS(scat_two2m) { scattered<2>(2, 5, 24, 8, 3, small(), IndexSet()); }
HARNESS(scat_two3) { scattered<3>(2, 14, 14, 5, 2, small(), small()); }

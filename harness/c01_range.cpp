// C01: half-open integer ranges behave as the integer sets they denote.
#include "common.h"
using namespace spec;

static const i64 LIM = 1ll << 40;

struct R1 { i64 lo, hi; };
static R1 symR(const char *n) {
  R1 r;
  r.lo = sym_int(n, -LIM, LIM - 1);
  r.hi = sym_int(n, -LIM + 1, LIM);
  sym_assume(r.lo < r.hi);
  return r;
}
static bool inR(const Range &r, i64 p) { return (p >= r.getBegin()) & (p < r.getEnd()); }
static bool inS(const R1 &r, i64 p) { return (p >= r.lo) & (p < r.hi); }

HARNESS(range_membership) {
  R1 a = symR("a");
  Range x(a.lo, a.hi);
  i64 p = sym_int("p", -LIM - 1, LIM);
  sym_assert(x.getBegin() == a.lo, "begin");
  sym_assert(x.getEnd() == a.hi, "end");
  sym_assert((i64)x.size() == a.hi - a.lo, "size");
  sym_assert(x.contains(p) == inS(a, p), "contains-point");
  sym_assert((x == p) == ((a.lo == p) & (a.hi == p + 1)), "eq-point");
  sym_assert((x != p) == !((a.lo == p) & (a.hi == p + 1)), "neq-point");
  sym_reach("done");
}
HARNESS(range_relations) {
  R1 a = symR("a"), b = symR("b");
  Range x(a.lo, a.hi), y(b.lo, b.hi);
  bool ov = (a.lo < b.hi) & (b.lo < a.hi);
  bool eq = (a.lo == b.lo) & (a.hi == b.hi);
  sym_assert((x == y) == eq, "eq");
  sym_assert((x != y) == !eq, "neq");
  sym_assert(x.overlaps(y) == ov, "overlaps");
  sym_assert(y.overlaps(x) == ov, "overlaps-symmetric");
  sym_assert(x.contains(y) == ((a.lo <= b.lo) & (b.hi <= a.hi)), "contains-range");
  sym_assert(x.canBeMerged(y) == (ov | (a.hi == b.lo) | (b.hi == a.lo)), "mergeable");
  int c = x.compare(y), d = y.compare(x);
  sym_assert((c == 0) == eq, "compare-zero");
  sym_assert((c < 0) == (d > 0), "compare-antisymmetric");
  sym_assert((x < y) == (c < 0), "less");
  sym_assert((x > y) == (c > 0), "greater");
  sym_reach("done");
}
HARNESS(range_order) {
  R1 a = symR("a"), b = symR("b"), c = symR("c");
  Range x(a.lo, a.hi), y(b.lo, b.hi), z(c.lo, c.hi);
  int xy = x.compare(y), yz = y.compare(z);
  if (xy < 0 && yz < 0) {
    sym_reach("chain");
    sym_assert(x.compare(z) < 0, "compare-transitive");
    sym_assert(x < z, "less-transitive");
  }
  if (xy == 0 && yz == 0)
    sym_assert(x.compare(z) == 0, "equal-transitive");
}
HARNESS(range_setops) {
  R1 a = symR("a"), b = symR("b");
  Range x(a.lo, a.hi), y(b.lo, b.hi);
  i64 p = sym_int("p", -LIM - 1, LIM);
  bool ia = inS(a, p), ib = inS(b, p);
  if (x.overlaps(y)) {
    sym_reach("overlap");
    Range z = x.intersect(y);
    sym_assert(z.getBegin() < z.getEnd(), "intersect-wellformed");
    sym_assert(inR(z, p) == (ia & ib), "intersect");
  }
  if (x.canBeMerged(y)) {
    sym_reach("merge");
    Range z = x.merge(y);
    sym_assert(inR(z, p) == (ia | ib), "merge");
  }
  int n = 0;
  for (const Range &r : x.subtract(y)) {
    sym_assert(r.getBegin() < r.getEnd(), "subtract-wellformed");
    n += inR(r, p) ? 1 : 0;
  }
  sym_assert(n == ((ia & !ib) ? 1 : 0), "subtract");
}
HARNESS(range_iteration) {
  i64 lo = sym_int("lo", -LIM, LIM);
  i64 n = sym_choice("n", 6) + 1;
  Range x(lo, lo + n);
  i64 k = 0;
  for (i64 v : x) {
    sym_assert(v == lo + k, "iteration-value");
    ++k;
    sym_assert(k <= n, "iteration-length");
  }
  sym_assert(k == n, "iteration-count");
  auto it = x.begin();
  auto old = it++;
  sym_assert(*old == lo, "post-increment");
  sym_assert(!(old == it), "iterator-eq");
  sym_reach("done");
}

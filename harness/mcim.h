// Shared by the harnesses on incidence matrices: symbolic matrices on small
// symbolic spaces, with a reference predicate for their entries.
#ifndef VERIF_MCIM_H
#define VERIF_MCIM_H
#include "access.h"
#include "marco/Modeling/MCIM.h"
#include <functional>
namespace spec {
using namespace marco::modeling::internal;
using Model = std::function<bool(const Pt &, const Pt &)>;
constexpr i64 W1 = 4; // extent of the window of a dimension, rank 1
static i64 W2 = 2; // rank 2
static int pool = 0;          // 0: rototranslations, 1: other affine functions, 2: any function, 3: dimensions
static void setupMcim() { setupContext(); lite = true; pool = 0; }
static void setupMcimDims() { setupMcim(); pool = 3; } // only dimensions
static void setupMcimAffine() { setupMcim(); pool = 1; }
static void setupMcimAny() { setupMcim(); pool = 2; }

static i64 win(unsigned r) { return r == 1 ? W1 : W2; }
static bool full = false; // spaces fill the window, accesses apply to the whole space
static void setupMcimFull() { setupMcim(); full = true; }
static Box fullBox(unsigned r) {
  Box b;
  b.r = r;
  for (unsigned d = 0; d < r; ++d) { b.lo[d] = 0; b.hi[d] = win(r); }
  return b;
}
static Box winBox(unsigned r) {
  Box b;
  b.r = r;
  for (unsigned d = 0; d < r; ++d) {
    b.lo[d] = sym_int("lo", 0, win(r) - 1);
    b.hi[d] = sym_int("hi", 1, win(r));
    sym_assume(b.lo[d] < b.hi[d]);
  }
  return b;
}
static Box subBox(const Box &o) {
  Box b = winBox(o.r);
  for (unsigned d = 0; d < o.r; ++d) sym_assume((b.lo[d] >= o.lo[d]) & (b.hi[d] <= o.hi[d]));
  return b;
}
static Pt inBox(const Box &b, const char *n) {
  Pt p;
  p.r = b.r;
  for (unsigned d = 0; d < b.r; ++d) {
    p.c[d] = sym_int(n, 0, win(b.r) - 1);
    sym_assume((p.c[d] >= b.lo[d]) & (p.c[d] < b.hi[d]));
  }
  return p;
}
static bool same(const Pt &a, const Pt &b) {
  bool r = true;
  for (unsigned d = 0; d < a.r; ++d) r &= a.c[d] == b.c[d];
  return r;
}
static bool samePoint(const Point &a, const Pt &b) {
  bool r = a.rank() == b.r;
  for (unsigned d = 0; d < b.r; ++d) r &= a[d] == b.c[d];
  return r;
}
static std::vector<Pt> window(unsigned r) {
  std::vector<Pt> v;
  i64 n = r == 1 ? W1 : W2 * W2;
  for (i64 i = 0; i < n; ++i) {
    Pt p;
    p.r = r;
    p.c[0] = r == 1 ? i : i % W2;
    if (r > 1) p.c[1] = i / W2;
    v.push_back(p);
  }
  return v;
}
struct Spaces {
  Box e, v;
  std::shared_ptr<const IndexSet> es, vs;
  std::vector<Pt> allE, allV;
};
static std::shared_ptr<const IndexSet> shared(const Box &b) {
  IndexSet s = small();
  s += mdr(b);
  return std::make_shared<const IndexSet>(s);
}
static Spaces spaces(unsigned re, unsigned rv) {
  Spaces s;
  s.e = full ? fullBox(re) : winBox(re);
  s.v = full ? fullBox(rv) : winBox(rv);
  s.es = shared(s.e);
  s.vs = shared(s.v);
  s.allE = window(re);
  s.allV = window(rv);
  return s;
}
static E resultOf(unsigned dims) {
  if (pool == 3) return dim(sym_choice("dim", dims));
  if (pool == 0) return roto(dims, 1);
  if (pool == 1) return affineResult(dims);
  return anyResult(dims);
}
struct Mx {
  MCIM m;
  Model f;
};
static Es accessOf(unsigned re, unsigned rv) {
  Es es;
  for (unsigned r = 0; r < rv; ++r) es.push_back(resultOf(re));
  return es;
}
static Mx matrix(const Spaces &s, int na, int np) {
  Mx x{MCIM(s.es, s.vs), [](const Pt &, const Pt &) { return false; }};
  for (int i = 0; i < na; ++i) {
    Es es = accessOf(s.e.r, s.v.r);
    Box k = full ? s.e : subBox(s.e);
    AF f = build(s.e.r, es);
    x.m.apply(mdr(k), *f);
    Model old = x.f;
    x.f = [=](const Pt &e, const Pt &v) { return old(e, v) | (in(k, e) & accessed(es, e.c, v.c)); };
  }
  for (int i = 0; i < np; ++i) {
    Pt e0 = inBox(s.e, "pe"), v0 = inBox(s.v, "pv");
    x.m.set(pnt(e0), pnt(v0));
    Model old = x.f;
    x.f = [=](const Pt &e, const Pt &v) { return old(e, v) | (same(e, e0) & same(v, v0)); };
  }
  return x;
}
static void checkEntries(const Mx &x, const Spaces &s, const char *what) {
  Pt e = inBox(s.e, "e"), v = inBox(s.v, "v");
  bool g = x.m.get(pnt(e), pnt(v));
  sym_assert(g == x.f(e, v), what);
}
static void checkFlat(const Mx &x, const Spaces &s) {
  Pt e = inBox(s.e, "fe"), v = inBox(s.v, "fv");
  bool re = false, rv = false;
  for (const Pt &p : s.allE) rv |= in(s.e, p) & x.f(p, v);
  for (const Pt &p : s.allV) re |= in(s.v, p) & x.f(e, p);
  IndexSet rows = x.m.flattenRows(), cols = x.m.flattenColumns();
  bool a = rows.contains(pnt(v)), b = cols.contains(pnt(e));
  sym_assert(a == rv, "variables");
  sym_assert(b == re, "equations");
}
// Sets of two ranges.
struct Two {
  Box a, b;
  IndexSet set;
};
static Two twoBoxes(unsigned r) {
  Two t{winBox(r), winBox(r), small()};
  t.set += mdr(t.a);
  t.set += mdr(t.b);
  return t;
}
static bool in2(const Two &t, const Pt &p) { return in(t.a, p) | in(t.b, p); }
static Pt inWindow(unsigned r, const char *n) {
  Pt p;
  p.r = r;
  for (unsigned d = 0; d < r; ++d) p.c[d] = sym_int(n, 0, win(r) - 1);
  return p;
}
} // namespace spec
#endif

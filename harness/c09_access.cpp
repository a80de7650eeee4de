// C09: an access function accesses exactly the elements its index expressions
// denote, at every point, however it is built or represented.
#include "access.h"
using namespace spec;

static void checkMap(const AccessFunction &f, const Es &es, unsigned dims, const char *id) {
  i64 x[3] = {0, 0, 0};
  Pt p = symPt(dims, -40, 40, "x");
  for (unsigned d = 0; d < dims; ++d) x[d] = p.c[d];
  Pt q = symPt(es.size(), -300, 300, "q");
  bool m = accessed(es, x, q.c);
  IndexSet s = f.map(pnt(p));
  checkSet(s, q, m, id);
}
static void shape(const AccessFunction &f, const Es &es, unsigned dims) {
  sym_assert(f.getNumOfDims() == dims, "num-of-dims");
  sym_assert(f.getNumOfResults() == es.size(), "num-of-results");
}
static bool hasDim(const E &e) {
  if (e.op == Dim) return true;
  bool r = false;
  for (const E &k : e.k) r |= hasDim(k);
  return r;
}
enum Pool { ROTO, AFFINE, ANY };
template <int D, int R, int P> static void mapping() {
  Es es;
  lite = R > 1;
  for (int r = 0; r < R; ++r)
    es.push_back(P == ROTO ? rotoResult(D) : P == AFFINE ? affineResult(D) : anyResult(D));
  unsigned how = sym_choice("how", 4);
  AF f;
  if (how == 0) f = build(D, es);
  else if (how == 1) f = std::make_unique<AccessFunctionGeneric>(ctx, D, makeAll(es));
  else if (how == 2) f = build(D, es)->clone();
  else {
    AF g = build(D, es);
    sym_assume(g->isAffine());
    f = AccessFunction::build(g->getAffineMap());
  }
  sym_region("map-");
  shape(*f, es, D);
  sym_assert(f->getContext() == ctx, "context");
  checkMap(*f, es, D, "elements");
  if (how == 1) {
    bool c = true;
    for (const E &e : es) c &= !hasDim(e);
    sym_assert(!f->isConstant() | c, "constant-depends-on-dimension");
    sym_assert(!c | f->isConstant(), "constant");
  }
  if (how == 0) {
    bool id = es.size() == D;
    for (size_t r = 0; r < es.size(); ++r) id &= es[r].op == Dim && es[r].a == (i64)r;
    if (id) sym_assert(f->isIdentity(), "identity");
    if (f->isIdentity()) {
      i64 x[3];
      Pt p = symPt(D, -40, 40, "y");
      for (unsigned d = 0; d < D; ++d) x[d] = p.c[d];
      sym_assert(accessed(es, x, x), "identity-maps-elsewhere");
      sym_assert(es.size() == D, "identity-shape");
    }
  }
  sym_reach("done");
}
#define M(d, r)                                                                \
  HARNESS_S(roto_##d##r, setupContext) { mapping<d, r, ROTO>(); }              \
  HARNESS_S(affine_##d##r, setupContext) { mapping<d, r, AFFINE>(); }          \
  HARNESS_S(any_##d##r, setupContext) { mapping<d, r, ANY>(); }
M(3, 2) M(0, 1) M(1, 1) M(1, 2) M(2, 1) M(2, 2) M(0, 2)

// Equality follows the accessed elements: equal functions access the same
// elements, and a copy is equal.
template <int D, int R1, int R2, int P> static void equality() {
  Es a, b;
  auto gen = [&]() { return P == ROTO ? rotoResult(D, 1) : anyResult(D); };
  for (int r = 0; r < R1; ++r) a.push_back(gen());
  for (int r = 0; r < R2; ++r) b.push_back(gen());
  AF f, g;
  if (sym_bool("generic")) {
    f = std::make_unique<AccessFunctionGeneric>(ctx, D, makeAll(a));
    g = std::make_unique<AccessFunctionGeneric>(ctx, D, makeAll(b));
  } else {
    f = build(D, a);
    g = build(D, b);
  }
  sym_assert(*f == *f->clone(), "clone-equal");
  sym_assert(!(*f != *f->clone()), "clone-not-different");
  bool eq = *f == *g;
  sym_assert(eq == !(*f != *g), "negation");
  sym_assert(eq == (*g == *f), "symmetric");
  if (eq) {
    sym_assert(R1 == R2, "equal-with-different-results");
    i64 x[3] = {0, 0, 0};
    Pt p = symPt(D, -50, 50, "x");
    for (unsigned d = 0; d < D; ++d) x[d] = p.c[d];
    Pt q = symPt(R1, -200, 200, "q");
    sym_assert(accessed(a, x, q.c) == accessed(b, x, q.c), "equal-but-accesses-differ");
    sym_reach("equal");
  }
}
HARNESS_S(eq_111, setupContext) { equality<1, 1, 1, ANY>(); }
HARNESS_S(eq_111r, setupContext) { equality<1, 1, 1, ROTO>(); }
HARNESS_S(eq_112, setupContext) { equality<1, 1, 2, ROTO>(); }
HARNESS_S(eq_121, setupContext) { equality<1, 2, 1, ROTO>(); }
HARNESS_S(eq_222, setupContext) { equality<2, 2, 2, ROTO>(); }

// An access through an iteration space whose dimensions vary together (as in a
// reduction over a set that is not a box) takes its coordinates from the same
// point of the space.
template <int N, int SAME> static void dependent() {
  auto space = std::make_shared<IndexSet>();
  i64 c[3][2];
  for (int i = 0; i < N; ++i) {
    c[i][0] = sym_int("s", -5, 5);
    c[i][1] = sym_int("s", -5, 5);
    *space += Point({c[i][0], c[i][1]});
  }
  llvm::SetVector<uint64_t> d0, d1;
  d0.insert(1);
  d1.insert(0);
  llvm::SmallVector<DA, 3> rs;
  rs.push_back(std::make_unique<DimensionAccessIndices>(ctx, space, 0, d0));
  i64 k = 0;
  if (SAME == 0) {
    rs.push_back(std::make_unique<DimensionAccessIndices>(ctx, space, 1, d1));
  } else {
    k = 2;
    rs.push_back(std::make_unique<DimensionAccessAdd>(
        ctx, std::make_unique<DimensionAccessIndices>(ctx, space, 1, d1),
        std::make_unique<DimensionAccessConstant>(ctx, k)));
  }
  rs.push_back(std::make_unique<DimensionAccessDimension>(ctx, 0));
  AccessFunctionGeneric f(ctx, 1, rs);
  Pt x = symPt(1, -20, 20, "x");
  Pt q = symPt(3, -20, 20, "q");
  bool m = false;
  for (int i = 0; i < N; ++i)
    m |= (q.c[0] == c[i][0]) & (q.c[1] == c[i][1] + k);
  m &= q.c[2] == x.c[0];
  IndexSet s = f.map(pnt(x));
  checkSet(s, q, m, "elements");
  sym_reach("done");
}
HARNESS_S(dep_1, setupContext) { dependent<1, 0>(); }
HARNESS_S(dep_2, setupContext) { dependent<2, 0>(); }
HARNESS_S(dep_2k, setupContext) { dependent<2, 1>(); }
HARNESS_S(dep_3, setupContext) { dependent<3, 0>(); }

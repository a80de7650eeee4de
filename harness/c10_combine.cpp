// C10: combining and inverting access functions is composing and inverting the
// mappings they denote.
#include "access.h"
using namespace spec;

static bool usesDim(const E &e, unsigned d) {
  if (e.op == Dim) return e.a == (i64)d;
  bool r = false;
  for (const E &k : e.k) r |= usesDim(k, d);
  return r;
}
static bool multi(const E &e) {
  if (e.op == Rng || e.op == Idx) return true;
  for (const E &k : e.k) if (multi(k)) return true;
  return false;
}
static unsigned countDim(const E &e, unsigned d) {
  if (e.op == Dim) return e.a == (i64)d;
  unsigned r = 0;
  for (const E &k : e.k) r += countDim(k, d);
  return r;
}
enum Pool { ROTO, AFFINE, ANY };
static E gen(int pool, unsigned dims) { return pool == ROTO ? rotoResult(dims, 1) : pool == AFFINE ? affineResult(dims) : anyResult(dims); }

/// q is accessed by g at some element y that f accesses at x.
static bool through(const Es &f, const Es &g, const i64 *x, const i64 *q) {
  llvm::SmallVector<Vals, 3> v;
  size_t n = 1;
  for (const E &e : f) {
    v.push_back(vals(e, x));
    n *= v.back().size();
  }
  bool any = false;
  for (size_t i = 0; i < n; ++i) {
    i64 y[4] = {0, 0, 0, 0};
    size_t k = i;
    for (size_t r = 0; r < v.size(); ++r) {
      y[r] = v[r][k % v[r].size()];
      k /= v[r].size();
    }
    any |= accessed(g, y, q);
  }
  return any;
}
// D: dimensions of the first, R: its results, R2: results of the second, whose
// dimensions are the first R (or fewer).
template <int D, int R, int D2, int R2, int P1, int P2> static void combined() {
  lite = true;
  Es f, g;
  for (int r = 0; r < R; ++r) f.push_back(gen(P1, D));
  for (int r = 0; r < R2; ++r) g.push_back(gen(P2, D2));
  bool generic = sym_bool("generic");
  AF a = generic ? std::make_unique<AccessFunctionGeneric>(ctx, D, makeAll(f)) : build(D, f);
  AF b = generic ? std::make_unique<AccessFunctionGeneric>(ctx, D2, makeAll(g)) : build(D2, g);
  AF c = a->combine(*b);
  sym_assert(c->getNumOfDims() == D, "combined-dims");
  sym_assert(c->getNumOfResults() == R2, "combined-results");
  i64 x[3] = {0, 0, 0};
  Pt p = symPt(D, -40, 40, "x");
  for (int d = 0; d < D; ++d) x[d] = p.c[d];
  Pt q = symPt(R2, -500, 500, "q");
  bool m = through(f, g, x, q.c);
  // An intermediate coordinate with several values that is used more than once
  // has to be approximated by independent uses.
  bool exact = true;
  for (int r = 0; r < R; ++r) {
    unsigned uses = 0;
    for (const E &e : g) uses += countDim(e, r);
    if (multi(f[r]) && uses > 1) exact = false;
  }
  IndexSet s = c->map(pnt(p));
  if (exact)
    checkSet(s, q, m, "combined-elements");
  else
    sym_assert(!m | s.contains(pnt(q)), "combined-misses-element");
  sym_reach("done");
}
#define C(n, ...) HARNESS_S(n, setupContext) { combined<__VA_ARGS__>(); }
C(comb_r1111, 1, 1, 1, 1, ROTO, ROTO)
C(comb_r2222, 2, 2, 2, 2, ROTO, ROTO)
C(comb_r1221, 1, 2, 2, 1, ROTO, ROTO)
C(comb_r2112, 2, 1, 1, 2, ROTO, ROTO)
C(comb_r0112, 0, 1, 1, 2, ROTO, ROTO)
C(comb_r2212, 2, 2, 1, 2, ROTO, ROTO)
C(comb_a1111, 1, 1, 1, 1, AFFINE, AFFINE)
C(comb_a1221, 1, 2, 2, 1, AFFINE, AFFINE)
C(comb_a2112, 2, 1, 1, 2, AFFINE, AFFINE)
C(comb_ar2222, 2, 2, 2, 2, AFFINE, ROTO)
C(comb_an1111, 1, 1, 1, 1, ANY, AFFINE)
C(comb_na1111, 1, 1, 1, 1, AFFINE, ANY)
C(comb_nn1111, 1, 1, 1, 1, ANY, ANY)
C(comb_nn0111, 0, 1, 1, 1, ANY, ANY)
C(comb_nr1221, 1, 2, 2, 1, ANY, ROTO)
C(comb_nr1222, 1, 2, 2, 2, ANY, ROTO)
C(comb_rn1221, 1, 2, 2, 1, ROTO, ANY)
C(comb_rn2112, 2, 1, 1, 2, ROTO, ANY)
C(comb_nn1221, 1, 2, 2, 1, ANY, ANY)

// Associativity of combination, on the mappings.
HARNESS_S(comb_assoc, setupContext) {
  Es f, g, h;
  for (int r = 0; r < 2; ++r) f.push_back(roto(2, 1));
  for (int r = 0; r < 2; ++r) g.push_back(roto(2, 1));
  h.push_back(roto(2, 1));
  AF a = build(2, f), b = build(2, g), c = build(2, h);
  AF l = a->combine(*b)->combine(*c), r = a->combine(*b->combine(*c));
  sym_assert(*l == *r, "associative");
  sym_reach("done");
}

// A rototranslation is invertible exactly when it permutes its dimensions (up
// to offsets), and then inverse and function undo each other.
template <int D, int R> static void inversion() {
  Es f;
  for (int r = 0; r < R; ++r) f.push_back(rotoResult(D, D > 2 ? 1 : 2));
  AF a = build(D, f);
  bool perm = D == R;
  unsigned seen = 0;
  for (const E &e : f) {
    unsigned used = 0, n = 0;
    for (unsigned d = 0; d < D; ++d)
      if (usesDim(e, d)) { used |= 1u << d; ++n; }
    perm &= n == 1 && !(seen & used);
    seen |= used;
  }
  sym_assert(a->isInvertible() == perm, "is-invertible");
  AF b = a->inverse();
  sym_assert((b != nullptr) == perm, "inverse-exists");
  if (!b) {
    sym_reach("none");
    return;
  }
  sym_assert(b->getNumOfDims() == R, "inverse-dims");
  sym_assert(b->getNumOfResults() == D, "inverse-results");
  Pt p = symPt(D, -1000000, 1000000, "x");
  IndexSet y = a->map(pnt(p));
  sym_assert(y.size() == 1, "one-image");
  Point py = *y.begin();
  IndexSet z = b->map(py);
  sym_assert(z.size() == 1, "one-preimage");
  sym_assert(*z.begin() == pnt(p), "inverse-undoes");
  IndexSet back = a->map(*b->map(pnt(p)).begin());
  sym_assert(*back.begin() == pnt(p), "function-undoes-inverse");
  AF id = a->combine(*b);
  sym_assert(id->isIdentity(), "combines-to-identity");
  sym_assert(*b->inverse() == *a, "inverse-of-inverse");
  sym_reach("done");
}
HARNESS_S(inv_11, setupContext) { inversion<1, 1>(); }
HARNESS_S(inv_12, setupContext) { inversion<1, 2>(); }
HARNESS_S(inv_21, setupContext) { inversion<2, 1>(); }
HARNESS_S(inv_22, setupContext) { inversion<2, 2>(); }
HARNESS_S(inv_33, setupContext) { inversion<3, 3>(); }

// What a rototranslation says about its results.
template <int D, int R> static void described() {
  Es f;
  for (int r = 0; r < R; ++r) f.push_back(rotoResult(D, 2));
  auto rs = makeAll(f);
  sym_assert(AccessFunctionRotoTranslation::canBeBuilt(D, rs), "can-be-built");
  AccessFunctionRotoTranslation a(ctx, D, rs);
  llvm::SmallVector<size_t> usages;
  a.countVariablesUsages(usages);
  sym_assert(usages.size() == D, "usages-size");
  bool idLike = true;
  size_t expected[3] = {0, 0, 0};
  for (int r = 0; r < R; ++r) {
    int d = -1;
    for (int k = 0; k < D; ++k) if (usesDim(f[r], k)) d = k;
    auto got = a.getInductionVariableIndex(r);
    sym_assert(got.has_value() == (d >= 0), "has-induction");
    if (d >= 0) {
      i64 off = 0;
      for (const E &k : f[r].k) if (k.op == Const) off = k.a;
      sym_assert((int)*got == d, "induction-index");
      sym_assert(a.getOffset(r) == off, "offset");
      ++expected[d];
    }
    idLike &= d == r;
  }
  for (int k = 0; k < D; ++k) sym_assert(usages[k] == expected[k], "usages");
  sym_assert(a.isIdentityLike() == idLike, "identity-like");
  sym_reach("done");
}
HARNESS_S(desc_11, setupContext) { described<1, 1>(); }
HARNESS_S(desc_21, setupContext) { described<2, 1>(); }
HARNESS_S(desc_12, setupContext) { described<1, 2>(); }
HARNESS_S(desc_22, setupContext) { described<2, 2>(); }

// C11: the image of a set of indices through an access function, and the
// inverse image of a set of accessed indices, are exact.
#include "access.h"
using namespace spec;

struct Built {
  IndexSet s;
  llvm::SmallVector<Box, 4> b;
};
static Built built(unsigned r, int n, i64 lo, i64 hi, bool pin, IndexSet s = IndexSet()) {
  Built x;
  x.s = s;
  for (int i = 0; i < n; ++i) {
    Box b = pin ? symBoxPin(r, lo, hi, 0, 2) : symBox(r, lo, hi);
    x.b.push_back(b);
    x.s += mdr(b);
  }
  return x;
}
static bool inAny(const Built &x, const Pt &p) {
  bool r = false;
  for (const Box &b : x.b) r |= in(b, p);
  return r;
}
/// q is the image of a point of the box.
static bool imageRoto(const Es &es, const Box &b, const Pt &q) {
  bool ok = true, set[3] = {false, false, false};
  i64 x[3];
  for (size_t r = 0; r < es.size(); ++r) {
    const E &e = es[r];
    if (e.op == Const) { ok &= q.c[r] == e.a; continue; }
    unsigned d = e.op == Dim ? e.a : e.k[0].op == Dim ? e.k[0].a : e.k[1].a;
    i64 off = e.op == Dim ? 0 : e.k[0].op == Dim ? e.k[1].a : e.k[0].a;
    i64 v = q.c[r] - off;
    if (set[d]) ok &= x[d] == v;
    x[d] = v;
    set[d] = true;
    ok &= (v >= b.lo[d]) & (v < b.hi[d]);
  }
  return ok;
}
template <int D, int R, int N> static void image(i64 lo, i64 hi, bool pin, i64 off) {
  Es es;
  for (int r = 0; r < R; ++r) es.push_back(roto(D, off));
  AF f = build(D, es);
  Built x = built(D, N, lo, hi, pin);
  Pt q = symPt(R, lo - 3, hi + 3, "q");
  bool m = false;
  for (const Box &b : x.b) m |= imageRoto(es, b, q);
  IndexSet y = f->map(x.s);
  checkSet(y, q, m, "image");
  sym_reach("done");
}
#define I(n, D, R, N, ...) HARNESS_S(n, setupContext) { image<D, R, N>(__VA_ARGS__); }
I(img_111, 1, 1, 1, -1000, 1000, false, 2)
I(img_112, 1, 1, 2, -1000, 1000, false, 2)
I(img_121, 1, 2, 1, 0, 4, false, 1)
I(img_211, 2, 1, 1, -1000, 1000, true, 1)
I(img_212, 2, 1, 2, 0, 6, true, 1)
I(img_221, 2, 2, 1, 0, 6, true, 1)
I(img_222, 2, 2, 2, 0, 4, true, 1)
I(img_321, 3, 2, 1, 0, 5, true, 1)
I(img_110, 1, 1, 0, 0, 4, false, 1)
I(img_220, 2, 2, 0, 0, 4, false, 1)

// Any affine (or multi-valued) access: points of a small grid.
template <int D, int R, int N, int P> static void imageGrid() {
  lite = true;
  Es es;
  for (int r = 0; r < R; ++r) es.push_back(P == 0 ? affineResult(D) : anyResult(D));
  AF f = sym_bool("generic") ? std::make_unique<AccessFunctionGeneric>(ctx, D, makeAll(es)) : build(D, es);
  constexpr i64 G = D == 1 ? 4 : 2;
  Built x = built(D, N, 0, G, false);
  Pt q = symPt(R, -8, 12, "q");
  bool m = false;
  i64 n = 1;
  for (int d = 0; d < D; ++d) n *= G;
  for (i64 i = 0; i < n; ++i) {
    Pt p;
    p.r = D;
    p.c[0] = i % G;
    p.c[1] = i / G;
    m |= inAny(x, p) & accessed(es, p.c, q.c);
  }
  IndexSet y = f->map(x.s);
  checkSet(y, q, m, "image");
  sym_reach("done");
}
HARNESS_S(grid_111, setupContext) { imageGrid<1, 1, 1, 0>(); }
HARNESS_S(grid_112, setupContext) { imageGrid<1, 1, 2, 0>(); }
HARNESS_S(grid_121, setupContext) { imageGrid<1, 2, 1, 0>(); }
HARNESS_S(grid_211, setupContext) { imageGrid<2, 1, 1, 0>(); }
HARNESS_S(gridn_111, setupContext) { imageGrid<1, 1, 1, 1>(); }
HARNESS_S(gridn_121, setupContext) { imageGrid<1, 2, 1, 1>(); }
HARNESS_S(gridn_211, setupContext) { imageGrid<2, 1, 1, 1>(); }

// Inverse image of the accessed indices among those of the parent.
template <int D, int R, int NA, int NP, int P> static void preimage(i64 hi, i64 off) {
  lite = true;
  Es es;
  for (int r = 0; r < R; ++r) es.push_back(P == 0 ? roto(D, off) : P == 3 ? anyResult(D) : affineResult(D));
  AF f = P == 2 ? std::make_unique<AccessFunctionGeneric>(ctx, D, makeAll(es)) : build(D, es);
  bool pin = true;
  Built par = built(D, NP, 0, hi, pin);
  Built acc = built(R, NA, P ? -2 : 0, hi, pin);
  Pt p = symPt(D, -1, hi + 1, "p");
  // One of the accessed elements is among the given ones.
  bool m = false;
  std::vector<Pt> ys(1);
  ys[0].r = R;
  for (int r = 0; r < R; ++r) {
    std::vector<Pt> more;
    for (i64 v : vals(es[r], p.c))
      for (Pt y : ys) {
        y.c[r] = v;
        more.push_back(y);
      }
    ys = more;
  }
  for (Pt &y : ys) m |= inAny(acc, y);
  m &= inAny(par, p);
  IndexSet s = f->inverseMap(acc.s, par.s);
  checkSet(s, p, m, "inverse-image", false);
  if (f->isInvertible()) sym_reach("invertible");
  else sym_reach("done");
}
#define Q(n, D, R, A, N, P, ...) HARNESS_S(n, setupContext) { preimage<D, R, A, N, P>(__VA_ARGS__); }
Q(pre_1111, 1, 1, 1, 1, 0, 6, 1)
Q(pre_1122, 1, 1, 2, 2, 0, 6, 1)
Q(pre_1211, 1, 2, 1, 1, 0, 5, 1)
Q(pre_2111, 2, 1, 1, 1, 0, 5, 1)
Q(pre_2112, 2, 1, 1, 2, 0, 4, 1)
Q(pre_2211, 2, 2, 1, 1, 0, 3, 1)
Q(pre_2212, 2, 2, 1, 2, 0, 3, 0)
Q(pre_2221, 2, 2, 2, 1, 0, 3, 0)
Q(pre_3111, 3, 1, 1, 1, 0, 2, 0)
Q(pre_3101, 3, 1, 0, 1, 0, 3, 0)
Q(pre_3211, 3, 2, 1, 1, 0, 2, 0)
Q(pre_3311, 3, 3, 1, 1, 0, 2, 0)
Q(pre_a1111, 1, 1, 1, 1, 1, 4, 1)
Q(pre_a2111, 2, 1, 1, 1, 1, 3, 1)
Q(pre_g1111, 1, 1, 1, 1, 2, 4, 1)
Q(pre_g2111, 2, 1, 1, 1, 2, 3, 1)
Q(pre_m1111, 1, 1, 1, 1, 3, 4, 1)
Q(pre_m2111, 2, 1, 1, 1, 3, 2, 1)
Q(pre_m1211, 1, 2, 1, 1, 3, 3, 1)
Q(pre_m1121, 1, 1, 2, 1, 3, 3, 1)
Q(pre_1101, 1, 1, 0, 1, 0, 6, 1)
Q(pre_1110, 1, 1, 1, 0, 0, 6, 1)
Q(pre_2101, 2, 1, 0, 1, 0, 4, 1)
Q(pre_2201, 2, 2, 0, 1, 0, 3, 1)

// A set mapped forth and back.
template <int D, int N> static void roundtrip(i64 hi) {
  Es es;
  unsigned flip = D == 2 ? sym_choice("flip", 2) : 0;
  for (int r = 0; r < D; ++r)
    es.push_back(bin(Add, dim(flip ? D - 1 - r : r), cst(sym_pick("off", -1, 1))));
  AF f = build(D, es);
  Built x = built(D, N, 0, hi, true);
  Pt p = symPt(D, -2, hi + 2, "p");
  IndexSet y = f->map(x.s);
  checkSet(f->inverseMap(y, x.s), p, inAny(x, p), "round-trip", false);
  sym_assert(y.size() == x.s.size(), "same-size");
  sym_reach("done");
}
HARNESS_S(trip_12, setupContext) { roundtrip<1, 2>(20); }
HARNESS_S(trip_22, setupContext) { roundtrip<2, 2>(10); }

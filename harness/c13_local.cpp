// C13: local matching solutions.
#include "mcim.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
using namespace spec;

template <typename Solutions>
static void check(Solutions &&sols, size_t n, const Spaces &s, const Model &f) {
  Pt e = inBox(s.e, "e");
  Pt v = inBox(s.v, "v");
  Pt e2 = inBox(s.e, "e2");
  Pt v2 = inBox(s.v, "v2");
  bool any = false;
  size_t count = 0;
  for (MCIM &m : sols) {
    bool ev = m.get(pnt(e), pnt(v));
    bool ev2 = m.get(pnt(e), pnt(v2));
    bool e2v = m.get(pnt(e2), pnt(v));
    sym_assert(!(ev & ev2) | same(v, v2), "one variable per equation");
    sym_assert(!(ev & e2v) | same(e, e2), "one equation per variable");
    any |= ev;
    sym_assert(!m.empty(), "a solution has an entry");
    ++count;
  }
  sym_assert(count == n, "as many as announced");
  sym_assert(any == f(e, v), "together the solutions are the incidences");
  sym_reach("done");
}

static void vaf(unsigned re, unsigned rv, unsigned nf) {
  Spaces s;
  s.e = winBox(re);
  s.es = shared(s.e);
  Model f = [](const Pt &, const Pt &) { return false; };
  llvm::SmallVector<AF> fs;
  IndexSet vs;
  for (unsigned i = 0; i < nf; ++i) {
    Es es = accessOf(re, rv);
    AF a = build(re, es);
    vs += a->map(*s.es);
    fs.push_back(std::move(a));
    Model old = f;
    f = [=](const Pt &e, const Pt &v) { return old(e, v) | accessed(es, e.c, v.c); };
  }
  // Any variable that can be accessed within the window.
  s.v.r = rv;
  for (unsigned d = 0; d < rv; ++d) { s.v.lo[d] = 0; s.v.hi[d] = win(rv); }
  LocalMatchingSolutions sols = solveLocalMatchingProblem(*s.es, vs, fs);
  size_t n = sols.size();
  Pt e = inBox(s.e, "e");
  Pt v = inBox(s.v, "v");
  Pt e2 = inBox(s.e, "e2");
  Pt v2 = inBox(s.v, "v2");
  bool any = false;
  size_t count = 0;
  for (MCIM &m : sols) {
    bool ev = m.get(pnt(e), pnt(v));
    bool ev2 = m.get(pnt(e), pnt(v2));
    bool e2v = m.get(pnt(e2), pnt(v));
    sym_assert(!(ev & ev2) | same(v, v2), "one variable per equation");
    sym_assert(!(ev & e2v) | same(e, e2), "one equation per variable");
    any |= ev;
    bool empty = m.empty();
    sym_assert(!empty, "a solution has an entry");
    IndexSet rows = m.flattenColumns();
    bool inside = s.es->contains(rows);
    sym_assert(inside, "a solution only has equations of the space");
    ++count;
  }
  sym_assert(count == n, "as many as announced");
  sym_assert(any == f(e, v), "together the solutions are the incidences");
  sym_reach("done");
}
/// Two rows, of any extent along the other dimension.
static Two rows(unsigned along) {
  Two t{Box(), Box(), small()};
  for (Box *b : {&t.a, &t.b}) {
    b->r = 2;
    b->lo[along] = b == &t.b;
    b->hi[along] = b->lo[along] + 1;
    b->lo[1 - along] = sym_int("lo", 0, 3);
    b->hi[1 - along] = sym_int("hi", 1, 4);
    sym_assume(b->lo[1 - along] < b->hi[1 - along]);
    t.set += mdr(*b);
  }
  return t;
}
/// Access functions on an equation space of two ranges.
static void vaf2(unsigned re, unsigned rv, unsigned nf, int used = -1) {
  Two es = used < 0 ? twoBoxes(re) : rows(used);
  Model f = [](const Pt &, const Pt &) { return false; };
  llvm::SmallVector<AF> fs;
  IndexSet vs;
  for (unsigned i = 0; i < nf; ++i) {
    Es a = used < 0 ? accessOf(re, rv) : Es{dim(used)};
    AF b = build(re, a);
    vs += b->map(es.set);
    fs.push_back(std::move(b));
    Model old = f;
    f = [=](const Pt &e, const Pt &v) { return old(e, v) | accessed(a, e.c, v.c); };
  }
  LocalMatchingSolutions sols = solveLocalMatchingProblem(es.set, vs, fs);
  size_t n = sols.size();
  Pt e = inWindow(re, "e"), v = inWindow(rv, "v"), e2 = inWindow(re, "e2"), v2 = inWindow(rv, "v2");
  bool there = vs.contains(pnt(v)), there2 = vs.contains(pnt(v2));
  sym_assume(in2(es, e) & in2(es, e2) & there & there2);
  bool any = false;
  size_t count = 0;
  for (MCIM &m : sols) {
    bool ev = m.get(pnt(e), pnt(v)), ev2 = m.get(pnt(e), pnt(v2)), e2v = m.get(pnt(e2), pnt(v));
    sym_assert(!(ev & ev2) | same(v, v2), "one variable per equation");
    sym_assert(!(ev & e2v) | same(e, e2), "one equation per variable");
    any |= ev;
    bool empty = m.empty();
    sym_assert(!empty, "a solution has an entry");
    IndexSet rows = m.flattenColumns();
    bool inside = es.set.contains(rows);
    sym_assert(inside, "a solution only has equations of the space");
    ++count;
  }
  sym_assert(count == n, "as many as announced");
  sym_assert(any == f(e, v), "together the solutions are the incidences");
  sym_reach("done");
}
static void mcim(unsigned re, unsigned rv, int na, int np, bool restricted) {
  Spaces s = spaces(re, rv);
  Mx x = matrix(s, na, np);
  MCIM m = x.m;
  if (restricted) {
    Box b = winBox(rv);
    IndexSet k(mdr(b));
    m = m.filterColumns(k);
    Model old = x.f;
    x.f = [=](const Pt &e, const Pt &v) { return old(e, v) & in(b, v); };
  }
  LocalMatchingSolutions sols = solveLocalMatchingProblem(m);
  for (MCIM &one : sols) {
    bool same = one.getEquationSpace() == *s.es && one.getVariableSpace() == *s.vs;
    sym_assert(same, "the spaces of the matrix");
  }
  size_t n = sols.size();
  check(sols, n, s, x.f);
}
#define VAF(p, S, re, rv, nf) HARNESS_S(vaf_##p##re##rv##nf, S) { vaf(re, rv, nf); }
#define MC(p, S, re, rv, na, np) \
  HARNESS_S(mcim_##p##re##rv##na##np, S) { mcim(re, rv, na, np, false); } \
  HARNESS_S(mcimr_##p##re##rv##na##np, S) { mcim(re, rv, na, np, true); }
VAF(, setupMcim, 1, 1, 1)
VAF(, setupMcim, 1, 2, 1)
VAF(, setupMcim, 2, 1, 1)
VAF(, setupMcim, 2, 2, 1)
VAF(, setupMcim, 1, 1, 2)
VAF(, setupMcim, 2, 1, 2)
VAF(, setupMcim, 2, 2, 2)
VAF(, setupMcim, 1, 1, 3)
VAF(a, setupMcimAffine, 1, 1, 1)
VAF(a, setupMcimAffine, 2, 1, 1)
VAF(a, setupMcimAffine, 1, 1, 2)
VAF(g, setupMcimAny, 1, 1, 1)
VAF(g, setupMcimAny, 2, 1, 1)
VAF(g, setupMcimAny, 1, 2, 1)
VAF(g, setupMcimAny, 1, 1, 2)
MC(, setupMcim, 1, 1, 1, 0)
MC(, setupMcim, 1, 1, 1, 1)
MC(, setupMcim, 1, 1, 2, 0)
MC(, setupMcim, 1, 1, 0, 2)
MC(, setupMcim, 1, 2, 1, 0)
MC(, setupMcim, 2, 1, 1, 0)
MC(, setupMcim, 2, 1, 1, 1)
MC(, setupMcim, 2, 2, 1, 0)
MC(a, setupMcimAffine, 1, 1, 1, 0)
MC(a, setupMcimAffine, 2, 1, 1, 0)
MC(g, setupMcimAny, 1, 1, 1, 0)
MC(g, setupMcimAny, 2, 1, 1, 0)
MC(g, setupMcimAny, 1, 1, 2, 0)
MC(, setupMcim, 1, 1, 0, 3)
// Many accesses of the same kind: x[i+1] + x[i+2] + ... + x[i+n].
static void many(unsigned n) {
  i64 lo = sym_int("lo", 0, 2);
  i64 e = sym_int("e", 0, 4);
  i64 v = sym_int("v", 0, 40);
  sym_assume((e >= lo) & (e < lo + 2));
  unsigned back = sym_choice("constant", n);
  IndexSet es(MultidimensionalRange(Range(lo, lo + 2)));
  llvm::SmallVector<AF> fs;
  IndexSet vs;
  for (unsigned i = 0; i < n; ++i) {
    AF a = build(1, {i == back ? cst(30) : bin(Add, dim(0), cst(i))});
    vs += a->map(es);
    fs.push_back(std::move(a));
  }
  LocalMatchingSolutions sols = solveLocalMatchingProblem(es, vs, fs);
  bool any = false;
  for (MCIM &m : sols) any |= m.get(Point(e), Point(v));
  bool want = v == 30;
  for (unsigned i = 0; i < n; ++i)
    if (i != back) want |= v == e + i;
  sym_assert(sols.size() == n + 1, "solutions");
  sym_assert(any == want, "together the solutions are the incidences");
  sym_reach("done");
}
HARNESS_S(many_3, setupMcim) { many(3); }
HARNESS_S(many_20, setupMcim) { many(20); }

HARNESS_S(vaf2_d11, setupMcimDims) { vaf2(1, 1, 1); }
HARNESS_S(vaf2_d21, setupMcimDims) { vaf2(2, 1, 1); }
HARNESS_S(vaf2_d22, setupMcimDims) { vaf2(2, 2, 1); }
static void setupRows() { setupMcim(); W2 = 4; }
HARNESS_S(rows_0, setupRows) { vaf2(2, 1, 1, 0); }
HARNESS_S(rows_1, setupRows) { vaf2(2, 1, 1, 1); }
HARNESS_S(vaf2_11, setupMcim) { vaf2(1, 1, 1); }
HARNESS_S(vaf2_g11, setupMcimAny) { vaf2(1, 1, 1); }
HARNESS_S(vaf2_a11, setupMcimAffine) { vaf2(1, 1, 1); }

// C12: a compressed incidence matrix holds exactly the incidences it was given.
#include "mcim.h"
using namespace spec;

// The entries after a sequence of applied accesses and single incidences.
template <int RE, int RV, int NA, int NP> static void entries() {
  Spaces s = spaces(RE, RV);
  Mx x = matrix(s, NA, NP);
  checkEntries(x, s, "entry");
  sym_reach("done");
}
template <int RE, int RV, int NA, int NP> static void flat() {
  Spaces s = spaces(RE, RV);
  Mx x = matrix(s, NA, NP);
  checkFlat(x, s);
  sym_reach("done");
}
template <int RE, int RV, int A1, int P1, int A2, int P2, int OP> static void binary() {
  Spaces s = spaces(RE, RV);
  Mx x = matrix(s, A1, P1), y = matrix(s, A2, P2);
  Model mx = x.f, my = y.f;
  if (OP == 0) {
    x.m += y.m;
    x.f = [mx, my](const Pt &e, const Pt &v) { return mx(e, v) | my(e, v); };
    checkEntries(x, s, "sum");
    sym_assert(x.m == x.m, "equal-to-itself");
  } else if (OP == 1) {
    x.m -= y.m;
    x.f = [mx, my](const Pt &e, const Pt &v) { return mx(e, v) & !my(e, v); };
    checkEntries(x, s, "difference");
  } else {
    bool same = true;
    for (const Pt &e : s.allE) for (const Pt &v : s.allV)
      same &= !(in(s.e, e) & in(s.v, v)) | (mx(e, v) == my(e, v));
    bool eq = x.m == y.m;
    sym_assert(eq == same, "equality");
    bool ne = x.m != y.m;
    sym_assert(ne == !same, "inequality");
    if (eq) sym_reach("equal"); else sym_reach("different");
  }
  checkEntries(y, s, "operand");
  sym_reach("done");
}
template <int RE, int RV, int NA, int NP, int OP> static void restricted() {
  Spaces s = spaces(RE, RV);
  Mx x = matrix(s, NA, NP);
  Model mx = x.f;
  bool rows = OP == 0 || OP == 2;
  // The new space lies in the old one, as when part of it has been matched.
  Box f = rows ? subBox(s.e) : subBox(s.v);
  IndexSet fs = small();
  fs += mdr(f);
  if (OP == 0 || OP == 1) {
    MCIM y = rows ? x.m.filterRows(fs) : x.m.filterColumns(fs);
    Mx r{y, [=](const Pt &e, const Pt &v) { return mx(e, v) & (rows ? in(f, e) : in(f, v)); }};
    checkEntries(r, s, "filtered");
    checkEntries(x, s, "source");
  } else {
    auto p = std::make_shared<const IndexSet>(fs);
    if (rows) x.m.setEquationSpace(p); else x.m.setVariableSpace(p);
    Spaces t = s;
    (rows ? t.e : t.v) = f;
    checkEntries(x, t, "restricted");
    sym_assert((rows ? x.m.getEquationSpace() : x.m.getVariableSpace()) == fs, "space");
    checkFlat(x, t);
  }
  sym_reach("done");
}
template <int RE, int RV, int NA, int NP> static void spaced() {
  Spaces s = spaces(RE, RV);
  Mx x = matrix(s, NA, NP);
  Model mx = x.f;
  Box fe = winBox(RE), fv = winBox(RV);
  IndexSet se = small(), sv = small();
  se += mdr(fe);
  sv += mdr(fv);
  MCIM y = x.m.withSpace(std::make_shared<const IndexSet>(se), std::make_shared<const IndexSet>(sv));
  Spaces t = s;
  t.e = fe;
  t.v = fv;
  Mx r{y, [=](const Pt &e, const Pt &v) { return mx(e, v) & in(s.e, e) & in(s.v, v); }};
  checkEntries(r, t, "with-space");
  checkFlat(r, t);
  sym_reach("done");
}
template <int RE, int RV, int NA, int NP> static void cleared() {
  Spaces s = spaces(RE, RV);
  Mx x = matrix(s, NA, NP);
  Model mx = x.f;
  Pt e0 = inBox(s.e, "ue"), v0 = inBox(s.v, "uv");
  x.m.unset(pnt(e0), pnt(v0));
  x.f = [=](const Pt &e, const Pt &v) { return mx(e, v) & !(same(e, e0) & same(v, v0)); };
  checkEntries(x, s, "unset");
  sym_reach("done");
}
// Copies are independent of their source.
template <int RE, int RV, int NA, int NP> static void copied() {
  Spaces s = spaces(RE, RV);
  Mx x = matrix(s, NA, NP);
  MCIM c(x.m), d(IndexSet(Point(0)), IndexSet(Point(0)));
  d = x.m;
  Pt e0 = inBox(s.e, "ce"), v0 = inBox(s.v, "cv");
  unsigned k = sym_choice("which", 3);
  if (k == 0) x.m.clear();
  else (k == 1 ? c : d).set(pnt(e0), pnt(v0));
  Model mx = x.f;
  Model none = [](const Pt &, const Pt &) { return false; };
  Model plus = [=](const Pt &e, const Pt &v) { return mx(e, v) | (same(e, e0) & same(v, v0)); };
  Mx a{x.m, k == 0 ? none : mx}, b{c, k == 1 ? plus : mx}, g{d, k == 2 ? plus : mx};
  checkEntries(a, s, "source");
  checkEntries(b, s, "copy");
  checkEntries(g, s, "assigned");
  sym_reach("done");
}
// Iteration visits the whole incidence space, each pair once.
template <int RE, int RV> static void iterated() {
  Spaces s = spaces(RE, RV);
  MCIM m(s.es, s.vs);
  Pt e = inBox(s.e, "ie"), v = inBox(s.v, "iv");
  int n = 0;
  i64 count = 0;
  for (auto it = m.indicesBegin(), end = m.indicesEnd(); it != end; ++it) {
    auto p = *it;
    n += samePoint(p.first, e) & samePoint(p.second, v) ? 1 : 0;
    ++count;
  }
  sym_assert(n == 1, "visited-once");
  sym_assert(count == volume(s.e) * volume(s.v), "visits");
  sym_reach("done");
}
// Spaces and filters of two ranges.
template <int RE, int RV, int NA, int NP, int OP> static void twofold() {
  Two e = twoBoxes(RE), v = twoBoxes(RV);
  MCIM m(e.set, v.set);
  Model f = [](const Pt &, const Pt &) { return false; };
  for (int i = 0; i < NA; ++i) {
    Es es = accessOf(RE, RV);
    AF a = build(RE, es);
    m.apply(*a);
    Model old = f;
    f = [=](const Pt &e, const Pt &v) { return old(e, v) | accessed(es, e.c, v.c); };
  }
  for (int i = 0; i < NP; ++i) {
    Pt pe = inWindow(RE, "pe"), pv = inWindow(RV, "pv");
    sym_assume(in2(e, pe) & in2(v, pv));
    m.set(pnt(pe), pnt(pv));
    Model old = f;
    f = [=](const Pt &e, const Pt &v) { return old(e, v) | (same(e, pe) & same(v, pv)); };
  }
  Pt qe = inWindow(RE, "e"), qv = inWindow(RV, "v");
  sym_assume(in2(e, qe) & in2(v, qv));
  bool want = f(qe, qv);
  if (OP == 1 || OP == 2) {
    Two k = twoBoxes(OP == 1 ? RE : RV);
    m = OP == 1 ? m.filterRows(k.set) : m.filterColumns(k.set);
    want &= in2(k, OP == 1 ? qe : qv);
  } else if (OP == 3) {
    Two ke = twoBoxes(RE), kv = twoBoxes(RV);
    m = m.withSpace(std::make_shared<const IndexSet>(ke.set), std::make_shared<const IndexSet>(kv.set));
    sym_assume(in2(ke, qe) & in2(kv, qv));
  }
  bool g = m.get(pnt(qe), pnt(qv));
  sym_assert(g == want, "entry");
  sym_reach("done");
}
#define H(n, ...) HARNESS_S(n, setupMcim) { __VA_ARGS__; }
H(ent_1110, entries<1, 1, 1, 0>())
H(ent_1120, entries<1, 1, 2, 0>())
H(ent_1111, entries<1, 1, 1, 1>())
H(ent_1112, entries<1, 1, 1, 2>())
H(ent_1121, entries<1, 1, 2, 1>())
H(ent_2111, entries<2, 1, 1, 1>())
H(ent_1211, entries<1, 2, 1, 1>())
H(ent_2211, entries<2, 2, 1, 1>())
H(flat_1120, flat<1, 1, 2, 0>())
H(flat_1111, flat<1, 1, 1, 1>())
H(flat_1101, flat<1, 1, 0, 1>())
H(flat_2110, flat<2, 1, 1, 0>())
H(flat_1210, flat<1, 2, 1, 0>())
H(flat_2210, flat<2, 2, 1, 0>())
H(sum_1010, binary<1, 1, 1, 0, 1, 0, 0>())
H(sum_1011, binary<1, 1, 1, 0, 1, 1, 0>())
H(sum_0110, binary<1, 1, 0, 1, 1, 0, 0>())
H(sum_2_1010, binary<2, 1, 1, 0, 1, 0, 0>())
H(sum_22_1001, binary<2, 2, 1, 0, 0, 1, 0>())
H(sub_1010, binary<1, 1, 1, 0, 1, 0, 1>())
H(sub_1001, binary<1, 1, 1, 0, 0, 1, 1>())
H(sub_0110, binary<1, 1, 0, 1, 1, 0, 1>())
H(sub_2010, binary<1, 1, 2, 0, 1, 0, 1>())
H(sub_1111, binary<1, 1, 1, 1, 1, 1, 1>())
H(sub_2_1010, binary<2, 1, 1, 0, 1, 0, 1>())
H(sub_12_1010, binary<1, 2, 1, 0, 1, 0, 1>())
H(sub_22_1010, binary<2, 2, 1, 0, 1, 0, 1>())
H(eq_1010, binary<1, 1, 1, 0, 1, 0, 2>())
H(eq_1001, binary<1, 1, 1, 0, 0, 1, 2>())
H(rows_1111, restricted<1, 1, 1, 1, 0>())
H(rows_1102, restricted<1, 1, 0, 2, 0>())
H(rows_2111, restricted<2, 1, 1, 1, 0>())
H(rows_1211, restricted<1, 2, 1, 1, 0>())
H(cols_1111, restricted<1, 1, 1, 1, 1>())
H(cols_1102, restricted<1, 1, 0, 2, 1>())
H(cols_2111, restricted<2, 1, 1, 1, 1>())
H(cols_1211, restricted<1, 2, 1, 1, 1>())
H(sete_1111, restricted<1, 1, 1, 1, 2>())
H(sete_1102, restricted<1, 1, 0, 2, 2>())
H(sete_2101, restricted<2, 1, 0, 1, 2>())
H(sete_1201, restricted<1, 2, 0, 1, 2>())
H(setv_1111, restricted<1, 1, 1, 1, 3>())
H(setv_1102, restricted<1, 1, 0, 2, 3>())
H(setv_2101, restricted<2, 1, 0, 1, 3>())
H(setv_1201, restricted<1, 2, 0, 1, 3>())
H(space_1111, spaced<1, 1, 1, 1>())
H(space_1102, spaced<1, 1, 0, 2>())
H(space_2110, spaced<2, 1, 1, 0>())
H(unset_1111, cleared<1, 1, 1, 1>())
H(unset_1120, cleared<1, 1, 2, 0>())
H(unset_2110, cleared<2, 1, 1, 0>())
H(copy_1111, copied<1, 1, 1, 1>())
H(iter_11, iterated<1, 1>())
H(iter_21, iterated<2, 1>())
// Other affine functions (a) and any function, also set-valued ones (g).
#define HA(n, ...) HARNESS_S(n, setupMcimAffine) { __VA_ARGS__; }
#define HG(n, ...) HARNESS_S(n, setupMcimAny) { __VA_ARGS__; }
HA(ent_a1111, entries<1, 1, 1, 1>())
HA(ent_a2110, entries<2, 1, 1, 0>())
HA(ent_a1210, entries<1, 2, 1, 0>())
HA(sub_a1010, binary<1, 1, 1, 0, 1, 0, 1>())
HA(cols_a1111, restricted<1, 1, 1, 1, 1>())
HA(setv_a1110, restricted<1, 1, 1, 0, 3>())
HG(ent_g1110, entries<1, 1, 1, 0>())
HG(ent_g1111, entries<1, 1, 1, 1>())
HG(ent_g2110, entries<2, 1, 1, 0>())
HG(ent_g1210, entries<1, 2, 1, 0>())
HG(flat_g1110, flat<1, 1, 1, 0>())
HG(flat_g1210, flat<1, 2, 1, 0>())
HG(sum_g1010, binary<1, 1, 1, 0, 1, 0, 0>())
HG(sub_g1010, binary<1, 1, 1, 0, 1, 0, 1>())
HG(sub_g1001, binary<1, 1, 1, 0, 0, 1, 1>())
HG(sub_g0110, binary<1, 1, 0, 1, 1, 0, 1>())
HG(rows_g1110, restricted<1, 1, 1, 0, 0>())
HG(cols_g1110, restricted<1, 1, 1, 0, 1>())
HG(sete_g1110, restricted<1, 1, 1, 0, 2>())
HG(setv_g1110, restricted<1, 1, 1, 0, 3>())
HG(setv_g2110, restricted<2, 1, 1, 0, 3>())
HG(space_g1110, spaced<1, 1, 1, 0>())
HG(unset_g1110, cleared<1, 1, 1, 0>())
HG(unset_g1120, cleared<1, 1, 2, 0>())

// Accesses that only permute and repeat dimensions.
#define HD(n, ...) HARNESS_S(n, setupMcimDims) { __VA_ARGS__; }
HD(eq_22d1010, binary<2, 2, 1, 0, 1, 0, 2>())
HD(eq_22d1001, binary<2, 2, 1, 0, 0, 1, 2>())
HD(sub_22d1010, binary<2, 2, 1, 0, 1, 0, 1>())
HD(sum_22d1010, binary<2, 2, 1, 0, 1, 0, 0>())
HD(space_22d10, spaced<2, 2, 1, 0>())
HD(space_11d11, spaced<1, 1, 1, 1>())
HD(cols_22d11, restricted<2, 2, 1, 1, 1>())
HD(rows_22d11, restricted<2, 2, 1, 1, 0>())
HD(two_11d11, twofold<1, 1, 1, 1, 0>())
HD(two_21d10, twofold<2, 1, 1, 0, 0>())
HD(tworow_11d02, twofold<1, 1, 0, 2, 1>())
HD(tworow_11d10, twofold<1, 1, 1, 0, 1>())
HD(twocol_11d02, twofold<1, 1, 0, 2, 2>())
HD(twocol_11d10, twofold<1, 1, 1, 0, 2>())
HD(twocol_21d10, twofold<2, 1, 1, 0, 2>())
HD(twosp_11d10, twofold<1, 1, 1, 0, 3>())
HD(twosp_11d02, twofold<1, 1, 0, 2, 3>())

// Whole spaces, every access.
#define HF(n, ...) HARNESS_S(n, setupMcimFull) { __VA_ARGS__; }
HF(eq_22f1010, binary<2, 2, 1, 0, 1, 0, 2>())
HF(sub_22f1010, binary<2, 2, 1, 0, 1, 0, 1>())
HF(sum_22f1010, binary<2, 2, 1, 0, 1, 0, 0>())
HF(sub_22f1001, binary<2, 2, 1, 0, 0, 1, 1>())
HF(sub_21f1111, binary<2, 1, 1, 1, 1, 1, 1>())
HF(eq_21f1111, binary<2, 1, 1, 1, 1, 1, 2>())
HF(space_22f11, spaced<2, 2, 1, 1>())
HF(cols_22f11, restricted<2, 2, 1, 1, 1>())
HF(rows_22f11, restricted<2, 2, 1, 1, 0>())
HF(setv_22f11, restricted<2, 2, 1, 1, 3>())
HF(sete_22f11, restricted<2, 2, 1, 1, 2>())
HF(unset_22f11, cleared<2, 2, 1, 1>())
HF(flat_22f20, flat<2, 2, 2, 0>())
HF(flat_21f21, flat<2, 1, 2, 1>())

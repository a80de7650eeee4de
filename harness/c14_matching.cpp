// C14: matching of equations and variables.
#include "system.h"
#include "marco/Modeling/Matching.h"
using namespace spec;

namespace {
struct V {
  int id;
  const Sys *s;
};
struct Q {
  int id;
  const Sys *s;
};
IndexSet setFor(const Box &b) { return IndexSet(mdr(b)); }
} // namespace
namespace marco::modeling::matching {
template <> struct VariableTraits<V> {
  using Id = int;
  static Id getId(const V *v) { return v->id; }
  static size_t getRank(const V *v) { return v->s->vars[v->id].b.r; }
  static IndexSet getIndices(const V *v) { return setFor(v->s->vars[v->id].b); }
  static llvm::raw_ostream &dump(const V *, llvm::raw_ostream &os) { return os; }
};
template <> struct EquationTraits<Q> {
  using Id = int;
  using VariableType = V;
  static Id getId(const Q *q) { return q->id; }
  static size_t getNumOfIterationVars(const Q *q) { return q->s->eqs[q->id].b.r; }
  static IndexSet getIndices(const Q *q) { return setFor(q->s->eqs[q->id].b); }
  static std::vector<Access<int>> getAccesses(const Q *q) {
    std::vector<Access<int>> r;
    const SysEq &e = q->s->eqs[q->id];
    for (auto &a : e.acc) r.emplace_back(int(a.first), build(e.b.r, a.second));
    return r;
  }
  static llvm::raw_ostream &dump(const Q *, llvm::raw_ostream &os) { return os; }
};
} // namespace marco::modeling::matching
using Graph = MatchingGraph<V, Q>;

static bool inSet(const IndexSet &s, const Pt &p) { return s.contains(pnt(p)); }

static void check(const Sys &s, const matching::MatchingOptions &opt) {
  Graph g(ctx);
  for (unsigned i = 0; i < s.vars.size(); ++i) g.addVariable({int(i), &s});
  for (unsigned i = 0; i < s.eqs.size(); ++i) g.addEquation({int(i), &s});
  llvm::SmallVector<Graph::MatchingSolution> sols;
  bool ok = g.match(sols, opt);
  bool want = matchable(s);
  sym_assert(ok == want, "matched exactly when it can be");
  if (!ok) {
    sym_reach("unmatched");
    return;
  }
  sym_reach("matched");
  // Each scalar element belongs to one solution.
  std::vector<unsigned> ce(s.es.size(), 0), cv(s.vs.size(), 0);
  for (auto &m : sols) {
    std::vector<unsigned> es, vs;
    bool ine[MAXSLOT], inv[MAXSLOT];
    for (unsigned i = 0; i < s.es.size(); ++i)
      if (int(s.es[i].id) == m.getEquation()) {
        bool c = inSet(m.getEquationIndices(), s.es[i].p);
        ine[es.size()] = c;
        es.push_back(i);
        ce[i] += c;
      }
    for (unsigned i = 0; i < s.vs.size(); ++i)
      if (int(s.vs[i].id) == m.getVariable()) {
        bool c = inSet(m.getVariableIndices(), s.vs[i].p);
        inv[vs.size()] = c;
        vs.push_back(i);
        cv[i] += c;
      }
    unsigned n = std::max(es.size(), vs.size());
    bool b = bijection(n, [&](unsigned i, unsigned j) -> bool {
      bool pe = i < es.size() ? ine[i] : false;
      bool pv = j < vs.size() ? inv[j] : false;
      bool inc = i < es.size() && j < vs.size() ? incident(s, s.es[es[i]], s.vs[vs[j]]) : false;
      return (pe == pv) & (!pe | inc);
    });
    sym_assert(b, "equations are matched with variables they access");
  }
  for (unsigned i = 0; i < s.es.size(); ++i) sym_assert(ce[i] == (s.es[i].present ? 1 : 0), "each equation is matched once");
  for (unsigned i = 0; i < s.vs.size(); ++i) sym_assert(cv[i] == (s.vs[i].present ? 1 : 0), "each variable is matched once");
}
static matching::MatchingOptions options(bool scalarize) {
  matching::MatchingOptions o;
  o.enableLeafNodesSimplification = sym_bool("leaves");
  o.enableScalarization = scalarize;
  return o;
}
/// As many equations as variables, unless the harness wants any system.
static bool balanced = false;
static void assumeBalanced(const Sys &s) {
  if (!balanced) return;
  i64 n = 0;
  for (auto &e : s.eqs) n += e.b.hi[0] - e.b.lo[0];
  for (auto &v : s.vars) n -= v.b.hi[0] - v.b.lo[0];
  sym_assume(n == 0);
}
static bool anyAccess = false;
static E access(unsigned dims, i64 off) { return anyAccess ? anyResult(dims) : roto(dims, off); }

/// Array equations and variables of rank 1 over symbolic ranges. Each bit of
/// mask says whether equation i accesses variable j.
static void arrays(unsigned ne, unsigned nv, i64 w, unsigned accesses, i64 off, bool optional) {
  Sys s;
  for (unsigned j = 0; j < nv; ++j) s.vars.push_back({rangeIn(w, "vlo")});
  for (unsigned i = 0; i < ne; ++i) s.eqs.push_back({rangeIn(w, "elo"), {}});
  assumeBalanced(s);
  for (SysEq &e : s.eqs) {
    for (unsigned j = 0; j < nv; ++j)
      for (unsigned k = 0; k < accesses; ++k) {
        if (optional && !sym_bool("accesses")) continue;
        Es es;
        es.push_back(access(1, off));
        e.acc.push_back({j, es});
      }
  }
  finish(s, w);
  check(s, options(false));
}
/// n scalar equations on n scalar variables, or on the elements of an array.
static void scalars(unsigned ne, unsigned nv, bool array, bool scalarize) {
  Sys s;
  if (array) s.vars.push_back({upTo(nv)});
  else for (unsigned j = 0; j < nv; ++j) s.vars.push_back({upTo(1)});
  for (unsigned i = 0; i < ne; ++i) {
    SysEq e{upTo(1), {}};
    for (unsigned j = 0; j < nv; ++j)
      if (sym_bool("accesses")) {
        Es es;
        es.push_back(cst(array ? j : 0));
        e.acc.push_back({array ? 0 : j, es});
      }
    s.eqs.push_back(e);
  }
  for (unsigned i = 0; i < ne; ++i) slots(s.es, i, s.eqs[i].b, 1);
  for (unsigned i = 0; i < s.vars.size(); ++i) slots(s.vs, i, s.vars[i].b, array ? nv : 1);
  check(s, options(scalarize));
}
/// An array equation and scalar ones on one or two arrays, with scalarization.
static void mixed(i64 n, unsigned ns, unsigned nv, bool scalarize) {
  Sys s;
  for (unsigned j = 0; j < nv; ++j) s.vars.push_back({upTo(n)});
  i64 len = balanced ? i64(nv) * n - ns : sym_pick("len", 1, n);
  SysEq a{upTo(len), {}};
  for (unsigned j = 0; j < nv; ++j)
    if (nv == 1 || sym_bool("accesses")) {
      Es es;
      es.push_back(access(1, 1));
      a.acc.push_back({j, es});
    }
  s.eqs.push_back(a);
  for (unsigned i = 0; i < ns; ++i) {
    SysEq e{upTo(1), {}};
    for (unsigned j = 0; j < nv; ++j)
      if (sym_bool("accesses")) {
        Es es;
        es.push_back(cst(sym_choice("element", n)));
        e.acc.push_back({j, es});
      }
    s.eqs.push_back(e);
  }
  slots(s.es, 0, s.eqs[0].b, len);
  for (unsigned i = 1; i < s.eqs.size(); ++i) slots(s.es, i, s.eqs[i].b, 1);
  for (unsigned i = 0; i < nv; ++i) slots(s.vs, i, s.vars[i].b, n);
  check(s, options(scalarize));
}
/// An equation of rank re on a variable of rank rv.
static void ranks(unsigned re, unsigned rv, unsigned accesses, unsigned singles) {
  Sys s;
  Box v;
  v.r = rv;
  for (unsigned d = 0; d < rv; ++d) { v.lo[d] = sym_int("vlo", 0, 1); v.hi[d] = 2; }
  s.vars.push_back({v});
  Box b;
  b.r = re;
  for (unsigned d = 0; d < re; ++d) { b.lo[d] = 0; b.hi[d] = sym_int("ehi", 1, 2); }
  SysEq e{b, {}};
  for (unsigned k = 0; k < accesses; ++k) {
    Es es;
    for (unsigned r = 0; r < rv; ++r) es.push_back(access(re, 1));
    e.acc.push_back({0, es});
  }
  s.eqs.push_back(e);
  for (unsigned i = 0; i < singles; ++i) {
    SysEq o{upTo(1), {}};
    Es es;
    for (unsigned r = 0; r < rv; ++r) es.push_back(cst(sym_choice("element", 2)));
    o.acc.push_back({0, es});
    s.eqs.push_back(o);
  }
  slots(s.es, 0, b, 2);
  for (unsigned i = 0; i < singles; ++i) slots(s.es, i + 1, s.eqs[i + 1].b, 1);
  slots(s.vs, 0, v, 2);
  check(s, options(false));
}
static void setup() { setupContext(); balanced = true; }
static void setupAll() { setupContext(); }
static void setupAny() { setupContext(); balanced = true; anyOrder = true; }
// Systems with any number of equations and variables.
HARNESS_S(all_11_1, setupAll) { arrays(1, 1, 4, 1, 1, false); }
HARNESS_S(all_11_2, setupAll) { arrays(1, 1, 3, 2, 1, false); }
HARNESS_S(all_21_1, setupAll) { arrays(2, 1, 3, 1, 1, false); }
HARNESS_S(all_12_1, setupAll) { arrays(1, 2, 3, 1, 1, false); }
HARNESS_S(all_sc23, setupAll) { scalars(2, 3, false, false); }
HARNESS_S(all_sc32, setupAll) { scalars(3, 2, false, false); }
HARNESS_S(all_sca23, setupAll) { scalars(2, 3, true, true); }
HARNESS_S(all_mix21, setupAll) { mixed(2, 1, 1, true); }
HARNESS_S(all_mix31, setupAll) { mixed(3, 2, 1, true); }
HARNESS_S(all_rk21, setupAll) { ranks(2, 1, 1, 0); }
HARNESS_S(all_rk22, setupAll) { ranks(2, 2, 1, 0); }
HARNESS_S(all_rk12, setupAll) { ranks(1, 2, 1, 1); }
HARNESS_S(all_rk11, setupAll) { ranks(1, 1, 2, 1); }
HARNESS_S(all_rk222, setupAll) { ranks(2, 2, 2, 0); }
// As many equations as variables.
HARNESS_S(arr_11_2, setup) { arrays(1, 1, 4, 2, 1, false); }
HARNESS_S(arr_11_3, setup) { arrays(1, 1, 3, 3, 1, false); }
HARNESS_S(arr_21_1, setup) { arrays(2, 1, 3, 1, 1, false); }
HARNESS_S(arr_21_1w, setup) { arrays(2, 1, 4, 1, 1, false); }
HARNESS_S(arr_12_1, setup) { arrays(1, 2, 4, 1, 1, false); }
HARNESS_S(arr_22_1, setup) { arrays(2, 2, 2, 1, 1, true); }
HARNESS_S(arr_22_1w, setup) { arrays(2, 2, 3, 1, 1, false); }
HARNESS_S(arr_22_0, setup) { arrays(2, 2, 3, 1, 0, true); }
HARNESS_S(arr_22_2, setup) { arrays(2, 2, 2, 2, 0, true); }
HARNESS_S(arr_21_2, setup) { arrays(2, 1, 3, 2, 1, false); }
HARNESS_S(arr_31_1, setup) { arrays(3, 1, 3, 1, 1, false); }
HARNESS_S(arr_32_1, setup) { arrays(3, 2, 2, 1, 0, true); }
HARNESS_S(sc_33, setup) { scalars(3, 3, false, false); }
HARNESS_S(sc_44, setup) { scalars(4, 4, false, false); }
HARNESS_S(sca_33, setup) { scalars(3, 3, true, true); }
HARNESS_S(sca_44, setup) { scalars(4, 4, true, true); }
HARNESS_S(sca_44n, setup) { scalars(4, 4, true, false); }
HARNESS_S(mix_21, setup) { mixed(2, 1, 1, true); }
HARNESS_S(mix_31, setup) { mixed(3, 1, 1, true); }
HARNESS_S(mix_32, setup) { mixed(3, 2, 1, true); }
HARNESS_S(mix_42n, setup) { mixed(4, 2, 1, false); }
HARNESS_S(mix_42, setup) { mixed(4, 2, 1, true); }
HARNESS_S(mix_22, setup) { mixed(2, 2, 2, true); }
HARNESS_S(mix_22n, setup) { mixed(2, 2, 2, false); }
HARNESS_S(mix_23, setup) { mixed(2, 3, 2, true); }
HARNESS_S(mix_33, setup) { mixed(3, 3, 2, true); }
// Accesses to several elements and other affine accesses.
static void setupGeneric() { setup(); lite = anyAccess = true; }
HARNESS_S(gen_11_1, setupGeneric) { arrays(1, 1, 4, 1, 0, false); }
HARNESS_S(gen_11_2, setupGeneric) { arrays(1, 1, 3, 2, 0, false); }
HARNESS_S(gen_21_1, setupGeneric) { arrays(2, 1, 3, 1, 0, false); }
HARNESS_S(gen_mix21, setupGeneric) { mixed(3, 1, 1, true); }
HARNESS_S(gen_mix22, setupGeneric) { mixed(2, 2, 2, true); }
// Tasks in any order.
HARNESS_S(ord_sc33, setupAny) { scalars(3, 3, false, false); }
HARNESS_S(ord_sca22, setupAny) { scalars(2, 2, true, true); }
HARNESS_S(ord_arr, setupAny) { arrays(2, 1, 2, 1, 1, true); }
HARNESS_S(ord_mix, setupAny) { mixed(2, 1, 1, true); }

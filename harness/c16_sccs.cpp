// C16: strongly connected components of the equations.
#include "order.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/Hashing.h"
// The hash of a set is made of its (symbolic) bounds. Any hash will do.
namespace llvm {
template <typename... T> hash_code verifHash(const T &...) { return hash_code(0); }
} // namespace llvm
#include "marco/Modeling/ArrayEquationsDependencyGraph.h"
#define hash_combine verifHash
#include "marco/Modeling/DependencyGraph.h"
#undef hash_combine
using namespace spec;

using Graph = DependencyGraph<DVar, DEq *>;
static void check(DSys &s) {
  depend(s);
  unsigned n = s.es.size();
  Graph g(ctx);
  std::vector<DEq *> eqs;
  for (auto &e : s.eqs) eqs.push_back(e.get());
  g.addEquations(eqs);
  auto sccs = g.getSCCs();
  unsigned m = sccs.size();
  sym_reach("components");
  if (m < s.eqs.size()) sym_reach("cycle");
  std::vector<unsigned> times(n, 0);
  std::vector<std::vector<bool>> in(m, std::vector<bool>(n, false));
  struct View { unsigned c; std::vector<char> has; };
  std::vector<View> views;
  for (unsigned c = 0; c < m; ++c)
    for (const auto &view : sccs[c]) {
      View v{c, std::vector<char>(n, 0)};
      int id = g[*view]->id;
      for (unsigned i = 0; i < n; ++i)
        if (int(s.es[i].id) == id) {
          bool h = view.getIndices().contains(pnt(s.es[i].p));
          v.has[i] = h;
          times[i] += h;
        }
      views.push_back(v);
    }
  for (unsigned i = 0; i < n; ++i) sym_assert(times[i] == (s.es[i].present ? 1 : 0), "each scalar equation belongs to one component");
  sym_assert(m <= MAXD && views.size() <= MAXD, "limits of the harness");
  bool cd[MAXD][MAXD] = {}, vd[MAXD][MAXD] = {};
  for (unsigned a = 0; a < views.size(); ++a)
    for (unsigned b = 0; b < views.size(); ++b) {
      bool d = false;
      for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j) d |= s.dep[i][j] & (views[a].has[i] != 0) & (views[b].has[j] != 0);
      if (views[a].c == views[b].c) vd[a][b] = d;
      else cd[views[a].c][views[b].c] |= d;
    }
  closure(m, cd);
  closure(views.size(), vd);
  bool acyclic = true, connected = true;
  for (unsigned i = 0; i < m; ++i) acyclic &= !cd[i][i];
  for (unsigned a = 0; a < views.size(); ++a)
    for (unsigned b = 0; b < views.size(); ++b)
      if (a != b && views[a].c == views[b].c) connected &= vd[a][b];
  sym_assert(acyclic, "different components do not need each other");
  sym_assert(connected, "equations of a component need each other");
}
static bool anyAccess = false;
static E result(unsigned dims, i64 off) { return anyAccess ? anyResult(dims) : roto(dims, off); }
/// n equations of rank 1, each on its own variable.
static void several(unsigned n, i64 w, i64 off, unsigned reads, bool self) {
  DSys s;
  for (unsigned i = 0; i < n; ++i) {
    auto e = std::make_unique<DEq>();
    e->id = i;
    e->b = w == 1 ? oneAt(0) : rangeIn(w);
    e->wv = i;
    e->w.push_back(dim(0));
    for (unsigned j = 0; j < n; ++j)
      for (unsigned k = 0; k < reads; ++k) {
        if (!self && i == j) continue;
        if (!sym_bool("reads")) break;
        Es es;
        es.push_back(w == 1 ? dim(0) : result(1, off));
        e->reads.push_back({j, es});
      }
    s.eqs.push_back(std::move(e));
  }
  slotsOf(s, w);
  check(s);
}
/// n equations of rank 1 on parts of one variable.
static void shared(unsigned n, i64 w, i64 off, unsigned reads) {
  DSys s;
  for (unsigned i = 0; i < n; ++i) {
    auto e = std::make_unique<DEq>();
    e->id = i;
    e->b = rangeIn(w);
    e->wv = 0;
    e->w.push_back(dim(0));
    for (unsigned k = 0; k < reads; ++k) {
      if (!sym_bool("reads")) break;
      Es es;
      es.push_back(result(1, off));
      e->reads.push_back({0u, es});
    }
    s.eqs.push_back(std::move(e));
  }
  slotsOf(s, w);
  check(s);
}
/// Two equations of rank 2.
static void planes(i64 w, i64 off) {
  DSys s;
  for (unsigned i = 0; i < 2; ++i) {
    auto e = std::make_unique<DEq>();
    e->id = i;
    e->b.r = 2;
    for (unsigned d = 0; d < 2; ++d) { e->b.lo[d] = 0; e->b.hi[d] = sym_int("hi", 1, w); }
    e->wv = i;
    e->w.push_back(dim(0));
    e->w.push_back(dim(1));
    Es es;
    es.push_back(result(2, off));
    es.push_back(result(2, off));
    e->reads.push_back({1 - i, es});
    s.eqs.push_back(std::move(e));
  }
  slotsOf(s, w);
  check(s);
}
static void setupAny() { setupContext(); lite = anyAccess = true; }
static void setupOrder() { setupContext(); anyOrder = true; }
HARNESS_S(sc_2, setupContext) { several(2, 1, 0, 1, true); }
HARNESS_S(sc_3, setupContext) { several(3, 1, 0, 1, false); }
HARNESS_S(sc_4, setupContext) { several(4, 1, 0, 1, false); }
HARNESS_S(arr_2, setupContext) { several(2, 3, 1, 1, false); }
HARNESS_S(arr_2w, setupContext) { several(2, 4, 1, 1, false); }
HARNESS_S(arr_2s, setupContext) { several(2, 2, 1, 1, true); }
HARNESS_S(arr_22, setupContext) { several(2, 2, 1, 2, false); }
HARNESS_S(arr_3, setupContext) { several(3, 2, 0, 1, false); }
HARNESS_S(arr_31, setupContext) { several(3, 2, 1, 1, false); }
HARNESS_S(sh_2, setupContext) { shared(2, 4, 2, 1); }
HARNESS_S(sh_22, setupContext) { shared(2, 3, 1, 2); }
HARNESS_S(sh_3, setupContext) { shared(3, 3, 1, 1); }
HARNESS_S(pl_2, setupContext) { planes(2, 1); }
HARNESS_S(g_2, setupAny) { several(2, 3, 0, 1, false); }
HARNESS_S(g_sh2, setupAny) { shared(2, 3, 0, 1); }
HARNESS_S(ord_2, setupOrder) { several(2, 2, 1, 1, false); }
HARNESS_S(ord_3, setupOrder) { several(3, 1, 0, 1, false); }

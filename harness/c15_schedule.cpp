// C15: scheduling.
#include "order.h"
#include "marco/Modeling/Scheduling.h"
using namespace spec;
namespace {
struct Comp {
  std::vector<DEq *> elements;
  const std::vector<std::vector<DEq *>> *deps; // by equation
};
} // namespace
namespace marco::modeling::dependency {
template <> struct SCCTraits<const Comp *> {
  using ElementRef = DEq *;
  static std::vector<ElementRef> getElements(const Comp *const *c) { return (*c)->elements; }
  static std::vector<ElementRef> getDependencies(const Comp *const *c, ElementRef e) { return (*(*c)->deps)[e->id]; }
};
} // namespace marco::modeling::dependency

/// Schedule components (each a list of equations) and check the order.
static void check(DSys &s, const std::vector<std::vector<unsigned>> &comps) {
  depend(s);
  unsigned n = s.es.size(), nc = comps.size(), ne = s.eqs.size();
  std::vector<unsigned> compOf(ne);
  for (unsigned c = 0; c < nc; ++c) for (unsigned e : comps[c]) compOf[e] = c;
  // Components do not need each other, and scalar equations of a component
  // made of one equation do not either.
  bool cd[MAXD][MAXD] = {}, sd[MAXD][MAXD] = {}, ed[MAXD][MAXD] = {};
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < n; ++j) {
      unsigned a = s.es[i].id, b = s.es[j].id;
      ed[a][b] |= s.dep[i][j];
      if (compOf[a] != compOf[b]) cd[compOf[a]][compOf[b]] |= s.dep[i][j];
      if (a == b && comps[compOf[a]].size() == 1) sd[i][j] = s.dep[i][j];
    }
  closure(nc, cd);
  closure(n, sd);
  bool acyclic = true;
  for (unsigned i = 0; i < nc; ++i) acyclic &= !cd[i][i];
  for (unsigned i = 0; i < n; ++i) acyclic &= !sd[i][i];
  sym_assume(acyclic);
  std::vector<std::vector<DEq *>> deps(ne);
  for (unsigned i = 0; i < ne; ++i)
    for (unsigned j = 0; j < ne; ++j)
      if (ed[i][j]) deps[i].push_back(s.eqs[j].get());
  std::vector<std::unique_ptr<Comp>> cs;
  std::vector<const Comp *> cps;
  for (auto &c : comps) {
    cs.push_back(std::make_unique<Comp>());
    for (unsigned e : c) cs.back()->elements.push_back(s.eqs[e].get());
    cs.back()->deps = &deps;
    cps.push_back(cs.back().get());
  }
  Scheduler<DVar, const Comp *> scheduler(ctx);
  auto result = scheduler.schedule(cps);
  // The position of each scalar equation.
  std::vector<unsigned> times(n, 0);
  std::vector<i64> pos(n, 0);
  i64 step = 0;
  std::vector<std::vector<scheduling::Direction>> dirs;
  for (const auto &scc : result) {
    if (scc.size() > 1) sym_reach("loop");
    for (const auto &eq : scc) {
      unsigned id = eq.getEquation()->id;
      sym_assert(scc.size() == comps[compOf[id]].size() || comps[compOf[id]].size() == 1, "loops are kept together");
      for (unsigned i = 0; i < n; ++i) {
        if (s.es[i].id != id) continue;
        bool c = eq.getIndexes().contains(pnt(s.es[i].p));
        times[i] += c;
        pos[i] = c ? step : pos[i];
      }
      auto d = eq.getIterationDirections();
      dirs.emplace_back(d.begin(), d.end());
      sym_assert(dirs.back().size() == s.eqs[id]->b.r, "one direction per dimension");
      if (scc.size() == 1) ++step;
    }
    if (scc.size() > 1) {
      dirs.resize(step + 1);
      dirs[step].clear();
      ++step;
    }
  }
  for (unsigned i = 0; i < n; ++i) sym_assert(times[i] == (s.es[i].present ? 1 : 0), "each scalar equation is scheduled once");
  bool anyBack[3] = {};
  for (auto &d : dirs)
    for (unsigned k = 0; k < d.size(); ++k)
      if (d[k] == scheduling::Direction::Any) anyBack[k] = true;
  for (unsigned k = 0; k < 3; ++k) anyBack[k] = anyBack[k] ? sym_bool("anyback") : false;
  bool ordered = true;
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < n; ++j) {
      unsigned a = s.es[i].id, b = s.es[j].id;
      if (a != b && compOf[a] == compOf[b]) continue;
      // The second comes before the first.
      bool before = pos[j] < pos[i];
      if (a == b) {
        // They may be elements of the same loop nest.
        for (unsigned t = 0; t < dirs.size(); ++t) {
          bool lex = false, same = true;
          for (unsigned k = 0; k < dirs[t].size(); ++k) {
            bool back = dirs[t][k] == scheduling::Direction::Backward ? true : dirs[t][k] == scheduling::Direction::Any ? anyBack[k] : false;
            bool lt = back ? s.es[j].p.c[k] > s.es[i].p.c[k] : s.es[j].p.c[k] < s.es[i].p.c[k];
            lex |= same & lt;
            same &= s.es[j].p.c[k] == s.es[i].p.c[k];
          }
          before |= (pos[i] == i64(t)) & (pos[j] == i64(t)) & lex;
        }
        if (comps[compOf[a]].size() > 1) continue;
      }
      ordered &= !s.dep[i][j] | before;
    }
  sym_assert(ordered, "every variable is computed before it is read");
  sym_reach("scheduled");
}
static bool anyAccess = false;
static E result(unsigned dims, i64 off) { return anyAccess ? anyResult(dims) : roto(dims, off); }
static Es results(unsigned rank, unsigned dims, i64 off) {
  Es es;
  for (unsigned k = 0; k < rank; ++k) es.push_back(result(dims, off));
  return es;
}
/// One equation of the given rank on a variable of the same rank.
static void single(unsigned rank, i64 w, unsigned reads, i64 off, bool split) {
  DSys s;
  auto e = std::make_unique<DEq>();
  e->id = 0;
  e->b.r = rank;
  if (rank == 1) e->b = rangeIn(w);
  else for (unsigned d = 0; d < rank; ++d) { e->b.lo[d] = 0; e->b.hi[d] = sym_int("hi", 1, w); }
  if (split) {
    Box m;
    m.r = rank;
    for (unsigned d = 0; d < rank; ++d) { m.lo[d] = sym_int("lo", 0, w - 1); m.hi[d] = w; }
    e->more.push_back(m);
  }
  e->wv = 0;
  bool swap = rank == 2 ? sym_bool("transposed") : false;
  for (unsigned k = 0; k < rank; ++k) {
    i64 o = sym_pick("woff", 0, 1);
    E d = dim(swap ? rank - 1 - k : k);
    e->w.push_back(o ? bin(Add, d, cst(o)) : d);
  }
  for (unsigned r = 0; r < reads; ++r) {
    Es es = results(rank, rank, off);
    e->reads.push_back({0u, es});
  }
  s.eqs.push_back(std::move(e));
  slotsOf(s, w);
  check(s, {{0}});
}
/// x[i + c] = f(x[i + a], x[i + b], ...) on a box, possibly without one of its points or with gaps.
static void shifted(unsigned rank, i64 w, unsigned reads, i64 off, bool sparse) {
  DSys s;
  auto e = std::make_unique<DEq>();
  e->id = 0;
  e->b.r = rank;
  for (unsigned d = 0; d < rank; ++d) { e->b.lo[d] = 0; e->b.hi[d] = sparse ? 1 : sym_int("hi", 1, w); }
  if (sparse)
    for (unsigned n = 0; n < 2; ++n) {
      Box m;
      m.r = rank;
      for (unsigned d = 0; d < rank; ++d) {
        m.lo[d] = sym_int("lo", 0, w - 1);
        m.hi[d] = sym_int("hi", 1, w);
        sym_assume(m.lo[d] < m.hi[d]);
      }
      e->more.push_back(m);
    }
  e->wv = 0;
  i64 wo = sym_pick("woff", 0, 1);
  for (unsigned k = 0; k < rank; ++k) e->w.push_back(wo ? bin(Add, dim(k), cst(wo)) : dim(k));
  for (unsigned r = 0; r < reads; ++r) {
    Es es;
    for (unsigned k = 0; k < rank; ++k) {
      i64 o = sym_pick("off", -off, off);
      es.push_back(bin(Add, dim(k), cst(o + wo)));
    }
    e->reads.push_back({0u, es});
  }
  s.eqs.push_back(std::move(e));
  slotsOf(s, w);
  check(s, {{0}});
}
/// An equation of rank 1 along a row or diagonal of a matrix, or of rank 2 on a vector
/// at one of the positions.
static void mixedRank(unsigned re, unsigned rv, i64 w, unsigned reads) {
  DSys s;
  auto e = std::make_unique<DEq>();
  e->id = 0;
  e->b.r = re;
  for (unsigned d = 0; d < re; ++d) { e->b.lo[d] = 0; e->b.hi[d] = d + 1 == re ? sym_int("hi", 1, w) : re == 2 ? 1 : w; }
  e->wv = 0;
  e->w = results(rv, re, 1);
  for (unsigned r = 0; r < reads; ++r) {
    Es es = results(rv, re, 1);
    e->reads.push_back({0u, es});
  }
  s.eqs.push_back(std::move(e));
  slotsOf(s, w);
  check(s, {{0}});
}
/// n equations, each on its own variable.
static void several(unsigned n, i64 w, i64 off, const std::vector<std::vector<unsigned>> &comps) {
  DSys s;
  for (unsigned i = 0; i < n; ++i) {
    auto e = std::make_unique<DEq>();
    e->id = i;
    e->b = w == 1 ? oneAt(0) : rangeIn(w);
    e->wv = i;
    e->w.push_back(dim(0));
    for (unsigned j = 0; j < n; ++j)
      if ((w > 1 || i != j) && sym_bool("reads")) {
        Es es;
        if (w == 1) es.push_back(dim(0));
        else es = results(1, 1, off);
        e->reads.push_back({j, es});
      }
    s.eqs.push_back(std::move(e));
  }
  slotsOf(s, w);
  check(s, comps);
}
static void setupAny() { setupContext(); lite = anyAccess = true; }
static void setupOrder() { setupContext(); lite = anyAccess = anyOrder = true; }
HARNESS_S(one_1, setupContext) { single(1, 4, 1, 2, false); }
HARNESS_S(one_2, setupContext) { single(1, 4, 2, 2, false); }
HARNESS_S(one_s1, setupContext) { single(1, 4, 1, 2, true); }
HARNESS_S(two_1, setupContext) { single(2, 2, 1, 1, false); }
HARNESS_S(two_1w, setupContext) { single(2, 3, 1, 1, false); }
HARNESS_S(two_2, setupContext) { single(2, 2, 2, 1, false); }
HARNESS_S(two_s1, setupContext) { single(2, 2, 1, 1, true); }
HARNESS_S(one_g1, setupAny) { single(1, 4, 1, 1, false); }
HARNESS_S(one_g2, setupAny) { single(1, 3, 2, 1, false); }
HARNESS_S(two_g1, setupAny) { single(2, 2, 1, 1, false); }
HARNESS_S(one_o1, setupOrder) { single(1, 3, 1, 1, false); }
HARNESS_S(shift_2s, setupContext) { shifted(1, 5, 2, 2, true); }
HARNESS_S(shift_3s, setupContext) { shifted(1, 5, 3, 1, true); }
HARNESS_S(shift_22, setupContext) { shifted(2, 2, 2, 1, false); }
HARNESS_S(shift_22w, setupContext) { shifted(2, 3, 2, 1, false); }
HARNESS_S(shift_22s, setupContext) { shifted(2, 2, 2, 1, true); }
HARNESS_S(rk_12, setupContext) { mixedRank(1, 2, 3, 1); }
HARNESS_S(rk_12_2, setupContext) { mixedRank(1, 2, 3, 2); }
HARNESS_S(rk_21, setupContext) { mixedRank(2, 1, 3, 1); }
HARNESS_S(sev_2, setupContext) { several(2, 2, 1, {{0}, {1}}); }
HARNESS_S(sev_2w, setupContext) { several(2, 3, 0, {{0}, {1}}); }
HARNESS_S(sev_3s, setupContext) { several(3, 1, 0, {{0}, {1}, {2}}); }
HARNESS_S(sev_4s, setupContext) { several(4, 1, 0, {{0}, {1}, {2}, {3}}); }
HARNESS_S(sev_3, setupContext) { several(3, 2, 0, {{0}, {1}, {2}}); }
HARNESS_S(sev_21, setupContext) { several(3, 1, 0, {{0, 1}, {2}}); }
HARNESS_S(sev_22, setupContext) { several(4, 1, 0, {{0, 3}, {1, 2}}); }

// Shared by the harnesses on dependencies: equations that write one variable
// each and read others, with the dependencies between their scalar elements.
#ifndef VERIF_ORDER_H
#define VERIF_ORDER_H
#include "system.h"
#include "marco/Modeling/Dependency.h"
namespace spec {
struct DEq {
  int id;
  Box b;
  unsigned wv;
  Es w;                                       // the written element
  std::vector<std::pair<unsigned, Es>> reads; // the read elements
  std::vector<Box> more;                      // further ranges of indices
};
struct DVar {
  int id;
};
constexpr unsigned MAXD = 12;
struct DSys {
  std::vector<std::unique_ptr<DEq>> eqs;
  std::vector<Slot> es;
  bool dep[MAXD][MAXD]; // the first needs the second
};
static Pt eval(const Es &es, const Pt &p) {
  Pt r;
  r.r = es.size();
  for (unsigned i = 0; i < es.size(); ++i) r.c[i] = vals(es[i], p.c)[0];
  return r;
}
static bool samePt(const Pt &a, const Pt &b) {
  bool r = true;
  for (unsigned i = 0; i < a.r; ++i) r &= a.c[i] == b.c[i];
  return r;
}
static void slotsOf(DSys &s, i64 w) {
  for (auto &e : s.eqs) {
    size_t from = s.es.size();
    slots(s.es, e->id, e->b, w);
    for (size_t i = from; i < s.es.size(); ++i)
      for (const Box &m : e->more) s.es[i].present |= in(m, s.es[i].p);
  }
}
/// Compute the dependencies, and require each element to be written once.
static void depend(DSys &s) {
  unsigned n = s.es.size();
  std::vector<Pt> wr;
  for (Slot &a : s.es) wr.push_back(eval(s.eqs[a.id]->w, a.p));
  bool once = true;
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < i; ++j)
      if (s.eqs[s.es[i].id]->wv == s.eqs[s.es[j].id]->wv)
        once &= !(s.es[i].present & s.es[j].present & samePt(wr[i], wr[j]));
  sym_assume(once);
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < n; ++j) {
      bool d = false;
      for (auto &r : s.eqs[s.es[i].id]->reads)
        if (r.first == s.eqs[s.es[j].id]->wv) d |= accessed(r.second, s.es[i].p.c, wr[j].c);
      s.dep[i][j] = d & s.es[i].present & s.es[j].present;
    }
}
static void closure(unsigned n, bool (*m)[MAXD]) {
  for (unsigned k = 0; k < n; ++k)
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j) m[i][j] |= m[i][k] & m[k][j];
}
static IndexSet indicesOf(const DEq &e) {
  IndexSet r(mdr(e.b));
  for (const Box &m : e.more) r += mdr(m);
  return r;
}
} // namespace spec
namespace marco::modeling::dependency {
template <> struct VariableTraits<spec::DVar> {
  using Id = int;
  static Id getId(const spec::DVar *v) { return v->id; }
};
template <> struct EquationTraits<spec::DEq *> {
  using Id = int;
  using VariableType = spec::DVar;
  using AccessProperty = internal::dependency::EmptyAccessProperty;
  using A = Access<spec::DVar>;
  static Id getId(spec::DEq *const *e) { return (*e)->id; }
  static size_t getNumOfIterationVars(spec::DEq *const *e) { return (*e)->b.r; }
  static IndexSet getIterationRanges(spec::DEq *const *e) { return spec::indicesOf(**e); }
  static std::vector<A> getWrites(spec::DEq *const *e) {
    std::vector<A> r;
    r.emplace_back(spec::DVar{int((*e)->wv)}, spec::build((*e)->b.r, (*e)->w));
    return r;
  }
  static std::vector<A> getReads(spec::DEq *const *e) {
    std::vector<A> r;
    for (auto &a : (*e)->reads) r.emplace_back(spec::DVar{int(a.first)}, spec::build((*e)->b.r, a.second));
    return r;
  }
};
} // namespace marco::modeling::dependency
#endif

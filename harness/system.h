// Shared by the harnesses on matching and dependency graphs: symbolic systems
// of array equations and variables, with a reference incidence relation
// between their scalar elements.
#ifndef VERIF_SYSTEM_H
#define VERIF_SYSTEM_H
#include "access.h"
#include "mlir/IR/Threading.h"
#include <algorithm>

// Tasks that may run in any order: when the harness asks for it, the solver
// chooses which of them runs first, and whether the others run forwards or
// backwards. Each runs on its own.
static bool anyOrder = false;
namespace mlir {
template <typename It, typename F>
void verifParallelForEach(MLIRContext *c, It begin, It end, F &&f) {
  if (!anyOrder) return parallelForEach(c, begin, end, f);
  std::vector<It> todo;
  for (It i = begin; i != end; ++i) todo.push_back(i);
  if (todo.size() > 1) {
    if (todo.size() > 2) std::swap(todo[0], todo[sym_choice("first", todo.size())]);
    if (sym_bool("backwards")) std::reverse(todo.begin(), todo.end());
  }
  for (It i : todo) f(*i);
}
template <typename R, typename F>
void verifParallelForEach(MLIRContext *c, R &&r, F &&f) {
  verifParallelForEach(c, std::begin(r), std::end(r), std::forward<F>(f));
}
} // namespace mlir
#define parallelForEach verifParallelForEach

namespace spec {
constexpr unsigned MAXSLOT = 10;
struct SysVar {
  Box b;
};
struct SysEq {
  Box b;
  std::vector<std::pair<unsigned, Es>> acc; // accessed variables
};
/// A scalar element of an array.
struct Slot {
  unsigned id;
  Pt p;
  bool present;
};
struct Sys {
  std::vector<SysVar> vars;
  std::vector<SysEq> eqs;
  std::vector<Slot> es, vs; // the scalar elements within the window
};
static Pt pt1(i64 i) { Pt p; p.r = 1; p.c[0] = i; return p; }
static Pt pt2(i64 i, i64 j) { Pt p; p.r = 2; p.c[0] = i; p.c[1] = j; return p; }
/// The scalar elements of a box within [0, w) per dimension.
static void slots(std::vector<Slot> &out, unsigned id, const Box &b, i64 w) {
  for (i64 i = 0; i < w; ++i) {
    if (b.r == 1) {
      Pt p = pt1(i);
      out.push_back({id, p, in(b, p)});
      continue;
    }
    for (i64 j = 0; j < w; ++j) {
      Pt p = pt2(i, j);
      out.push_back({id, p, in(b, p)});
    }
  }
}
static void finish(Sys &s, i64 w) {
  for (unsigned i = 0; i < s.eqs.size(); ++i) slots(s.es, i, s.eqs[i].b, w);
  for (unsigned i = 0; i < s.vars.size(); ++i) slots(s.vs, i, s.vars[i].b, w);
}
static bool incident(const Sys &s, const Slot &e, const Slot &v) {
  bool any = false;
  for (auto &a : s.eqs[e.id].acc)
    if (a.first == v.id) any |= accessed(a.second, e.p.c, v.p.c);
  return any;
}
/// There is a one-to-one correspondence between the elements of two lists
/// along a relation.
template <typename Ok>
static bool bijection(unsigned n, Ok ok) {
  bool okb[MAXSLOT][MAXSLOT];
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < n; ++j) okb[i][j] = ok(i, j);
  // can[mask]: the first |mask| elements go to the elements of mask.
  static bool can[1 << MAXSLOT];
  can[0] = true;
  for (unsigned m = 1; m < (1u << n); ++m) {
    unsigned i = __builtin_popcount(m) - 1;
    bool r = false;
    for (unsigned j = 0; j < n; ++j)
      if (m >> j & 1) r |= okb[i][j] & can[m & ~(1u << j)];
    can[m] = r;
  }
  return can[(1u << n) - 1];
}
static bool matchable(const Sys &s) {
  // Absent elements go to absent ones.
  unsigned n = std::max(s.es.size(), s.vs.size());
  return bijection(n, [&](unsigned i, unsigned j) -> bool {
    bool pe = i < s.es.size() ? s.es[i].present : false;
    bool pv = j < s.vs.size() ? s.vs[j].present : false;
    bool inc = i < s.es.size() && j < s.vs.size() ? incident(s, s.es[i], s.vs[j]) : false;
    return (pe == pv) & (!pe | inc);
  });
}
static Box rangeIn(i64 w, const char *n = "lo") {
  Box b;
  b.r = 1;
  b.lo[0] = sym_int(n, 0, w - 1);
  b.hi[0] = sym_int("hi", 1, w);
  sym_assume(b.lo[0] < b.hi[0]);
  return b;
}
static Box oneAt(i64 i) {
  Box b;
  b.r = 1;
  b.lo[0] = i;
  b.hi[0] = i + 1;
  return b;
}
static Box upTo(i64 n) {
  Box b;
  b.r = 1;
  b.lo[0] = 0;
  b.hi[0] = n;
  return b;
}
} // namespace spec
#endif

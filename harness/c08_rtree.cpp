// C08: the R-tree behind a set (and behind the dependency graphs) stays well
// formed and finds exactly its objects, after any history of changes.
#include "sets.h"
#include "marco/Modeling/RTree.h"
using namespace spec;

namespace {
struct Peek : IndexSet {
  static auto *root(const IndexSet &s) { return static_cast<const Peek &>(s).getRoot(); }
};
} // namespace
template <typename NodeT> static void mbrOf(const NodeT *n, Box &m, bool &first) {
  auto add = [&](const Box &b) {
    if (first) {
      m = b;
      first = false;
      return;
    }
    sym_assert(b.r == m.r, "rank");
    for (unsigned d = 0; d < b.r; ++d) {
      m.lo[d] = imin(m.lo[d], b.lo[d]);
      m.hi[d] = imax(m.hi[d], b.hi[d]);
    }
  };
  for (const auto &c : n->children)
    add(boxOf(c->getBoundary()));
  for (const auto &o : n->objects)
    add(boxOf(o.getBoundary()));
}
template <typename NodeT>
static void walk(const NodeT *n, const NodeT *parent, size_t lo, size_t hi, int depth, int &leafDepth) {
  sym_assert(n->getParent() == parent, "parent");
  sym_assert(n->children.empty() | n->objects.empty(), "mixed-node");
  size_t f = n->children.size() + n->objects.size();
  sym_assert(f >= (parent ? lo : n->children.empty() ? 1 : 2), "fan-out-min");
  sym_assert(f <= hi, "fan-out-max");
  Box m;
  m.r = 0;
  bool first = true;
  mbrOf(n, m, first);
  sym_assert(!first && sameBox(m, boxOf(n->getBoundary())), "boundary");
  if (n->children.empty()) {
    sym_assert(leafDepth < 0 || leafDepth == depth, "balanced");
    leafDepth = depth;
  }
  for (const auto &c : n->children)
    walk(c.get(), n, lo, hi, depth + 1, leafDepth);
}
static void checkTree(const IndexSet &s, size_t lo, size_t hi) {
  int leafDepth = -1;
  if (auto *root = Peek::root(s))
    walk(root, decltype(root)(nullptr), lo, hi, 0, leafDepth);
}
static IndexSet tree(size_t lo) { return lo == 4 ? IndexSet() : IndexSet(lo, lo == 1 ? 2 : lo == 2 ? 4 : lo == 3 ? 7 : 16); }
static size_t maxOf(size_t lo) { return lo == 1 ? 2 : lo == 2 ? 4 : lo == 3 ? 7 : 16; }
static Box unit(int i, i64 step = 3) {
  Box b;
  b.r = 1;
  b.lo[0] = step * i;
  b.hi[0] = b.lo[0] + 2;
  return b;
}
// k symbolic insertions or removals on a tree of n separate ranges
static void churn(int n, int k, size_t lo, bool bulk) {
  IndexSet s = tree(lo);
  llvm::SmallVector<MultidimensionalRange, 4> v;
  for (int i = 0; i < n; ++i)
    if (bulk)
      v.push_back(mdr(unit(i)));
    else
      s += mdr(unit(i));
  if (bulk)
    s.setFromRanges(v);
  checkTree(s, lo, maxOf(lo));
  for (int i = 0; i < k; ++i) {
    Box c = symBox(1, -3, 3 * n + 6, "c");
    if (sym_choice("op", 2))
      s -= mdr(c);
    else
      s += mdr(c);
    checkTree(s, lo, maxOf(lo));
  }
  sym_reach("done");
}
HARNESS(churn_3s) { churn(3, 2, 1, false); }
HARNESS(churn_5s) { churn(5, 1, 1, false); }
HARNESS(churn_9s) { churn(9, 1, 1, false); }
HARNESS(churn_9b) { churn(9, 1, 1, true); }
HARNESS(churn_10m) { churn(10, 1, 2, false); }
HARNESS(churn_10mb) { churn(10, 1, 2, true); }
HARNESS(churn_20) { churn(20, 1, 4, false); }
HARNESS(churn_20b) { churn(20, 1, 4, true); }
HARNESS(churn_6s2) { churn(6, 2, 1, false); }
HARNESS(churn_9m2) { churn(9, 2, 2, false); }
// construction in bulk of every size up to 80, for every fan-out
HARNESS(bulk_sizes) {
  size_t lo = 1 + sym_choice("lo", 4);
  int n = 1 + sym_choice("n", 80);
  i64 step = 3 + sym_choice("gap", 2);
  llvm::SmallVector<MultidimensionalRange, 4> v;
  for (int i = 0; i < n; ++i)
    v.push_back(mdr(unit(i, step)));
  IndexSet s = tree(lo);
  s.setFromRanges(v);
  checkTree(s, lo, maxOf(lo));
  Pt p = symPt(1, -5, 500);
  bool m = false;
  for (int i = 0; i < n; ++i)
    m |= in(unit(i, step), p);
  checkSet(s, p, m, "bulk-points", false);
  // and then grow and shrink it
  s -= mdr(unit((int)sym_choice("at", 4) * n / 4, step));
  checkTree(s, lo, maxOf(lo));
  sym_reach("done");
}
template <int R, int N> static void symbolic(i64 hi, size_t lo, bool bulk) {
  IndexSet s = tree(lo);
  llvm::SmallVector<MultidimensionalRange, 4> v;
  for (int i = 0; i < N; ++i) {
    MultidimensionalRange b = mdr(R == 1 ? symBox(1, 0, hi) : symBoxPin(R, 0, hi, 0, 2));
    if (bulk)
      v.push_back(b);
    else
      s += b;
  }
  if (bulk)
    s.setFromRanges(v);
  checkTree(s, lo, maxOf(lo));
  IndexSet t(s);
  checkTree(t, lo, maxOf(lo));
  sym_reach("done");
}
HARNESS(sym_1d3) { symbolic<1, 3>(30, 1, false); }
HARNESS(sym_1d4) { symbolic<1, 4>(30, 1, false); }
HARNESS(sym_1d4b) { symbolic<1, 4>(30, 1, true); }
HARNESS(sym_2d2) { symbolic<2, 2>(30, 1, false); }
HARNESS(sym_2d3) { symbolic<2, 3>(30, 1, false); }
HARNESS(sym_2d3b) { symbolic<2, 3>(30, 1, true); }

// the generic tree: objects that may share or overlap their boundaries
namespace {
struct Obj {
  MultidimensionalRange range;
  int id;
};
struct ObjPeek : RTree<Obj> {
  static auto *root(const RTree<Obj> &t) { return static_cast<const ObjPeek &>(t).getRoot(); }
};
} // namespace
namespace marco::modeling {
template <> struct RTreeInfo<Obj> {
  static const MultidimensionalRange &getShape(const Obj &o) { return o.range; }
  static bool isEqual(const Obj &a, const Obj &b) { return a.id == b.id; }
};
} // namespace marco::modeling
static void objects(int n, int k, int removals) {
  RTree<Obj> t;
  llvm::SmallVector<Box, 16> boxes;
  llvm::SmallVector<bool, 16> live;
  for (int i = 0; i < n + k; ++i) {
    Box b;
    if (i < n) {
      b = unit(i / 2); // pairs share their boundary
    } else {
      b = symBox(1, -3, 2 * n + 6);
    }
    boxes.push_back(b);
    live.push_back(true);
    t.insert(Obj{mdr(b), i});
  }
  for (int i = 0; i < removals; ++i) {
    // any of the ends of the concrete part, or any of the symbolic ones
    unsigned c = sym_choice("rm", 3 + k);
    int at = c < 3 ? (int)c * (n - 1) / 2 : n + (int)c - 3;
    t.remove(Obj{mdr(boxes[at]), at});
    live[at] = false;
  }
  Box q = symBox(1, -3, 2 * n + 6, "q");
  llvm::SmallVector<int, 16> found(n + k, 0);
  const RTree<Obj> &ct = t;
  ct.walkOverlappingObjects(mdr(q), [&](const Obj &o) {
    ++found[o.id];
    sym_assert(sameBox(boxOf(o.range), boxes[o.id]), "object-intact");
  });
  int all = 0;
  for (auto it = t.begin(), e = t.end(); it != e; ++it)
    ++all;
  int expected = 0;
  for (int i = 0; i < n + k; ++i) {
    sym_assert(found[i] == (live[i] & overlap(boxes[i], q) ? 1 : 0), "walk-overlapping");
    bool has = t.contains(Obj{mdr(boxes[i]), i});
    sym_assert(has == live[i], "contains-object");
    expected += live[i];
  }
  sym_assert(all == expected, "all-objects");
  sym_assert((int)t.size() == expected, "size");
  sym_assert(t.empty() == (expected == 0), "empty");
  int leafDepth = -1;
  if (auto *root = ObjPeek::root(t))
    walk(root, decltype(root)(nullptr), 4, 16, 0, leafDepth);
  sym_reach("done");
}
HARNESS(obj_3_1) { objects(3, 1, 1); }
HARNESS(obj_16_1) { objects(16, 1, 1); }
HARNESS(obj_20_1) { objects(20, 1, 2); }
HARNESS(obj_16_2) { objects(16, 2, 1); }

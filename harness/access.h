// Shared by the access-function harnesses: index expressions with a reference
// semantics (the set of values an expression takes at a point).
#ifndef VERIF_ACCESS_H
#define VERIF_ACCESS_H
#include "sets.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionAffineConstant.h"
#include "marco/Modeling/AccessFunctionConstant.h"
#include "marco/Modeling/AccessFunctionEmpty.h"
#include "marco/Modeling/AccessFunctionGeneric.h"
#include "marco/Modeling/AccessFunctionRotoTranslation.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessDiv.h"
#include "marco/Modeling/DimensionAccessIndices.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/DimensionAccessSub.h"
#include "mlir/IR/MLIRContext.h"
#include <memory>
#include <vector>
namespace spec {
static mlir::MLIRContext *ctx;
static void setupContext() { ctx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED); }

enum Op { Const, Dim, Add, Sub, Mul, Div, Rng, Idx };
struct E {
  Op op = Const;
  i64 a = 0, b = 0; // constant | dimension | range
  std::shared_ptr<IndexSet> space;
  std::vector<E> k;
};
static inline E cst(i64 c) { E e; e.op = Const; e.a = c; return e; }
static inline E dim(unsigned d) { E e; e.op = Dim; e.a = d; return e; }
static inline E bin(Op o, E l, E r) { E e; e.op = o; e.k.push_back(l); e.k.push_back(r); return e; }
static inline E rng(i64 a, i64 b) { E e; e.op = Rng; e.a = a; e.b = b; return e; }

using DA = std::unique_ptr<DimensionAccess>;
using AF = std::unique_ptr<AccessFunction>;

static DA make(const E &e) {
  switch (e.op) {
  case Const: return std::make_unique<DimensionAccessConstant>(ctx, e.a);
  case Dim: return std::make_unique<DimensionAccessDimension>(ctx, e.a);
  case Add: return std::make_unique<DimensionAccessAdd>(ctx, make(e.k[0]), make(e.k[1]));
  case Sub: return std::make_unique<DimensionAccessSub>(ctx, make(e.k[0]), make(e.k[1]));
  case Mul: return std::make_unique<DimensionAccessMul>(ctx, make(e.k[0]), make(e.k[1]));
  case Div: return std::make_unique<DimensionAccessDiv>(ctx, make(e.k[0]), make(e.k[1]));
  case Rng: return std::make_unique<DimensionAccessRange>(ctx, Range(e.a, e.b));
  case Idx: return std::make_unique<DimensionAccessIndices>(ctx, e.space, e.a, llvm::SetVector<uint64_t>());
  }
  return nullptr;
}
using Vals = llvm::SmallVector<i64, 8>;
static i64 applyOp(Op o, i64 l, i64 r) {
  if (o == Add) return l + r;
  if (o == Sub) return l - r;
  if (o == Mul) return l * r;
  // Rounded towards minus infinity, as in the affine form of the access.
  sym_assume(r > 0);
  i64 q = l / r;
  return q - ((l % r != 0) & (l < 0) ? 1 : 0);
}
/// The values of an expression at a point.
static Vals vals(const E &e, const i64 *x) {
  Vals v;
  if (e.op == Const) v.push_back(e.a);
  else if (e.op == Dim) v.push_back(x[e.a]);
  else if (e.op == Rng) { for (i64 i = e.a; i < e.b; ++i) v.push_back(i); }
  else if (e.op == Idx) { for (Point p : *e.space) v.push_back(p[e.a]); }
  else {
    Vals l = vals(e.k[0], x), r = vals(e.k[1], x);
    for (i64 a : l) for (i64 b : r) v.push_back(applyOp(e.op, a, b));
  }
  return v;
}
using Es = llvm::SmallVector<E, 3>;
/// q is one of the elements accessed at x.
static bool accessed(const Es &es, const i64 *x, const i64 *q) {
  bool all = true;
  for (size_t r = 0; r < es.size(); ++r) {
    bool any = false;
    for (i64 v : vals(es[r], x)) any |= v == q[r];
    all &= any;
  }
  return all;
}
static llvm::SmallVector<DA, 3> makeAll(const Es &es) {
  llvm::SmallVector<DA, 3> r;
  for (const E &e : es) r.push_back(make(e));
  return r;
}
static AF build(unsigned dims, const Es &es) { return AccessFunction::build(ctx, dims, makeAll(es)); }

/// One result of a rototranslation: constant, dimension or dimension + offset.
static E rotoResult(unsigned dims, i64 off = 2) {
  unsigned k = sym_choice("kind", dims ? 4 : 1);
  if (k == 0) return cst(sym_pick("c", -1, 1));
  E d = dim(sym_choice("dim", dims));
  if (k == 1) return d;
  E c = cst(sym_pick("off", -off, off));
  return k == 2 ? bin(Add, d, c) : bin(Add, c, d);
}
static E roto(unsigned dims, i64 off) {
  unsigned k = sym_choice("dim", dims + 1);
  if (k == dims) return cst(sym_pick("c", 0, 1));
  i64 c = sym_pick("off", -off, off);
  return c == 0 ? dim(k) : bin(Add, dim(k), cst(c));
}
/// One affine result.
static bool lite = false; // fewer constants
static E affineResult(unsigned dims) {
  if (lite) {
    unsigned k = sym_choice("kind", dims ? 6 : 1);
    if (k == 0) return cst(-1);
    E d = dim(sym_choice("dim", dims));
    if (k == 1) return d;
    if (k == 2) return bin(Sub, d, cst(2));
    if (k == 3) return bin(Div, bin(Add, d, cst(3)), cst(2));
    if (k == 4) return bin(Add, bin(Mul, cst(2), d), dim(dims - 1));
    return bin(Sub, bin(Mul, d, cst(3)), bin(Sub, dim(0), cst(1)));
  }
  unsigned k = sym_choice("kind", dims ? 8 : 1);
  if (k == 0) return cst(sym_pick("c", -1, 2));
  E d = dim(sym_choice("dim", dims));
  if (k == 1) return d;
  if (k == 2) return bin(Add, d, cst(sym_pick("off", -2, 2)));
  if (k == 3) return bin(Sub, d, cst(sym_pick("off", -2, 2)));
  if (k == 4) return bin(Mul, d, cst(sym_pick("off", -1, 3)));
  if (k == 5) {
    i64 off = sym_pick("off", 0, 2), div = sym_pick("div", 1, 3);
    return bin(Div, bin(Add, d, cst(off)), cst(div));
  }
  if (k == 6) return bin(Add, bin(Mul, cst(2), d), dim(sym_choice("dim", dims)));
  return bin(Sub, bin(Mul, d, cst(3)), bin(Sub, dim(sym_choice("dim", dims)), cst(1)));
}
/// One result that may access several elements.
static E anyResult(unsigned dims) {
  unsigned k = sym_choice("any", 5);
  if (k == 0) return affineResult(dims);
  i64 lo = lite ? 0 : sym_pick("rlo", -1, 1);
  E r = rng(lo, lo + (lite ? 2 : sym_pick("rlen", 1, 2)));
  if (k == 1) return r;
  if (k == 4) {
    E e;
    e.op = Idx;
    e.space = std::make_shared<IndexSet>();
    *e.space += Point({lo, 5});
    *e.space += Point({lo + 2, 7});
    e.a = sym_choice("idim", 2);
    return e;
  }
  E o = dims ? dim(sym_choice("dim", dims)) : cst(3);
  if (k == 2) return bin(Add, r, o);
  return bin(sym_bool("sub") ? Sub : Mul, o, r);
}
} // namespace spec
#endif

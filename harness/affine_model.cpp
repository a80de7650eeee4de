// Instrumented stand-in for mlir::AffineMap::compose(ArrayRef<int64_t>), which
// lives in libMLIR: evaluates every result at the given operands. Same values
// as MLIR's own (integer arithmetic, floor/ceil division, Euclidean mod), so
// that operands can stay symbolic.
#include "mlir/IR/AffineExpr.h"
#include "mlir/IR/AffineMap.h"
#include "llvm/ADT/SmallVector.h"
using namespace mlir;

static int64_t eval(AffineExpr e, llvm::ArrayRef<int64_t> x, unsigned nd) {
  switch (e.getKind()) {
  case AffineExprKind::Constant:
    return cast<AffineConstantExpr>(e).getValue();
  case AffineExprKind::DimId:
    return x[cast<AffineDimExpr>(e).getPosition()];
  case AffineExprKind::SymbolId:
    return x[nd + cast<AffineSymbolExpr>(e).getPosition()];
  default:
    break;
  }
  auto b = cast<AffineBinaryOpExpr>(e);
  int64_t l = eval(b.getLHS(), x, nd), r = eval(b.getRHS(), x, nd);
  switch (e.getKind()) {
  case AffineExprKind::Add:
    return l + r;
  case AffineExprKind::Mul:
    return l * r;
  case AffineExprKind::FloorDiv: {
    int64_t q = l / r;
    return q - ((l % r != 0) & ((l < 0) != (r < 0)) ? 1 : 0);
  }
  case AffineExprKind::CeilDiv: {
    int64_t q = l / r;
    return q + ((l % r != 0) & ((l < 0) == (r < 0)) ? 1 : 0);
  }
  default: {
    int64_t m = l % r;
    return m < 0 ? m + r : m;
  }
  }
}
llvm::SmallVector<int64_t, 4> AffineMap::compose(llvm::ArrayRef<int64_t> values) const {
  llvm::SmallVector<int64_t, 4> res;
  for (unsigned i = 0, n = getNumResults(); i < n; ++i)
    res.push_back(eval(getResult(i), values, getNumDims()));
  return res;
}

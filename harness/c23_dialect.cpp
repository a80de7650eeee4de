// C23: index spaces survive being stored in IR: attributes, bytecode, text.
#include "sets.h"
#include "marco/Dialect/Modeling/IR/Attributes.h"
#include "marco/Dialect/Modeling/IR/Dialect.h"
#include "marco/Dialect/Modeling/IR/Properties.h"
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/Bytecode/BytecodeImplementation.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/Parser/Parser.h"
#include <string>
using namespace spec;
using mlir::modeling::IndexSetsList;

static mlir::MLIRContext *ctx;
static IndexSetsList *kept;
static IndexSet *keptOne;
/// An operation whose text is a list of sets, or a set.
template <typename Self>
struct Holder : mlir::Op<Self, mlir::OpTrait::ZeroOperands, mlir::OpTrait::ZeroResults> {
  using mlir::Op<Self, mlir::OpTrait::ZeroOperands, mlir::OpTrait::ZeroResults>::Op;
  static llvm::ArrayRef<llvm::StringRef> getAttributeNames() { return {}; }
};
struct ListOp : Holder<ListOp> {
  using Holder<ListOp>::Holder;
  static llvm::StringRef getOperationName() { return "keep.list"; }
  static mlir::ParseResult parse(mlir::OpAsmParser &p, mlir::OperationState &) {
    kept->clear();
    return mlir::modeling::parse(p, *kept);
  }
  void print(mlir::OpAsmPrinter &p) { p << ' '; mlir::modeling::print(p, *kept); }
};
struct OneOp : Holder<OneOp> {
  using Holder<OneOp>::Holder;
  static llvm::StringRef getOperationName() { return "keep.one"; }
  static mlir::ParseResult parse(mlir::OpAsmParser &p, mlir::OperationState &) {
    *keptOne = IndexSet();
    return mlir::modeling::parse(p, *keptOne);
  }
  void print(mlir::OpAsmPrinter &p) { p << ' '; mlir::modeling::print(p, *keptOne); }
};
struct KeepDialect : mlir::Dialect {
  static llvm::StringRef getDialectNamespace() { return "keep"; }
  explicit KeepDialect(mlir::MLIRContext *c) : mlir::Dialect("keep", c, mlir::TypeID::get<KeepDialect>()) { addOperations<ListOp, OneOp>(); }
};
static void setup() {
  ctx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
  ctx->loadDialect<mlir::modeling::ModelingDialect>();
  ctx->loadDialect<KeepDialect>();
  kept = new IndexSetsList;
  keptOne = new IndexSet;
}

// A stream of integers in place of MLIR's encoding of them.
using DV = mlir::FailureOr<const mlir::DialectVersion *>;
static std::vector<uint64_t> stream;
struct Writer : mlir::DialectBytecodeWriter {
  void writeAttribute(mlir::Attribute) override { sym_fail("unexpected_kind_of_datum"); }
  void writeOptionalAttribute(mlir::Attribute) override { sym_fail("unexpected_kind_of_datum"); }
  void writeType(mlir::Type) override { sym_fail("unexpected_kind_of_datum"); }
  void writeResourceHandle(const mlir::AsmDialectResourceHandle &) override { sym_fail("unexpected_kind_of_datum"); }
  void writeVarInt(uint64_t v) override { stream.push_back(v); }
  void writeSignedVarInt(int64_t v) override { stream.push_back((uint64_t)v); }
  void writeAPIntWithKnownWidth(const llvm::APInt &) override {}
  void writeAPFloatWithKnownSemantics(const llvm::APFloat &) override {}
  void writeOwnedString(llvm::StringRef) override {}
  void writeOwnedBlob(llvm::ArrayRef<char>) override {}
  void writeOwnedBool(bool) override {}
  int64_t getBytecodeVersion() const override { return 6; }
  DV getDialectVersion(llvm::StringRef) const override { return mlir::failure(); }
};
struct Reader : mlir::DialectBytecodeReader {
  size_t at = 0;
  mlir::InFlightDiagnostic emitError(const llvm::Twine &) const override { return {}; }
  DV getDialectVersion(llvm::StringRef) const override { return mlir::failure(); }
  mlir::MLIRContext *getContext() const override { return ctx; }
  uint64_t getBytecodeVersion() const override { return 6; }
  mlir::LogicalResult readAttribute(mlir::Attribute &) override { return mlir::failure(); }
  mlir::LogicalResult readOptionalAttribute(mlir::Attribute &) override { return mlir::failure(); }
  mlir::LogicalResult readType(mlir::Type &) override { return mlir::failure(); }
  mlir::LogicalResult readVarInt(uint64_t &r) override {
    if (at >= stream.size())
      return mlir::failure();
    r = stream[at++];
    return mlir::success();
  }
  mlir::LogicalResult readSignedVarInt(int64_t &r) override {
    uint64_t v;
    if (mlir::failed(readVarInt(v)))
      return mlir::failure();
    r = (int64_t)v;
    return mlir::success();
  }
  mlir::FailureOr<llvm::APInt> readAPIntWithKnownWidth(unsigned) override { return mlir::failure(); }
  mlir::FailureOr<llvm::APFloat> readAPFloatWithKnownSemantics(const llvm::fltSemantics &) override { return mlir::failure(); }
  mlir::LogicalResult readString(llvm::StringRef &) override { return mlir::failure(); }
  mlir::LogicalResult readBlob(llvm::ArrayRef<char> &) override { return mlir::failure(); }
  mlir::LogicalResult readBool(bool &) override { return mlir::failure(); }
  mlir::FailureOr<mlir::AsmDialectResourceHandle> readResourceHandle() override { return mlir::failure(); }
};

static void equal(const IndexSet &a, const IndexSet &b, const char *id) {
  sym_assert(a == b, id);
  sym_assert(a.size() == b.size(), id);
  sym_assert(a.empty() == b.empty(), id);
  if (!a.empty())
    sym_assert(a.rank() == b.rank(), id);
}
template <typename T> static T through(const T &a) {
  stream.clear();
  Writer w;
  mlir::modeling::writeToMlirBytecode(w, a);
  Reader r;
  T b;
  sym_assert(mlir::succeeded(mlir::modeling::readFromMlirBytecode(r, b)), "bytecode_is_readable");
  sym_assert(r.at == stream.size(), "bytecode_is_read_whole");
  return b;
}
/// Whether the values end up in text or in uniqued storage, which are MLIR's:
/// they are given concrete values first (every one of the window).
static bool pinned;
static Box box(int rank, i64 lo, i64 hi) {
  Box x = symBox(rank, lo, hi);
  if (pinned)
    for (int d = 0; d < rank; ++d) {
      x.lo[d] = (i64)__sym_h_pin((uint64_t)x.lo[d]);
      x.hi[d] = (i64)__sym_h_pin((uint64_t)x.hi[d]);
    }
  return x;
}
static IndexSet set(int rank, int n, i64 lo, i64 hi) {
  IndexSet s;
  for (int i = 0; i < n; ++i)
    s += mdr(box(rank, lo, hi));
  return s;
}
template <int R, int N> static void bytecode(i64 lo, i64 hi) {
  IndexSet a = set(R, N, lo, hi);
  equal(through(a), a, "bytecode");
  sym_reach("done");
}
HARNESS_S(bytes_11, setup) { bytecode<1, 1>(-(1ll << 40), 1ll << 40); }
HARNESS_S(bytes_12, setup) { bytecode<1, 2>(-4, 5); }
HARNESS_S(bytes_13, setup) { bytecode<1, 3>(0, 6); }
HARNESS_S(bytes_21, setup) { bytecode<2, 1>(-(1ll << 20), 1ll << 20); }
HARNESS_S(bytes_22, setup) { bytecode<2, 2>(0, 3); }
HARNESS_S(bytes_31, setup) { bytecode<3, 1>(-(1ll << 20), 1ll << 20); }
/// Lists of up to three sets, some of them empty, of different ranks.
static void lists(i64 lo, i64 hi, IndexSetsList &l) {
  int n = (int)sym_choice("sets", 4);
  for (int i = 0; i < n; ++i) {
    int k = (int)sym_choice("shape", 3);
    l.push_back(k == 0 ? IndexSet() : set(k, 1, lo, hi));
  }
}
static void same(const IndexSetsList &a, const IndexSetsList &b, const char *id) {
  sym_assert(a.size() == b.size(), id);
  for (size_t i = 0; i < a.size(); ++i)
    equal(a[i], b[i], id);
}
HARNESS_S(bytes_list, setup) {
  IndexSetsList a;
  lists(-100, 100, a);
  same(through(a), a, "bytecode_of_a_list");
  sym_reach("done");
}
static mlir::InFlightDiagnostic noError() { return mlir::InFlightDiagnostic(); }
template <int R, int N> static void attribute(i64 lo, i64 hi) {
  pinned = true;
  IndexSet a = set(R, N, lo, hi), b;
  mlir::ArrayAttr t = mlir::modeling::getPropertiesAsAttribute(ctx, a);
  sym_assert(mlir::succeeded(mlir::modeling::setPropertiesFromAttribute(b, t, noError)), "attribute_is_readable");
  equal(b, a, "attribute");
  sym_assert((size_t)mlir::modeling::computeHash(a) == (size_t)mlir::modeling::computeHash(b), "hash_of_property");
  sym_reach("done");
}
HARNESS_S(attr_11, setup) { attribute<1, 1>(-2, 3); }
HARNESS_S(attr_12, setup) { attribute<1, 2>(-2, 4); }
HARNESS_S(attr_13, setup) { attribute<1, 3>(0, 5); }
HARNESS_S(attr_21, setup) { attribute<2, 1>(-1, 2); }
HARNESS_S(attr_list, setup) {
  pinned = true;
  IndexSetsList a, b;
  lists(0, 2, a);
  mlir::ArrayAttr t = mlir::modeling::getPropertiesAsAttribute(ctx, a);
  sym_assert(mlir::succeeded(mlir::modeling::setPropertiesFromAttribute(b, t, noError)), "attribute_is_readable");
  same(b, a, "attribute_of_a_list");
  sym_reach("done");
}

/// The text of an operation, read again.
static std::string textOf(const char *name) {
  mlir::OperationState s(mlir::UnknownLoc::get(ctx), name);
  mlir::Operation *op = mlir::Operation::create(s);
  std::string t;
  llvm::raw_string_ostream os(t);
  op->print(os);
  op->destroy();
  return t;
}
static bool readText(const std::string &t) {
  mlir::Block b;
  mlir::ParserConfig c(ctx, false);
  return mlir::succeeded(mlir::parseSourceString(t, &b, c));
}
template <int R, int N> static void textual(i64 lo, i64 hi) {
  pinned = true;
  IndexSet a = set(R, N, lo, hi);
  *keptOne = a;
  std::string t = textOf("keep.one");
  sym_assert(readText(t), "text_is_readable");
  equal(*keptOne, a, "text");
  sym_reach("done");
}
HARNESS_S(text_10, setup) { textual<1, 0>(0, 1); }
HARNESS_S(text_11, setup) { textual<1, 1>(-2, 3); }
HARNESS_S(text_12, setup) { textual<1, 2>(-2, 4); }
HARNESS_S(text_13, setup) { textual<1, 3>(0, 5); }
HARNESS_S(text_21, setup) { textual<2, 1>(-1, 2); }
HARNESS_S(text_22, setup) { textual<2, 2>(0, 2); }
HARNESS_S(text_list, setup) {
  pinned = true;
  IndexSetsList a;
  lists(0, 2, a);
  *kept = a;
  std::string t = textOf("keep.list");
  sym_assert(readText(t), "text_is_readable");
  same(*kept, a, "text_of_a_list");
  sym_reach("done");
}
/// The attributes of ranges.
static mlir::Attribute again(mlir::Attribute a) {
  std::string t;
  llvm::raw_string_ostream os(t);
  a.print(os);
  return mlir::parseAttribute(t, ctx);
}
HARNESS_S(range_attr, setup) {
  pinned = true;
  Box x = box(1, -3, 4);
  auto a = mlir::modeling::RangeAttr::get(ctx, Range(x.lo[0], x.hi[0]));
  sym_assert(a.getValue() == Range(x.lo[0], x.hi[0]), "value_of_attribute");
  sym_assert(again(a) == a, "text_of_a_range");
  sym_reach("done");
}
template <int R> static void boxAttr(i64 lo, i64 hi) {
  pinned = true;
  Box x = box(R, lo, hi);
  auto a = mlir::modeling::MultidimensionalRangeAttr::get(ctx, mdr(x));
  sym_assert(sameBox(boxOf(a.getValue()), x), "value_of_attribute");
  sym_assert(again(a) == a, "text_of_a_box");
  sym_reach("done");
}
HARNESS_S(box_attr1, setup) { boxAttr<1>(-3, 4); }
HARNESS_S(box_attr2, setup) { boxAttr<2>(-1, 2); }
HARNESS_S(box_attr3, setup) { boxAttr<3>(0, 2); }

// Token streams for the parser harnesses.
#ifndef VERIF_PARSE_H
#define VERIF_PARSE_H
#include "sym.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "llvm/Support/MemoryBuffer.h"
#include "clang/Basic/FileManager.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace prs {
using namespace marco;
using namespace marco::ast::bmodelica;
using namespace marco::parser::bmodelica;
using K = TokenKind;
using Node = std::unique_ptr<marco::ast::ASTNode>;

struct Tok {
  int32_t kind;
  const char *name; // identifiers and strings
  int64_t value;    // integers
};
static const int MAX = 160;
static Tok toks[MAX];
static int ntoks, at;

/// Tokens are laid out on one line, in cells of this width.
static const int CELL = 24;
static int cell(int64_t column) { return (int)((column - 1) / CELL); }

static std::shared_ptr<SourceFile> file;
static clang::DiagnosticsEngine *diags;
static clang::SourceManager *sources;
static std::unique_ptr<llvm::MemoryBuffer> buffer;

static void setup() {
  file = std::make_shared<SourceFile>("t.mo");
  diags = new clang::DiagnosticsEngine(new clang::DiagnosticIDs, new clang::DiagnosticOptions,
                                       new clang::IgnoringDiagConsumer);
  auto *fm = new clang::FileManager(clang::FileSystemOptions());
  sources = new clang::SourceManager(*diags, *fm);
}
static bool (*more)();
static void reset() { ntoks = at = 0; more = nullptr; }
static void tok(K k, const char *name = nullptr, int64_t value = 0) {
  toks[ntoks++] = Tok{(int32_t)k, name, value};
}
static void id(const char *n) { tok(K::Identifier, n); }
/// Any token. `same`: its name, if it has one.
static void any(const char *name = "x") {
  int64_t k = sym_int("kind", (int64_t)K::EndOfFile, (int64_t)K::AssignmentOperator);
  toks[ntoks++] = Tok{(int32_t)k, name, 7};
}
/// Whether there is a token i: sequences can be chosen as they are read.
static bool have(int i) {
  while (i >= ntoks)
    if (!more || !more())
      return false;
  return true;
}
static bool diagnosed() { return diags->hasErrorOccurred(); }

static const char *spelling(K k) {
  switch (k) {
#define T(K_, S) case K::K_: return S;
    T(Algorithm, "algorithm") T(And, "and") T(Annotation, "annotation") T(Block, "block") T(Break, "break")
    T(Class, "class") T(Connect, "connect") T(Connector, "connector") T(Constant, "constant")
    T(ConstrainedBy, "constrainedby") T(Der, "der") T(Discrete, "discrete") T(Each, "each") T(Else, "else")
    T(ElseIf, "elseif") T(ElseWhen, "elsewhen") T(Encapsulated, "encapsulated") T(End, "end")
    T(Enumeration, "enumeration") T(Equation, "equation") T(Expandable, "expandable") T(Extends, "extends")
    T(External, "external") T(False, "false") T(Final, "final") T(Flow, "flow") T(For, "for")
    T(Function, "function") T(If, "if") T(Import, "import") T(Impure, "impure") T(In, "in")
    T(Initial, "initial") T(Inner, "inner") T(Input, "input") T(Loop, "loop") T(Model, "model") T(Not, "not")
    T(Operator, "operator") T(Or, "or") T(Outer, "outer") T(Output, "output") T(Package, "package")
    T(Parameter, "parameter") T(Partial, "partial") T(Protected, "protected") T(Public, "public")
    T(Pure, "pure") T(Record, "record") T(Redeclare, "redeclare") T(Replaceable, "replaceable")
    T(Return, "return") T(Stream, "stream") T(Then, "then") T(True, "true") T(Type, "type") T(When, "when")
    T(While, "while") T(Within, "within")
    T(Plus, "+") T(PlusEW, ".+") T(Minus, "-") T(MinusEW, ".-") T(Product, "*") T(ProductEW, ".*")
    T(Division, "/") T(DivisionEW, "./") T(Pow, "^") T(PowEW, ".^") T(Dot, ".") T(Comma, ",")
    T(Semicolon, ";") T(Colon, ":") T(LPar, "(") T(RPar, ")") T(LSquare, "[") T(RSquare, "]")
    T(LCurly, "{") T(RCurly, "}") T(EqualityOperator, "=") T(AssignmentOperator, ":=")
    T(Less, "<") T(LessEqual, "<=") T(Greater, ">") T(GreaterEqual, ">=") T(Equal, "==") T(NotEqual, "<>")
#undef T
  default: return "~"; // malformed
  }
}
/// Append the tokens of a text: words separated by blanks.
static void words(const char *w) {
  while (*w) {
    size_t n = strcspn(w, " ");
    char *s = strndup(w, n);
    K k = K::Identifier;
    if (*s >= '0' && *s <= '9')
      k = K::Integer;
    else if (*s == '"')
      k = K::String;
    else
      for (int i = (int)K::EndOfFile; i <= (int)K::AssignmentOperator; ++i)
        if (!strcmp(spelling((K)i), s))
          k = (K)i;
    if (k == K::Integer)
      tok(k, nullptr, *s - '0');
    else if (k == K::String) {
      s[n - 1] = 0;
      tok(k, s + 1);
    } else
      tok(k, k == K::Identifier ? s : nullptr);
    w += n + (w[n] == ' ');
  }
}
static std::string render() {
  std::string s;
  for (int i = 0; i < ntoks; ++i) {
    K k = (K)toks[i].kind;
    if (k == K::EndOfFile)
      break;
    std::string t = k == K::Identifier ? toks[i].name
                    : k == K::String   ? std::string("\"") + (toks[i].name ? toks[i].name : "") + "\""
                    : k == K::Integer  ? std::to_string(toks[i].value)
                    : k == K::FloatingPoint ? std::string("1.5")
                                            : spelling(k);
    s += t;
    s.resize((size_t)(i + 1) * CELL, ' ');
  }
  return s;
}
/// The parser, on the tokens so far.
static std::unique_ptr<Parser> open() {
#ifndef VERIF_SYM
  have(MAX);
  static std::string text;
  text = render();
  std::string shown;
  for (char c : text)
    if (c != ' ' || (!shown.empty() && shown.back() != ' '))
      shown += c;
  fprintf(stderr, "TEXT %s\n", shown.c_str());
  buffer = llvm::MemoryBuffer::getMemBuffer(text);
  file->setMemoryBuffer(buffer.get());
#endif
  return std::make_unique<Parser>(*diags, *sources, file);
}
} // namespace prs

#ifdef VERIF_SYM
namespace marco::lexer {
template <> Lexer<marco::parser::bmodelica::StateMachine>::Token Lexer<marco::parser::bmodelica::StateMachine>::scan() {
  using namespace prs;
  int i = at;
  if (have(at))
    ++at;
  SourceRange loc(SourcePosition(file, 1, i * CELL + 1), SourcePosition(file, 1, i * CELL + CELL / 2));
  Token t(i < ntoks ? (K)toks[i].kind : K::EndOfFile, loc, (int64_t)i);
  return t;
}
} // namespace marco::lexer
namespace marco::parser::bmodelica {
/// Token kinds are solver variables; the data a token carries is looked up by its
/// position. Asking a numeric token for its text fails as std::get does.
std::string toString(TokenKind) { return "token"; }
Token::Token(TokenKind kind, SourceRange location) : kind(kind), location(std::move(location)), value(int64_t(prs::MAX - 1)) {}
Token::Token(TokenKind kind, SourceRange location, int64_t value)
    : kind(kind), location(std::move(location)), value(value) {}
TokenKind Token::getKind() const { return kind; }
SourceRange Token::getLocation() const { return location; }
std::string Token::getString() const {
  if ((kind == TokenKind::Integer) | (kind == TokenKind::FloatingPoint))
    sym_fail("bad_variant_access");
  const char *n = prs::toks[std::get<int64_t>(value)].name;
  return n ? n : "";
}
int64_t Token::getInt() const {
  if (kind != TokenKind::Integer)
    sym_fail("bad_variant_access");
  return prs::toks[std::get<int64_t>(value)].value;
}
double Token::getFloat() const {
  if (kind != TokenKind::FloatingPoint)
    sym_fail("bad_variant_access");
  return 1.5;
}
std::string toString(const Token &obj) { return "token"; }
} // namespace marco::parser::bmodelica
#endif
#endif

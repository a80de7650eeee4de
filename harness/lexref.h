// Reference tokenizer of (Base) Modelica, written from the lexical grammar.
#ifndef VERIF_LEXREF_H
#define VERIF_LEXREF_H
#include "sym.h"
#include "marco/Lexer/Lexer.h"
#include "marco/Lexer/Location.h"
#include "marco/Parser/BaseModelica/StateMachine.h"
#include "marco/Parser/BaseModelica/Token.h"
#include "llvm/Support/MemoryBuffer.h"
#include <memory>
#include <string>

namespace lexref {
using namespace marco;
using namespace marco::parser::bmodelica;
using K = TokenKind;

struct Kw { const char *w; K k; };
static const Kw keywords[] = {
    {"algorithm", K::Algorithm}, {"and", K::And}, {"annotation", K::Annotation}, {"block", K::Block},
    {"break", K::Break}, {"class", K::Class}, {"connect", K::Connect}, {"connector", K::Connector},
    {"constant", K::Constant}, {"constrainedby", K::ConstrainedBy}, {"der", K::Der}, {"discrete", K::Discrete},
    {"each", K::Each}, {"else", K::Else}, {"elseif", K::ElseIf}, {"elsewhen", K::ElseWhen},
    {"encapsulated", K::Encapsulated}, {"end", K::End}, {"enumeration", K::Enumeration}, {"equation", K::Equation},
    {"expandable", K::Expandable}, {"extends", K::Extends}, {"external", K::External}, {"false", K::False},
    {"final", K::Final}, {"flow", K::Flow}, {"for", K::For}, {"function", K::Function}, {"if", K::If},
    {"import", K::Import}, {"impure", K::Impure}, {"in", K::In}, {"initial", K::Initial}, {"inner", K::Inner},
    {"input", K::Input}, {"loop", K::Loop}, {"model", K::Model}, {"not", K::Not}, {"operator", K::Operator},
    {"or", K::Or}, {"outer", K::Outer}, {"output", K::Output}, {"package", K::Package},
    {"parameter", K::Parameter}, {"partial", K::Partial}, {"protected", K::Protected}, {"public", K::Public},
    {"pure", K::Pure}, {"record", K::Record}, {"redeclare", K::Redeclare}, {"replaceable", K::Replaceable},
    {"return", K::Return}, {"stream", K::Stream}, {"then", K::Then}, {"true", K::True}, {"type", K::Type},
    {"when", K::When}, {"while", K::While}, {"within", K::Within}};

static inline bool space(unsigned char c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static inline bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
static inline bool letter(unsigned char c) {
  return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_');
}
static inline char escaped(char c) {
  switch (c) {
  case 'a': return 7;
  case 'b': return 8;
  case 'f': return 12;
  case 'n': return 10;
  case 'r': return 13;
  case 't': return 9;
  case 'v': return 11;
  }
  return c;
}

struct RTok {
  K kind = K::None;
  int b = 0, e = 0; // first and last character
  std::string v;
};

static inline bool wordIs(const char *s, int n, const char *w) {
  int i = 0;
  unsigned d = 0;
  for (; w[i] && i < n; ++i)
    d |= (unsigned char)(w[i] ^ s[i]);
  if (w[i] || i != n)
    return false;
  return d == 0;
}

/// The token at or after position i; i moves past it.
static inline RTok next(const char *s, int n, int &i) {
  RTok t;
  for (;;) {
    while (i < n && space(s[i]))
      ++i;
    t.b = t.e = i;
    if (i >= n) {
      t.kind = K::EndOfFile;
      return t;
    }
    if (i + 1 < n && s[i] == '/' && s[i + 1] == '/') {
      while (i < n && s[i] != '\n')
        ++i;
      continue;
    }
    if (i + 1 < n && s[i] == '/' && s[i + 1] == '*') {
      int j = i + 2;
      while (j + 1 < n && !((s[j] == '*') & (s[j + 1] == '/')))
        ++j;
      if (j + 1 >= n) {
        t.kind = K::Error;
        return t;
      }
      i = j + 2;
      continue;
    }
    break;
  }
  char c = s[i];
  if (letter(c) || (c == '$' && i + 1 < n && letter(s[i + 1]))) {
    int j = i + 1;
    while (j < n && (letter(s[j]) | digit(s[j])))
      ++j;
    t.e = j - 1;
    t.kind = K::Identifier;
    for (const Kw &k : keywords)
      if (wordIs(s + i, j - i, k.w))
        t.kind = k.k;
    if (t.kind == K::Identifier)
      t.v.assign(s + i, j - i);
    i = j;
    return t;
  }
  if (c == '\'' || c == '"') {
    int j = i + 1;
    for (;; ++j) {
      if (j >= n) {
        t.kind = K::Error;
        return t;
      }
      if (s[j] == c)
        break;
      if (s[j] == '\\') {
        if (++j >= n) {
          t.kind = K::Error;
          return t;
        }
        t.v.push_back(escaped(s[j]));
        continue;
      }
      t.v.push_back(s[j]);
    }
    t.kind = c == '"' ? K::String : K::Identifier;
    t.e = j;
    i = j + 1;
    return t;
  }
  if (digit(c)) {
    int j = i;
    t.kind = K::Integer;
    while (j < n && digit(s[j]))
      ++j;
    if (j < n && s[j] == '.') {
      t.kind = K::FloatingPoint;
      ++j;
      while (j < n && digit(s[j]))
        ++j;
    }
    if (j < n && ((s[j] == 'e') | (s[j] == 'E'))) {
      t.kind = K::FloatingPoint;
      ++j;
      if (j < n && ((s[j] == '+') | (s[j] == '-')))
        ++j;
      if (j >= n || !digit(s[j])) {
        t.kind = K::Error;
        return t;
      }
      while (j < n && digit(s[j]))
        ++j;
    }
    t.v.assign(s + i, j - i);
    t.e = j - 1;
    i = j;
    return t;
  }
  char d = i + 1 < n ? s[i + 1] : 0;
  struct Sym { char a, b; K k; };
  static const Sym syms[] = {{'.', '+', K::PlusEW}, {'.', '-', K::MinusEW}, {'.', '*', K::ProductEW},
                             {'.', '/', K::DivisionEW}, {'.', '^', K::PowEW}, {'=', '=', K::Equal},
                             {'<', '>', K::NotEqual}, {'<', '=', K::LessEqual}, {'>', '=', K::GreaterEqual},
                             {':', '=', K::AssignmentOperator}, {'+', 0, K::Plus}, {'-', 0, K::Minus},
                             {'*', 0, K::Product}, {'/', 0, K::Division}, {'^', 0, K::Pow}, {'.', 0, K::Dot},
                             {'<', 0, K::Less}, {'>', 0, K::Greater}, {',', 0, K::Comma}, {';', 0, K::Semicolon},
                             {':', 0, K::Colon}, {'(', 0, K::LPar}, {')', 0, K::RPar}, {'[', 0, K::LSquare},
                             {']', 0, K::RSquare}, {'{', 0, K::LCurly}, {'}', 0, K::RCurly},
                             {'=', 0, K::EqualityOperator}};
  for (const Sym &y : syms)
    if ((c == y.a) & ((y.b == 0) | (d == y.b))) {
      t.kind = y.k;
      t.e = i + (y.b ? 1 : 0);
      i = t.e + 1;
      return t;
    }
  t.kind = K::Error;
  return t;
}
static inline int64_t line(const char *s, int i) {
  int64_t l = 1;
  for (int k = 0; k < i; ++k)
    l += s[k] == '\n';
  return l;
}
static inline int64_t column(const char *s, int i) {
  int64_t c = 1;
  for (int k = 0; k < i; ++k)
    c = s[k] == '\n' ? 1 : c + 1;
  return c;
}

static std::shared_ptr<SourceFile> source(const char *s, size_t n) {
  auto f = std::make_shared<SourceFile>("f.mo");
  f->setMemoryBuffer(llvm::MemoryBuffer::getMemBuffer(llvm::StringRef(s, n), "f.mo").release());
  return f;
}
} // namespace lexref
#endif

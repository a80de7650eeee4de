// Reference parser, written from the grammar of the supported Base Modelica
// subset, and the flattening of both trees into integer sequences.
#ifndef VERIF_GRAM_H
#define VERIF_GRAM_H
#include "parse.h"

namespace prs {
enum Tag {
  NONE, ROOT, CLASS, MODEL, RECORD, PACKAGE, FUNCTION, DERFUN, MEMBER, PREFIX, BUILTIN, USERTYPE, DIM,
  EQSECT, ALGSECT, EQ, IFEQ, FOREQ, WHENEQ, ASSIGN, CALLST, BREAK, RETURN, IFST, FORST, WHILEST, WHENST, BLOCK,
  CONSTINT, CONSTREAL, CONSTSTR, CONSTBOOL, TUPLE, ARRAY, ARRAYFOR, CALL, CREF, ENTRY, SUBSCRIPT, ALLSUB,
  EXPRARG, NAMEDARG, REDARG, FORINDEX, MOD, CLASSMOD, ELEMMOD, ANNOTATION, EXTCALL, GROUP,
  OP = 100
};
// ------------------------------------------------------------ flat sequence --
struct Flat {
  int64_t v[4000];
  int n = 0;
  void put(int64_t x) {
    if (n < 4000)
      v[n++] = x;
  }
  void text(const char *s, size_t l) {
    put((int64_t)l);
    for (size_t i = 0; i < l; ++i)
      put(s[i]);
  }
};
static Flat ref, got;

// ----------------------------------------------------------------- reference -
struct RN {
  int tag, b, e, nkid, kid[14];
  int64_t val;
  const char *name;
  bool noloc;
};
static RN rn[400];
static int nrn, cur;
static bool bad;

static bool is(K k) { return have(cur) ? toks[cur].kind == (int32_t)k : k == K::EndOfFile; }
static bool is1(K k) { return have(cur + 1) ? toks[cur + 1].kind == (int32_t)k : k == K::EndOfFile; }
static bool eat(K k) {
  if (!is(k))
    return false;
  ++cur;
  return true;
}
static void need(K k) {
  if (!bad && !eat(k))
    bad = true;
}
static int mk(int tag, int b) {
  RN &r = rn[nrn];
  r.tag = tag;
  r.b = r.e = b;
  r.nkid = 0;
  r.val = 0;
  r.name = nullptr;
  r.noloc = false;
  return nrn++;
}
static void add(int p, int c) {
  RN &r = rn[p];
  if (r.nkid < 14)
    r.kid[r.nkid++] = c;
}
static int close(int p) { rn[p].e = cur - 1; return p; }
static const char *nameAt(int i) { return toks[i].name ? toks[i].name : ""; }

static int expr();
static int subscripts(int p) { // '[' ... ']' as children of p
  need(K::LSquare);
  do {
    if (bad)
      return 0;
    int b = cur;
    if (eat(K::Colon)) {
      add(p, mk(ALLSUB, b));
    } else {
      int x = expr();
      if (bad)
        return 0;
      int s = mk(SUBSCRIPT, b);
      add(s, x);
      add(p, s);
    }
  } while (eat(K::Comma));
  need(K::RSquare);
  return 0;
}
static int entry() {
  int e = mk(ENTRY, cur);
  rn[e].name = nameAt(cur);
  need(K::Identifier);
  if (bad)
    return 0;
  if (is(K::LSquare))
    subscripts(e);
  return close(e);
}
static int cref() {
  int r = mk(CREF, cur);
  if (eat(K::Dot))
    rn[r].val = 1;
  do {
    int e = entry();
    if (bad)
      return 0;
    add(r, e);
  } while (eat(K::Dot));
  return close(r);
}
static void forIndices(int p) {
  do {
    int i = mk(FORINDEX, cur);
    rn[i].name = nameAt(cur);
    need(K::Identifier);
    if (bad)
      return;
    if (eat(K::In)) {
      int x = expr();
      if (bad)
        return;
      add(i, x);
    }
    add(p, close(i));
  } while (eat(K::Comma));
}
static void named(int p) {
  do {
    int a = mk(NAMEDARG, cur);
    rn[a].name = nameAt(cur);
    need(K::Identifier);
    need(K::EqualityOperator);
    if (bad)
      return;
    int x = expr();
    if (bad)
      return;
    int w = mk(EXPRARG, rn[x].b);
    add(w, x);
    add(a, w);
    add(p, close(a));
  } while (eat(K::Comma));
}
static void callArgs(int p) {
  need(K::LPar);
  if (bad)
    return;
  if (eat(K::RPar))
    return;
  bool first = true;
  do {
    if (is(K::Identifier) && is1(K::EqualityOperator)) {
      named(p);
      break;
    }
    int x = expr();
    if (bad)
      return;
    if (first && eat(K::For)) {
      int r = mk(REDARG, rn[x].b);
      add(r, x);
      forIndices(r);
      add(p, r);
      break;
    }
    first = false;
    int w = mk(EXPRARG, rn[x].b);
    add(w, x);
    add(p, w);
  } while (eat(K::Comma));
  need(K::RPar);
}
static void outputList(int p) {
  while (!is(K::RPar)) {
    int b = cur;
    if (eat(K::Comma)) {
      int d = mk(CREF, b);
      rn[d].val = 2;
      add(p, d);
      continue;
    }
    int x = expr();
    if (bad)
      return;
    add(p, x);
    if (!is(K::RPar)) {
      need(K::Comma);
      if (bad)
        return;
    }
  }
}
static int primary() {
  int b = cur, r;
  if (eat(K::Integer)) {
    r = mk(CONSTINT, b);
    rn[r].val = toks[b].value;
    return r;
  }
  if (eat(K::FloatingPoint))
    return mk(CONSTREAL, b);
  if (eat(K::String)) {
    r = mk(CONSTSTR, b);
    rn[r].name = nameAt(b);
    return r;
  }
  if (is(K::True) || is(K::False)) {
    r = mk(CONSTBOOL, b);
    rn[r].val = is(K::True);
    ++cur;
    return r;
  }
  if (eat(K::LPar)) {
    r = mk(TUPLE, b);
    outputList(r);
    need(K::RPar);
    if (bad)
      return 0;
    if (rn[r].nkid == 1) {
      r = rn[r].kid[0];
      rn[r].b = b;
    }
    close(r);
  } else if (eat(K::LCurly)) {
    r = mk(ARRAY, b);
    int x = expr();
    if (bad)
      return 0;
    add(r, x);
    if (eat(K::For)) {
      rn[r].tag = ARRAYFOR;
      forIndices(r);
    } else {
      while (!bad && eat(K::Comma)) {
        x = expr();
        if (bad)
          return 0;
        add(r, x);
      }
    }
    need(K::RCurly);
    if (bad)
      return 0;
    close(r);
  } else if (eat(K::Der)) {
    r = mk(CALL, b);
    int c = mk(CREF, b), e = mk(ENTRY, b);
    rn[e].name = "der";
    add(c, e);
    add(r, c);
    callArgs(r);
    if (bad)
      return 0;
    close(r);
  } else if (is(K::Identifier) || is(K::Dot)) {
    int c = cref();
    if (bad)
      return 0;
    if (!is(K::LPar))
      return c;
    r = mk(CALL, b);
    add(r, c);
    callArgs(r);
    if (bad)
      return 0;
    close(r);
  } else {
    bad = true;
    return 0;
  }
  if (is(K::LSquare)) {
    int s = mk(OP + (int)OperationKind::subscription, b);
    add(s, r);
    subscripts(s);
    if (bad)
      return 0;
    return close(s);
  }
  return r;
}
static int binary(OperationKind k, int l, int r) {
  int o = mk(OP + (int)k, rn[l].b);
  add(o, l);
  add(o, r);
  return close(o);
}
static int factor() {
  int l = primary();
  while (!bad) {
    OperationKind k;
    if (eat(K::Pow)) k = OperationKind::powerOf;
    else if (eat(K::PowEW)) k = OperationKind::powerOfEW;
    else break;
    int r = primary();
    if (!bad)
      l = binary(k, l, r);
  }
  return l;
}
static int term() {
  int l = factor();
  while (!bad) {
    OperationKind k;
    if (eat(K::Product)) k = OperationKind::multiply;
    else if (eat(K::ProductEW)) k = OperationKind::multiplyEW;
    else if (eat(K::Division)) k = OperationKind::divide;
    else if (eat(K::DivisionEW)) k = OperationKind::divideEW;
    else break;
    int r = factor();
    if (!bad)
      l = binary(k, l, r);
  }
  return l;
}
static int arith() {
  int b = cur;
  bool neg = eat(K::Minus);
  if (!neg)
    eat(K::Plus);
  int l = term();
  if (bad)
    return 0;
  if (neg) {
    int o = mk(OP + (int)OperationKind::negate, b);
    add(o, l);
    l = close(o);
  }
  while (!bad) {
    OperationKind k;
    if (eat(K::Plus)) k = OperationKind::add;
    else if (eat(K::PlusEW)) k = OperationKind::addEW;
    else if (eat(K::Minus)) k = OperationKind::subtract;
    else if (eat(K::MinusEW)) k = OperationKind::subtractEW;
    else break;
    int r = term();
    if (!bad) {
      l = binary(k, l, r);
      rn[l].b = b;
    }
  }
  return l;
}
static int relation() {
  int l = arith();
  if (bad)
    return 0;
  OperationKind k;
  if (eat(K::GreaterEqual)) k = OperationKind::greaterEqual;
  else if (eat(K::Greater)) k = OperationKind::greater;
  else if (eat(K::LessEqual)) k = OperationKind::lessEqual;
  else if (eat(K::Less)) k = OperationKind::less;
  else if (eat(K::Equal)) k = OperationKind::equal;
  else if (eat(K::NotEqual)) k = OperationKind::different;
  else return l;
  int r = arith();
  return bad ? 0 : binary(k, l, r);
}
static int lfactor() {
  int b = cur;
  bool neg = eat(K::Not);
  int x = relation();
  if (bad || !neg)
    return x;
  int o = mk(OP + (int)OperationKind::lnot, b);
  add(o, x);
  return close(o);
}
static int lterm() {
  int l = lfactor();
  if (bad || !is(K::And))
    return l;
  int o = mk(OP + (int)OperationKind::land, rn[l].b);
  add(o, l);
  while (!bad && eat(K::And)) {
    int r = lfactor();
    add(o, r);
  }
  return close(o);
}
static int logical() {
  int l = lterm();
  if (bad || !is(K::Or))
    return l;
  int o = mk(OP + (int)OperationKind::lor, rn[l].b);
  add(o, l);
  while (!bad && eat(K::Or)) {
    int r = lterm();
    add(o, r);
  }
  return close(o);
}
static int expr() {
  int b = cur;
  if (bad)
    return 0;
  if (eat(K::If)) {
    int o = mk(OP + (int)OperationKind::ifelse, b);
    int c = expr();
    add(o, c);
    need(K::Then);
    c = expr();
    add(o, c);
    need(K::Else);
    c = expr();
    add(o, c);
    return bad ? 0 : close(o);
  }
  int l = logical();
  if (bad || !is(K::Colon))
    return l;
  int o = mk(OP + (int)OperationKind::range, rn[l].b);
  add(o, l);
  for (int i = 0; i < 2 && !bad && eat(K::Colon); ++i) {
    int r = logical();
    add(o, r);
  }
  return bad ? 0 : close(o);
}
/// A group of nodes ended by one of the given keywords.
typedef int (*Item)();
static int group(Item f, K a, K b = K::End) {
  int g = mk(GROUP, cur);
  while (!bad && !is(a) && !is(b) && !is(K::End)) {
    int x = f();
    need(K::Semicolon);
    if (!bad)
      add(g, x);
  }
  return g;
}
static int equation() {
  int b = cur;
  if (is(K::If) || is(K::When)) {
    bool when = is(K::When);
    ++cur;
    K more = when ? K::ElseWhen : K::ElseIf;
    int r = mk(when ? WHENEQ : IFEQ, b);
    do {
      int c = expr();
      need(K::Then);
      if (bad)
        return 0;
      add(r, c);
      int g = group(equation, more, K::Else);
      if (bad)
        return 0;
      add(r, g);
    } while (eat(more));
    int g = mk(GROUP, cur);
    if (eat(K::Else))
      g = group(equation, K::End);
    add(r, g);
    need(K::End);
    need(when ? K::When : K::If);
    return r;
  }
  if (eat(K::For)) {
    int r = mk(FOREQ, b);
    forIndices(r);
    need(K::Loop);
    int g = group(equation, K::End);
    add(r, g);
    need(K::End);
    need(K::For);
    return r;
  }
  int l = expr();
  need(K::EqualityOperator);
  int x = expr();
  if (bad)
    return 0;
  eat(K::String);
  int r = mk(EQ, b);
  add(r, l);
  add(r, x);
  return r;
}
static int statement() {
  int b = cur;
  if (eat(K::If)) {
    int r = mk(IFST, b);
    do {
      int c = expr();
      need(K::Then);
      if (bad)
        return 0;
      add(r, c);
      int g = group(statement, K::ElseIf, K::Else);
      if (bad)
        return 0;
      add(r, g);
    } while (eat(K::ElseIf));
    if (eat(K::Else)) {
      int g = group(statement, K::End);
      add(r, g);
    }
    need(K::End);
    need(K::If);
    return r;
  }
  if (eat(K::For)) {
    int r = mk(FORST, b);
    forIndices(r);
    need(K::Loop);
    int g = group(statement, K::End);
    add(r, g);
    need(K::End);
    need(K::For);
    return r;
  }
  if (is(K::While) || is(K::When)) {
    K k = is(K::While) ? K::While : K::When;
    ++cur;
    int r = mk(k == K::While ? WHILEST : WHENST, b);
    int c = expr();
    add(r, c);
    need(k == K::While ? K::Loop : K::Then);
    int g = group(statement, K::End);
    add(r, g);
    need(K::End);
    need(k);
    return r;
  }
  if (eat(K::Break))
    return mk(BREAK, b);
  if (eat(K::Return))
    return mk(RETURN, b);
  if (eat(K::LPar)) {
    int t = mk(TUPLE, b);
    outputList(t);
    need(K::RPar);
    need(K::AssignmentOperator);
    if (bad)
      return 0;
    int r = mk(ASSIGN, b), c = mk(CALL, cur);
    int f = cref();
    if (bad)
      return 0;
    add(c, f);
    callArgs(c);
    // The nodes of a tuple assignment carry the range of the statement.
    rn[t].noloc = rn[c].noloc = true;
    add(r, t);
    add(r, c);
    return r;
  }
  int d = cref();
  if (bad)
    return 0;
  if (is(K::LPar)) {
    int r = mk(CALLST, b), c = mk(CALL, b);
    add(c, d);
    callArgs(c);
    close(c);
    add(r, c);
    return r;
  }
  need(K::AssignmentOperator);
  int x = expr();
  if (bad)
    return 0;
  int r = mk(ASSIGN, b), t = mk(TUPLE, b);
  rn[t].noloc = true;
  add(t, d);
  add(r, t);
  add(r, x);
  return r;
}
static int classMod();
static int modification() {
  int r = mk(MOD, cur);
  if (eat(K::EqualityOperator) || eat(K::AssignmentOperator)) {
    int x = expr();
    add(r, x);
    return r;
  }
  int c = classMod();
  add(r, c);
  if (!bad && eat(K::EqualityOperator)) {
    int x = expr();
    add(r, x);
  }
  return r;
}
static int classMod() {
  int r = mk(CLASSMOD, cur);
  need(K::LPar);
  do {
    if (bad)
      return 0;
    if (is(K::Redeclare)) { // not supported
      bad = true;
      return 0;
    }
    int a = mk(ELEMMOD, cur);
    if (eat(K::Each))
      rn[a].val |= 1;
    if (eat(K::Final))
      rn[a].val |= 2;
    rn[a].name = nameAt(cur);
    need(K::Identifier);
    if (bad)
      return 0;
    if (is(K::LPar) || is(K::EqualityOperator) || is(K::AssignmentOperator)) {
      int m = modification();
      add(a, m);
    }
    add(r, a);
  } while (!bad && eat(K::Comma));
  need(K::RPar);
  return r;
}
static int annotation() {
  int r = mk(ANNOTATION, cur);
  need(K::Annotation);
  if (bad)
    return 0;
  int c = classMod();
  add(r, c);
  return r;
}
static bool isPublic;
static int element() {
  int r = mk(MEMBER, cur), p = mk(PREFIX, cur);
  rn[r].val = isPublic;
  eat(K::Final);
  if (eat(K::Discrete)) rn[p].val = 1;
  else if (eat(K::Parameter)) rn[p].val = 2;
  else if (eat(K::Constant)) rn[p].val = 3;
  if (eat(K::Input)) rn[p].val += 10;
  else if (eat(K::Output)) rn[p].val += 20;
  bool global = eat(K::Dot);
  int t = mk(USERTYPE, cur);
  const char *n = nameAt(cur);
  need(K::Identifier);
  if (bad)
    return 0;
  static const char *const builtin[] = {"Boolean", "Integer", "Real", "String"};
  for (int i = 0; i < 4; ++i)
    if (!strcmp(n, builtin[i])) {
      rn[t].tag = BUILTIN;
      rn[t].val = i;
    }
  if (rn[t].tag == USERTYPE) {
    rn[t].val = global;
    int e = mk(ENTRY, cur);
    rn[e].name = n;
    add(t, e);
    while (eat(K::Dot)) {
      e = mk(ENTRY, cur);
      rn[e].name = nameAt(cur);
      need(K::Identifier);
      if (bad)
        return 0;
      add(t, e);
    }
  }
  int g = mk(GROUP, cur);
  if (eat(K::LSquare)) {
    do {
      int d = mk(DIM, cur);
      if (eat(K::Colon))
        rn[d].val = -1;
      else if (is(K::Integer) && (is1(K::Comma) || is1(K::RSquare)))
        rn[d].val = toks[cur++].value;
      else {
        int x = expr();
        if (bad)
          return 0;
        add(d, x);
      }
      add(g, d);
    } while (eat(K::Comma));
    need(K::RSquare);
  }
  add(t, g);
  rn[r].name = nameAt(cur);
  need(K::Identifier);
  if (bad)
    return 0;
  add(r, t);
  add(r, p);
  if (is(K::LPar) || is(K::EqualityOperator)) {
    int m = modification();
    if (bad)
      return 0;
    add(r, m);
  }
  eat(K::String);
  if (is(K::Annotation))
    annotation();
  return r;
}
static int classDef() {
  int b = cur, tag = 0;
  bool pure = true;
  if (eat(K::Operator)) {
    if (eat(K::Record)) tag = RECORD;
    else { need(K::Function); tag = FUNCTION; }
  } else if (eat(K::Model)) tag = MODEL;
  else if (eat(K::Record)) tag = RECORD;
  else if (eat(K::Package)) tag = PACKAGE;
  else if (eat(K::Function)) tag = FUNCTION;
  else if (is(K::Pure) || is(K::Impure)) {
    pure = is(K::Pure);
    ++cur;
    eat(K::Operator);
    need(K::Function);
    tag = FUNCTION;
  } else { need(K::Class); tag = MODEL; }
  int r = mk(tag, b);
  rn[r].val = tag == FUNCTION ? pure : 0;
  const char *n = rn[r].name = nameAt(cur);
  need(K::Identifier);
  if (bad)
    return 0;
  if (tag == FUNCTION && eat(K::EqualityOperator)) {
    rn[r].tag = DERFUN;
    rn[r].val = 0;
    need(K::Der);
    need(K::LPar);
    do {
      int x = expr();
      if (bad)
        return 0;
      add(r, x);
    } while (eat(K::Comma));
    need(K::RPar);
    eat(K::String);
    need(K::Semicolon);
    return r;
  }
  eat(K::String);
  int members = mk(GROUP, cur), eqs = mk(GROUP, cur), algs = mk(GROUP, cur), inner = mk(GROUP, cur),
      ext = mk(GROUP, cur), ann = mk(GROUP, cur);
  bool lone = true;
  while (!bad && !is(K::End) && !is(K::Annotation) && !is(K::External)) {
    bool initial = is(K::Initial) && (is1(K::Equation) || is1(K::Algorithm));
    if (initial)
      ++cur;
    if (is(K::Equation) || is(K::Algorithm)) {
      bool eq = is(K::Equation);
      int s = mk(eq ? EQSECT : ALGSECT, cur++);
      rn[s].val = initial;
      while (!bad && !is(K::Public) && !is(K::Protected) && !is(K::Initial) && !is(K::Equation) &&
             !is(K::Algorithm) && !is(K::External) && !is(K::Annotation) && !is(K::End)) {
        int x = eq ? equation() : statement();
        need(K::Semicolon);
        if (!bad)
          add(s, x);
      }
      add(eq ? eqs : algs, s);
      continue;
    }
    if (is(K::Class) || is(K::Function) || is(K::Model) || is(K::Package) || is(K::Record)) {
      int c = classDef();
      add(inner, c);
      continue;
    }
    if (is(K::Public) || is(K::Protected)) {
      isPublic = is(K::Public);
      ++cur;
      lone = false;
    } else if (!lone) {
      bad = true;
      break;
    } else {
      isPublic = true;
      if (is(K::Initial)) {
        bad = true;
        break;
      }
    }
    while (!bad && !is(K::Public) && !is(K::Protected) && !is(K::Function) && !is(K::Equation) &&
           !is(K::Initial) && !is(K::Algorithm) && !is(K::End) && !is(K::Class) && !is(K::Model) &&
           !is(K::Package) && !is(K::Record) && !is(K::External) && !is(K::Annotation)) {
      int x = element();
      need(K::Semicolon);
      if (!bad)
        add(members, x);
    }
  }
  if (bad)
    return 0;
  if (eat(K::External)) {
    rn[ext].val = 1;
    rn[ext].name = "C";
    if (is(K::String))
      rn[ext].name = nameAt(cur++);
    if (is(K::Dot) || is(K::Identifier)) {
      int c = mk(EXTCALL, cur);
      if (!(is(K::Identifier) && is1(K::LPar))) {
        int d = cref();
        need(K::EqualityOperator);
        add(c, d);
      }
      rn[c].val = rn[c].nkid;
      rn[c].name = nameAt(cur);
      need(K::Identifier);
      need(K::LPar);
      if (bad)
        return 0;
      while (!is(K::RPar)) {
        int x = expr();
        if (bad)
          return 0;
        add(c, x);
        if (!is(K::RPar)) {
          need(K::Comma);
          if (bad)
            return 0;
        }
      }
      need(K::RPar);
      add(ext, c);
    }
    if (!is(K::Semicolon)) {
      int a = annotation();
      if (bad)
        return 0;
      add(ext, a);
    }
    need(K::Semicolon);
  }
  if (!bad && is(K::Annotation)) {
    int a = annotation();
    need(K::Semicolon);
    add(ann, a);
  }
  need(K::End);
  if (bad || !is(K::Identifier) || strcmp(nameAt(cur), n)) {
    bad = true;
    return 0;
  }
  ++cur;
  need(K::Semicolon);
  add(r, members);
  add(r, eqs);
  add(r, algs);
  add(r, inner);
  add(r, ext);
  add(r, ann);
  return r;
}
static int program() {
  nrn = cur = 0;
  bad = false;
  int r = mk(ROOT, 0);
  while (!bad && !is(K::EndOfFile)) {
    int c = classDef();
    if (!bad)
      add(r, c);
  }
  return r;
}
static bool located(int tag) { return (tag >= CONSTINT && tag <= CREF) || tag >= OP; }
static void flattenRef(int i) {
  RN &r = rn[i];
  ref.put(r.tag);
  ref.put(r.val);
  if (located(r.tag) && !r.noloc) {
    ref.put(r.b);
    ref.put(r.e);
  }
  if (r.name)
    ref.text(r.name, strlen(r.name));
  ref.put(r.nkid);
  for (int k = 0; k < r.nkid; ++k)
    flattenRef(r.kid[k]);
}

// ------------------------------------------------------------- the real tree -
static void head(int tag, int64_t val) {
  got.put(tag);
  got.put(val);
}
static bool skipWhere;
static void where(const marco::ast::ASTNode &n) {
  if (skipWhere) {
    skipWhere = false;
    return;
  }
  got.put(cell(n.getLocation().begin.column));
  got.put(cell(n.getLocation().end.column));
}
static void name(llvm::StringRef s) { got.text(s.data(), s.size()); }
static void dump(marco::ast::ASTNode *n);
template <class R> static void dumpAll(const R &r) {
  got.put((int64_t)r.size());
  for (auto &x : r)
    dump(x.get());
}
static void dumpGroup(llvm::ArrayRef<Node> r) {
  head(GROUP, 0);
  dumpAll(r);
}
template <class F> static void dumpN(size_t n, F f) {
  head(GROUP, 0);
  got.put((int64_t)n);
  for (size_t i = 0; i < n; ++i)
    dump(f(i));
}
/// Whether to record all the locations, and to look at the parents.
static bool wholly, orphans;
static marco::ast::ASTNode *holder;
static void dumpNode(marco::ast::ASTNode *n);
static void dump(marco::ast::ASTNode *n) {
  if (!n)
    return got.put(-77);
  if (!wholly)
    return dumpNode(n);
  orphans |= n->getParent() != holder;
  SourceRange l = n->getLocation();
  for (int64_t x : {l.begin.line, l.begin.column, l.end.line, l.end.column})
    got.put(x);
  marco::ast::ASTNode *outer = holder;
  holder = n;
  dumpNode(n);
  holder = outer;
}
static void dumpNode(marco::ast::ASTNode *n) {
  if (auto *x = n->dyn_cast<Root>()) {
    head(ROOT, 0);
    return dumpAll(x->getInnerClasses());
  }
  if (auto *x = n->dyn_cast<PartialDerFunction>()) {
    head(DERFUN, 0);
    name(x->getName());
    got.put((int64_t)x->getIndependentVariables().size() + 1);
    dump(x->getDerivedFunction());
    for (auto &v : x->getIndependentVariables())
      dump(v.get());
    return;
  }
  if (auto *x = n->dyn_cast<Class>()) {
    int tag = n->isa<Model>() ? MODEL : n->isa<Record>() ? RECORD : n->isa<Package>() ? PACKAGE : FUNCTION;
    head(tag, tag == FUNCTION ? n->cast<StandardFunction>()->isPure() : 0);
    name(x->getName());
    got.put(6);
    dumpGroup(x->getVariables());
    dumpGroup(x->getEquationSections());
    dumpGroup(x->getAlgorithms());
    dumpGroup(x->getInnerClasses());
    head(GROUP, x->isExternal());
    if (x->isExternal())
      name(x->getExternalLanguage());
    got.put((x->hasExternalFunctionCall() ? 1 : 0) + (x->hasExternalAnnotation() ? 1 : 0));
    if (x->hasExternalFunctionCall())
      dump(x->getExternalFunctionCall());
    if (x->hasExternalAnnotation())
      dump(x->getExternalAnnotation());
    head(GROUP, 0);
    got.put(x->hasAnnotation() ? 1 : 0);
    if (x->hasAnnotation())
      dump(x->getAnnotation());
    return;
  }
  if (auto *x = n->dyn_cast<ExternalFunctionCall>()) {
    head(EXTCALL, x->hasDestination());
    name(x->getCallee());
    got.put((int64_t)x->getNumOfArguments() + x->hasDestination());
    if (x->hasDestination())
      dump(x->getDestination());
    for (size_t i = 0; i < x->getNumOfArguments(); ++i)
      dump(x->getArgument(i));
    return;
  }
  if (auto *x = n->dyn_cast<Annotation>()) {
    head(ANNOTATION, 0);
    got.put(1);
    return dump(x->getProperties());
  }
  if (auto *x = n->dyn_cast<Member>()) {
    head(MEMBER, x->isPublic());
    name(x->getName());
    got.put(2 + (x->hasModification() ? 1 : 0));
    dump(x->getType());
    dump(x->getTypePrefix());
    if (x->hasModification())
      dump(x->getModification());
    return;
  }
  if (auto *x = n->dyn_cast<TypePrefix>()) {
    head(PREFIX, (x->isDiscrete() ? 1 : x->isParameter() ? 2 : x->isConstant() ? 3 : 0) +
                     (x->isInput() ? 10 : x->isOutput() ? 20 : 0));
    return got.put(0);
  }
  if (auto *x = n->dyn_cast<VariableType>()) {
    if (auto *b = n->dyn_cast<BuiltInType>()) {
      head(BUILTIN, (int64_t)b->getBuiltInTypeKind());
      got.put(1);
    } else {
      auto *u = n->cast<UserDefinedType>();
      head(USERTYPE, u->isGlobalLookup());
      got.put((int64_t)u->getPathLength() + 1);
      for (size_t i = 0; i < u->getPathLength(); ++i) {
        head(ENTRY, 0);
        name(u->getElement(i));
        got.put(0);
      }
    }
    return dumpGroup(x->getDimensions());
  }
  if (auto *x = n->dyn_cast<ArrayDimension>()) {
    if (x->hasExpression()) {
      head(DIM, 0);
      got.put(1);
      return dump(x->getExpression());
    }
    head(DIM, x->isDynamic() ? -1 : x->getNumericSize());
    return got.put(0);
  }
  if (auto *x = n->dyn_cast<Modification>()) {
    head(MOD, 0);
    got.put((x->hasClassModification() ? 1 : 0) + (x->hasExpression() ? 1 : 0));
    if (x->hasClassModification())
      dump(x->getClassModification());
    if (x->hasExpression())
      dump(x->getExpression());
    return;
  }
  if (auto *x = n->dyn_cast<ClassModification>()) {
    head(CLASSMOD, 0);
    return dumpAll(x->getArguments());
  }
  if (auto *x = n->dyn_cast<ElementModification>()) {
    head(ELEMMOD, (x->hasEachProperty() ? 1 : 0) + (x->hasFinalProperty() ? 2 : 0));
    name(x->getName());
    got.put(x->hasModification() ? 1 : 0);
    if (x->hasModification())
      dump(x->getModification());
    return;
  }
  if (auto *x = n->dyn_cast<EquationSection>()) {
    head(EQSECT, x->isInitial());
    return dumpAll(x->getEquations());
  }
  if (auto *x = n->dyn_cast<Algorithm>()) {
    head(ALGSECT, x->isInitial());
    return dumpAll(x->getStatements());
  }
  if (auto *x = n->dyn_cast<EqualityEquation>()) {
    head(EQ, 0);
    got.put(2);
    dump(x->getLhsExpression());
    return dump(x->getRhsExpression());
  }
  if (auto *x = n->dyn_cast<IfEquation>()) {
    head(IFEQ, 0);
    size_t m = x->getNumOfElseIfConditions();
    got.put(3 + 2 * (int64_t)m);
    dump(x->getIfCondition());
    dumpN(x->getNumOfIfEquations(), [&](size_t i) { return x->getIfEquation(i); });
    for (size_t c = 0; c < m; ++c) {
      dump(x->getElseIfCondition(c));
      dumpN(x->getNumOfElseIfEquations(c), [&](size_t i) { return x->getElseIfEquation(c, i); });
    }
    return dumpN(x->getNumOfElseEquations(), [&](size_t i) { return x->getElseEquation(i); });
  }
  if (auto *x = n->dyn_cast<WhenEquation>()) {
    head(WHENEQ, 0);
    size_t m = x->getNumOfElseWhenConditions();
    got.put(3 + 2 * (int64_t)m);
    dump(x->getWhenCondition());
    dumpN(x->getNumOfWhenEquations(), [&](size_t i) { return x->getWhenEquation(i); });
    for (size_t c = 0; c < m; ++c) {
      dump(x->getElseWhenCondition(c));
      dumpN(x->getNumOfElseWhenEquations(c), [&](size_t i) { return x->getElseWhenEquation(c, i); });
    }
    return dumpN(x->getNumOfElseEquations(), [&](size_t i) { return x->getElseEquation(i); });
  }
  if (auto *x = n->dyn_cast<ForEquation>()) {
    head(FOREQ, 0);
    got.put((int64_t)x->getNumOfForIndices() + 1);
    for (size_t i = 0; i < x->getNumOfForIndices(); ++i)
      dump(x->getForIndex(i));
    return dumpN(x->getNumOfEquations(), [&](size_t i) { return x->getEquation(i); });
  }
  if (auto *x = n->dyn_cast<ForIndex>()) {
    head(FORINDEX, 0);
    name(x->getName());
    got.put(x->hasExpression() ? 1 : 0);
    if (x->hasExpression())
      dump(x->getExpression());
    return;
  }
  if (auto *x = n->dyn_cast<AssignmentStatement>()) {
    head(ASSIGN, 0);
    got.put(2);
    auto *t = x->getDestinations();
    bool form = t->size() != 1 ||
                t->getLocation().begin.column != t->getExpression(0)->getLocation().begin.column;
    skipWhere = true;
    dump(t);
    skipWhere = form;
    return dump(x->getExpression());
  }
  if (auto *x = n->dyn_cast<CallStatement>()) {
    head(CALLST, 0);
    got.put(1);
    return dump(x->getCall());
  }
  if (n->isa<BreakStatement>()) {
    head(BREAK, 0);
    return got.put(0);
  }
  if (n->isa<ReturnStatement>()) {
    head(RETURN, 0);
    return got.put(0);
  }
  if (auto *x = n->dyn_cast<StatementsBlock>())
    return dumpN(x->size(), [&](size_t i) { return (*x)[i]; });
  if (auto *x = n->dyn_cast<IfStatement>()) {
    head(IFST, 0);
    size_t m = x->getNumOfElseIfBlocks();
    got.put(2 + 2 * (int64_t)m + (x->hasElseBlock() ? 1 : 0));
    dump(x->getIfCondition());
    dump(x->getIfBlock());
    for (size_t c = 0; c < m; ++c) {
      dump(x->getElseIfCondition(c));
      dump(x->getElseIfBlock(c));
    }
    if (x->hasElseBlock())
      dump(x->getElseBlock());
    return;
  }
  if (auto *x = n->dyn_cast<ForStatement>()) {
    head(FORST, 0);
    got.put((int64_t)x->getNumOfForIndices() + 1);
    for (size_t i = 0; i < x->getNumOfForIndices(); ++i)
      dump(x->getForIndex(i));
    return dumpGroup(x->getStatements());
  }
  if (auto *x = n->dyn_cast<WhileStatement>()) {
    head(WHILEST, 0);
    got.put(2);
    dump(x->getCondition());
    return dumpGroup(x->getStatements());
  }
  if (auto *x = n->dyn_cast<WhenStatement>()) {
    head(WHENST, 0);
    got.put(2);
    dump(x->getCondition());
    return dumpGroup(x->getStatements());
  }
  if (auto *x = n->dyn_cast<Constant>()) {
    x->visit([&](const auto &v) {
      using T = std::decay_t<decltype(v)>;
      if constexpr (std::is_same_v<T, bool>)
        head(CONSTBOOL, v);
      else if constexpr (std::is_same_v<T, int64_t>)
        head(CONSTINT, v);
      else if constexpr (std::is_same_v<T, double>)
        head(CONSTREAL, v == 1.5 ? 0 : 1);
      else
        head(CONSTSTR, 0);
      where(*n);
      if constexpr (std::is_same_v<T, std::string>)
        name(v);
    });
    return got.put(0);
  }
  if (auto *x = n->dyn_cast<Operation>()) {
    head(OP + (int)x->getOperationKind(), 0);
    where(*n);
    return dumpAll(x->getArguments());
  }
  if (auto *x = n->dyn_cast<Tuple>()) {
    head(TUPLE, 0);
    where(*n);
    got.put((int64_t)x->size());
    for (size_t i = 0; i < x->size(); ++i)
      dump(x->getExpression(i));
    return;
  }
  if (auto *x = n->dyn_cast<ArrayConstant>()) {
    head(ARRAY, 0);
    where(*n);
    got.put((int64_t)x->size());
    for (size_t i = 0; i < x->size(); ++i)
      dump((*x)[i]);
    return;
  }
  if (auto *x = n->dyn_cast<ArrayForGenerator>()) {
    head(ARRAYFOR, 0);
    where(*n);
    got.put((int64_t)x->getNumIndices() + 1);
    dump(x->getValue());
    for (unsigned i = 0; i < x->getNumIndices(); ++i)
      dump(x->getIndex(i));
    return;
  }
  if (auto *x = n->dyn_cast<Call>()) {
    head(CALL, 0);
    where(*n);
    got.put((int64_t)x->getNumOfArguments() + 1);
    dump(x->getCallee());
    for (auto &a : x->getArguments())
      dump(a.get());
    return;
  }
  if (auto *x = n->dyn_cast<ComponentReference>()) {
    head(CREF, x->isDummy() ? 2 : x->isGlobalLookup());
    where(*n);
    size_t m = x->isDummy() ? 0 : x->getPathLength();
    got.put((int64_t)m);
    for (size_t i = 0; i < m; ++i)
      dump(x->getElement(i));
    return;
  }
  if (auto *x = n->dyn_cast<ComponentReferenceEntry>()) {
    head(ENTRY, 0);
    name(x->getName());
    got.put((int64_t)x->getNumOfSubscripts());
    for (size_t i = 0; i < x->getNumOfSubscripts(); ++i)
      dump(x->getSubscript(i));
    return;
  }
  if (auto *x = n->dyn_cast<Subscript>()) {
    head(x->isUnbounded() ? ALLSUB : SUBSCRIPT, 0);
    got.put(x->isUnbounded() ? 0 : 1);
    if (!x->isUnbounded())
      dump(x->getExpression());
    return;
  }
  if (auto *x = n->dyn_cast<ExpressionFunctionArgument>()) {
    head(EXPRARG, 0);
    got.put(1);
    return dump(x->getExpression());
  }
  if (auto *x = n->dyn_cast<NamedFunctionArgument>()) {
    head(NAMEDARG, 0);
    name(x->getName());
    got.put(1);
    return dump(x->getValue());
  }
  if (auto *x = n->dyn_cast<ReductionFunctionArgument>()) {
    head(REDARG, 0);
    got.put((int64_t)x->getNumOfForIndices() + 1);
    dump(x->getExpression());
    for (auto &i : x->getForIndices())
      dump(i.get());
    return;
  }
  got.put(-99);
}

/// The parser accepts what the grammar accepts, and builds its tree.
static void compare() {
  auto p = prs::open();
  auto r = p->parseRoot();
  ref.n = got.n = 0;
  int root = program();
  if (bad) {
    sym_assert(!r.has_value(), "accepts_a_text_outside_the_grammar");
    sym_reach("rejected");
    return;
  }
  sym_assert(r.has_value(), "rejects_a_text_of_the_grammar");
  flattenRef(root);
  dump(r->get());
  bool same = ref.n == got.n;
  for (int i = 0; same && i < ref.n; ++i)
    same = ref.v[i] == got.v[i];
#ifndef VERIF_SYM
  if (!same) {
    for (int w = 0; w < 2; ++w) {
      Flat &f = w ? got : ref;
      fprintf(stderr, w ? "\nGOT " : "\nREF ");
      for (int i = 0; i < f.n; ++i)
        fprintf(stderr, "%lld ", (long long)f.v[i]);
    }
    fprintf(stderr, "\n");
  }
#endif
  sym_assert(same, "tree_of_the_text");
  sym_reach("accepted");
}
} // namespace prs
#endif

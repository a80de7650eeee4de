// C17: the lexer yields the tokens of the lexical grammar for every text.
#include "lexref.h"
#include <cmath>
#include <cstring>
using namespace lexref;

static char buf[128];

static std::shared_ptr<SourceFile> src;
/// The source file is made before its characters become symbolic.
static void begin(int n) {
  buf[n] = 0;
  src = source(buf, n);
}
static void check(int n) {
  lexer::Lexer<StateMachine> lex(src);
  int i = 0;
  for (int k = 0; k <= n + 1; ++k) {
    RTok r = next(buf, n, i);
    Token t = lex.scan();
    if (r.kind == K::Error) {
      sym_assert(t.getKind() == K::Error, "malformed_text_is_reported");
      sym_reach("error");
      return;
    }
    sym_assert(t.getKind() == r.kind, "token_kind");
    if (r.kind == K::EndOfFile) {
      sym_assert(lex.scan().getKind() == K::EndOfFile, "end_of_file_is_stable");
      sym_reach("done");
      return;
    }
    SourceRange l = t.getLocation();
    sym_assert((l.begin.line == line(buf, r.b)) & (l.begin.column == column(buf, r.b)), "token_begin");
    sym_assert((l.end.line == line(buf, r.e)) & (l.end.column == column(buf, r.e)), "token_end");
    if (r.kind == K::Identifier || r.kind == K::String) {
      std::string s = t.getString();
      sym_assert(s.size() == r.v.size(), "token_text");
      bool same = true;
      for (size_t j = 0; j < s.size(); ++j)
        same &= s[j] == r.v[j];
      sym_assert(same, "token_text");
    }
    if (r.kind == K::Integer && r.v.size() <= 18) {
      int64_t v = 0;
      for (char c : r.v)
        v = v * 10 + (c - '0');
      sym_assert(t.getInt() == v, "integer_value");
    }
  }
  sym_fail("more_tokens_than_characters");
}

static void text(int n, const char *alphabet, bool digits, char first = 0) {
  begin(n);
  buf[0] = first;
  for (int i = first ? 1 : 0; i < n; ++i) {
    buf[i] = (char)sym_int("c", 1, 255);
    if (!alphabet)
      continue;
    bool ok = digits ? digit(buf[i]) : false;
    for (const char *a = alphabet; *a; ++a)
      ok |= buf[i] == *a;
    sym_assume(ok);
  }
}
HARNESS(lex_any1) { text(1, nullptr, false); check(1); }
HARNESS(lex_any2) { text(2, nullptr, false); check(2); }
HARNESS(lex_any3) { text(3, "\n+-*.<=>\"'/_", true); check(3); }
HARNESS(lex_num4) { text(4, ".e+*- ", true); check(4); }
HARNESS(lex_num5) { text(5, ".e+*- ", true); check(5); }
HARNESS(lex_num6) { text(6, ".E- )", true); check(6); }
HARNESS(lex_str) { text(6, "\"\\n\na", false, '"'); check(6); }
HARNESS(lex_qid) { text(6, "'\\n\na", false, '\''); check(6); }
HARNESS(lex_cmt) { text(6, "/*\na", false); check(6); }
HARNESS(lex_op) { text(3, "+-*/^.<>=:", false); check(3); }
HARNESS(lex_ident) { text(4, "a_Z$0 .", false); check(4); }
static void word(int n) {
  begin(n);
  for (int i = 0; i < n; ++i)
    buf[i] = (char)sym_int("c", 'a', 'z');
  check(n);
}
#define W(n) HARNESS(lex_word##n) { word(n); }
W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) W(11) W(12) W(13)

// Kept out of line, so that both sides build the same terms.
__attribute__((noinline)) static int valueOf(char c) { return c - '0'; }
__attribute__((noinline)) static int64_t append(int64_t v, int d) { return v * 10 + d; }
__attribute__((noinline)) static double sum(double a, double b) { return a + b; }
__attribute__((noinline)) static double quotient(double a, double b) { return a / b; }

/// Integers: `pre` followed by n symbolic digits; exact, or reported.
static void integer(const char *pre, int n) {
  int k = (int)strlen(pre);
  begin(k + n);
  uint64_t v = 0;
  bool big = false;
  for (int i = 0; i < k + n; ++i) {
    buf[i] = i < k ? pre[i] : (char)sym_int("d", '0', '9');
    if (k + n > 18)
      big |= (v > 922337203685477580ull) | ((v == 922337203685477580ull) & (buf[i] > '7'));
    v = v * 10 + (uint64_t)(buf[i] - '0');
  }
  lexer::Lexer<StateMachine> lex(src);
  Token t = lex.scan();
  if (big) {
    sym_assert(t.getKind() == K::Error, "unrepresentable_integer_is_reported");
    sym_reach("error");
    return;
  }
  sym_assert(t.getKind() == K::Integer, "token_kind");
  sym_assert(t.getInt() == (int64_t)v, "integer_value");
  sym_reach("done");
}
HARNESS(lex_int4) { integer("", 4); }
HARNESS(lex_int9) { integer("", 9); }
HARNESS(lex_intmax) { integer("92233720368547758", 2); }
HARNESS(lex_intbig) { integer("9223372036854775", 5); }

/// Decimal numbers.
static void number(int up, int low) {
  int n = 0;
  begin(up + 1 + low);
  int64_t u = 0, l = 0;
  double c = 1;
  for (int i = 0; i < up; ++i) {
    buf[n] = (char)sym_int("d", '0', '9');
    u = append(u, valueOf(buf[n++]));
  }
  buf[n++] = '.';
  for (int i = 0; i < low; ++i) {
    buf[n] = (char)sym_int("d", '0', '9');
    l = append(l, valueOf(buf[n++]));
    c *= 10;
  }
  lexer::Lexer<StateMachine> lex(src);
  Token t = lex.scan();
  sym_assert(t.getKind() == K::FloatingPoint, "token_kind");
  sym_assert(lex.scan().getKind() == K::EndOfFile, "token_kind");
  double v = t.getFloat();
  double r = sum((double)u, quotient((double)l, c));
  int64_t a, b;
  memcpy(&a, &v, 8);
  memcpy(&b, &r, 8);
  if (a != b) {
    double d = v > r ? v - r : r - v;
    sym_assert(d <= r * 1e-15, "float_value");
  }
  sym_reach("done");
}
HARNESS(lex_val0) { number(2, 0); }
HARNESS(lex_val1) { number(2, 1); }
HARNESS(lex_val2) { number(1, 2); }
HARNESS(lex_val3) { number(1, 3); }
/// Every exponent of up to three digits.
HARNESS(lex_exp) {
  static const char *const pre[] = {"1.e", "1.25e", "1E", "12.5E", "0.e"};
  static const double val[] = {1, 1.25, 1, 12.5, 0};
  int k = (int)sym_choice("mantissa", 5), sign = (int)sym_choice("sign", 3), x = (int)sym_choice("exponent", 309), pad = (int)sym_choice("zeros", 2);
  char t[32];
  int n = snprintf(t, sizeof t, "%s%s%s%d", pre[k], sign == 0 ? "" : sign == 1 ? "+" : "-", pad ? "0" : "", x);
  begin(n);
  memcpy(buf, t, n);
  lexer::Lexer<StateMachine> lex(src);
  Token a = lex.scan();
  sym_assert(a.getKind() == K::FloatingPoint, "token_kind");
  sym_assert(lex.scan().getKind() == K::EndOfFile, "token_kind");
  double v = a.getFloat(), r = strtod(t, nullptr), d = v > r ? v - r : r - v;
  sym_assert(v == r || d <= r * 1e-13, "float_value");
  sym_reach("done");
}
/// Numbers of any length.
HARNESS(lex_long) {
  int up = (int)sym_choice("digits", 26), z = (int)sym_choice("zeros", 6), low = (int)sym_choice("fraction", 24), d = (int)sym_choice("digit", 2);
  static const int count[] = {0, 1, 17, 18, 19, 30};
  int zeros = count[z];
  int n = 0;
  static char t[96];
  for (int i = 0; i < up; ++i)
    t[n++] = "19"[d];
  if (!up)
    t[n++] = '0';
  t[n++] = '.';
  for (int i = 0; i < zeros; ++i)
    t[n++] = '0';
  for (int i = 0; i < low; ++i)
    t[n++] = "19"[d];
  t[n] = 0;
  begin(n);
  memcpy(buf, t, n);
  lexer::Lexer<StateMachine> lex(src);
  Token a = lex.scan();
  sym_assert(a.getKind() == K::FloatingPoint, "token_kind");
  sym_assert(lex.scan().getKind() == K::EndOfFile, "token_kind");
  double v = a.getFloat(), r = strtod(t, nullptr), e = v > r ? v - r : r - v;
  sym_assert(v == r || e <= r * 1e-13, "float_value");
  sym_reach("done");
}
/// Numbers in a row: nothing of one is left in the next.
HARNESS(lex_seq) {
  static const char *const num[] = {"1e2", "3E-1", "2.05", "1.5", "0.007", "4", "5.e+1", "60", "7.", "0"};
  char t[32];
  double v[3];
  int n = 0;
  for (int i = 0; i < 3; ++i) {
    const char *s = num[sym_choice("number", 10)];
    v[i] = strtod(s, nullptr);
    n += snprintf(t + n, sizeof t - n, "%s ", s);
  }
  begin(n);
  memcpy(buf, t, n);
  lexer::Lexer<StateMachine> lex(src);
  for (int i = 0; i < 3; ++i) {
    Token a = lex.scan();
    sym_assert(a.getKind() == K::FloatingPoint || a.getKind() == K::Integer, "token_kind");
    double x = a.getKind() == K::Integer ? (double)a.getInt() : a.getFloat(), d = x > v[i] ? x - v[i] : v[i] - x;
    sym_assert(d <= v[i] * 1e-13, "number_after_number");
  }
  sym_assert(lex.scan().getKind() == K::EndOfFile, "token_kind");
  sym_reach("done");
}
/// Names, strings and comments in a row.
HARNESS(lex_row) {
  static const char *const word[] = {"a", "model", "'q'", "\"s\"", "\"\"", "/*c*/", "//d\n", "\n", "12", "\"e\nf\"", "<=", "'\\''"};
  int n = 0;
  char t[40];
  for (int i = 0; i < 3; ++i)
    n += snprintf(t + n, sizeof t - n, "%s ", word[sym_choice("word", 12)]);
  begin(n);
  memcpy(buf, t, n);
  check(n);
}

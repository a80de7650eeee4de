// C22: a filter of variables means what its text says.
#include "sym.h"
#include "marco/VariableFilter/Parser.h"
#include "marco/VariableFilter/VariableFilter.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
using namespace marco;

static std::shared_ptr<SourceFile> file;
static clang::DiagnosticsEngine *diags;
static clang::SourceManager *sources;
static std::unique_ptr<llvm::MemoryBuffer> buffer;
static void setup() {
  file = std::make_shared<SourceFile>("filter");
  diags = new clang::DiagnosticsEngine(new clang::DiagnosticIDs, new clang::DiagnosticOptions, new clang::IgnoringDiagConsumer);
  auto *fm = new clang::FileManager(clang::FileSystemOptions());
  sources = new clang::SourceManager(*diags, *fm);
}

static char buf[64];
static int n;
static void begin(int size) {
  n = size;
  buf[n] = 0;
  buffer = llvm::MemoryBuffer::getMemBuffer(llvm::StringRef(buf, n));
  file->setMemoryBuffer(buffer.get());
}

// The reference reads the text on its own.
static bool space(unsigned char c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
static bool letter(unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
struct FilterBound { bool open; int64_t v; };
struct FilterItem {
  enum { Var, Der, Rx } kind;
  std::string s;
  std::vector<std::pair<FilterBound, FilterBound>> r;
};
static std::vector<FilterItem> items;
static int pos;
static void skip() {
  while (pos < n && space(buf[pos]))
    ++pos;
}
static bool sym(char c) {
  skip();
  if (pos < n && buf[pos] == c) {
    ++pos;
    return true;
  }
  return false;
}
static bool name(std::string &s) {
  skip();
  if (pos >= n || !letter(buf[pos]))
    return false;
  int e = pos + 1;
  while (e < n && (letter(buf[e]) | digit(buf[e]) | (buf[e] == '.')))
    ++e;
  s.assign(buf + pos, e - pos);
  pos = e;
  return true;
}
static bool isDer(const std::string &s) {
  return s.size() == 3 && (((s[0] ^ 'd') | (s[1] ^ 'e') | (s[2] ^ 'r')) == 0);
}
static bool bound(FilterBound &b) {
  b.open = sym('$');
  b.v = 0;
  if (b.open)
    return true;
  skip();
  if (pos >= n || !digit(buf[pos]))
    return false;
  while (pos < n && digit(buf[pos])) {
    int d = buf[pos++] - '0';
    if ((b.v > 922337203685477580) | ((b.v == 922337203685477580) & (d > 7)))
      return false;
    b.v = b.v * 10 + d;
  }
  return true;
}
static bool read() {
  items.clear();
  pos = 0;
  for (;;) {
    skip();
    if (pos >= n)
      return true;
    if (sym(';'))
      continue;
    FilterItem it;
    if (sym('/')) {
      it.kind = FilterItem::Rx;
      int e = pos;
      while (e < n && buf[e] != '/')
        ++e;
      if (e >= n || e == pos)
        return false;
      it.s.assign(buf + pos, e - pos);
      pos = e + 1;
      if (!llvm::Regex(it.s).isValid())
        return false;
      items.push_back(it);
      continue;
    }
    if (!name(it.s))
      return false;
    it.kind = FilterItem::Var;
    if (isDer(it.s)) {
      it.kind = FilterItem::Der;
      if (!sym('(') || !name(it.s) || isDer(it.s) || !sym(')'))
        return false;
    } else if (sym('[')) {
      do {
        std::pair<FilterBound, FilterBound> r;
        if (!bound(r.first) || !sym(':') || !bound(r.second))
          return false;
        it.r.push_back(r);
      } while (sym(','));
      if (!sym(']'))
        return false;
    }
    items.push_back(it);
  }
}
static bool same(const std::string &a, const char *b) {
  if (a.size() != strlen(b))
    return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.size(); ++i)
    d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
static bool matches(const std::string &name) {
  bool m = false;
  for (auto &i : items)
    if (i.kind == FilterItem::Rx && llvm::Regex(i.s).match(name))
      m = true;
  return m;
}
static void unbounded(const vf::Range &r) {
  sym_assert(!r.hasLowerBound() & !r.hasUpperBound(), "other_dimensions_are_unbounded");
}
static void limit(bool has, int64_t v, const FilterBound &b) {
  sym_assert(has == !b.open, "open_bound");
  sym_assert(b.open | (v == b.v), "value_of_bound");
}
static void queries(const VariableFilter &f);
static void check() {
  VariableFilter f;
  bool ok;
  {
    vf::Parser p(f, *diags, *sources, file);
    ok = p.run();
  }
  sym_assert(ok | diags->hasErrorOccurred(), "rejected_without_diagnostic");
  sym_assert(!ok | !diags->hasErrorOccurred(), "accepted_with_an_error");
  sym_assert(ok == read(), "accepts_the_grammar");
  sym_reach(ok ? "accepted" : "rejected");
  if (ok)
    queries(f);
}
static void queries(const VariableFilter &f) {
  sym_assert(f.isEnabled() == !items.empty(), "enabled");
  for (const char *q : {"x", "y", "x.y", "x1"})
    for (unsigned rank = 0; rank <= 2; ++rank) {
      auto got = f.getVariableInfo(q, rank);
      size_t k = 0;
      for (auto &i : items) {
        if (i.kind != FilterItem::Var || !same(i.s, q))
          continue;
        sym_assert(k < got.size(), "one_filter_for_each_element");
        sym_assert(got[k].isVisible(), "named_variable_is_visible");
        auto r = got[k].getRanges();
        sym_assert(r.size() == rank, "rank_of_filter");
        for (unsigned d = 0; d < rank; ++d)
          if (d < i.r.size()) {
            limit(r[d].hasLowerBound(), r[d].getLowerBound(), i.r[d].first);
            limit(r[d].hasUpperBound(), r[d].getUpperBound(), i.r[d].second);
          } else
            unbounded(r[d]);
        ++k;
      }
      if (!k) {
        sym_assert(got.size() == 1, "one_filter_for_other_variables");
        sym_assert(got[0].isVisible() == (items.empty() || matches(q)), "visibility");
        sym_assert(got[0].getRanges().size() == rank, "rank_of_filter");
        for (auto &r : got[0].getRanges())
          unbounded(r);
      } else
        sym_assert(got.size() == k, "one_filter_for_each_element");
      auto der = f.getVariableDerInfo(q, rank);
      bool named = matches(std::string("der(") + q + ")");
      for (auto &i : items)
        if (i.kind == FilterItem::Der && same(i.s, q))
          named = true;
      sym_assert(der.size() == 1 && der[0].isVisible() == named, "visibility_of_derivative");
      sym_assert(der[0].getRanges().size() == rank, "rank_of_filter");
      for (auto &r : der[0].getRanges())
        unbounded(r);
    }
}
/// `pre`, k characters of an alphabet (null: any), `post`.
static void text(const char *pre, int k, const char *alphabet, const char *post) {
  int a = (int)strlen(pre), b = (int)strlen(post);
  begin(a + k + b);
  memcpy(buf, pre, a);
  memcpy(buf + a + k, post, b);
  for (int i = a; i < a + k; ++i) {
    buf[i] = (char)sym_int("c", 1, 255);
    if (!alphabet)
      continue;
    bool ok = false;
    for (const char *p = alphabet; *p; ++p)
      ok |= buf[i] == *p;
    sym_assume(ok);
  }
  check();
}
#define TEXT(name, pre, k, alphabet, post) HARNESS_S(name##k, setup) { text(pre, k, alphabet, post); }
#define ALL(k)                                                                 \
  TEXT(any_, "", k, nullptr, "")                                               \
  TEXT(list_, "", k, "xy.;1[]", "")                                            \
  TEXT(arr_, "x[", k, "1$:,] ", "")                                            \
  TEXT(low_, "x[", k, "0123456789", ":3]")                                     \
  TEXT(bound_, "x[", k, "19$: ", "]")                                          \
  TEXT(ranges_, "x[1:", k, "1$:,]x;", "")                                      \
  TEXT(two_, "x[$:4];x", k, "[1:$].", "2]")                                    \
  TEXT(der_, "der", k, "(xy) r;", "")                                          \
  TEXT(dero_, "der(", k, "x.1)[", "")                                          \
  TEXT(ders_, "der(x);der(", k, "xy.1", ")")                                   \
  TEXT(kw_, "", k, "der(x", ")")                                               \
  TEXT(rx_, "/", k, "x.*(/", "/")                                              \
  TEXT(rx2_, "x/", k, "xyr/", ";y/der/")                                       \
  TEXT(mid_, "y;", k, "x[;/", "x;")
ALL(1) ALL(2) ALL(3) ALL(4) ALL(5)
/// Bounds near the limits of integers.
static void big(const char *pre, int k) {
  text((std::string("x[") + pre).c_str(), k, "0123456789", ":$]");
}
HARNESS_S(big_int, setup) { big("21474836", 2); }
HARNESS_S(big_uint, setup) { big("42949672", 2); }
HARNESS_S(big_long, setup) { big("92233720368547758", 2); }
HARNESS_S(big_ulong, setup) { big("184467440737095516", 2); }
/// The whole way from a command-line option.
static void whole(int k, const char *const *word, const char *sep) {
  std::string t;
  for (int i = 0; i < k; ++i)
    t += (i ? sep : "") + std::string(word[sym_choice("word", 10)]);
  begin((int)t.size());
  memcpy(buf, t.data(), t.size());
  auto f = VariableFilter::fromString(llvm::StringRef(buf, n));
  sym_assert(f.has_value() == read(), "accepts_the_grammar");
  sym_reach(f ? "accepted" : "rejected");
  if (f)
    queries(*f);
}
static const char *const words[] = {"x", "[1:2]", "[$:3,1:$]", ";", "der(x)", "/y/", "/(/", "x.y", "12", "der"};
HARNESS_S(whole_2, setup) { whole(2, words, ""); }
HARNESS_S(whole_3, setup) { whole(3, words, ""); }
static const char *const parts[] = {"x", "x[1:2]", "x[$:3,1:$]", "y[4]", "der(x)", "der(y)", "/y/", "/der.x/", "x.y", "x1[1,2,3]"};
HARNESS_S(parts_2, setup) { whole(2, parts, ";"); }
HARNESS_S(parts_3, setup) { whole(3, parts, ";"); }
HARNESS_S(parts_4, setup) { whole(4, parts, ";"); }

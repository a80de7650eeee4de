// Token sequences in context. RUN is defined by the includer.
static void model() {
  reset();
  tok(K::Model);
  id("M");
}
/// Distinct names, so that the order of the tokens shows in the tree; whole
/// classes must repeat theirs.
static const char *const names[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
static void anys(int n) {
  const bool whole = ntoks == 0;
  for (int i = 0; i < n; ++i)
    any(whole ? "x" : names[i]);
}
static void finish() {
  tok(K::Semicolon);
  tok(K::End);
  id("M");
  tok(K::Semicolon);
}
#define ANY(name, n, prefix, suffix)                                           \
  HARNESS_S(name##n, setup) {                                                  \
    prefix;                                                                    \
    anys(n);                                                                   \
    suffix;                                                                    \
    RUN();                                                                     \
  }
#define M model()
#define E M, tok(K::Equation)
#define A M, tok(K::Algorithm)
#define X id("x")
#define EQ tok(K::EqualityOperator)
#define RHS E, X, EQ
#define T(k) tok(K::k)
#define ALL(n)                                                                 \
  ANY(root_, n, reset(), )                                                     \
  ANY(body_, n, M, )                                                           \
  ANY(eq_, n, (E), )                                                           \
  ANY(alg_, n, (A), )                                                          \
  ANY(prot_, n, (M, T(Protected)), )                                           \
  ANY(init_, n, (M, T(Initial)), finish())                                     \
  ANY(elem_, n, (M, id("Real")), finish())                                     \
  ANY(dim_, n, (M, id("Real"), T(LSquare)), (T(RSquare), X, finish()))         \
  ANY(mod_, n, (M, id("Real"), X, T(LPar)), (T(RPar), finish()))               \
  ANY(ann_, n, (M, T(Annotation), T(LPar)), (T(RPar), finish()))               \
  ANY(rhs_, n, (RHS), finish())                                                \
  ANY(call_, n, (RHS, id("f"), T(LPar)), (T(RPar), finish()))                  \
  ANY(arr_, n, (RHS, T(LCurly)), (T(RCurly), finish()))                        \
  ANY(sub_, n, (RHS, X, T(LSquare)), (T(RSquare), finish()))                   \
  ANY(par_, n, (RHS, T(LPar)), (T(RPar), finish()))                            \
  ANY(ifx_, n, (RHS, T(If), X, T(Then)), finish())                             \
  ANY(eif_, n, (E, T(If), X, T(Then)), (T(End), T(If), finish()))              \
  ANY(efor_, n, (E, T(For)), (T(Loop), T(End), T(For), finish()))              \
  ANY(ewhen_, n, (E, T(When), X, T(Then)), (T(End), T(When), finish()))        \
  ANY(asg_, n, (A, X, T(AssignmentOperator)), finish())                        \
  ANY(tup_, n, (A, T(LPar)), finish())                                         \
  ANY(sif_, n, (A, T(If), X, T(Then)), (T(End), T(If), finish()))              \
  ANY(sfor_, n, (A, T(For), X, T(Loop)), (T(End), T(For), finish()))           \
  ANY(swhile_, n, (A, T(While), X, T(Loop)), (T(End), T(While), finish()))     \
  ANY(swhen_, n, (A, T(When), X, T(Then)), (T(End), T(When), finish()))        \
  ANY(der_, n, (reset(), T(Function), X, EQ, T(Der), T(LPar)), (T(RPar), T(Semicolon)))             \
  ANY(ext_, n, (reset(), T(Function), id("M"), T(External)), finish())         \
  ANY(extc_, n, (reset(), T(Function), id("M"), T(External), id("f"), T(LPar)), (T(RPar), finish()))
ALL(1) ALL(2) ALL(3) ALL(4) ALL(5) ALL(6)

// Programs of whole fragments, chosen one at a time as they are read.
struct Frag { int n; Tok t[16]; };
static Frag frag[40], tail;
static int nfrag, fragsLeft;
static bool tailDone;
static void load(Frag &f, const char *w) {
  reset();
  words(w);
  f.n = ntoks;
  for (int i = 0; i < ntoks; ++i)
    f.t[i] = toks[i];
  reset();
}
static void put(const Frag &f) {
  for (int i = 0; i < f.n; ++i)
    toks[ntoks++] = f.t[i];
}
static bool pull() {
  if (fragsLeft > 0) {
    --fragsLeft;
    put(frag[sym_choice("fragment", nfrag)]);
    return true;
  }
  if (tailDone)
    return false;
  tailDone = true;
  put(tail);
  return true;
}
static Frag start;
static void fragments(const char *first, const char *const *w, const char *last) {
  setup();
  nfrag = 0;
  for (; *w; ++w)
    load(frag[nfrag++], *w);
  load(start, first);
  load(tail, last);
}
static void sequence(int n) {
  reset();
  put(start);
  fragsLeft = n;
  tailDone = false;
  more = pull;
  RUN();
}
static void setupEquations() {
  static const char *const w[] = {"a = b ;", "if c then", "elseif d then", "else", "end if ;", "for i in e , j in f loop",
                                  "end for ;", "when g then", "elsewhen h then", "end when ;", nullptr};
  fragments("model M equation", w, "end M ;");
}
static void setupStatements() {
  static const char *const w[] = {"a := b ;", "f ( a , b ) ;", "( a , , b ) := f ( c ) ;", "break ;", "return ;",
                                  "if c then", "elseif d then", "else", "end if ;", "for i in e loop", "end for ;",
                                  "while g loop", "end while ;", "when h then", "end when ;", nullptr};
  fragments("model M algorithm", w, "end M ;");
}
static void setupSections() {
  static const char *const w[] = {"Real a ;", "parameter Integer b [ 3 ] ( start = 1 ) \"s\" ;", "public", "protected",
                                  "equation", "initial equation", "algorithm", "initial algorithm", "c = d ;",
                                  "e := f ;", "function G", "end G ;", "record R", "end R ;",
                                  "annotation ( g = 2 ) ;", "external \"C\" h = f ( a , b ) ;", nullptr};
  fragments("model M", w, "end M ;");
}
static void setupElements() {
  static const char *const w[] = {"final", "discrete", "parameter", "constant", "input", "output", "Real", "Integer",
                                  "Boolean", "String", ". T", "T . U", "[ 2 , : , n ]", "x", "= 1", "( y = 2 , each final z ( w = 3 ) = 4 )",
                                  "\"s\"", "annotation ( q )", ";", nullptr};
  fragments("model M protected", w, "; end M ;");
}
static void setupCalls() {
  static const char *const w[] = {"a", "f (", ")", ",", "n =", "for i in", "{", "}", "[", "]", ":", ".", "der (", nullptr};
  fragments("model M equation x =", w, "; end M ;");
}
static void setupArgs() {
  static const char *const w[] = {"a", ", b", "n = c", ", m = d", "+ e", "for i in r", ", j in s", "2", nullptr};
  fragments("model M equation x = f (", w, ") ; end M ;");
}
static void setupArrays() {
  static const char *const w[] = {"a", ", b", "{", "}", "for i in r", ", j in s", "- 2", ",", nullptr};
  fragments("model M equation x = {", w, "} ; end M ;");
}
static void setupIfs() {
  static const char *const w[] = {"if a then", "b", "else c", "(", ")", "not", "d + e", "else", ": f", nullptr};
  fragments("model M equation x =", w, "; end M ;");
}
#define PROGRAMS(n)                                                            \
  HARNESS_S(equations_##n, setupEquations) { sequence(n); }                     \
  HARNESS_S(statements_##n, setupStatements) { sequence(n); }                   \
  HARNESS_S(sections_##n, setupSections) { sequence(n); }                       \
  HARNESS_S(elements_##n, setupElements) { sequence(n); }                       \
  HARNESS_S(calls_##n, setupCalls) { sequence(n); }                             \
  HARNESS_S(args_##n, setupArgs) { sequence(n); }                               \
  HARNESS_S(arrays_##n, setupArrays) { sequence(n); }                           \
  HARNESS_S(ifs_##n, setupIfs) { sequence(n); }
PROGRAMS(2) PROGRAMS(3) PROGRAMS(4) PROGRAMS(5) PROGRAMS(6) PROGRAMS(7)

/// Operands joined by any tokens; every second one with a sign or negation.
static void operators(int n, bool unary) {
  model();
  words("equation x =");
  for (int i = 0; i <= n; ++i) {
    if (unary && i % 2 == 0)
      any();
    id(names[i]);
    if (i < n)
      any(names[i]);
  }
  finish();
  RUN();
}
#define OPS(n)                                                                 \
  HARNESS_S(ops_##n, setup) { operators(n, false); }                           \
  HARNESS_S(uops_##n, setup) { operators(n, true); }
OPS(2) OPS(3) OPS(4)
/// Nested alternatives.
static void conditional(bool parens) {
  model();
  words(parens ? "equation x = ( if a" : "equation x = if a");
  any();
  words("b then c");
  any();
  words("d else e");
  any();
  words(parens ? "f )" : "f");
  if (parens) {
    any();
    id("g");
  }
  finish();
  RUN();
}
HARNESS_S(cond_0, setup) { conditional(false); }
HARNESS_S(cond_1, setup) { conditional(true); }

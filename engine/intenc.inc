// Exact integer encoding, used when every constraint of a path is linear and
// provably free of wrap-around: each value node is given an integer congruent
// to it modulo 2^w together with an interval; a comparison is translated only
// when the intervals show that the machine comparison and the integer one
// coincide. Otherwise the whole path is solved as bit-vectors.
struct IInfo { u8 done, ok; i128 lo, hi; };
static std::vector<IInfo> g_ii;
static std::vector<u8> g_ib; // boolean nodes: 0 unknown 1 ok 2 no
static bool intB(u32 n);
static bool inS(const IInfo &x, unsigned w) { return x.lo >= -((i128)1 << (w - 1)) && x.hi < ((i128)1 << (w - 1)); }
static bool inU(const IInfo &x, unsigned w) { return x.lo >= 0 && x.hi < ((i128)1 << w); }
static IInfo intV(u32 n) {
  if (g_ii[n].done) return g_ii[n];
  Node &d = N[n];
  unsigned w = d.w;
  IInfo r{1, 0, 0, 0};
  i128 lim = (i128)1 << 90;
  switch (d.op) {
  case CONST: { i128 v = w >= 32 ? (i128)sx(d.imm, w) : (i128)d.imm; r = {1, 1, v, v}; break; }
  case VAR: r = {1, 1, 0, ((i128)1 << w) - 1}; break;
  case ZEXT:
    if (N[d.a].w == 1) { if (intB(d.a)) r = {1, 1, 0, 1}; break; }
    { IInfo a = intV(d.a);
      unsigned wa = N[d.a].w;
      if (a.ok && inU(a, wa)) r = a;
      else if (a.ok && inS(a, wa)) r = {1, 1, 0, ((i128)1 << wa) - 1}; }
    break;
  case SEXT:
    if (N[d.a].w == 1) break;
    { IInfo a = intV(d.a); if (a.ok && inS(a, N[d.a].w)) r = a; }
    break;
  case ADD: { IInfo a = intV(d.a), b = intV(d.b); if (a.ok && b.ok) r = {1, 1, a.lo + b.lo, a.hi + b.hi}; break; }
  case SUB: { IInfo a = intV(d.a), b = intV(d.b); if (a.ok && b.ok) r = {1, 1, a.lo - b.hi, a.hi - b.lo}; break; }
  case NEG: { IInfo a = intV(d.a); if (a.ok) r = {1, 1, -a.hi, -a.lo}; break; }
  case MUL: {
    if (N[d.b].op != CONST) break;
    IInfo a = intV(d.a), b = intV(d.b);
    i128 big = (i128)1 << 50;
    if (a.ok && b.ok && a.lo > -big && a.hi < big && b.lo > -big && b.lo < big) {
      i128 x = a.lo * b.lo, y = a.hi * b.lo;
      r = {1, 1, x < y ? x : y, x < y ? y : x};
    }
    break;
  }
  case ITE: {
    if (!intB(d.a)) break;
    IInfo a = intV(d.b), b = intV(d.c);
    if (a.ok && b.ok) r = {1, 1, a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi};
    break;
  }
  case EXTRACT: if (d.imm == 0 && w > 1) { IInfo a = intV(d.a); if (a.ok) r = a; } break;
  }
  if (r.ok && (r.lo < -lim || r.hi > lim)) r.ok = 0;
  g_ii[n] = r;
  return r;
}
static IInfo asU(u32 n) { IInfo r = intV(n); if (N[n].op == CONST) r.lo = r.hi = (i128)N[n].imm; return r; }
static IInfo asS(u32 n) { IInfo r = intV(n); if (N[n].op == CONST) r.lo = r.hi = (i128)sx(N[n].imm, N[n].w); return r; }
static bool intB(u32 n) {
  if (g_ib[n]) return g_ib[n] == 1;
  Node &d = N[n];
  bool ok = false;
  switch (d.op) {
  case CONST: ok = true; break;
  case VAR: ok = true; break;
  case AND: case OR: case XOR: ok = intB(d.a) && intB(d.b); break;
  case NOT: ok = intB(d.a); break;
  case ITE: ok = intB(d.a) && intB(d.b) && intB(d.c); break;
  case EQ: case ULT: case ULE: case SLT: case SLE: {
    unsigned w = N[d.a].w;
    if (w == 1) { ok = d.op == EQ && intB(d.a) && intB(d.b); break; }
    IInfo ua = asU(d.a), ub = asU(d.b), sa = asS(d.a), sb = asS(d.b);
    bool U = ua.ok && ub.ok && inU(ua, w) && inU(ub, w), S = sa.ok && sb.ok && inS(sa, w) && inS(sb, w);
    if (d.op == EQ) ok = U || S;
    else if (d.op == ULT || d.op == ULE) ok = U || S;
    else ok = S;
    break;
  }
  }
  g_ib[n] = ok ? 1 : 2;
  return ok;
}
static std::vector<Z3_ast> ZI, ZIB;
static Z3_sort g_int;
static Z3_ast zintk(i128 v) {
  char b[64]; bool neg = v < 0; if (neg) v = -v;
  int i = 63; b[i] = 0;
  do { b[--i] = '0' + (int)(v % 10); v /= 10; } while (v);
  if (neg) b[--i] = '-';
  return Z3_mk_numeral(Z, b + i, g_int);
}
static std::vector<std::pair<u32, Z3_ast>> g_newvars;
static Z3_ast zib(u32 n);
static Z3_ast zi(u32 n) {
  if (ZI[n]) return ZI[n];
  Node &d = N[n];
  Z3_ast r = nullptr, t[2];
  switch (d.op) {
  case CONST: r = zintk(d.w >= 32 ? (i128)sx(d.imm, d.w) : (i128)d.imm); break;
  case VAR: {
    char nm[32]; snprintf(nm, sizeof nm, "i%lu", (unsigned long)d.imm);
    r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), g_int);
    g_newvars.push_back({n, r});
    break;
  }
  case ZEXT: {
    if (N[d.a].w == 1) { r = Z3_mk_ite(Z, zib(d.a), zintk(1), zintk(0)); break; }
    r = zi(d.a);
    if (!inU(intV(d.a), N[d.a].w)) {
      t[0] = r; t[1] = zintk((i128)1 << N[d.a].w);
      r = Z3_mk_ite(Z, Z3_mk_lt(Z, r, zintk(0)), Z3_mk_add(Z, 2, t), r);
    }
    break;
  }
  case SEXT: case EXTRACT: r = zi(d.a); break;
  case ADD: t[0] = zi(d.a); t[1] = zi(d.b); r = Z3_mk_add(Z, 2, t); break;
  case SUB: t[0] = zi(d.a); t[1] = zi(d.b); r = Z3_mk_sub(Z, 2, t); break;
  case NEG: r = Z3_mk_unary_minus(Z, zi(d.a)); break;
  case MUL: t[0] = zi(d.a); t[1] = zi(d.b); r = Z3_mk_mul(Z, 2, t); break;
  case ITE: r = Z3_mk_ite(Z, zib(d.a), zi(d.b), zi(d.c)); break;
  }
  ZI[n] = r;
  return r;
}
static Z3_ast zic(u32 n, bool uns) {
  if (N[n].op == CONST) return zintk(uns ? (i128)N[n].imm : (i128)sx(N[n].imm, N[n].w));
  return zi(n);
}
static Z3_ast zib(u32 n) {
  if (ZIB[n]) return ZIB[n];
  Node &d = N[n];
  Z3_ast r = nullptr, t[2];
  switch (d.op) {
  case CONST: r = d.imm ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case VAR: r = Z3_mk_eq(Z, zi(n), zintk(1)); break;
  case AND: t[0] = zib(d.a); t[1] = zib(d.b); r = Z3_mk_and(Z, 2, t); break;
  case OR: t[0] = zib(d.a); t[1] = zib(d.b); r = Z3_mk_or(Z, 2, t); break;
  case XOR: r = Z3_mk_xor(Z, zib(d.a), zib(d.b)); break;
  case NOT: r = Z3_mk_not(Z, zib(d.a)); break;
  case ITE: r = Z3_mk_ite(Z, zib(d.a), zib(d.b), zib(d.c)); break;
  default: {
    unsigned w = N[d.a].w;
    if (w == 1) { r = Z3_mk_iff(Z, zib(d.a), zib(d.b)); break; }
    IInfo ua = asU(d.a), ub = asU(d.b);
    bool U = inU(ua, w) && inU(ub, w);
    if (d.op == SLT || d.op == SLE) U = false;
    Z3_ast x = zic(d.a, U), y = zic(d.b, U);
    if (!U && (d.op == ULT || d.op == ULE)) {
      // unsigned comparison of values known as signed ones: negative values
      // are above all the others
      Z3_ast z = zintk(0), nx = Z3_mk_lt(Z, x, z), ny = Z3_mk_lt(Z, y, z);
      Z3_ast lt = d.op == ULT ? Z3_mk_lt(Z, x, y) : Z3_mk_le(Z, x, y);
      r = Z3_mk_ite(Z, Z3_mk_iff(Z, nx, ny), lt, ny);
      ZIB[n] = r;
      return r;
    }
    r = d.op == EQ ? Z3_mk_eq(Z, x, y) : (d.op == ULT || d.op == SLT) ? Z3_mk_lt(Z, x, y) : Z3_mk_le(Z, x, y);
  }
  }
  ZIB[n] = r;
  return r;
}

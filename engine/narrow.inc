// Interval analysis of the expression DAG (signed value of the node at its own
// width; no wrap assumed only when proved), used to hand the solver narrower
// bit-vectors for comparisons: exact, never an approximation.
struct Iv { i128 lo, hi; };
static std::vector<Iv> g_iv;
static std::vector<u8> g_ivd;
static Iv ivOf(u32 n) {
  if (g_ivd[n]) return g_iv[n];
  Node &d = N[n];
  unsigned w = d.w;
  i128 mx = ((i128)1 << (w - 1)) - 1, mn = -((i128)1 << (w - 1));
  Iv r{mn, mx};
  auto fit = [&](i128 lo, i128 hi) { if (lo >= mn && hi <= mx) r = {lo, hi}; };
  switch (d.op) {
  case CONST: { i128 v = sx(d.imm, w); r = {v, v}; break; }
  case ZEXT: {
    Iv a = ivOf(d.a);
    unsigned wa = N[d.a].w;
    if (wa < w) { if (a.lo >= 0) r = a; else r = {0, ((i128)1 << wa) - 1}; }
    break;
  }
  case SEXT: r = ivOf(d.a); break;
  case ADD: { Iv a = ivOf(d.a), b = ivOf(d.b); fit(a.lo + b.lo, a.hi + b.hi); break; }
  case SUB: { Iv a = ivOf(d.a), b = ivOf(d.b); fit(a.lo - b.hi, a.hi - b.lo); break; }
  case NEG: { Iv a = ivOf(d.a); fit(-a.hi, -a.lo); break; }
  case MUL: {
    Iv a = ivOf(d.a), b = ivOf(d.b);
    i128 lim = (i128)1 << 62;
    if (a.lo > -lim && a.hi < lim && b.lo > -lim && b.hi < lim) {
      i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
      i128 lo = p[0], hi = p[0];
      for (i128 x : p) { if (x < lo) lo = x; if (x > hi) hi = x; }
      fit(lo, hi);
    }
    break;
  }
  case ITE: { Iv a = ivOf(d.b), b = ivOf(d.c); r = {a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi}; break; }
  case AND: {
    Iv a = ivOf(d.a), b = ivOf(d.b);
    if (a.lo >= 0) r = {0, a.hi};
    if (b.lo >= 0 && b.hi < r.hi) r = {0, b.hi};
    break;
  }
  case UDIV: case UREM: {
    Iv a = ivOf(d.a), b = ivOf(d.b);
    if (a.lo >= 0 && b.lo > 0) r = {0, a.hi};
    break;
  }
  }
  g_iv[n] = r;
  g_ivd[n] = 1;
  return r;
}
static std::unordered_map<u64, Z3_ast> *g_low;
static Z3_ast zlow(u32 n, unsigned k) { // low k bits of node n
  Node &d = N[n];
  if (d.w == k) return zbv(n);
  auto it = g_low->find((u64)n << 8 | k);
  if (it != g_low->end()) return it->second;
  Z3_ast r;
  switch (d.op) {
  case CONST: r = Z3_mk_unsigned_int64(Z, d.imm & maskw(k), Z3_mk_bv_sort(Z, k)); break;
  case ZEXT: {
    unsigned wa = N[d.a].w;
    r = wa < k ? Z3_mk_zero_ext(Z, k - wa, zbv(d.a)) : zlow(d.a, k);
    break;
  }
  case SEXT: {
    unsigned wa = N[d.a].w;
    r = wa < k ? Z3_mk_sign_ext(Z, k - wa, zbv(d.a)) : zlow(d.a, k);
    break;
  }
  case ADD: r = Z3_mk_bvadd(Z, zlow(d.a, k), zlow(d.b, k)); break;
  case SUB: r = Z3_mk_bvsub(Z, zlow(d.a, k), zlow(d.b, k)); break;
  case MUL: r = Z3_mk_bvmul(Z, zlow(d.a, k), zlow(d.b, k)); break;
  case NEG: r = Z3_mk_bvneg(Z, zlow(d.a, k)); break;
  case AND: r = Z3_mk_bvand(Z, zlow(d.a, k), zlow(d.b, k)); break;
  case OR: r = Z3_mk_bvor(Z, zlow(d.a, k), zlow(d.b, k)); break;
  case XOR: r = Z3_mk_bvxor(Z, zlow(d.a, k), zlow(d.b, k)); break;
  case NOT: r = Z3_mk_bvnot(Z, zlow(d.a, k)); break;
  case ITE: r = Z3_mk_ite(Z, zbool(d.a), zlow(d.b, k), zlow(d.c, k)); break;
  default: r = Z3_mk_extract(Z, k - 1, 0, zbv(n)); break;
  }
  (*g_low)[(u64)n << 8 | k] = r;
  return r;
}
static unsigned narrowWidth(u32 a, u32 b, bool uns) {
  unsigned w = N[a].w;
  if (w < 16) return w;
  Iv x = ivOf(a), y = ivOf(b);
  (void)uns; // sign extension preserves the unsigned order as well
  i128 lo = x.lo < y.lo ? x.lo : y.lo, hi = x.hi > y.hi ? x.hi : y.hi;
  unsigned k = 2;
  while (k < w && (lo < -((i128)1 << (k - 1)) || hi > ((i128)1 << (k - 1)) - 1)) ++k;
  return k;
}
static Z3_ast zcmp(u8 op, u32 a, u32 b) {
  unsigned w = N[a].w, k = narrowWidth(a, b, op == ULT || op == ULE);
  Z3_ast x, y;
  if (k < w) { x = zlow(a, k); y = zlow(b, k); }
  else { x = zbv(a); y = zbv(b); }
  switch (op) {
  case EQ: return Z3_mk_eq(Z, x, y);
  case ULT: return Z3_mk_bvult(Z, x, y);
  case ULE: return Z3_mk_bvule(Z, x, y);
  case SLT: return Z3_mk_bvslt(Z, x, y);
  default: return Z3_mk_bvsle(Z, x, y);
  }
}

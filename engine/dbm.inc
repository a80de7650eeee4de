// Difference constraints already on the path (x - y <= c over the integers),
// kept transitively closed. A branch whose outcome they already force is no
// new decision: it needs no solver query. Everything here is exact: a term is
// only read as "atom + constant" when the addition cannot wrap.
typedef __int128 i128;
static const i64 DINF = INT64_MAX;
static const unsigned DMAX = 160;
static i64 *D = nullptr;               // D[i*DMAX+j]: upper bound of x_i - x_j
static u32 Datom[DMAX];                // node of atom i (0: the constant zero)
static unsigned Dn = 0;
static std::unordered_map<u32, int> *Dix = nullptr;
static inline i64 &DD(unsigned i, unsigned j) { return D[i * DMAX + j]; }
static inline i64 dadd(i64 a, i64 b) {
  if (a == DINF || b == DINF) return DINF;
  i128 s = (i128)a + b;
  if (s >= DINF) return DINF;
  if (s < INT64_MIN + 1) return INT64_MIN + 1;
  return (i64)s;
}
static void dedge(unsigned a, unsigned b, i128 w128) { // x_a - x_b <= w
  if (w128 >= DINF) return;
  i64 w = w128 < INT64_MIN + 1 ? INT64_MIN + 1 : (i64)w128;
  if (a == b || DD(a, b) <= w) return;
  DD(a, b) = w;
  for (unsigned i = 0; i < Dn; ++i) {
    i64 ia = i == a ? 0 : DD(i, a);
    if (ia == DINF) continue;
    i64 t = dadd(ia, w);
    for (unsigned j = 0; j < Dn; ++j) {
      if (i == j) continue;
      i64 v = dadd(t, j == b ? 0 : DD(b, j));
      if (v < DD(i, j)) DD(i, j) = v;
    }
  }
}
struct Lin { int at; i64 c; bool ok; };
static Lin lin(u32 n, int depth = 0);
static int datom(u32 n, int depth) {
  auto it = Dix->find(n);
  if (it != Dix->end()) return it->second;
  if (Dn >= DMAX) return -1;
  Node nd = N[n];
  int p = -1, q = -1; i64 pc = 0, qc = 0; bool mn = false, mx = false;
  if (nd.op == ITE && depth < 6) {
    Lin lp = lin(nd.b, depth + 1), lq = lin(nd.c, depth + 1);
    if (lp.ok && lq.ok) {
      p = lp.at; q = lq.at; pc = lp.c; qc = lq.c;
      Node c = N[nd.a];
      if (c.op == SLT || c.op == SLE) {
        if (c.a == nd.b && c.b == nd.c) mn = true;
        if (c.a == nd.c && c.b == nd.b) mx = true;
      }
    }
  }
  if (Dn >= DMAX) return -1;
  int k = Dn++;
  Datom[k] = n;
  (*Dix)[n] = k;
  for (unsigned j = 0; j < DMAX; ++j) DD(k, j) = DD(j, k) = DINF;
  DD(k, k) = 0;
  if (k == 0) return 0;
  if (nd.op == VAR && nd.w < 64) { dedge(k, 0, (i128)maskw(nd.w)); dedge(0, k, 0); }
  if (p >= 0 && q >= 0) {
    for (unsigned j = 0; j + 1 < Dn; ++j) {
      i64 u = std::max(dadd(p == (int)j ? 0 : DD(p, j), pc), dadd(q == (int)j ? 0 : DD(q, j), qc));
      if ((p == (int)j || DD(p, j) != DINF) && (q == (int)j || DD(q, j) != DINF)) dedge(k, j, u);
      if ((p == (int)j || DD(j, p) != DINF) && (q == (int)j || DD(j, q) != DINF)) {
        i64 l = std::max(dadd(p == (int)j ? 0 : DD(j, p), -pc), dadd(q == (int)j ? 0 : DD(j, q), -qc));
        dedge(j, k, l);
      }
    }
    if (mn) { dedge(k, p, pc); dedge(k, q, qc); }
    if (mx) { dedge(p, k, -(i128)pc); dedge(q, k, -(i128)qc); }
  }
  return k;
}
static void dinit() {
  if (D) return;
  D = (i64 *)mmap(nullptr, DMAX * DMAX * sizeof(i64), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  Dix = new std::unordered_map<u32, int>();
  datom(0, 0);
}
// Integer value of a node: signed for 64-bit nodes, unsigned for narrower
// input variables.
static Lin lin(u32 n, int depth) {
  dinit();
  Node nd = N[n];
  if (nd.op == CONST) {
    if (nd.w == 64) { if ((i64)nd.imm <= -(1ll << 62) || (i64)nd.imm >= (1ll << 62)) return {0, 0, false}; return {0, (i64)nd.imm, true}; }
    return {0, (i64)nd.imm, true};
  }
  if (nd.op == VAR) { int k = datom(n, depth); return {k, 0, k >= 0}; }
  if (nd.op == ZEXT && N[nd.a].op == VAR && N[nd.a].w < 64) { int k = datom(nd.a, depth); return {k, 0, k >= 0}; }
  if (nd.w != 64) return {0, 0, false};
  if (nd.op == ADD && N[nd.b].op == CONST && depth < 12) {
    Lin l = lin(nd.a, depth + 1);
    i64 c = (i64)N[nd.b].imm;
    if (l.ok && c > -(1ll << 62) && c < (1ll << 62)) {
      // no wrap: the atom's bounds plus the constants stay in range
      i64 hi = l.at ? DD(l.at, 0) : 0, lo = l.at ? DD(0, l.at) : 0;
      if (hi != DINF && lo != DINF) {
        i128 H = (i128)hi + l.c + c, Lw = -(i128)lo + l.c + c;
        if (H < ((i128)1 << 62) && Lw > -((i128)1 << 62)) return {l.at, l.c + c, true};
      }
    }
  }
  if (nd.op != ITE && nd.op != ADD && nd.op != SUB && nd.op != MUL && nd.op != SDIV) return {0, 0, false};
  int k = datom(n, depth);
  return {k, 0, k >= 0};
}
static bool nonneg(const Lin &l) {
  if (l.at == 0) return l.c >= 0;
  i64 lo = DD(0, l.at); // 0 - x <= lo  =>  x >= -lo
  return lo != DINF && -(i128)lo + l.c >= 0;
}
// normal form of a comparison: x_a - x_b <= w  (or EQ)
static bool dcmp(const Node &nd, Lin &a, Lin &b) {
  u32 wa = N[nd.a].w;
  bool narrow = wa < 64;
  if (nd.op == SLT || nd.op == SLE) { if (narrow) return false; }
  else if (nd.op != ULT && nd.op != ULE && nd.op != EQ) return false;
  if (narrow) {
    auto okN = [&](u32 x) { return N[x].op == VAR || N[x].op == CONST || (N[x].op == ZEXT && N[N[x].a].op == VAR); };
    if (!okN(nd.a) || !okN(nd.b)) return false;
  }
  a = lin(nd.a); b = lin(nd.b);
  if (!a.ok || !b.ok) return false;
  if (!narrow && (nd.op == ULT || nd.op == ULE) && (!nonneg(a) || !nonneg(b))) return false;
  return true;
}
static void dlearn(const Node &nd, bool t) {
  Lin a, b;
  if (!dcmp(nd, a, b)) return;
  i128 d = (i128)b.c - a.c; // x_a - x_b REL d
  if (nd.op == EQ) {
    if (t) { dedge(a.at, b.at, d); dedge(b.at, a.at, -d); }
    else if (a.at != b.at) {
      if (DD(a.at, b.at) != DINF && (i128)DD(a.at, b.at) == d) dedge(a.at, b.at, d - 1);
      if (DD(b.at, a.at) != DINF && (i128)DD(b.at, a.at) == -d) dedge(b.at, a.at, -d - 1);
    }
    return;
  }
  bool strict = nd.op == ULT || nd.op == SLT;
  if (t) dedge(a.at, b.at, strict ? d - 1 : d);
  else dedge(b.at, a.at, strict ? -d : -d - 1);
}
static int dimplied(const Node &nd) {
  Lin a, b;
  if (!dcmp(nd, a, b)) return 0;
  i128 d = (i128)b.c - a.c;
  i64 ab = a.at == b.at ? 0 : DD(a.at, b.at), ba = a.at == b.at ? 0 : DD(b.at, a.at);
  if (nd.op == EQ) {
    if (ab != DINF && (i128)ab < d) return 2;
    if (ba != DINF && (i128)ba < -d) return 2;
    if (ab != DINF && ba != DINF && (i128)ab <= d && (i128)ba <= -d) return 1;
    return 0;
  }
  bool strict = nd.op == ULT || nd.op == SLT;
  i128 u = strict ? d - 1 : d;
  if (ab != DINF && (i128)ab <= u) return 1;
  if (ba != DINF && (i128)ba <= -u - 1) return 2;
  return 0;
}

// Runtime of the symbolic execution engine: expression DAG, shadow memory,
// path events, exhaustive path exploration by re-execution, Z3 back end.
#include <z3.h>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- memory ----
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

static int g_arena_on = 1;      // allocations of the program under test
static u8 *const ARENA = (u8 *)0x200000000000ull;
static const u64 ARENA_SZ = 6ull << 30;
static u8 *const VALID = (u8 *)0x300000000000ull; // one byte per arena byte
static u64 g_arena_off = 0;
static bool g_arena_init = false;

static void arena_init() {
  if (g_arena_init)
    return;
  g_arena_init = true;
  void *p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void *q = mmap(VALID, ARENA_SZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p != ARENA || q != VALID)
    _exit(99);
}
static inline bool in_arena(const void *p) {
  return (u64)p - (u64)ARENA < ARENA_SZ;
}
static inline u64 &blk_size(void *p) { return ((u64 *)p)[-1]; }

static void fail_path(int kind, const char *id);
static int g_inprog = 0; // program under test running in a child
enum { F_ASSERT = 1, F_CRASH, F_TIMEOUT, F_MEM, F_OOM, F_ENGINE, F_ASSUME, F_INT };

static u64 g_arena_limit = 3ull << 30;
static void *arena_alloc(size_t n, size_t align) {
  arena_init();
  if (align < 16)
    align = 16;
  u64 off = g_arena_off + 32; // header + redzone
  off = (off + align - 1) & ~(u64)(align - 1);
  if (n > g_arena_limit || off + n + 32 > g_arena_limit) {
    if (g_inprog)
      fail_path(F_OOM, "unbounded allocation");
    return nullptr;
  }
  u8 *p = ARENA + off;
  blk_size(p) = n;
  memset(VALID + off, 1, n);
  g_arena_off = off + n;
  return p;
}
extern "C" void __sym_shadow_copy(void *d, const void *s, u64 n);
extern "C" {
void *malloc(size_t n) {
  if (!g_arena_on)
    return __libc_malloc(n);
  return arena_alloc(n, 16);
}
void free(void *p) {
  if (!p)
    return;
  if (in_arena(p)) {
    if (!g_arena_on)
      return;
    u64 n = blk_size(p);
    u64 off = (u8 *)p - ARENA;
    if (n && VALID[off] != 1 && g_inprog)
      fail_path(F_MEM, "double or invalid free");
    memset(VALID + off, 2, n);
    if (g_inprog)
      memset(p, 0xDD, n);
    return;
  }
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  size_t n = a * b;
  void *p = malloc(n);
  if (p)
    memset(p, 0, n);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p)
    return malloc(n);
  if (!in_arena(p) && !g_arena_on)
    return __libc_realloc(p, n);
  void *q = malloc(n);
  size_t o = in_arena(p) ? blk_size(p) : n;
  size_t m = o < n ? o : n;
  memcpy(q, p, m);
  __sym_shadow_copy(q, p, m);
  free(p);
  return q;
}
void *memalign(size_t a, size_t n) {
  if (!g_arena_on)
    return __libc_memalign(a, n);
  return arena_alloc(n, a);
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  *p = memalign(a, n);
  return *p ? 0 : ENOMEM;
}
size_t malloc_usable_size(void *p) {
  if (!p)
    return 0;
  if (in_arena(p))
    return blk_size(p);
  return 0;
}
}

template <typename T> struct MVec { // mmap-backed vector, no malloc
  T *d = nullptr;
  u64 n = 0, cap = 0;
  void push(const T &t) {
    if (n == cap) {
      u64 nc = cap ? cap * 2 : 4096;
      T *nd = (T *)mmap(nullptr, nc * sizeof(T), PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (d) {
        memcpy((void *)nd, (void *)d, n * sizeof(T));
        munmap(d, cap * sizeof(T));
      }
      d = nd;
      cap = nc;
    }
    d[n++] = t;
  }
  T &operator[](u64 i) { return d[i]; }
};

// ---------------------------------------------------------------- nodes -----
enum Op : u8 {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR,
  XOR, NOT, NEG, EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  UMULO, SMULO, FADD, FSUB, FMUL, FDIV, FLT, FLE, FEQ, FUNO, SITOFP, UITOFP,
  FPTOSI, FPTOUI, FPCVT, FNEGATE
};
struct Node {
  u8 op, w;
  u8 fp; // contains fp
  u8 conc;
  u32 a, b, c;
  u64 imm;
  u64 val;
};
static MVec<Node> N;
static u32 *H = nullptr;
static u64 Hcap = 0;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) {
  return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w);
}
static double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 dasu(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asf(u64 v) { float d; u32 x = v; memcpy(&d, &x, 4); return d; }
static u64 fasu(float d) { u32 v; memcpy(&v, &d, 4); return v; }

static u64 hashNode(const Node &n) {
  u64 h = n.op * 0x9E3779B97F4A7C15ull + n.w;
  h = (h ^ n.a) * 0xff51afd7ed558ccdull;
  h ^= h >> 29;
  h = (h ^ n.b) * 0xc4ceb9fe1a85ec53ull;
  h ^= h >> 31;
  h = (h ^ n.c) * 0x9E3779B97F4A7C15ull;
  h = (h ^ n.imm) * 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static void rehash(u64 nc) {
  u32 *nh = (u32 *)mmap(nullptr, nc * 4, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (u64 i = 1; i < N.n; ++i) {
    u64 h = hashNode(N[i]) & (nc - 1);
    while (nh[h])
      h = (h + 1) & (nc - 1);
    nh[h] = i;
  }
  if (H)
    munmap(H, Hcap * 4);
  H = nh;
  Hcap = nc;
}
static u64 evalOp(u8 op, u8 w, u64 imm, u32 a, u32 b, u32 c) {
  u64 x = a ? N[a].val : 0, y = b ? N[b].val : 0;
  unsigned wa = a ? N[a].w : 0;
  u64 m = maskw(w);
  switch (op) {
  case ADD: return (x + y) & m;
  case SUB: return (x - y) & m;
  case MUL: return (x * y) & m;
  case UDIV: return y ? x / y : m;
  case UREM: return y ? x % y : x;
  case SDIV: {
    i64 p = sx(x, w), q = sx(y, w);
    if (q == 0) return p < 0 ? 1 : m;
    if (q == -1) return (0 - (u64)p) & m;
    return (u64)(p / q) & m;
  }
  case SREM: {
    i64 p = sx(x, w), q = sx(y, w);
    if (q == 0) return x;
    if (q == -1) return 0;
    return (u64)(p % q) & m;
  }
  case SHL: return y >= w ? 0 : (x << y) & m;
  case LSHR: return y >= w ? 0 : x >> y;
  case ASHR: return (u64)(sx(x, w) >> (y >= w ? (w - 1) : y)) & m;
  case AND: return x & y;
  case OR: return x | y;
  case XOR: return x ^ y;
  case NOT: return ~x & m;
  case NEG: return (0 - x) & m;
  case EQ: return x == y;
  case ULT: return x < y;
  case ULE: return x <= y;
  case SLT: return sx(x, wa) < sx(y, wa);
  case SLE: return sx(x, wa) <= sx(y, wa);
  case ITE: return x ? N[b].val : N[c].val;
  case ZEXT: return x;
  case SEXT: return (u64)sx(x, wa) & m;
  case EXTRACT: return (x >> imm) & m;
  case CONCAT: return (x << N[b].w) | y;
  case UMULO: { unsigned __int128 r = (unsigned __int128)x * y; return (r >> wa) != 0; }
  case SMULO: {
    __int128 r = (__int128)sx(x, wa) * sx(y, wa);
    __int128 lo = -((__int128)1 << (wa - 1)), hi = ((__int128)1 << (wa - 1)) - 1;
    return r < lo || r > hi;
  }
  case FADD: return w == 64 ? dasu(asd(x) + asd(y)) : fasu(asf(x) + asf(y));
  case FSUB: return w == 64 ? dasu(asd(x) - asd(y)) : fasu(asf(x) - asf(y));
  case FMUL: return w == 64 ? dasu(asd(x) * asd(y)) : fasu(asf(x) * asf(y));
  case FDIV: return w == 64 ? dasu(asd(x) / asd(y)) : fasu(asf(x) / asf(y));
  case FLT: return wa == 64 ? asd(x) < asd(y) : asf(x) < asf(y);
  case FLE: return wa == 64 ? asd(x) <= asd(y) : asf(x) <= asf(y);
  case FEQ: return wa == 64 ? asd(x) == asd(y) : asf(x) == asf(y);
  case FUNO: return wa == 64 ? (std::isnan(asd(x)) || std::isnan(asd(y))) : (std::isnan(asf(x)) || std::isnan(asf(y)));
  case SITOFP: return w == 64 ? dasu((double)sx(x, wa)) : fasu((float)sx(x, wa));
  case UITOFP: return w == 64 ? dasu((double)x) : fasu((float)x);
  case FPTOSI: return (u64)(i64)(wa == 64 ? asd(x) : asf(x)) & m;
  case FPTOUI: return (u64)(wa == 64 ? asd(x) : asf(x)) & m;
  case FPCVT: return w == 64 ? dasu((double)asf(x)) : fasu((float)asd(x));
  case FNEGATE: return x ^ (1ull << (w - 1));
  }
  return 0;
}
static u32 intern(u8 op, u8 w, u32 a, u32 b, u32 c, u64 imm) {
  Node n;
  memset(&n, 0, sizeof n);
  n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.imm = imm;
  if (!Hcap) {
    Node z; memset(&z, 0, sizeof z);
    N.push(z);
    rehash(1 << 12);
  }
  if (N.n * 2 > Hcap) rehash(Hcap * 2);
  u64 h = hashNode(n) & (Hcap - 1);
  while (H[h]) {
    Node &o = N[H[h]];
    if (o.op == op && o.w == w && o.a == a && o.b == b && o.c == c && o.imm == imm)
      return H[h];
    h = (h + 1) & (Hcap - 1);
  }
  if (op == CONST) n.val = imm;
  else if (op != VAR) n.val = evalOp(op, w, imm, a, b, c);
  n.fp = (op >= FADD && op <= FNEGATE) || (a && N[a].fp) || (b && N[b].fp) || (c && N[c].fp);
  H[h] = N.n;
  N.push(n);
  return N.n - 1;
}
static u32 K(u64 v, unsigned w) { return intern(CONST, w, 0, 0, 0, v & maskw(w)); }
static inline bool isK(u32 a) { return N[a].op == CONST; }
static inline bool isKv(u32 a, u64 v) { return N[a].op == CONST && N[a].imm == v; }
static u32 mk(u8 op, u8 w, u32 a, u32 b = 0, u32 c = 0, u64 imm = 0);

static u32 mkNot(u32 a) { return mk(NOT, N[a].w, a); }
static u32 mkIte(u32 c, u32 a, u32 b) {
  if (a == b) return a;
  if (isK(c)) return N[c].imm ? a : b;
  if (N[a].w == 1) {
    if (isK(a) && isK(b)) return N[a].imm ? c : mkNot(c);
    if (isK(a)) return N[a].imm ? mk(OR, 1, c, b) : mk(AND, 1, mkNot(c), b);
    if (isK(b)) return N[b].imm ? mk(OR, 1, mkNot(c), a) : mk(AND, 1, c, a);
  }
  if (N[c].op == NOT) return mkIte(N[c].a, b, a);
  return intern(ITE, N[a].w, c, a, b, 0);
}
static u32 mkExtract(u32 a, unsigned lo, unsigned w) {
  Node n = N[a];
  if (lo == 0 && w == n.w) return a;
  switch (n.op) {
  case CONST: return K(n.imm >> lo, w);
  case EXTRACT: return mkExtract(n.a, lo + n.imm, w);
  case ZEXT: {
    unsigned wa = N[n.a].w;
    if (lo >= wa) return K(0, w);
    if (lo + w <= wa) return mkExtract(n.a, lo, w);
    return mk(ZEXT, w, mkExtract(n.a, lo, wa - lo));
  }
  case SEXT: {
    unsigned wa = N[n.a].w;
    if (lo + w <= wa) return mkExtract(n.a, lo, w);
    if (lo == 0) return mk(SEXT, w, n.a);
    break;
  }
  case CONCAT: {
    unsigned wb = N[n.b].w;
    if (lo + w <= wb) return mkExtract(n.b, lo, w);
    if (lo >= wb) return mkExtract(n.a, lo - wb, w);
    break;
  }
  case ITE:
    if (isK(n.b) || isK(n.c))
      return mkIte(n.a, mkExtract(n.b, lo, w), mkExtract(n.c, lo, w));
    break;
  case AND: case OR: case XOR:
    if (isK(n.b) || isK(n.a)) return mk(n.op, w, mkExtract(n.a, lo, w), mkExtract(n.b, lo, w));
    break;
  case ADD: case SUB: case MUL:
    if (lo == 0 && w < n.w) return mk(n.op, w, mkExtract(n.a, 0, w), mkExtract(n.b, 0, w));
    break;
  }
  return intern(EXTRACT, w, a, 0, 0, lo);
}
static u32 mk(u8 op, u8 w, u32 a, u32 b, u32 c, u64 imm) {
  // words that hold a truth value: compute on the truth value
  if ((op == AND || op == OR || op == XOR) && w > 1) {
    auto bit = [](u32 x) -> bool { return N[x].op == ZEXT && N[N[x].a].w == 1; };
    auto kbit = [](u32 x) -> bool { return isK(x) && N[x].imm <= 1; };
    if ((bit(a) && (bit(b) || kbit(b))) || (kbit(a) && bit(b))) {
      u32 x = bit(a) ? N[a].a : K(N[a].imm, 1), y = bit(b) ? N[b].a : K(N[b].imm, 1);
      return mk(ZEXT, w, mk(op, 1, x, y));
    }
  }
  if ((op == FADD || op == FMUL) && a > b) std::swap(a, b);
  // constant folding
  bool ka = isK(a), kb = !b || isK(b);
  if (ka && kb && op != ITE && op != EXTRACT)
    return K(evalOp(op, w, imm, a, b, c), w);
  switch (op) {
  case ADD:
    if (ka) std::swap(a, b), std::swap(ka, kb);
    if (kb && N[b].imm == 0) return a;
    if (kb && N[a].op == ADD && isK(N[a].b)) return mk(ADD, w, N[a].a, K(N[N[a].b].imm + N[b].imm, w));
    break;
  case SUB:
    if (a == b) return K(0, w);
    if (kb) return mk(ADD, w, a, K(0 - N[b].imm, w));
    // (x + k) - x
    if (N[a].op == ADD && N[a].a == b) return N[a].b;
    break;
  case MUL:
    if (ka) std::swap(a, b), std::swap(ka, kb);
    if (kb && N[b].imm == 0) return b;
    if (kb && N[b].imm == 1) return a;
    break;
  case AND:
    if (ka) std::swap(a, b), std::swap(ka, kb);
    if (a == b) return a;
    if (kb && N[b].imm == 0) return b;
    if (kb && N[b].imm == maskw(w)) return a;
    if (w == 1 && (N[a].op == NOT && N[a].a == b)) return K(0, 1);
    if (w == 1 && (N[b].op == NOT && N[b].a == a)) return K(0, 1);
    if (kb && N[a].op == ZEXT && (N[b].imm & maskw(N[N[a].a].w)) == maskw(N[N[a].a].w)) return a;
    if (kb && N[a].op == ZEXT && N[N[a].a].w < w) { // and(zext x, k)
      unsigned wa = N[N[a].a].w;
      return mk(ZEXT, w, mk(AND, wa, N[a].a, K(N[b].imm, wa)));
    }
    // low mask -> zext(extract)
    if (kb && w > 1) {
      u64 k = N[b].imm;
      if (k && (k & (k + 1)) == 0) {
        unsigned lw = __builtin_popcountll(k);
        return mk(ZEXT, w, mkExtract(a, 0, lw));
      }
    }
    break;
  case OR:
    if (ka) std::swap(a, b), std::swap(ka, kb);
    if (a == b) return a;
    if (kb && N[b].imm == 0) return a;
    if (kb && N[b].imm == maskw(w)) return b;
    if (w == 1 && (N[a].op == NOT && N[a].a == b)) return K(1, 1);
    if (w == 1 && (N[b].op == NOT && N[b].a == a)) return K(1, 1);
    break;
  case XOR:
    if (ka) std::swap(a, b), std::swap(ka, kb);
    if (a == b) return K(0, w);
    if (kb && N[b].imm == 0) return a;
    if (kb && N[b].imm == maskw(w)) return mkNot(a);
    break;
  case NOT:
    if (N[a].op == NOT) return N[a].a;
    if (w == 1) {
      if (N[a].op == ULT) return mk(ULE, 1, N[a].b, N[a].a);
      if (N[a].op == ULE) return mk(ULT, 1, N[a].b, N[a].a);
      if (N[a].op == SLT) return mk(SLE, 1, N[a].b, N[a].a);
      if (N[a].op == SLE) return mk(SLT, 1, N[a].b, N[a].a);
    }
    break;
  case SHL: case LSHR: case ASHR:
    if (kb && N[b].imm == 0) return a;
    if (kb && N[b].imm < w) {
      unsigned s = N[b].imm;
      if (op == LSHR) return mk(ZEXT, w, mkExtract(a, s, w - s));
      if (op == ASHR) return mk(SEXT, w, mkExtract(a, s, w - s));
    }
    break;
  case EQ:
    if (ka) std::swap(a, b), std::swap(ka, kb);
    if (a == b) return K(1, 1);
    if (kb) {
      u64 k = N[b].imm;
      Node n = N[a];
      if (n.w == 1) return k ? a : mkNot(a);
      if (n.op == ZEXT) {
        unsigned wa = N[n.a].w;
        if (k > maskw(wa)) return K(0, 1);
        return mk(EQ, 1, n.a, K(k, wa));
      }
      if (n.op == SEXT) {
        unsigned wa = N[n.a].w;
        if (((u64)sx(k & maskw(wa), wa) & maskw(n.w)) != k) return K(0, 1);
        return mk(EQ, 1, n.a, K(k, wa));
      }
      if (n.op == ITE && (isK(n.b) || isK(n.c)))
        return mkIte(n.a, mk(EQ, 1, n.b, b), mk(EQ, 1, n.c, b));
      if (n.op == ADD && isK(n.b)) return mk(EQ, 1, n.a, K(k - N[n.b].imm, n.w));
      if (n.op == XOR && isK(n.b)) return mk(EQ, 1, n.a, K(k ^ N[n.b].imm, n.w));
      if (n.op == SUB && k == 0) return mk(EQ, 1, n.a, n.b);
      if (n.op == XOR && k == 0) return mk(EQ, 1, n.a, n.b);
      if (n.op == CONCAT) {
        unsigned wb = N[n.b].w;
        return mk(AND, 1, mk(EQ, 1, n.a, K(k >> wb, N[n.a].w)), mk(EQ, 1, n.b, K(k, wb)));
      }
      if (n.op == OR && k == 0)
        return mk(AND, 1, mk(EQ, 1, n.a, K(0, n.w)), mk(EQ, 1, n.b, K(0, n.w)));
      if (n.op == NOT) return mk(EQ, 1, n.a, K(~k, n.w));
    } else {
      if (a > b) std::swap(a, b);
      if (N[a].op == ZEXT && N[b].op == ZEXT && N[N[a].a].w == N[N[b].a].w) return mk(EQ, 1, N[a].a, N[b].a);
      if (N[a].op == SEXT && N[b].op == SEXT && N[N[a].a].w == N[N[b].a].w) return mk(EQ, 1, N[a].a, N[b].a);
    }
    break;
  case ULT: case ULE: case SLT: case SLE: {
    if (a == b) return K(op == ULE || op == SLE, 1);
    unsigned wa = N[a].w;
    if (op == ULT && kb && N[b].imm == 0) return K(0, 1);
    if (op == ULE && ka && N[a].imm == 0) return K(1, 1);
    if (op == ULT && kb && N[b].imm == 1) return mk(EQ, 1, a, K(0, wa));
    if (op == ULE && kb && N[b].imm == maskw(wa)) return K(1, 1);
    if (op == ULT && ka && N[a].imm == 0) return mkNot(mk(EQ, 1, b, K(0, wa)));
    if (kb && N[a].op == ITE && (isK(N[a].b) && isK(N[a].c)))
      return mkIte(N[a].a, mk(op, 1, N[a].b, b), mk(op, 1, N[a].c, b));
    if (ka && N[b].op == ITE && (isK(N[b].b) && isK(N[b].c)))
      return mkIte(N[b].a, mk(op, 1, a, N[b].b), mk(op, 1, a, N[b].c));
    break;
  }
  case ITE: return mkIte(a, b, c);
  case EXTRACT: return mkExtract(a, imm, w);
  case ZEXT:
    if (N[a].w == w) return a;
    if (N[a].op == ZEXT) return mk(ZEXT, w, N[a].a);
    break;
  case SEXT:
    if (N[a].w == w) return a;
    if (N[a].op == SEXT) return mk(SEXT, w, N[a].a);
    if (N[a].op == ZEXT) return mk(ZEXT, w, N[a].a);
    break;
  case CONCAT:
    if (isKv(a, 0)) return mk(ZEXT, w, b);
    if (N[a].op == EXTRACT && N[b].op == EXTRACT && N[a].a == N[b].a && N[a].imm == N[b].imm + N[b].w)
      return mkExtract(N[a].a, N[b].imm, w);
    break;
  }
  return intern(op, w, a, b, c, imm);
}

// ------------------------------------------------------------- program side -
extern "C" {
void *__sym_argfn;
u32 __sym_argsh[64];
void *__sym_retfn;
u32 __sym_retsh[16];
u64 __sym_extv[64];
u32 __sym_exts[64];
}

struct Event {
  u32 node;
  u8 taken, kind; // kind: 0 branch 1 concretize 2 assume 3 assert
  u64 site;
  u64 val;
  u64 hash; // prefix hash including this event
};
enum { E_BRANCH = 0, E_CONC, E_ASSUME, E_ASSERT };
static MVec<Event> EV;
struct InVar { const char *name; u32 node; unsigned bits; };
static MVec<InVar> VARS;
static u64 *g_input = nullptr;
static u64 g_ninput = 0;
static sigjmp_buf g_jb;
static int g_fail_kind = 0;
static char g_fail_id[512];
static const char *g_region = nullptr;
static u64 g_hash = 0;
static u64 g_max_events = 200000;
static int g_trace = 0;

[[gnu::unused]] static void fail_path(int kind, const char *id) {
  if (!g_inprog) {
    fprintf(stderr, "[rt] failure outside program: %d %s\n", kind, id);
    _exit(98);
  }
  g_fail_kind = kind;
  snprintf(g_fail_id, sizeof g_fail_id, "%s%s%s", g_region ? g_region : "", g_region ? ":" : "", id);
  g_inprog = 0;
  siglongjmp(g_jb, 1);
}

// implied-condition set
static u8 *g_known = nullptr; // per node: 0 unknown, 1 known true, 2 known false
static u64 g_knowncap = 0;
static u8 &known(u32 n) {
  if (n >= g_knowncap) {
    u64 nc = g_knowncap ? g_knowncap : 65536;
    while (nc <= n) nc *= 2;
    u8 *nk = (u8 *)mmap(nullptr, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g_known) { memcpy(nk, g_known, g_knowncap); munmap(g_known, g_knowncap); }
    g_known = nk;
    g_knowncap = nc;
  }
  return g_known[n];
}
#include "dbm.inc"
static void learn(u32 n, bool t) {
  known(n) = t ? 1 : 2;
  Node nd = N[n];
  if (nd.w != 1) return;
  if (nd.op == EQ || (nd.op >= ULT && nd.op <= SLE)) dlearn(nd, t);
  if (nd.op == NOT) learn(nd.a, !t);
  if (nd.op == AND && t) { learn(nd.a, true); learn(nd.b, true); }
  if (nd.op == OR && !t) { learn(nd.a, false); learn(nd.b, false); }
}
static int implied(u32 n, int depth = 0) { // 0 unknown, 1 true, 2 false
  if (isK(n)) return N[n].imm ? 1 : 2;
  int k = known(n);
  if (k) return k;
  Node nd = N[n];
  if (nd.op == NOT && nd.w == 1) { int r = implied(nd.a, depth); return r ? 3 - r : 0; }
  if (nd.op == EQ || (nd.op >= ULT && nd.op <= SLE)) {
    int r = dimplied(nd);
    if (r) { known(n) = r; return r; }
    if (depth < 4)
      for (int side = 0; side < 2; ++side) {
        u32 o = side ? nd.b : nd.a, y = side ? nd.a : nd.b;
        if (N[o].op != ITE) continue;
        Node it = N[o];
        int c = implied(it.a, depth + 1);
        int r1 = c == 2 ? 0 : implied(side ? mk(nd.op, 1, y, it.b) : mk(nd.op, 1, it.b, y), depth + 1);
        int r2 = c == 1 ? 0 : (c == 0 && !r1) ? 0 : implied(side ? mk(nd.op, 1, y, it.c) : mk(nd.op, 1, it.c, y), depth + 1);
        int res = c == 1 ? r1 : c == 2 ? r2 : (r1 == r2 ? r1 : 0);
        if (res) { known(n) = res; return res; }
        break;
      }
  }
  if (nd.w == 1 && (nd.op == AND || nd.op == OR) && depth < 12) {
    int absorb = nd.op == AND ? 2 : 1;
    int ra = implied(nd.a, depth + 1);
    int rb = ra == absorb ? absorb : implied(nd.b, depth + 1);
    int r = (ra == absorb || rb == absorb) ? absorb : (ra && rb) ? 3 - absorb : 0;
    if (r) { known(n) = r; return r; }
  }
  // negated comparisons are built in canonical form: look the dual up
  if (nd.op == ULT || nd.op == ULE || nd.op == SLT || nd.op == SLE) {
    u8 d = nd.op == ULT ? ULE : nd.op == ULE ? ULT : nd.op == SLT ? SLE : SLT;
    u32 o = intern(d, 1, nd.b, nd.a, 0, 0);
    int k2 = known(o);
    if (k2) return 3 - k2;
  }
  return 0;
}

static void addEvent(u32 node, bool taken, int kind, u64 site, u64 val) {
  Event e;
  memset(&e, 0, sizeof e);
  e.node = node;
  e.taken = taken;
  e.kind = kind;
  e.site = site;
  e.val = val;
  u64 x = (site * 31 + node) * 4 + kind;
  g_hash = (g_hash ^ (x * 2 + taken)) * 0x9E3779B97F4A7C15ull;
  g_hash ^= g_hash >> 29;
  if (kind == E_CONC) g_hash = (g_hash ^ val) * 0xff51afd7ed558ccdull;
  e.hash = g_hash;
  EV.push(e);
  if (EV.n > g_max_events) fail_path(F_INT, "event limit");
  if (g_trace) fprintf(stderr, "[ev %lu] kind=%d site=%lx node=%u taken=%d val=%lu\n", (unsigned long)EV.n - 1, kind, (unsigned long)site, node, taken, (unsigned long)val);
}
static void fatal(const char *m) {
  if (getenv("SYM_ABORT")) abort();
  fail_path(F_ENGINE, m);
}

static inline u32 opnd(u32 sh, u64 v, unsigned w) {
  v &= maskw(w);
  if (!sh) return K(v, w);
  if (N[sh].w != w) { fatal("operand width mismatch"); }
  if (N[sh].val != v) {
    if (N[sh].fp) return K(v, w);
    fatal("operand value mismatch");
  }
  if (N[sh].conc) return K(v, w);
  return sh;
}
static inline u32 ret(u32 n) { return isK(n) || N[n].conc ? 0 : n; }

extern "C" {
void __sym_branch(u32 sh, u32 taken, u64 site) {
  if (!g_inprog) return;
  if (N[sh].val != taken) fatal("branch value mismatch");
  if (isK(sh)) return;
  if (implied(sh)) return;
  learn(sh, taken);
  addEvent(sh, taken, E_BRANCH, site, 0);
}
void __sym_concretize(u32 sh, u64 v) {
  if (!sh || !g_inprog) return;
  if (isK(sh) || N[sh].conc) return;
  v &= maskw(N[sh].w);
  if (N[sh].val != v) fatal("concretize value mismatch");
  u32 e = mk(EQ, 1, sh, K(v, N[sh].w));
  if (!isK(e) && !implied(e)) {
    addEvent(sh, 1, E_CONC, 0, v);
    learn(e, 1);
  }
  N[sh].conc = 1;
}

// shadow memory
struct Ent { u32 id; u8 idx, n, byte, pad; };
static Ent **L1[1 << 17];
static inline Ent *page(u64 a, bool create) {
  Ent **&l2 = L1[(a >> 30) & 0x1ffff];
  if (!l2) {
    if (!create) return nullptr;
    l2 = (Ent **)mmap(nullptr, (1 << 18) * sizeof(Ent *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  Ent *&pg = l2[(a >> 12) & 0x3ffff];
  if (!pg) {
    if (!create) return nullptr;
    pg = (Ent *)mmap(nullptr, 4096 * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  return pg;
}
static inline Ent *ent(u64 a, bool create) {
  Ent *p = page(a, create);
  return p ? p + (a & 4095) : nullptr;
}
static inline void memcheck(const void *p, u64 n) {
  u64 off = (u64)p - (u64)ARENA;
  if (off < ARENA_SZ && n && g_inprog) {
    if (VALID[off] != 1 || VALID[off + n - 1] != 1)
      fail_path(F_MEM, VALID[off] == 2 || VALID[off + n - 1] == 2
                           ? "heap use after free"
                           : "heap access out of bounds");
  } else if ((u64)p < 4096 && n && g_inprog)
    fail_path(F_MEM, "null pointer access");
}
static u32 byteExpr(const Ent &e) { // 8-bit expression held by an entry
  return mkExtract(e.id, 8 * e.idx, 8);
}
u32 __sym_load(void *p, u32 psh, u32 n, u32 w) {
  if (psh) __sym_concretize(psh, (u64)p);
  memcheck(p, n);
  u64 a = (u64)p;
  Ent *e = ent(a, false);
  bool any = false;
  if (e && (a & 4095) + n <= 4096) {
    for (u32 i = 0; i < n; ++i) if (e[i].id) { any = true; break; }
  } else {
    for (u32 i = 0; i < n && !any; ++i) { Ent *x = ent(a + i, false); if (x && x->id) any = true; }
  }
  if (!any) return 0;
  Ent es[8];
  const u8 *mem = (const u8 *)p;
  any = false;
  for (u32 i = 0; i < n; ++i) {
    Ent *x = ent(a + i, false);
    if (x && x->id && x->byte == mem[i]) { es[i] = *x; any = true; }
    else { es[i].id = 0; if (x) x->id = 0; }
  }
  if (!any) return 0;
  // whole value?
  u32 id = es[0].id;
  bool whole = id && es[0].idx == 0 && N[id].w >= 8 * n;
  for (u32 i = 0; whole && i < n; ++i) whole = es[i].id == id && es[i].idx == i;
  u32 r;
  if (whole) r = mkExtract(id, 0, 8 * n);
  else {
    r = 0;
    for (u32 i = 0; i < n; ++i) {
      u32 b = es[i].id ? byteExpr(es[i]) : K(mem[i], 8);
      r = i ? mk(CONCAT, 8 * (i + 1), b, r) : b;
    }
  }
  if (w < 8 * n) r = mkExtract(r, 0, w);
  return ret(r);
}
static void storeEnts(u64 a, u32 n, u32 w, u32 vsh) {
  if (!vsh) {
    for (u32 i = 0; i < n; ++i) { Ent *x = ent(a + i, false); if (x) x->id = 0; }
    return;
  }
  u32 v = vsh;
  if (w < 8 * n) v = mk(ZEXT, 8 * n, v);
  u64 val = N[v].val;
  for (u32 i = 0; i < n; ++i) {
    Ent *x = ent(a + i, true);
    x->id = v; x->idx = i; x->n = n; x->byte = (u8)(val >> (8 * i));
  }
}
void __sym_store(void *p, u32 psh, u32 n, u32 w, u32 vsh, u64 v) {
  if (psh) __sym_concretize(psh, (u64)p);
  memcheck(p, n);
  if (vsh) {
    if (N[vsh].w != w) fatal("store width mismatch");
    if (N[vsh].val != (v & maskw(w)) ) { if (N[vsh].fp) vsh = 0; else fatal("store value mismatch"); }
    else if (isK(vsh) || N[vsh].conc) vsh = 0;
  }
  storeEnts((u64)p, n, w, vsh);
}
void __sym_store_post(void *p, u32 n, u32 w, u32 vsh) {
  if (vsh && (isK(vsh) || N[vsh].conc)) vsh = 0;
  storeEnts((u64)p, n, w, vsh);
}
void __sym_clear(void *p, u32 psh, u64 n) {
  if (psh) __sym_concretize(psh, (u64)p);
  memcheck(p, n);
  for (u64 i = 0; i < n; ++i) { Ent *x = ent((u64)p + i, false); if (x) x->id = 0; }
}
void __sym_concretize_mem(void *p, u32 psh, u64 n) {
  if (psh) __sym_concretize(psh, (u64)p);
  const u8 *mem = (const u8 *)p;
  for (u64 i = 0; i < n; ++i) {
    Ent *x = ent((u64)p + i, false);
    if (!x) { i |= 4095 - (((u64)p + i) & 4095) > n ? 0 : 0; continue; }
    if (x->id && x->byte == mem[i]) {
      u32 id = x->id;
      __sym_concretize(id, N[id].val);
      x->id = 0;
    }
  }
}
void __sym_shadow_copy(void *d, const void *s, u64 n) {
  u64 da = (u64)d, sa = (u64)s;
  if (da == sa || !n) return;
  auto cp = [&](u64 i) {
    Ent *x = ent(sa + i, false);
    if (x && x->id) *ent(da + i, true) = *x;
    else { Ent *y = ent(da + i, false); if (y) y->id = 0; }
  };
  // skip quickly when neither side has shadow pages
  bool any = false;
  for (u64 o = 0; o < n + 4096; o += 4096) {
    u64 q = std::min(o, n - 1);
    if (page(sa + q, false) || page(da + q, false)) { any = true; break; }
  }
  if (!any) return;
  if (da < sa) for (u64 i = 0; i < n; ++i) cp(i);
  else for (u64 i = n; i-- > 0;) cp(i);
}
void __sym_memcpy(void *d, u32 ds, void *s, u32 ss, u64 n, u32 ns) {
  if (ds) __sym_concretize(ds, (u64)d);
  if (ss) __sym_concretize(ss, (u64)s);
  if (ns) __sym_concretize(ns, n);
  if (!n) return;
  memcheck(d, n);
  memcheck(s, n);
  __sym_shadow_copy(d, s, n);
}
void __sym_memset(void *d, u32 ds, u64 v, u32 vs, u64 n, u32 ns) {
  if (ds) __sym_concretize(ds, (u64)d);
  if (ns) __sym_concretize(ns, n);
  if (!n) return;
  memcheck(d, n);
  if (vs && N[vs].w > 8) vs = mkExtract(vs, 0, 8);
  if (vs) vs = ret(vs);
  bool any = vs != 0;
  for (u64 o = 0; o < n + 4096 && !any; o += 4096) if (page((u64)d + std::min(o, n - 1), false)) any = true;
  if (!any) return;
  for (u64 i = 0; i < n; ++i) storeEnts((u64)d + i, 1, 8, vs);
}
static u32 byteAt(const u8 *p) {
  Ent *x = ent((u64)p, false);
  if (x && x->id && x->byte == *p) {
    u32 b = byteExpr(*x);
    return b;
  }
  return K(*p, 8);
}
u32 __sym_memcmp(u32 kind, u8 *a, u32 as, u8 *b, u32 bs, u64 n, u32 ns, u32 res) {
  if (as) __sym_concretize(as, (u64)a);
  if (bs) __sym_concretize(bs, (u64)b);
  if (ns) __sym_concretize(ns, n);
  u64 len = n;
  if (kind == 2) {
    // C strings: the terminator positions are enumerated
    u64 la = 0;
    for (;; ++la) {
      if (la >= n) break;
      u32 x = byteAt(a + la), y = byteAt(b + la);
      for (u32 q : {x, y}) if (!isK(q)) {
        u32 z = mk(EQ, 1, q, K(0, 8));
        if (!isK(z)) __sym_branch(z, N[z].val, 0x5151);
      }
      if (!a[la] || !b[la]) { ++la; break; }
    }
    len = la;
  } else if (n) { memcheck(a, n); memcheck(b, n); }
  bool sym = false;
  for (u64 i = 0; i < len; ++i) if (!isK(byteAt(a + i)) || !isK(byteAt(b + i))) { sym = true; break; }
  if (!sym) return 0;
  // result: first differing byte decides; the magnitude returned by the real
  // function is not specified, so beyond equality only the sign is modelled.
  u32 eq = K(1, 1);
  for (u64 i = 0; i < len; ++i) eq = mk(AND, 1, eq, mk(EQ, 1, byteAt(a + i), byteAt(b + i)));
  bool isEq = N[eq].val;
  if (kind == 1) { // only zero / nonzero is meaningful
    if (isK(eq)) return 0;
    if (!implied(eq)) { learn(eq, isEq); addEvent(eq, isEq, E_BRANCH, 0xbc, 0); }
    return 0;
  }
  if (!isK(eq) && !implied(eq)) { learn(eq, isEq); addEvent(eq, isEq, E_BRANCH, 0xbd, 0); }
  if (isEq) return 0;
  u32 lt = K(0, 1);
  for (u64 i = len; i-- > 0;) {
    u32 x = byteAt(a + i), y = byteAt(b + i);
    lt = mkIte(mk(EQ, 1, x, y), lt, mk(ULT, 1, x, y));
  }
  if (!isK(lt)) { if (N[lt].val != ((int)res < 0)) fatal("memcmp model"); __sym_branch(lt, N[lt].val, 0xbe); }
  return 0;
}
void __sym_strlen_pre(u8 *p, u32 ps) {
  if (ps) __sym_concretize(ps, (u64)p);
  for (;; ++p) {
    u32 x = byteAt(p);
    if (!isK(x)) { u32 z = mk(EQ, 1, x, K(0, 8)); if (!isK(z)) __sym_branch(z, N[z].val, 0x5152); }
    if (!*p) return;
  }
}
void __sym_memchr_pre(u8 *p, u32 ps, u64 v, u32 vs, u64 n, u32 ns) {
  if (ps) __sym_concretize(ps, (u64)p);
  if (ns) __sym_concretize(ns, n);
  u32 ve = vs ? mkExtract(vs, 0, 8) : K(v, 8);
  for (u64 i = 0; i < n; ++i) {
    u32 z = mk(EQ, 1, byteAt(p + i), ve);
    if (!isK(z)) __sym_branch(z, N[z].val, 0x5153);
    if (p[i] == (u8)v) return;
  }
}

struct ByVal { u64 n; Ent *e; };
static MVec<Ent> BVbuf;
static u64 BVoff[64], BVn[64];
void __sym_byval_save(u32 i, void *p, u64 n) {
  if (i >= 64) return;
  if (i == 0 || BVbuf.n > (1 << 20)) BVbuf.n = 0;
  BVoff[i] = BVbuf.n; BVn[i] = n;
  for (u64 k = 0; k < n; ++k) {
    Ent *x = ent((u64)p + k, false);
    Ent z; memset(&z, 0, sizeof z);
    BVbuf.push(x ? *x : z);
  }
}
void __sym_byval_restore(u32 m, u32 i, void *p, u64 n) {
  for (u64 k = 0; k < n; ++k) {
    if (m && i < 64 && k < BVn[i] && BVbuf[BVoff[i] + k].id) *ent((u64)p + k, true) = BVbuf[BVoff[i] + k];
    else { Ent *x = ent((u64)p + k, false); if (x) x->id = 0; }
  }
}

u32 __sym_bin(u32 opc, u32 w, u32 as, u64 av, u32 bs, u64 bv, u64 site) {
  u32 a = opnd(as, av, w), b = opnd(bs, bv, w);
  static const u8 map[64] = {0};
  (void)map;
  u8 op;
  // LLVM 20 opcode numbers (checked by the pass build, see opcodes.inc)
  switch (opc) {
#include "opcodes.inc"
  default: __sym_concretize(as, av); __sym_concretize(bs, bv); return 0;
  }
  if ((op == UDIV || op == SDIV || op == UREM || op == SREM) && !isK(b)) {
    u32 z = mk(EQ, 1, b, K(0, w));
    if (!isK(z)) __sym_branch(z, N[z].val, site ^ 0xd1);
  }
  return ret(mk(op, w, a, b));
}
u32 __sym_cmp(u32 pred, u32 w, u32 as, u64 av, u32 bs, u64 bv) {
  u32 a = opnd(as, av, w), b = opnd(bs, bv, w);
  u32 r = 0;
  switch (pred) {
  case 32: r = mk(EQ, 1, a, b); break;
  case 33: r = mkNot(mk(EQ, 1, a, b)); break;
  case 34: r = mk(ULT, 1, b, a); break; // ugt
  case 35: r = mk(ULE, 1, b, a); break;
  case 36: r = mk(ULT, 1, a, b); break;
  case 37: r = mk(ULE, 1, a, b); break;
  case 38: r = mk(SLT, 1, b, a); break;
  case 39: r = mk(SLE, 1, b, a); break;
  case 40: r = mk(SLT, 1, a, b); break;
  case 41: r = mk(SLE, 1, a, b); break;
  default: {
    // fcmp: bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
    if (pred > 15) return 0;
    r = K(0, 1);
    if (pred & 1) r = mk(OR, 1, r, mk(FEQ, 1, a, b));
    if (pred & 2) r = mk(OR, 1, r, mk(FLT, 1, b, a));
    if (pred & 4) r = mk(OR, 1, r, mk(FLT, 1, a, b));
    if (pred & 8) r = mk(OR, 1, r, mk(FUNO, 1, a, b));
  }
  }
  return ret(r);
}
u32 __sym_cast(u32 opc, u32 wa, u32 w, u32 as, u64 av) {
  u32 a = opnd(as, av, wa);
  if (isK(a)) return 0;
  switch (opc) {
#include "castcodes.inc"
  }
  __sym_concretize(as, av);
  return 0;
}
u32 __sym_gep(u32 bs, u64 bv, u32 is, u32 iw, u64 iv, u64 scale) {
  u32 b = opnd(bs, bv, 64);
  u32 i = opnd(is, iv, iw);
  if (iw < 64) i = mk(SEXT, 64, i);
  else if (iw > 64) return 0;
  return ret(mk(ADD, 64, b, mk(MUL, 64, i, K(scale, 64))));
}
u32 __sym_select(u32 w, u32 cs, u32 cv, u32 as, u64 av, u32 bs, u64 bv) {
  if (!cs) return cv ? as : bs;
  if (implied(cs)) return cv ? as : bs;
  u32 a = opnd(as, av, w), b = opnd(bs, bv, w);
  return ret(mkIte(opnd(cs, cv, 1), a, b));
}
u32 __sym_minmax(u32 op, u32 w, u32 as, u64 av, u32 bs, u64 bv) {
  u32 a = opnd(as, av, w), b = opnd(bs, bv, w);
  u32 lt = mk(op < 2 ? ULT : SLT, 1, a, b);
  if (int r = isK(lt) ? 0 : implied(lt)) return ret(((op & 1) == 1) == (r == 1) ? b : a);
  return ret((op & 1) ? mkIte(lt, b, a) : mkIte(lt, a, b));
}
u32 __sym_unintr(u32 op, u32 w, u32 as, u64 av) {
  u32 a = opnd(as, av, w);
  switch (op) {
  case 0: return ret(mkIte(mk(SLT, 1, a, K(0, w)), mk(NEG, w, a), a));
  case 4: {
    u32 r = 0;
    for (unsigned i = 0; i < w / 8; ++i) {
      u32 b = mkExtract(a, 8 * i, 8);
      r = i ? mk(CONCAT, 8 * (i + 1), r, b) : b;
    }
    return ret(r);
  }
  case 5: return ret(mk(AND, w, a, K(maskw(w) >> 1, w)));
  case 6: return ret(mk(FNEGATE, w, a));
  }
  __sym_concretize(as, av);
  return 0;
}
u32 __sym_fsh(u32 right, u32 w, u32 as, u64 av, u32 bs, u64 bv, u64 s) {
  u32 a = opnd(as, av, w), b = opnd(bs, bv, w);
  s %= w;
  if (s == 0) return ret(right ? b : a);
  unsigned l = right ? w - s : s;
  return ret(mk(OR, w, mk(SHL, w, a, K(l, w)), mk(LSHR, w, b, K(w - l, w))));
}
u32 __sym_ovf(u32 op, u32 part, u32 w, u32 as, u64 av, u32 bs, u64 bv) {
  u32 a = opnd(as, av, w), b = opnd(bs, bv, w);
  u8 base = op < 2 ? ADD : op < 4 ? SUB : MUL;
  u32 r = mk(base, w, a, b);
  if (!part) return ret(r);
  switch (op) {
  case 0: return ret(mk(ULT, 1, r, a));
  case 2: return ret(mk(ULT, 1, a, b));
  case 1: return ret(mk(AND, 1, mk(EQ, 1, mk(SLT, 1, a, K(0, w)), mk(SLT, 1, b, K(0, w))),
                        mkNot(mk(EQ, 1, mk(SLT, 1, a, K(0, w)), mk(SLT, 1, r, K(0, w))))));
  case 3: return ret(mk(AND, 1, mkNot(mk(EQ, 1, mk(SLT, 1, a, K(0, w)), mk(SLT, 1, b, K(0, w)))),
                        mkNot(mk(EQ, 1, mk(SLT, 1, a, K(0, w)), mk(SLT, 1, r, K(0, w))))));
  case 4: return ret(mk(UMULO, 1, a, b));
  case 5: return ret(mk(SMULO, 1, a, b));
  }
  return 0;
}
u32 __sym_sat(u32 op, u32 w, u32 as, u64 av, u32 bs, u64 bv) {
  u32 a = opnd(as, av, w), b = opnd(bs, bv, w);
  switch (op) {
  case 0: { u32 r = mk(ADD, w, a, b); return ret(mkIte(mk(ULT, 1, r, a), K(~0ull, w), r)); }
  case 1: return ret(mkIte(mk(ULT, 1, a, b), K(0, w), mk(SUB, w, a, b)));
  }
  __sym_concretize(as, av);
  __sym_concretize(bs, bv);
  return 0;
}
u32 __sym_3cmp(u32 sgn, u32 w, u32 wa, u32 as, u64 av, u32 bs, u64 bv) {
  u32 a = opnd(as, av, wa), b = opnd(bs, bv, wa);
  u8 lt = sgn ? SLT : ULT;
  return ret(mkIte(mk(lt, 1, a, b), K(~0ull, w), mkIte(mk(EQ, 1, a, b), K(0, w), K(1, w))));
}

// instrumented functions
static std::unordered_set<void *> *g_fns;
void __sym_register(void **t, u32 n) {
  if (!g_fns) g_fns = new std::unordered_set<void *>();
  for (u32 i = 0; i < n; ++i) g_fns->insert(t[i]);
}
u32 __sym_is_instr(void *f) { return g_fns && g_fns->count(f); }

struct Cov { const char *name, *file; u32 line, seen; };
static MVec<Cov *> COVL;
void __sym_enter(Cov *c) {
  if (!c->seen) { c->seen = 1; COVL.push(c); }
}
} // extern "C"

// names of uninstrumented functions that do not read program data
static const char *const kNoRead[] = {
    "malloc", "free", "calloc", "_Znwm", "_ZdlPv", "_ZdlPvm", "_Znam", "_ZdaPv", "_ZdaPvm",
    "_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
    "_ZnwmRKSt9nothrow_t", "_ZdlPvRKSt9nothrow_t",
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
    "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
    "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
    "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
    "_ZNSt8__detail15_List_node_base7_M_hookEPS0_", "_ZNSt8__detail15_List_node_base9_M_unhookEv",
    "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_",
    "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_atexit", "abort", "exit", "_exit",
    "_ZN4llvm15allocate_bufferEmm", "_ZN4llvm17deallocate_bufferEPvmm", "fflush",
    "_ZN4llvm24report_bad_alloc_error", nullptr};
static std::unordered_set<std::string> *g_noread;
// Families whose memory operands are uniqued MLIR objects (concrete by
// construction: every value that enters one passes through a scalar operand).
static const char *const kNoReadPrefix[] = {
    "_ZNK4mlir9AffineMap", "_ZN4mlir9AffineMap", "_ZNK4mlir10AffineExpr", "_ZN4mlir10AffineExpr",
    "_ZNK4mlir13AffineDimExpr", "_ZNK4mlir18AffineConstantExpr", "_ZNK4mlir18AffineBinaryOpExpr",
    "_ZN4mlir13AffineDimExprC", "_ZN4mlir18AffineConstantExprC", "_ZN4mlir18AffineBinaryOpExprC",
    "_ZN4mlir16simplifyAffine", "_ZN4mlir17simplifyAffineMap", "_ZN4mlir18simplifyAffineExpr",
    "_ZN4mlir16getAffineDimExpr", "_ZN4mlir21getAffineConstantExpr", "_ZN4mlir21getAffineBinaryOpExpr",
    "_ZN4mlir18compressUnusedDims", nullptr};
static bool noRead(const char *name) {
  if (!name) return false;
  if (g_noread->count(name)) return true;
  // Diagnostics: what they print is not looked at.
  if (!strncmp(name, "_ZN5clang", 9) || !strncmp(name, "_ZNK5clang", 10)) return true;
  if (strncmp(name, "_ZN4mlir", 8) && strncmp(name, "_ZNK4mlir", 9)) return false;
  for (auto p = kNoReadPrefix; *p; ++p)
    if (!strncmp(name, *p, strlen(*p))) return true;
  return false;
}
static std::map<std::string, u64> *g_extlog; // symbolic data reached (child)

static MVec<const char *> EXTSEEN;
static void deep(u64 p, int depth, bool &any);
static void scan(u64 p, u64 n, int depth, bool &any) {
  for (u64 i = 0; i < n; ++i) {
    Ent *x = ent(p + i, false);
    if (x && x->id && x->byte == *(u8 *)(p + i)) {
      u32 id = x->id;
      if (!isK(id) && !N[id].conc) { any = true; __sym_concretize(id, N[id].val); }
      x->id = 0;
    }
  }
  if (depth > 0)
    for (u64 i = (8 - (p & 7)) & 7; i + 8 <= n; i += 8) {
      u64 q = *(u64 *)(p + i);
      if (in_arena((void *)q)) deep(q, depth - 1, any);
    }
}
static u64 g_stack_lo, g_stack_hi;
extern "C" char __data_start, _end;
static void deep(u64 p, int depth, bool &any) {
  if (in_arena((void *)p)) {
    u64 off = p - (u64)ARENA;
    if (VALID[off] != 1) return;
    u64 n = 0;
    while (n < 512 && VALID[off + n] == 1) ++n;
    scan(p, n, depth, any);
  } else if (p >= g_stack_lo && p < g_stack_hi) {
    u64 n = std::min<u64>(96, g_stack_hi - p);
    scan(p, n, depth, any);
  } else if (p >= (u64)&__data_start && p < (u64)&_end) {
    scan(p, std::min<u64>(256, (u64)&_end - p), depth, any);
  }
}
extern "C" void __sym_ext_call(const char *name, u32 n, u64 ptrmask) {
  if (!g_inprog || VARS.n == 0) return;
  if (name && !strncmp(name, "__sym", 5)) return;
  bool any = false;
  for (u32 i = 0; i < n; ++i)
    if (__sym_exts[i]) { any = true; __sym_concretize(__sym_exts[i], __sym_extv[i]); }
  bool nr = noRead(name);
  // The one pointer these constructors write must not inherit what the stack
  // slot held before.
  if (nr && n && !strncmp(name, "_ZN4mlir", 8) && strstr(name, "ExprC1E"))
    for (u64 i = 0; i < 8; ++i)
      if (Ent *x = ent(__sym_extv[0] + i, false)) x->id = 0;
  if (nr && n && strstr(name, "FileManager10getFileRef"))
    for (u64 i = 0; i < 16; ++i)
      if (Ent *x = ent(__sym_extv[0] + i, false)) x->id = 0;
  if (!nr)
    for (u32 i = 0; i < n; ++i)
      if (ptrmask >> i & 1) deep(__sym_extv[i], 2, any);
  if (any) {
    static const char *ind = "(indirect)";
    const char *nm = name ? name : ind;
    for (u64 i = 0; i < EXTSEEN.n; ++i) if (EXTSEEN[i] == nm) return;
    EXTSEEN.push(nm);
  }
}

// ------------------------------------------------------------ harness hooks -
struct HReg { const char *name; void (*fn)(); void (*setup)(); };
static MVec<HReg> HS;
static MVec<const char *> REACHED;
extern "C" {
void __sym_h_register(const char *n, void (*f)(), void (*s)()) { HS.push({n, f, s}); }
u64 __sym_h_input(const char *name, unsigned bits) {
  u64 idx = VARS.n;
  u64 v = (idx < g_ninput ? g_input[idx] : 0) & maskw(bits);
  u32 n = intern(VAR, bits, 0, 0, 0, idx);
  N[n].val = v;
  VARS.push({name, n, bits});
  __sym_retsh[0] = bits < 64 ? mk(ZEXT, 64, n) : n;
  return v;
}
u64 __sym_h_pin(u64 v) {
  u32 sh = __sym_argsh[0];
  __sym_concretize(sh, v);
  __sym_retsh[0] = 0;
  return v;
}
void __sym_h_assume(int c) {
  u32 sh = __sym_argsh[0];
  if (sh) {
    u32 b = mkNot(mk(EQ, 1, sh, K(0, 32)));
    if (!isK(b) && !implied(b)) {
      learn(b, c != 0);
      addEvent(b, c != 0, E_ASSUME, 0xA5, 0);
    }
  }
  if (!c) fail_path(F_ASSUME, "assume");
}
void __sym_h_assert(int c, const char *id) {
  u32 sh = __sym_argsh[0];
  if (sh) {
    u32 b = mkNot(mk(EQ, 1, sh, K(0, 32)));
    if (!isK(b) && !implied(b)) {
      learn(b, c != 0);
      addEvent(b, c != 0, E_ASSERT, 0xA6, 0);
    }
  }
  if (!c) fail_path(F_ASSERT, id);
}
void __sym_h_fail(const char *id) { fail_path(F_ASSERT, id); }
void __sym_h_reach(const char *l) {
  for (u64 i = 0; i < REACHED.n; ++i) if (REACHED[i] == l) return;
  REACHED.push(l);
}
void __sym_h_observe(const char *n, u64 v) { (void)n; (void)v; }
int __sym_h_quiet(void) { return 1; }
void __sym_h_region(const char *r) { g_region = r; }
}

// ------------------------------------------------------------ solver side ---
struct Shared {
  volatile unsigned long intpaths;
  volatile u64 sat, unsat, unknown, aq, bq, cq, solver_us, events, nodes, maxq_us, exec_us;
};
static Shared *g_sh;
static u64 now_us() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
}
static Z3_context Z;
static std::vector<Z3_ast> ZM, ZB; // bv form, bool form
static Z3_sort fpS(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(Z) : Z3_mk_fpa_sort_32(Z); }
static Z3_ast zbv(u32 n);
static Z3_ast zbool(u32 n);
static Z3_ast zfp(u32 n) { return Z3_mk_fpa_to_fp_bv(Z, zbv(n), fpS(N[n].w)); }
static Z3_ast b2bv(Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(Z, 1);
  return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, s), Z3_mk_unsigned_int64(Z, 0, s));
}
static Z3_ast zbv(u32 n) {
  if (ZM[n]) return ZM[n];
  Node &d = N[n];
  Z3_ast r = nullptr;
  unsigned w = d.w;
  if (w == 1 && d.op != VAR && d.op != CONST && d.op != EXTRACT) {
    r = b2bv(zbool(n));
  } else
    switch (d.op) {
    case CONST: r = Z3_mk_unsigned_int64(Z, d.imm, Z3_mk_bv_sort(Z, w)); break;
    case VAR: {
      char nm[32];
      snprintf(nm, sizeof nm, "v%lu", (unsigned long)d.imm);
      r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, w));
      break;
    }
    case ADD: r = Z3_mk_bvadd(Z, zbv(d.a), zbv(d.b)); break;
    case SUB: r = Z3_mk_bvsub(Z, zbv(d.a), zbv(d.b)); break;
    case MUL: r = Z3_mk_bvmul(Z, zbv(d.a), zbv(d.b)); break;
    case UDIV: r = Z3_mk_bvudiv(Z, zbv(d.a), zbv(d.b)); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, zbv(d.a), zbv(d.b)); break;
    case UREM: r = Z3_mk_bvurem(Z, zbv(d.a), zbv(d.b)); break;
    case SREM: r = Z3_mk_bvsrem(Z, zbv(d.a), zbv(d.b)); break;
    case SHL: r = Z3_mk_bvshl(Z, zbv(d.a), zbv(d.b)); break;
    case LSHR: r = Z3_mk_bvlshr(Z, zbv(d.a), zbv(d.b)); break;
    case ASHR: r = Z3_mk_bvashr(Z, zbv(d.a), zbv(d.b)); break;
    case AND: r = Z3_mk_bvand(Z, zbv(d.a), zbv(d.b)); break;
    case OR: r = Z3_mk_bvor(Z, zbv(d.a), zbv(d.b)); break;
    case XOR: r = Z3_mk_bvxor(Z, zbv(d.a), zbv(d.b)); break;
    case NOT: r = Z3_mk_bvnot(Z, zbv(d.a)); break;
    case NEG: r = Z3_mk_bvneg(Z, zbv(d.a)); break;
    case ITE: r = Z3_mk_ite(Z, zbool(d.a), zbv(d.b), zbv(d.c)); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, w - N[d.a].w, zbv(d.a)); break;
    case SEXT: r = Z3_mk_sign_ext(Z, w - N[d.a].w, zbv(d.a)); break;
    case EXTRACT: r = Z3_mk_extract(Z, d.imm + w - 1, d.imm, zbv(d.a)); break;
    case CONCAT: r = Z3_mk_concat(Z, zbv(d.a), zbv(d.b)); break;
    case FADD: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, Z3_mk_fpa_rne(Z), zfp(d.a), zfp(d.b))); break;
    case FSUB: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, Z3_mk_fpa_rne(Z), zfp(d.a), zfp(d.b))); break;
    case FMUL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, Z3_mk_fpa_rne(Z), zfp(d.a), zfp(d.b))); break;
    case FDIV: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, Z3_mk_fpa_rne(Z), zfp(d.a), zfp(d.b))); break;
    case SITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), zbv(d.a), fpS(w))); break;
    case UITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), zbv(d.a), fpS(w))); break;
    case FPTOSI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), zfp(d.a), w); break;
    case FPTOUI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), zfp(d.a), w); break;
    case FPCVT: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), zfp(d.a), fpS(w))); break;
    case FNEGATE: r = Z3_mk_bvxor(Z, zbv(d.a), Z3_mk_unsigned_int64(Z, 1ull << (w - 1), Z3_mk_bv_sort(Z, w))); break;
    }
  Z3_inc_ref(Z, r);
  ZM[n] = r;
  return r;
}
static Z3_ast zbool(u32 n);
#include "narrow.inc"
#include "intenc.inc"
static bool g_intmode = false, g_noint = false;
static Z3_ast zbool(u32 n) {
  if (ZB[n]) return ZB[n];
  Node &d = N[n];
  Z3_ast r = nullptr;
  Z3_ast t[2];
  switch (d.op) {
  case CONST: r = d.imm ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case VAR:
  case EXTRACT: r = Z3_mk_eq(Z, zbv(n), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))); break;
  case EQ: r = N[d.a].w == 1 ? Z3_mk_eq(Z, zbool(d.a), zbool(d.b)) : zcmp(EQ, d.a, d.b); break;
  case ULT: case ULE: case SLT: case SLE: r = zcmp(d.op, d.a, d.b); break;
  case AND: t[0] = zbool(d.a); t[1] = zbool(d.b); r = Z3_mk_and(Z, 2, t); break;
  case OR: t[0] = zbool(d.a); t[1] = zbool(d.b); r = Z3_mk_or(Z, 2, t); break;
  case ADD: case SUB: case XOR: r = Z3_mk_xor(Z, zbool(d.a), zbool(d.b)); break;
  case MUL: t[0] = zbool(d.a); t[1] = zbool(d.b); r = Z3_mk_and(Z, 2, t); break;
  case NOT: r = Z3_mk_not(Z, zbool(d.a)); break;
  case NEG: r = zbool(d.a); break;
  case ITE: r = Z3_mk_ite(Z, zbool(d.a), zbool(d.b), zbool(d.c)); break;
  case UMULO: r = Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, zbv(d.a), zbv(d.b), false)); break;
  case SMULO:
    t[0] = Z3_mk_bvmul_no_overflow(Z, zbv(d.a), zbv(d.b), true);
    t[1] = Z3_mk_bvmul_no_underflow(Z, zbv(d.a), zbv(d.b));
    r = Z3_mk_not(Z, Z3_mk_and(Z, 2, t));
    break;
  case FLT: r = Z3_mk_fpa_lt(Z, zfp(d.a), zfp(d.b)); break;
  case FLE: r = Z3_mk_fpa_leq(Z, zfp(d.a), zfp(d.b)); break;
  case FEQ: r = Z3_mk_fpa_eq(Z, zfp(d.a), zfp(d.b)); break;
  case FUNO: t[0] = Z3_mk_fpa_is_nan(Z, zfp(d.a)); t[1] = Z3_mk_fpa_is_nan(Z, zfp(d.b)); r = Z3_mk_or(Z, 2, t); break;
  default: {
    // remaining 1-bit operations
    fprintf(stderr, "[rt] zbool op %d\n", d.op);
    _exit(97);
  }
  }
  Z3_inc_ref(Z, r);
  ZB[n] = r;
  return r;
}
static void z3err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "[rt] z3 error %s\n", Z3_get_error_msg(c, e));
  _exit(96);
}

struct Item {
  std::vector<u64> in;
  u64 depth = 0, hash = 0;
  std::vector<u64> excl;
  int flipkind = 0;
};
static void put(std::string &s, u64 v) { s.append((char *)&v, 8); }
static void putitem(std::string &s, const Item &it) {
  put(s, it.in.size());
  for (u64 v : it.in) put(s, v);
  put(s, it.depth);
  put(s, it.hash);
  put(s, it.excl.size());
  for (u64 v : it.excl) put(s, v);
}
static u64 g_qtimeout_ms = 20000;

static void collectModel(Z3_model m, std::vector<u64> &out) {
  out.clear();
  for (u64 i = 0; i < VARS.n; ++i) {
    u64 v = N[VARS[i].node].val;
    Z3_ast va = g_intmode ? ZI[VARS[i].node] : ZM[VARS[i].node];
    if (va) {
      Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, va));
      Z3_ast val = Z3_model_get_const_interp(Z, m, d);
      if (val) {
        uint64_t u;
        if (Z3_get_numeral_uint64(Z, val, &u)) v = u;
      }
    }
    out.push_back(v);
  }
}
static Z3_lbool query(Z3_solver s, int kind, std::vector<u64> *model) {
  u64 t0 = now_us();
  Z3_lbool r = Z3_solver_check(Z, s);
  if (r == Z3_L_UNDEF) {
    // second opinion: one-shot bit-blasting
    Z3_solver s2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, g_intmode ? "QF_LIA" : "QF_BV"));
    Z3_solver_inc_ref(Z, s2);
    Z3_ast_vector v = Z3_solver_get_assertions(Z, s);
    Z3_ast_vector_inc_ref(Z, v);
    for (unsigned i = 0; i < Z3_ast_vector_size(Z, v); ++i) Z3_solver_assert(Z, s2, Z3_ast_vector_get(Z, v, i));
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 2 * g_qtimeout_ms);
    Z3_solver_set_params(Z, s2, p);
    r = Z3_solver_check(Z, s2);
    if (r == Z3_L_TRUE && model) {
      Z3_model m = Z3_solver_get_model(Z, s2);
      Z3_model_inc_ref(Z, m);
      collectModel(m, *model);
      Z3_model_dec_ref(Z, m);
      model = nullptr;
    }
  }
  if (r == Z3_L_TRUE && model) {
    Z3_model m = Z3_solver_get_model(Z, s);
    Z3_model_inc_ref(Z, m);
    collectModel(m, *model);
    Z3_model_dec_ref(Z, m);
  }
  u64 dt = now_us() - t0;
  __sync_fetch_and_add(&g_sh->solver_us, dt);
  if (g_trace) fprintf(stderr, "[q] kind=%d r=%d us=%lu\n", kind, r, (unsigned long)dt);
  if (dt > g_sh->maxq_us) g_sh->maxq_us = dt;
  if (r == Z3_L_TRUE) __sync_fetch_and_add(&g_sh->sat, 1);
  else if (r == Z3_L_FALSE) __sync_fetch_and_add(&g_sh->unsat, 1);
  else __sync_fetch_and_add(&g_sh->unknown, 1);
  if (kind == E_ASSERT) __sync_fetch_and_add(&g_sh->aq, 1);
  else if (kind == E_CONC) __sync_fetch_and_add(&g_sh->cq, 1);
  else __sync_fetch_and_add(&g_sh->bq, 1);
  return r;
}

// Equality nodes of the enumerated values (built where the node table lives).
static std::vector<u32> g_ceq, g_cex;
static void concNodes(const Item &it) {
  g_ceq.assign(EV.n, 0);
  g_cex.clear();
  for (u64 i = 0; i < EV.n; ++i)
    if (EV[i].kind == E_CONC) {
      g_ceq[i] = mk(EQ, 1, EV[i].node, K(EV[i].val, N[EV[i].node].w));
      if (i == it.depth) for (u64 v : it.excl) g_cex.push_back(mk(EQ, 1, EV[i].node, K(v, N[EV[i].node].w)));
    }
}
static void solvePhase(const Item &it, std::string &out, u64 &nitems) {
  nitems = 0;
  if (EV.n == 0) return;
  auto &ceq = g_ceq;
  auto &cex = g_cex;
  g_ii.assign(N.n + 16, IInfo{0, 0, 0, 0});
  g_ib.assign(N.n + 16, 0);
  ZI.assign(N.n + 16, nullptr);
  ZIB.assign(N.n + 16, nullptr);
  g_intmode = !g_noint;
  for (u64 i = 0; i < EV.n && g_intmode; ++i) g_intmode = intB(ceq[i] ? ceq[i] : EV[i].node);
  for (u32 c : cex) g_intmode = g_intmode && intB(c);
  if (g_intmode) __sync_fetch_and_add(&g_sh->intpaths, 1);
  else if (g_trace) {
    for (u32 i = 1; i < N.n; ++i) {
      if (N[i].w == 1 && g_ib[i] == 2) { fprintf(stderr, "[noint] bool node %u op %d a %u(op %d ok %d) b %u(op %d ok %d)\n", i, N[i].op, N[i].a, N[N[i].a].op, g_ii[N[i].a].ok, N[i].b, N[N[i].b].op, g_ii[N[i].b].ok); break; }
    }
    for (u32 i = 1; i < N.n; ++i)
      if (g_ii[i].done && !g_ii[i].ok) { fprintf(stderr, "[noint] node %u op %d w %d a op %d w %d b op %d w %d c op %d\n", i, N[i].op, N[i].w, N[N[i].a].op, N[N[i].a].w, N[N[i].b].op, N[N[i].b].w, N[N[i].c].op); break; }
  }
  ZM.assign(N.n + 16, nullptr);
  ZB.assign(N.n + 16, nullptr);
  g_iv.assign(N.n + 16, Iv{0, 0});
  g_ivd.assign(N.n + 16, 0);
  if (!g_low) g_low = new std::unordered_map<u64, Z3_ast>();
  g_low->clear();
  auto mkSolver = [&]() {
    Z3_solver s = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_qtimeout_ms);
    Z3_solver_set_params(Z, s, p);
    return s;
  };
  auto eventConstraint = [&](const Event &e) -> Z3_ast {
    u32 nd = e.kind == E_CONC ? ceq[&e - &EV[0]] : e.node;
    Z3_ast b = g_intmode ? zib(nd) : zbool(nd);
    return e.taken ? b : Z3_mk_not(Z, b);
  };
  Z3_solver s = mkSolver();
  if (g_intmode) {
    g_int = Z3_mk_int_sort(Z);
    for (u64 i = 0; i < VARS.n; ++i) {
      Z3_ast v = zi(VARS[i].node);
      Z3_solver_assert(Z, s, Z3_mk_le(Z, zintk(0), v));
      Z3_solver_assert(Z, s, Z3_mk_le(Z, v, zintk((i128)maskw(VARS[i].bits))));
    }
  }
  for (u64 i = 0; i < EV.n; ++i) {
    Event &e = EV[i];
    bool flip = i >= it.depth;
    if (e.kind == E_ASSUME && e.taken) flip = false;
    if (flip) {
      Z3_solver_push(Z, s);
      Item ni;
      if (e.kind == E_CONC) {
        if (i == it.depth) {
          ni.excl = it.excl;
          for (u32 c : cex) Z3_solver_assert(Z, s, Z3_mk_not(Z, g_intmode ? zib(c) : zbool(c)));
        }
        ni.excl.push_back(e.val);
        Z3_solver_assert(Z, s, Z3_mk_not(Z, eventConstraint(e)));
        ni.depth = i;
        ni.hash = i ? EV[i - 1].hash : 0;
      } else {
        Z3_ast c = eventConstraint(e);
        Z3_solver_assert(Z, s, Z3_mk_not(Z, c));
        ni.depth = i + 1;
        // hash with the flipped outcome
        u64 h = i ? EV[i - 1].hash : 0;
        u64 x = (e.site * 31 + e.node) * 4 + e.kind;
        h = (h ^ (x * 2 + !e.taken)) * 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        ni.hash = h;
      }
      Z3_lbool r = query(s, e.kind, &ni.in);
      Z3_solver_pop(Z, s, 1);
      if (r == Z3_L_TRUE) { putitem(out, ni); ++nitems; }
    }
    Z3_solver_assert(Z, s, eventConstraint(e));
  }
  Z3_solver_dec_ref(Z, s);
}

// ------------------------------------------------------------- coordinator --
static u64 g_exec_timeout_ms = 20000;
static void onSignal(int sig, siginfo_t *si, void *) {
  if (!g_inprog) _exit(95);
  char b[128];
  snprintf(b, sizeof b, "signal %d", sig);
  g_fail_kind = sig == SIGALRM ? F_TIMEOUT : F_CRASH;
  snprintf(g_fail_id, sizeof g_fail_id, "%s%s%s", g_region ? g_region : "", g_region ? ":" : "", sig == SIGALRM ? "execution does not terminate" : b);
  g_inprog = 0;
  siglongjmp(g_jb, 1);
}
static const u64 MAGIC = 0x5059415448ull, TRAILER = 0x454e44ull;
static bool readAll(int fd, void *p, size_t n) {
  u8 *d = (u8 *)p;
  while (n) {
    ssize_t k = read(fd, d, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    d += k;
    n -= k;
  }
  return true;
}
static void writeAll(int fd, const void *p, size_t n) {
  const u8 *d = (const u8 *)p;
  while (n) {
    ssize_t k = write(fd, d, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) _exit(1);
    d += k;
    n -= k;
  }
}
static void child(HReg *h, const Item &it, int fd) __attribute__((noinline));
static void child(HReg *h, const Item &it, int fd) {
  g_input = (u64 *)it.in.data();
  g_ninput = it.in.size();
  stack_t ss;
  ss.ss_sp = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 20;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
  itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = g_exec_timeout_ms / 1000;
  tv.it_value.tv_usec = g_exec_timeout_ms % 1000 * 1000;
  // CPU time, so that a loaded machine does not turn into a verdict
  signal(SIGVTALRM, SIG_IGN);
  sa.sa_sigaction = [](int, siginfo_t *a, void *b) { onSignal(SIGALRM, a, b); };
  sigaction(SIGPROF, &sa, nullptr);
  setitimer(ITIMER_PROF, &tv, nullptr);
  u64 t0 = now_us();
  intern(CONST, 1, 0, 0, 0, 0);
  g_arena_on = 1;
  if (sigsetjmp(g_jb, 1) == 0) {
    g_inprog = 1;
    h->fn();
    g_inprog = 0;
  }
  g_arena_on = 0;
  memset(&tv, 0, sizeof tv);
  setitimer(ITIMER_PROF, &tv, nullptr);
  __sync_fetch_and_add(&g_sh->exec_us, now_us() - t0);
  std::string out;
  u64 diverged = 0;
  if (it.depth > 0) {
    if (EV.n < it.depth || EV[it.depth - 1].hash != it.hash) diverged = 1;
  }
  if (!diverged && !it.excl.empty()) {
    if (EV.n <= it.depth || EV[it.depth].kind != E_CONC) diverged = 1;
    else for (u64 v : it.excl) if (EV[it.depth].val == v) diverged = 1;
  }
  if (!diverged) concNodes(it);
  else { g_ceq.assign(EV.n, 0); g_cex.clear(); }
  auto arr = [&](const void *d, u64 n, u64 sz) { put(out, n); out.append((const char *)d, n * sz); };
  put(out, MAGIC);
  put(out, 0);
  put(out, diverged);
  put(out, g_fail_kind);
  u64 l = strlen(g_fail_id);
  put(out, l);
  out.append(g_fail_id, l);
  arr(N.d, N.n, sizeof(Node));
  arr(EV.d, EV.n, sizeof(Event));
  arr(VARS.d, VARS.n, sizeof(InVar));
  arr(g_ceq.data(), g_ceq.size(), 4);
  arr(g_cex.data(), g_cex.size(), 4);
  arr(REACHED.d, REACHED.n, sizeof(char *));
  arr(COVL.d, COVL.n, sizeof(Cov *));
  arr(EXTSEEN.d, EXTSEEN.n, sizeof(char *));
  u64 tot = out.size();
  memcpy(&out[8], &tot, 8);
  writeAll(fd, out.data(), out.size());
  _exit(0);
}

// A solver process: owns the Z3 context and never forks. It passes each item
// to an execution process forked (ahead of time) by a small zygote, receives
// the path, and solves for the alternatives.
static bool getItem(int fd, Item &it) {
  u64 n;
  if (!readAll(fd, &n, 8)) return false;
  it.in.resize(n);
  if (n && !readAll(fd, it.in.data(), n * 8)) return false;
  if (!readAll(fd, &it.depth, 8) || !readAll(fd, &it.hash, 8) || !readAll(fd, &n, 8)) return false;
  it.excl.resize(n);
  return !n || readAll(fd, it.excl.data(), n * 8);
}
template <typename T> static void setArr(MVec<T> &v, const char *d, u64 n) {
  if (v.cap < n) {
    if (v.d) munmap(v.d, v.cap * sizeof(T));
    v.cap = 4096;
    while (v.cap < n) v.cap *= 2;
    v.d = (T *)mmap(nullptr, v.cap * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  memcpy((void *)v.d, d, n * sizeof(T));
  v.n = n;
}
static void zygote(HReg *h, int itemFd, int outFd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (;;) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      Item it;
      if (!getItem(itemFd, it)) _exit(0);
      child(h, it, outFd);
      _exit(0);
    }
    if (pid < 0) { usleep(20000); continue; }
    int st = 0;
    waitpid(pid, &st, 0);
    u64 m[2] = {TRAILER, (u64)(unsigned)st};
    writeAll(outFd, m, sizeof m);
  }
}
static void solverProc(HReg *h, int inFd, int resFd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int ip[2], op[2];
  if (pipe(ip) || pipe(op)) _exit(1);
  fcntl(op[1], F_SETPIPE_SZ, 1 << 20);
  pid_t z = fork();
  if (z == 0) {
    close(ip[1]); close(op[0]); close(inFd); close(resFd);
    zygote(h, ip[0], op[1]);
    _exit(0);
  }
  close(ip[0]); close(op[1]);
  u64 age = 0, bulk = 0;
  std::string buf;
  Item it;
  while (getItem(inFd, it)) {
    if (!Z) {
      Z3_config c = Z3_mk_config();
      Z = Z3_mk_context(c);
      Z3_del_config(c);
      Z3_set_error_handler(Z, z3err);
    }
    std::string m, out, items;
    putitem(m, it);
    writeAll(ip[1], m.data(), m.size());
    u64 hd[2], status = 0, nitems = 0;
    bool got = false;
    for (;;) {
      if (!readAll(op[0], hd, 16)) _exit(1);
      if (hd[0] == TRAILER) { status = hd[1]; break; }
      if (hd[0] != MAGIC || got) { _exit(1); }
      buf.resize(hd[1] - 16);
      if (!readAll(op[0], &buf[0], buf.size())) _exit(1);
      got = true;
    }
    put(out, 0); // length
    put(out, got ? 1 : 0);
    put(out, status);
    if (got) {
      const char *p = buf.data();
      auto g = [&]() { u64 v; memcpy(&v, p, 8); p += 8; return v; };
      u64 diverged = g(), fk = g(), l = g();
      std::string id(p, l);
      p += l;
      auto ar = [&](auto &v) { u64 n = g(); setArr(v, p, n); p += n * sizeof(*v.d); };
      auto av = [&](std::vector<u32> &v) { u64 n = g(); v.assign((const u32 *)p, (const u32 *)p + n); p += n * 4; };
      ar(N); ar(EV); ar(VARS); av(g_ceq); av(g_cex); ar(REACHED); ar(COVL); ar(EXTSEEN);
      __sync_fetch_and_add(&g_sh->events, EV.n);
      __sync_fetch_and_add(&g_sh->nodes, N.n);
      bool stop = fk == F_ENGINE || fk == F_INT;
      if (!diverged && !stop) solvePhase(it, items, nitems);
      put(out, diverged); put(out, fk); put(out, l);
      out += id;
      put(out, VARS.n);
      for (u64 i = 0; i < VARS.n; ++i) put(out, N[VARS[i].node].val);
      for (u64 i = 0; i < VARS.n; ++i) put(out, (u64)VARS[i].name);
      for (u64 i = 0; i < VARS.n; ++i) put(out, VARS[i].bits);
      put(out, REACHED.n);
      for (u64 i = 0; i < REACHED.n; ++i) put(out, (u64)REACHED[i]);
      put(out, COVL.n);
      for (u64 i = 0; i < COVL.n; ++i) put(out, (u64)COVL[i]);
      put(out, EXTSEEN.n);
      for (u64 i = 0; i < EXTSEEN.n; ++i) put(out, (u64)EXTSEEN[i]);
      put(out, EV.n);
      put(out, nitems);
      out += items;
      bulk += N.n;
    }
    u64 tot = out.size() - 8;
    memcpy(&out[0], &tot, 8);
    writeAll(resFd, out.data(), out.size());
    if (++age >= 64 || bulk > 400000) {
      Z3_del_context(Z);
      Z = nullptr;
      age = bulk = 0;
    }
  }
  _exit(0);
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

int main(int argc, char **argv) {
  const char *hname = nullptr, *outf = nullptr;
  int jobs = 8;
  double budget = 600;
  u64 maxpaths = ~0ull;
  Item root;
  bool list = false, single = false, prog = false;
  int maxviol = 1, newviol = 0;
  std::set<std::string> knownIds;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--harness") hname = argv[++i];
    else if (a == "--out") outf = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--max-paths") maxpaths = strtoull(argv[++i], 0, 10);
    else if (a == "--exec-timeout-ms") g_exec_timeout_ms = strtoull(argv[++i], 0, 10);
    else if (a == "--query-timeout-ms") g_qtimeout_ms = strtoull(argv[++i], 0, 10);
    else if (a == "--max-violations") maxviol = atoi(argv[++i]);
    else if (a == "--known") knownIds.insert(argv[++i]);
    else if (a == "--no-int") g_noint = true;
    else if (a == "--list") list = true;
    else if (a == "--trace") g_trace = 1;
    else if (a == "--progress") prog = true;
    else if (a == "--single") { single = true; for (++i; i < argc; ++i) root.in.push_back(strtoull(argv[i], 0, 0)); }
  }
  if (list) { for (u64 i = 0; i < HS.n; ++i) puts(HS[i].name); return 0; }
  HReg *h = nullptr;
  for (u64 i = 0; i < HS.n; ++i) if (hname && !strcmp(HS[i].name, hname)) h = &HS[i];
  if (!h) { fprintf(stderr, "no harness %s\n", hname ? hname : "?"); return 2; }
  rlimit rl{(1ull << 28), (1ull << 28)};
  (void)rl;
  g_stack_hi = (u64)__builtin_frame_address(0) + 65536;
  g_stack_lo = g_stack_hi - (8ull << 20);
  g_noread = new std::unordered_set<std::string>();
  for (auto p = kNoRead; *p; ++p) g_noread->insert(*p);
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  intern(CONST, 1, 0, 0, 0, 0);
  if (h->setup) h->setup();
  g_arena_on = 0;
  signal(SIGPIPE, SIG_IGN);
  struct Run { pid_t pid = 0; int in = -1, out = -1; bool busy = false; Item it; std::string buf; };
  std::vector<Run> runs(jobs);
  auto spawn = [&](Run &r) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { perror("pipe"); _exit(2); }
    fcntl(b[1], F_SETPIPE_SZ, 1 << 18);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
      close(a[1]); close(b[0]);
      for (Run &o : runs) if (&o != &r && o.pid) { close(o.in); close(o.out); }
      solverProc(h, a[0], b[1]);
      _exit(0);
    }
    close(a[0]); close(b[1]);
    r.pid = pid; r.in = a[1]; r.out = b[0]; r.busy = false; r.buf.clear();
  };
  for (Run &r : runs) spawn(r);
  int busy = 0;
  u64 pickn = 0, rng = 0x9E3779B97F4A7C15ull;
  std::deque<Item> work;
  work.push_back(root);
  u64 paths = 0, complete = 0, assumed = 0, diverged = 0, engine = 0, crashedkids = 0, maxev = 0;
  struct Viol { int kind; std::string id; std::vector<u64> in; std::vector<std::string> names; std::vector<u64> bits; };
  std::vector<Viol> viols;
  std::set<std::string> violIds;
  std::map<std::string, u64> reach;
  std::set<Cov *> cov;
  for (u64 i = 0; i < COVL.n; ++i) cov.insert(COVL[i]);
  std::map<std::string, u64> ext;
  std::vector<std::string> engmsgs;
  std::vector<std::vector<u64>> samples;
  u64 T0 = now_us(), lastp = T0;
  bool outOfBudget = false, stopAll = false;
  while (!stopAll && (busy || !work.empty())) {
    if ((now_us() - T0) / 1e6 > budget || paths >= maxpaths) { outOfBudget = true; break; }
    for (Run &r : runs) {
      if (r.busy || work.empty()) continue;
      // depth first, but in turn with other parts of the frontier and older ones, so that
      // an exploration that runs out of time has not stayed in one corner
      size_t at = work.size() - 1;
      if (++pickn % 3 != 0) {
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        at = rng % (pickn % 3 == 1 ? work.size() : work.size() / 4 + 1);
      }
      std::swap(work[at], work.back());
      r.it = std::move(work.back());
      work.pop_back();
      std::string m;
      putitem(m, r.it);
      writeAll(r.in, m.data(), m.size());
      r.busy = true;
      ++busy;
    }
    std::vector<pollfd> pf;
    for (auto &r : runs) pf.push_back({r.out, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < runs.size(); ++i) {
      Run &r = runs[i];
      if (!pf[i].revents) continue;
      bool lost = false;
      char rb[65536];
      ssize_t k = read(r.out, rb, sizeof rb);
      if (k > 0) r.buf.append(rb, k);
      else lost = true;
      u64 len = 0;
      if (!lost) {
        if (r.buf.size() < 8) continue;
        memcpy(&len, r.buf.data(), 8);
        if (r.buf.size() < 8 + len) continue;
      }
      if (lost && !r.busy) { close(r.in); close(r.out); waitpid(r.pid, nullptr, 0); spawn(r); continue; }
      int st = 0;
      u64 got = 0;
      if (!lost) {
        memcpy(&got, r.buf.data() + 8, 8);
        memcpy(&st, r.buf.data() + 16, 4);
        r.buf.erase(0, 24);
      } else {
        kill(r.pid, SIGKILL);
        waitpid(r.pid, &st, 0);
        close(r.in); close(r.out);
      }
      r.busy = false;
      --busy;
      ++paths;
      const std::string &b = r.buf;
      size_t o = 0;
      auto g = [&]() -> u64 { u64 v = 0; if (o + 8 <= b.size()) memcpy(&v, b.data() + o, 8); o += 8; return v; };
      if (lost || !got) {
        ++crashedkids;
        char m[128];
        snprintf(m, sizeof m, "%s died status %x", lost ? "solver" : "child", st);
        std::string ms = m;
        ms += " at input";
        for (u64 v : r.it.in) ms += " " + std::to_string(v);
        if (engmsgs.size() < 20) engmsgs.push_back(ms);
      } else {
        u64 div = g(), fk = g(), l = g();
        std::string id = b.substr(o, l);
        o += l;
        u64 nv = g();
        std::vector<u64> in, bits;
        std::vector<std::string> names;
        for (u64 k = 0; k < nv; ++k) in.push_back(g());
        for (u64 k = 0; k < nv; ++k) names.push_back((const char *)g());
        for (u64 k = 0; k < nv; ++k) bits.push_back(g());
        u64 nr = g();
        for (u64 k = 0; k < nr; ++k) { const char *q = (const char *)g(); if (!div) ++reach[q]; }
        u64 nc = g();
        for (u64 k = 0; k < nc; ++k) cov.insert((Cov *)g());
        u64 ne = g();
        for (u64 k = 0; k < ne; ++k) ++ext[(const char *)g()];
        u64 nev = g();
        if (nev > maxev) maxev = nev;
        u64 ni = g();
        for (u64 k = 0; k < ni; ++k) {
          Item it;
          u64 n = g();
          for (u64 q = 0; q < n; ++q) it.in.push_back(g());
          it.depth = g();
          it.hash = g();
          n = g();
          for (u64 q = 0; q < n; ++q) it.excl.push_back(g());
          work.push_back(std::move(it));
        }
        if (div) { ++diverged; if (engmsgs.size() < 20) { std::string m = "divergence at input"; for (u64 v : r.it.in) m += " " + std::to_string(v); engmsgs.push_back(m); } }
        if (div && (!fk || fk == F_ASSUME || fk == F_ENGINE || fk == F_INT)) {}
        else if (fk == F_ASSUME) ++assumed;
        else if (fk == F_ENGINE || fk == F_INT) { ++engine; if (engmsgs.size() < 20) { std::string m = id + " at input"; for (u64 v : in) m += " " + std::to_string(v); engmsgs.push_back(m); } }
        else if (fk) {
          std::string key = std::to_string(fk) + id;
          if (!violIds.count(key)) {
            violIds.insert(key);
            viols.push_back({(int)fk, id, in, names, bits});
            if (!knownIds.count(id) && ++newviol >= maxviol) stopAll = true;
          }
        } else { ++complete; if (samples.size() < 8) samples.push_back(in); }
      }
      r.buf.clear();
      if (lost) spawn(r);
    }
    if (prog && now_us() - lastp > 3000000) {
      lastp = now_us();
      fprintf(stderr, "[%s] %.0fs paths=%lu queue=%zu sat=%lu unsat=%lu unk=%lu solver=%.1fs exec=%.1fs div=%lu eng=%lu assume=%lu\n", hname, (now_us() - T0) / 1e6, (unsigned long)paths, work.size(), (unsigned long)g_sh->sat, (unsigned long)g_sh->unsat, (unsigned long)g_sh->unknown, g_sh->solver_us / 1e6, g_sh->exec_us / 1e6, (unsigned long)diverged, (unsigned long)engine, (unsigned long)assumed);
    }
    if (single) break;
  }
  for (auto &r : runs) { kill(r.pid, SIGKILL); waitpid(r.pid, nullptr, 0); }
  bool exhausted = !outOfBudget && !stopAll && work.empty() && !single;
  std::string js = "{";
  auto kv = [&](const char *k, const std::string &v) { if (js.size() > 1) js += ","; js += jstr(k) + ":" + v; };
  auto ku = [&](const char *k, u64 v) { kv(k, std::to_string(v)); };
  kv("harness", jstr(hname));
  ku("paths", paths); ku("complete", complete); ku("assume_ended", assumed);
  ku("integer_paths", g_sh->intpaths); ku("diverged", diverged); ku("engine_errors", engine); ku("children_lost", crashedkids);
  ku("exhausted", exhausted); ku("frontier_left", work.size() + busy);
  ku("sat", g_sh->sat); ku("unsat", g_sh->unsat); ku("unknown", g_sh->unknown);
  ku("assert_queries", g_sh->aq); ku("branch_queries", g_sh->bq); ku("concretization_queries", g_sh->cq);
  kv("solver_s", std::to_string(g_sh->solver_us / 1e6)); kv("max_query_s", std::to_string(g_sh->maxq_us / 1e6));
  kv("exec_s", std::to_string(g_sh->exec_us / 1e6));
  kv("wall_s", std::to_string((now_us() - T0) / 1e6));
  ku("events", g_sh->events); ku("nodes", g_sh->nodes); ku("max_events", maxev);
  std::string x = "{";
  for (auto &p : reach) { if (x.size() > 1) x += ","; x += jstr(p.first) + ":" + std::to_string(p.second); }
  kv("reach", x + "}");
  x = "{";
  for (auto &p : ext) { if (x.size() > 1) x += ","; x += jstr(p.first) + ":" + std::to_string(p.second); }
  kv("external_enumerated", x + "}");
  x = "[";
  std::set<std::string> fns;
  for (Cov *c : cov) fns.insert(std::string(c->name) + "\t" + c->file);
  for (auto &f : fns) { if (x.size() > 1) x += ","; x += jstr(f); }
  kv("functions", x + "]");
  x = "[";
  for (auto &m : engmsgs) { if (x.size() > 1) x += ","; x += jstr(m); }
  kv("engine_messages", x + "]");
  x = "[";
  for (auto &v : viols) {
    if (x.size() > 1) x += ",";
    x += "{\"kind\":" + std::to_string(v.kind) + ",\"id\":" + jstr(v.id) + ",\"input\":[";
    for (size_t i = 0; i < v.in.size(); ++i) x += (i ? "," : "") + std::to_string(v.in[i]);
    x += "],\"names\":[";
    for (size_t i = 0; i < v.names.size(); ++i) x += (i ? "," : "") + jstr(v.names[i]);
    x += "],\"bits\":[";
    for (size_t i = 0; i < v.bits.size(); ++i) x += (i ? "," : "") + std::to_string(v.bits[i]);
    x += "]}";
  }
  kv("violations", x + "]");
  x = "[";
  for (auto &v : samples) {
    if (x.size() > 1) x += ",";
    x += "[";
    for (size_t i = 0; i < v.size(); ++i) x += (i ? "," : "") + std::to_string(v[i]);
    x += "]";
  }
  kv("sample_inputs", x + "]");
  js += "}\n";
  if (outf) { FILE *f = fopen(outf, "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  else fputs(js.c_str(), stdout);
  _exit(0);
}

// Harness-side interface of the symbolic execution engine.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <cstdint>
#include <cstddef>

extern "C" {
uint64_t __sym_h_input(const char *name, unsigned bits);
void __sym_h_assume(int cond);
void __sym_h_assert(int cond, const char *id);
void __sym_h_reach(const char *label);
void __sym_h_fail(const char *id);
void __sym_h_register(const char *name, void (*fn)(), void (*setup)());
void __sym_h_observe(const char *name, uint64_t v);
uint64_t __sym_h_pin(uint64_t v);
int __sym_h_quiet(void);
void __sym_h_region(const char *r);
}

/// A symbolic 64-bit value in [lo, hi] (inclusive), encoded on `bits` bits.
static inline int64_t sym_int(const char *name, int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  unsigned bits = 1;
  while (bits < 64 && (span >> bits) != 0)
    ++bits;
  uint64_t raw = __sym_h_input(name, bits);
  if (bits < 64 && span != ((1ull << bits) - 1))
    __sym_h_assume(raw <= span);
  return (int64_t)(raw + (uint64_t)lo);
}
static inline int64_t sym_i64(const char *name) {
  return (int64_t)__sym_h_input(name, 64);
}
static inline bool sym_bool(const char *name) {
  return __sym_h_input(name, 1) & 1;
}
/// Symbolic choice in [0, n): the value is enumerated (one path per value).
static inline unsigned sym_choice(const char *name, unsigned n) {
  if (n <= 1)
    return 0;
  return (unsigned)__sym_h_pin((uint64_t)sym_int(name, 0, (int64_t)n - 1));
}
static inline int64_t sym_pick(const char *name, int64_t lo, int64_t hi) {
  return (int64_t)__sym_h_pin((uint64_t)sym_int(name, lo, hi));
}
static inline void sym_assume(bool c) { __sym_h_assume(c ? 1 : 0); }
static inline void sym_assert(bool c, const char *id) {
  __sym_h_assert(c ? 1 : 0, id);
}
static inline void sym_reach(const char *l) { __sym_h_reach(l); }
static inline void sym_fail(const char *id) { __sym_h_fail(id); }

/// Failures from here on carry the region as a prefix of their id.
static inline void sym_region(const char *r) { __sym_h_region(r); }
static inline void sym_observe(const char *n, uint64_t v) { __sym_h_observe(n, v); }

struct SymRegister {
  SymRegister(const char *n, void (*f)(), void (*s)() = nullptr) {
    __sym_h_register(n, f, s);
  }
};
#define HARNESS(name)                                                          \
  static void harness_##name();                                                \
  static SymRegister reg_##name(#name, harness_##name);                        \
  static void harness_##name()
#define HARNESS_S(name, setup)                                                 \
  static void harness_##name();                                                \
  static SymRegister reg_##name(#name, harness_##name, setup);                 \
  static void harness_##name()
#endif

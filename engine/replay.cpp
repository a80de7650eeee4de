// Native replay of a counterexample: the same harness, linked against an
// ordinary (AddressSanitizer) build of the same /repo sources; no symbolic
// machinery. Inputs come from argv.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
struct H { const char *n; void (*f)(); void (*s)(); };
static std::vector<H> &hs() { static std::vector<H> v; return v; }
static std::vector<uint64_t> in;
static size_t pos;
static std::string region;
extern "C" {
const char *__asan_default_options() { return "detect_container_overflow=0:detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:allow_user_poisoning=0"; }
uint64_t __sym_h_input(const char *name, unsigned bits) {
  uint64_t v = pos < in.size() ? in[pos] : 0;
  ++pos;
  if (bits < 64) v &= (1ull << bits) - 1;
  if (getenv("REPLAY_VERBOSE")) fprintf(stderr, "input %s = %lld\n", name, (long long)v);
  return v;
}
void __sym_h_assume(int c) { if (!c) { puts("REPLAY-ASSUME"); fflush(stdout); _exit(0); } }
void __sym_h_assert(int c, const char *id) {
  if (!c) { printf("REPLAY-FAIL %s%s\n", region.c_str(), id); fflush(stdout); _exit(7); }
}
void __sym_h_reach(const char *) {}
void __sym_h_region(const char *r) { region = r && *r ? std::string(r) + ":" : ""; printf("REGION %s\n", region.c_str()); fflush(stdout); }
void __sym_h_fail(const char *id) { __sym_h_assert(0, id); }
void __sym_h_register(const char *n, void (*f)(), void (*s)()) { hs().push_back({n, f, s}); }
void __sym_h_observe(const char *n, uint64_t v) { if (getenv("REPLAY_VERBOSE")) fprintf(stderr, "observe %s = %lld\n", n, (long long)v); }
uint64_t __sym_h_pin(uint64_t v) { return v; }
int __sym_h_quiet(void) { return 1; }
}
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  for (int i = 2; i < argc; ++i) in.push_back(strtoull(argv[i], 0, 0));
  for (auto &h : hs())
    if (!strcmp(h.n, argv[1])) {
      if (h.s) h.s();
      h.f();
      puts("REPLAY-OK");
      fflush(stdout);
      _exit(0);
    }
  return 2;
}

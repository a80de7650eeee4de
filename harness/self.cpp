// Engine self-test: harnesses with known verdicts.
#include "sym.h"
#include <algorithm>
#include <vector>
#include <string>
HARNESS(self_find) {
  int64_t a = sym_int("a", 0, 100), b = sym_int("b", 0, 100);
  if (a * 3 + b == 177)
    sym_assert(a != 42, "a42");
}
HARNESS(self_prove) {
  int n = sym_choice("n", 4);
  std::vector<int64_t> v;
  for (int i = 0; i < n; i++)
    v.push_back(sym_int("e", -1000, 1000));
  std::sort(v.begin(), v.end());
  for (int i = 0; i + 1 < n; i++)
    sym_assert(v[i] <= v[i + 1], "sorted");
}
HARNESS(self_oob) {
  int64_t i = sym_int("i", 0, 8);
  int *p = new int[8]();
  if (i * i + i == 72)
    p[i] = 1;
  sym_assert(p[0] == 0, "zero");
}
HARNESS(self_hang) {
  uint64_t x = (uint64_t)sym_int("x", 0, 50);
  volatile int k = 0;
  while (x != 0 && x != 7) {
    if (x == 33) { k = k + 1; continue; }
    x = x - 1;
  }
  sym_assert(x == 0 || x == 7, "end");
}
HARNESS(self_overflow) {
  int64_t x = sym_i64("x");
  sym_assume(x > 0);
  uint64_t y = (uint64_t)x * 10u + 7u;
  sym_assert((int64_t)y > 0, "wrap");
}
HARNESS(self_string) {
  std::string s;
  for (int i = 0; i < 3; ++i)
    s.push_back((char)sym_int("c", 'a', 'z'));
  sym_assert(s != "cat", "cat");
}

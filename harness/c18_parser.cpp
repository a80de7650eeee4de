// C18: the parser answers every token sequence: a tree, or a diagnostic.
#include "parse.h"
using namespace prs;

static void RUN() {
  auto p = prs::open();
  auto r = p->parseRoot();
  sym_assert(r.has_value() | diagnosed(), "rejected_without_diagnostic");
  sym_assert(!r.has_value() | !diagnosed(), "accepted_with_an_error");
  sym_reach(r.has_value() ? "accepted" : "rejected");
}
#include "contexts.inc"

// C21: every node knows the one that holds it; copies are equal and independent.
#include "gram.h"
using namespace prs;
static void record(marco::ast::ASTNode *n) {
  got.n = 0;
  wholly = true;
  orphans = false;
  holder = nullptr;
  dump(n);
}
static void RUN() {
  auto p = prs::open();
  auto r = p->parseRoot();
  if (!r.has_value())
    return sym_reach("rejected");
  record(r->get());
  sym_assert(!orphans, "parent_of_a_node");
  ref.n = got.n;
  for (int i = 0; i < got.n; ++i)
    ref.v[i] = got.v[i];
  Node copy = (*r)->clone();
  r->reset();
  record(copy.get());
  sym_assert(!orphans, "parent_of_a_node_of_a_copy");
  bool same = ref.n == got.n;
  for (int i = 0; same && i < ref.n; ++i)
    same = ref.v[i] == got.v[i];
  sym_assert(same, "copy_of_a_tree");
  sym_reach("accepted");
}
#include "contexts.inc"

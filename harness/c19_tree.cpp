// C19, C20: the tree of a text is the one its grammar gives.
#include "gram.h"
using namespace prs;
static void RUN() { compare(); }
#include "contexts.inc"

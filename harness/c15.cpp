// C15: conflict attributes decide shift/reduce conflicts as written

#include "vp.h"
#include "resolve_case.h"

using namespace std;
using namespace vp;

static void f_bnf(Ctx& c) { rg::gen_opts o; o.ebnf = 0; o.maxNT = 4; o.maxT = 4; resolve_case(c, o, c.s.chance(1, 2), false, true); }
static void f_ebnf(Ctx& c) { rg::gen_opts o; o.ebnf = 1 + c.s.below(2); o.maxNT = 4; o.maxT = 5; resolve_case(c, o, c.s.chance(2, 3), false, true); }

int main(int argc, char** argv) {
    const char* rule = " with [conflict=shift], [conflict=reduce] and [conflict=weak reduce] on random terminals, written as definition text; unresolved conflicts, acceptance, the failing token and the reductions of 8 inputs compared with a reference LALR(1) automaton resolved by the attributes; non-trivial: an attribute decides a conflict and an input of three or more tokens is accepted";
    vector<Facet> f = {
        { "bnf", f_bnf, 60000, 2000000, string("random BNF grammars") + rule, 30 },
        { "ebnf", f_ebnf, 60000, 2000000, string("random EBNF grammars") + rule, 30 },
    };
    return run_main(argc, argv, "C15", f, { "grammars without reduce/reduce conflicts", "where several items of a state shift the token, their attributes agree", "items that are written twice carry the same attributes" });
}

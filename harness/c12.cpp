// C12: an ignored token has no effect anywhere that the grammar does not ask for it.

#include "vp.h"
#include "lr_ext.h"

using namespace std;
using namespace vp;

static void run(Ctx& c, bool guards, bool weak) {
    rg::gen_opts o; o.ebnf = c.s.below(guards ? 2 : 3); o.maxNT = guards ? 3 : 4; o.maxT = 5; o.empties = c.s.chance(1, 2);
    rg::Gram g = rg::gen_gram(c.s, o, c.s.chance(3, 4));
    if (!rg::reduce_gram(g)) throw Discard();
    if (guards) add_guards(c.s, g, c.s.chance(1, 3));
    ext_opts eo; eo.nested = guards;
    // one ignored token that the grammar never uses, and perhaps others that it does
    if (c.s.chance(3, 4)) { eo.ignored.insert(g.nT); ++g.nT; }
    if (eo.ignored.empty() || c.s.chance(1, 2)) eo.ignored.insert(c.s.below(g.nT));
    eo.strong.assign(g.nT, -1);
    if (weak && g.nT >= 3) { int s = c.s.below(g.nT), w = c.s.below(g.nT); if (s != w && !eo.ignored.count(s) && !eo.ignored.count(w)) eo.strong[w] = s; }
    ext_stats r = compare_ext(c, g, eo);
    c.label("tokens ignored", r.skipped); c.label("accepted inputs", r.acc);
    if (r.skipped && r.acc) c.nontrivial(rg::text(g) + r.key);
}
static void f_random(Ctx& c) { run(c, false, false); }
static void f_all(Ctx& c) { run(c, true, c.s.chance(1, 2)); }

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "random", f_random, 150000, 4000000, "random conflict-free grammar; ignored tokens that the grammar never uses and ones that it uses in places; the reference parser skips an ignored token unless it can be shifted there; reductions and shifted tokens are compared; non-trivial: tokens were ignored and an input was accepted", 20 },
        { "all", f_all, 120000, 3000000, "the same with guards and weak tokens in the grammar; non-trivial as above", 20 },
    };
    return run_main(argc, argv, "C12", f, { "inputs where two guards apply at once are not judged" });
}

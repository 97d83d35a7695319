// C13: a guard acts as a fake token that is there exactly when what follows in the input matches its production.

#include "vp.h"
#include "lr_ext.h"

using namespace std;
using namespace vp;

static void run(Ctx& c, bool nested, bool templ) {
    rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 3; o.maxT = 4; o.empties = c.s.chance(1, 3);
    rg::Gram g = rg::gen_gram(c.s, o, c.s.chance(3, 4));
    if (templ) {
        // items chosen by a guard inside a list: N0 = (N1)+, N1 = [=> A] A | B
        rg::It rep(rg::REP); rep.r.push_back({ rg::It(rg::N, 1) });
        rg::gen_opts o2; o2.ebnf = 0; o2.empties = false;
        g.nT = 3 + c.s.below(2); g.nt.assign(3, vector<rg::Rule>()); g.starts.assign(1, 0);
        g.nt[0].push_back({ rep }); if (c.s.chance(1, 2)) g.nt[0][0].push_back(rg::It(rg::T, c.s.below(g.nT)));
        g.nt[2].push_back({ rg::It(rg::T, c.s.below(g.nT)) }); if (c.s.chance(1, 2)) g.nt[2].push_back({ rg::It(rg::T, c.s.below(g.nT)), rg::It(rg::N, 2) });
        rg::Rule a = rg::gen_rule(c.s, o2, g.nT, 0 + 1, 0, false); for (auto& i : a) if (i.k == rg::N) i = rg::It(rg::N, 2);
        rg::It gd(rg::GUARD); rg::Rule gb = c.s.chance(1, 2) ? a : rg::gen_rule(c.s, o2, g.nT, 1, 0, false); for (auto& i : gb) if (i.k == rg::N) i = rg::It(rg::N, 2); gd.r.push_back(gb);
        rg::Rule ga = a; ga.insert(ga.begin(), gd); g.nt[1].push_back(ga);
        for (int t = 0; t < g.nT; ++t) if (c.s.chance(2, 3)) g.nt[1].push_back({ rg::It(rg::T, t) });
    } else {
        if (!rg::reduce_gram(g)) throw Discard();
        add_guards(c.s, g, nested);
    }
    if (!has_guards(g)) throw Discard();
    ext_opts eo; eo.nested = nested;
    ext_stats r = compare_ext(c, g, eo);
    c.label("guards matched", r.matched); c.label("guards not matched", r.failed); c.label("accepted inputs", r.acc);
    if (r.matched && r.failed && r.acc) c.nontrivial(rg::text(g) + r.key);
}

static void f_flat(Ctx& c) { run(c, false, false); }
static void f_list(Ctx& c) { run(c, false, true); }
static void f_nested(Ctx& c) { run(c, true, false); }

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "flat", f_flat, 120000, 4000000, "random grammars with up to three guards whose productions are context-free; whether a guard matches is decided by Earley on the rest of the input, the parse by the reference automaton with guards as extra tokens; non-trivial: guards both matched and failed and an input was accepted", 20 },
        { "list", f_list, 50000, 3000000, "lists of items, one of them guarded, with a production of several tokens or recursion in the guard; non-trivial as above", 20 },
        { "nested", f_nested, 90000, 3000000, "guards inside the productions of guards, decided by running the reference automaton ahead; non-trivial as above", 20 },
    };
    return run_main(argc, argv, "C13", f, { "guards match something non-empty", "inputs where two different guards apply at the same point are not judged" });
}

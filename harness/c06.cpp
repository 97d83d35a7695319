// C06: the FIRST and FOLLOW sets of every item of every grammar hold exactly the terminals they should.

#include "vp.h"
#include "lr_lib.h"

using namespace std;
using namespace vp;
using namespace contextfree;

static set<int> terminals(const item_set& s, bool& eps) {
    set<int> r; eps = false;
    for (item_set::iterator i = s.begin(); i != s.end(); ++i) { if ((*i)->type() == item::terminal) r.insert((*i)->symbol()); if ((*i)->type() == item::empty) eps = true; }
    return r;
}
static string show(const set<int>& s, bool eps) { string o = "{"; for (int t : s) o += string(" ") + (char)('a' + t); if (eps) o += " (empty)"; return o + " }"; }

static void run(Ctx& c, const rg::gen_opts& o) {
    rg::Gram g = rg::gen_gram(c.s, o, c.s.chance(1, 4));
    c.note(rg::text(g));
    rg::Low low(g, false);       // an alternative inside an alternative counts as being used there
    lib_grammar lg(g);
    // ask in any order, some of them more than once
    vector<int> order; for (int s = low.nT; s < low.nSym; ++s) order.push_back(s);
    for (size_t i = order.size(); i > 1; --i) swap(order[i - 1], order[c.s.below((uint32_t) i)]);
    bool followFirst = c.s.chance(1, 4);
    for (int pass = 0; pass < 2; ++pass) for (int s : order) {
        item_container it = lg.item(low.items[s - low.nT]);
        if ((pass == 0) != followFirst) {
            bool eps; set<int> got = terminals(lg.gram.first(it), eps);
            VP_CHECK(got == low.first[s] && eps == (low.nullable[s] != 0), "FIRST(" << low.name(s) << ") is " << show(got, eps) << ", should be " << show(low.first[s], low.nullable[s]));
        } else {
            bool eps; set<int> got = terminals(lg.gram.follow(it), eps);
            VP_CHECK(got == low.follow[s], "FOLLOW(" << low.name(s) << ") is " << show(got, false) << ", should be " << show(low.follow[s], false));
        }
    }
    // and of whole rules
    for (size_t i = 0; i < g.nt.size(); ++i) {
        const rule_list& rl = lg.gram.rules_for_nonterminal(lg.ntId[i]);
        for (size_t k = 0; k < rl.size(); ++k) {
            bool eps; set<int> got = terminals(lg.gram.first_for_rule(*rl[k]), eps);
            bool null; rg::Low l2 = low; set<int> want = low.first_of(l2.seq(g.nt[i][k]), 0, null);
            VP_CHECK(got == want && eps == null, "FIRST of rule " << rg::text(g.nt[i][k]) << " is " << show(got, eps) << ", should be " << show(want, null));
        }
    }
    bool nul = false; for (int s = low.nT; s < low.nSym; ++s) if (low.nullable[s]) nul = true;
    if (nul && low.prods.size() >= 4) c.nontrivial(rg::text(g));
    if (low.nSym > low.nT + (int) g.nt.size()) c.label("has EBNF items");
}

static void f_bnf(Ctx& c) { rg::gen_opts o; o.ebnf = 0; o.maxNT = 6; o.maxT = 6; run(c, o); }
static void f_ebnf(Ctx& c) { rg::gen_opts o; o.ebnf = 2 + c.s.below(2); run(c, o); }
static void f_big(Ctx& c) { rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 14; o.maxT = 26; run(c, o); }

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "bnf", f_bnf, 300000, 6000000, "random grammars of up to 6 nonterminals with left, right, mutual and hidden recursion and empty rules; every FIRST, FOLLOW and rule FIRST compared with a fixpoint computation; non-trivial: 4 or more rules and something nullable", 10 },
        { "ebnf", f_ebnf, 300000, 6000000, "the same with nested optional, repeated and alternative items; non-trivial as above", 10 },
        { "big", f_big, 40000, 800000, "up to 14 nonterminals and 26 terminals; non-trivial as above", 10 },
    };
    return run_main(argc, argv, "C06", f, { "FOLLOW is compared on terminals only" });
}

// C08: the conflicts reported for a grammar are exactly its LALR(1) conflicts, and a shift/reduce conflict is resolved
// by shifting.

#include "vp.h"
#include "lr_lib.h"

using namespace std;
using namespace vp;
using namespace contextfree;

typedef rg::LR::Conflict conf;

static int prod_of(const lr::lr0_item& it, lib_grammar& lg, const rg::Low& low, const map<int,int>& ids, const rg::Gram& g) {
    const rule& r = *it.rule();
    vector<int> rhs;
    for (auto& x : r.items()) { if (x->type() == item::terminal) rhs.push_back(x->symbol()); else { auto f = ids.find(lg.gram.identifier_for_item(x)); if (f == ids.end()) throw Fail{"unknown symbol in a reduction"}; rhs.push_back(f->second); } }
    if (r.nonterminal()->type() == item::empty) { for (size_t i = 0; i < g.starts.size(); ++i) if (rhs == vector<int>(1, low.nT + g.starts[i])) return -1 - (int) i; throw Fail{"unknown start rule"}; }
    auto f = ids.find(lg.gram.identifier_for_item(r.nonterminal()));
    if (f == ids.end()) throw Fail{"unknown nonterminal in a reduction"};
    for (int p : low.by[f->second]) if (low.prods[p].rhs == rhs) return p;
    throw Fail{"reduction of something that is not a rule of the grammar"};
}

static string show(const conf& k, const rg::Low& low) {
    string o = k.token == low.nT ? "end of input" : low.name(k.token);
    o += k.shift ? ": shift" : ":";
    for (int p : k.reduce) o += p < 0 ? " / accept" : " / reduce " + low.show(low.prods[p]);
    return o;
}

static void run(Ctx& c, const rg::gen_opts& o, bool tame) {
    rg::Gram g = rg::gen_gram(c.s, o, tame);
    if (!rg::reduce_gram(g)) throw Discard();
    c.note(rg::text(g));
    rg::Low low(g);
    rg::LR lr(low, g.starts, true, 250);
    if (lr.too_big) throw Discard();

    lib_grammar lg(g);
    lr::lalr_builder b(lg.gram, lg.terms);
    vector<int> initial; for (int st : g.starts) initial.push_back(b.add_initial_state(lg.start(st)));
    b.complete_parser();
    map<int,int> ids = lg.identifiers(low);

    VP_CHECK(b.count_states() == (int) lr.states.size(), "the parser has " << b.count_states() << " states, the LALR(1) automaton of the grammar has " << lr.states.size());
    lr::conflict_list found;
    lr::conflict::find_conflicts(b, found);
    vector<conf> got, want = lr.conflicts();
    for (auto& k : found) {
        conf x; x.state = k->state();
        if (k->token()->type() == item::terminal) x.token = k->token()->symbol(); else if (k->token()->type() == item::eoi) x.token = low.nT; else throw Fail{VP_STR("conflict on a symbol of type " << k->token()->type())};
        x.shift = k->first_shift_item() != k->last_shift_item();
        for (auto r = k->first_reduce_item(); r != k->last_reduce_item(); ++r) x.reduce.insert(prod_of(*r->first, lg, low, ids, g));
        got.push_back(x);
    }
    sort(got.begin(), got.end());
    if (!(got == want)) {
        string m = "reported conflicts:"; for (auto& k : got) m += "\n  " + show(k, low); m += "\nconflicts of the grammar:"; for (auto& k : want) m += "\n  " + show(k, low);
        c.fail(m);
    }
    bool sr = false, rr = false; for (auto& k : want) (k.reduce.size() > 1 ? rr : sr) = true;
    if (sr && !rr) c.label("shift/reduce only"); if (rr) c.label("reduce/reduce"); if (want.empty()) c.label("no conflicts");
    string key = rg::text(g);
    if (sr || rr) c.nontrivial(key);
    if (rr) return;

    // shift/reduce conflicts are resolved in favour of the shift
    lr::parser_tables tables(b, NULL);
    tree_parser p(tables);
    int acc = 0;
    for (int i = 0; i < 6; ++i) {
        size_t si = c.s.below((uint32_t) g.starts.size());
        vector<int> in = rg::gen_input(c.s, low, g.starts[si], g.nT);
        if (in.size() > 200) continue;
        rg::LR::Trace t = lr.run((int) si, in);
        if (t.stuck) continue;
        c.note("input (N" + to_string(g.starts[si]) + "): " + rg::show_tokens(in));
        outcome o = run_parser(p, initial[si], in);
        VP_CHECK(!o.stuck, "the parser is still running after 20000 steps");
        VP_CHECK(o.accept == t.accept, "the parser " << (o.accept ? "accepts" : "rejects") << ", preferring to shift it should " << (t.accept ? "accept" : "reject"));
        VP_CHECK(o.accept || o.at == t.shifted, "parsing stopped at token " << o.at << " instead of token " << t.shifted);
        if (o.accept) {
            ++acc; int pos = 0;
            string err = check_tree(o.tree, g.nT + g.starts[si], low, ids, lg.gram, in, pos);
            VP_CHECK(err.empty(), "parse tree: " << err);
            // the reductions, in order
            vector<int> red; function<void(const pnode_p&)> walk = [&](const pnode_p& n) { if (n->term) return; for (auto& k : n->kids) walk(k); vector<int> rhs; for (auto& k : n->kids) rhs.push_back(k->term ? k->id : ids[k->id]); for (int q : low.by[ids[n->id]]) if (low.prods[q].rhs == rhs) red.push_back(q); };
            walk(o.tree);
            VP_CHECK(red == t.reductions, "the parse tree is not the one that shifting gives");
        }
    }
    if (sr) c.label("accepted inputs of grammars with shift/reduce conflicts", acc);
}

static void f_bnf(Ctx& c) { rg::gen_opts o; o.ebnf = 0; o.maxNT = 4; o.maxT = 4; run(c, o, c.s.chance(1, 3)); }
static void f_ebnf(Ctx& c) { rg::gen_opts o; o.ebnf = 1 + c.s.below(2); run(c, o, c.s.chance(1, 2)); }
static void f_big(Ctx& c) { rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 7; o.maxT = 10; run(c, o, c.s.chance(3, 4)); }

int main(int argc, char** argv) {
    const char* rule = ": reported conflicts (token, shift, set of rules) compared with the reference LALR(1) automaton, and with only shift/reduce conflicts 6 inputs each compared with that automaton preferring shifts; non-trivial: the grammar has a conflict";
    vector<Facet> f = {
        { "bnf", f_bnf, 60000, 1500000, string("random BNF grammars, mostly ambiguous") + rule, 20 },
        { "ebnf", f_ebnf, 60000, 1500000, string("random EBNF grammars") + rule, 20 },
        { "big", f_big, 12000, 300000, string("larger grammars") + rule, 30 },
    };
    return run_main(argc, argv, "C08", f, { "every nonterminal of a grammar produces something and can be reached", "no guards, precedence or conflict attributes (those have properties of their own)" });
}

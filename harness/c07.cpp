// C07: the parser built for a conflict-free grammar accepts exactly the sentences of the grammar, hands out a parse
// tree that is a derivation of the input, and stops at the first token that cannot continue a sentence.

#include "vp.h"
#include "lr_lib.h"

using namespace std;
using namespace vp;

static void parse_inputs(Ctx& c, const rg::Gram& g, rg::Low& low, int inputs, bool second) {
    lib_grammar lg(g);
    lr::lalr_builder b(lg.gram, lg.terms);
    vector<int> initial; for (int st : g.starts) initial.push_back(b.add_initial_state(lg.start(st)));
    b.complete_parser();
    lr::parser_tables tables(b, NULL);
    tree_parser p(tables);
    map<int,int> ids = lg.identifiers(low);
    int acc = 0, rej = 0, late = 0; string key;
    for (int i = 0; i < inputs; ++i) {
        size_t si = c.s.below((uint32_t) g.starts.size());
        vector<int> in = rg::gen_input(c.s, low, g.starts[si], g.nT);
        if (in.size() > 200) continue;
        c.note("input (N" + to_string(g.starts[si]) + "): " + rg::show_tokens(in));
        rg::Earley e(low, g.nT + g.starts[si], in);
        outcome o = run_parser(p, initial[si], in);
        VP_CHECK(!o.stuck, "the parser is still running after 20000 steps");
        VP_CHECK(o.accept == e.accepts(), "the parser " << (o.accept ? "accepts" : "rejects") << " an input that " << (e.accepts() ? "is" : "is not") << " a sentence");
        if (o.accept) {
            ++acc; int pos = 0;
            string err = check_tree(o.tree, g.nT + g.starts[si], low, ids, lg.gram, in, pos);
            VP_CHECK(err.empty(), "parse tree: " << err);
            VP_CHECK(pos == (int) in.size(), "the parse tree covers " << pos << " tokens of " << in.size());
            if (in.size() > 1) key += rg::show_tokens(in) + ";";
        } else {
            ++rej; if (e.viable > 0) ++late;
            VP_CHECK(o.at == e.viable, "parsing stopped at token " << o.at << ", the first token that cannot be part of a sentence is " << e.viable);
        }
    }
    c.label("accepted inputs", acc); c.label("rejected inputs", rej); c.label("rejected after the first token", late);
    if (!key.empty() && late) c.nontrivial(rg::text(g) + key);
}

static void run(Ctx& c, const rg::gen_opts& o, bool tame) {
    rg::Gram g = rg::gen_gram(c.s, o, tame);
    if (!rg::reduce_gram(g)) throw Discard();
    c.note(rg::text(g));
    rg::Low low(g);
    if (low.cyclic()) throw Discard();
    rg::LR lr(low, g.starts, true, 250);
    if (lr.too_big || !lr.conflicts().empty()) throw Discard();
    if (g.starts.size() > 1) c.label("several start symbols");
    bool nul = false, left = false; for (auto& p : low.prods) { if (p.rhs.empty()) nul = true; if (!p.rhs.empty() && p.rhs[0] == p.lhs) left = true; }
    if (nul) c.label("empty rules"); if (left) c.label("left recursive");
    parse_inputs(c, g, low, 8, false);
}

static void f_bnf(Ctx& c) { rg::gen_opts o; o.ebnf = 0; o.maxNT = 5; o.maxT = 5; run(c, o, c.s.chance(3, 4)); }
static void f_ebnf(Ctx& c) { rg::gen_opts o; o.ebnf = 1 + c.s.below(2); o.maxT = 6; run(c, o, c.s.chance(3, 4)); }
static void f_big(Ctx& c) { rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 9; o.maxT = 12; run(c, o, true); }

int main(int argc, char** argv) {
    const char* rule = "; grammars with conflicts (by the reference LALR(1) construction) are discarded; 8 inputs each (sentences, damaged sentences, noise) judged by an Earley recogniser; non-trivial: a sentence of 2 or more tokens was parsed and another input was rejected after its first token";
    vector<Facet> f = {
        { "bnf", f_bnf, 120000, 3000000, string("random BNF grammars with recursion, empty rules and several start symbols") + rule, 10 },
        { "ebnf", f_ebnf, 150000, 3000000, string("random grammars with nested optional, repeated and alternative items") + rule, 10 },
        { "big", f_big, 40000, 800000, string("up to 9 nonterminals and 12 terminals") + rule, 20 },
    };
    return run_main(argc, argv, "C07", f, { "every nonterminal of a grammar produces something and can be reached", "inputs have at most 200 tokens" });
}

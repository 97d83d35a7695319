// C10: parser states can be copied at any point and run in any order, each giving what it would give alone; copied and
// assigned tables and parsers behave as the original, whatever happens to the original.

#include "vp.h"
#include "lr_lib.h"

using namespace std;
using namespace vp;

static string str(const pnode_p& n) {
    if (!n) return "?";
    if (n->term) return VP_STR("t" << n->id << "@" << n->token);
    string o = VP_STR("(" << n->id << "/" << n->rule << "^" << n->lookOffset); for (auto& k : n->kids) o += " " + str(k); return o + ")";
}

struct live { unique_ptr<tree_parser::state> st; bool done; string result; int steps; };

static string outcome_of(tree_parser::state* st, lr::parser_result::result r, int n) {
    if (r == lr::parser_result::accept) return "accept " + str(st->get_item());
    return VP_STR("reject at " << look_index(st, n));
}

static void run(Ctx& c, bool deep) {
    rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 4; o.maxT = 4;
    rg::Gram g;
    if (deep) {
        // right recursion, nesting and left recursion, so that the stack grows and shrinks a lot
        g.nT = 4; g.nt.resize(1); g.starts.push_back(0);
        auto T = [](int i) { return rg::It(rg::T, i); }; rg::It S(rg::N, 0); rg::It L(rg::REP0); L.r.push_back({ S });
        g.nt[0] = { { T(0) }, { T(1), S }, { T(2), L, T(3) } };
    } else {
        g = rg::gen_gram(c.s, o, c.s.chance(3, 4));
        if (!rg::reduce_gram(g)) throw Discard();
    }
    rg::Low low(g);
    if (low.cyclic()) throw Discard();
    rg::LR ref(low, g.starts, true, 250);
    if (ref.too_big || !ref.conflicts().empty()) throw Discard();
    c.note(rg::text(g));

    lib_grammar lg(g);
    lr::lalr_builder b(lg.gram, lg.terms);
    vector<int> initial; for (int st : g.starts) initial.push_back(b.add_initial_state(lg.start(st)));
    b.complete_parser();
    unique_ptr<lr::parser_tables> tables(new lr::parser_tables(b, NULL));

    size_t si = c.s.below((uint32_t) g.starts.size());
    vector<int> in;
    if (deep) { int fuel = 40 + c.s.below(400); size_t most = 10 + c.s.below(300); rg::gen_sentence(c.s, low, g.nT + g.starts[si], fuel, in, most); if (c.s.chance(1, 3)) { in.insert(in.begin() + c.s.below((uint32_t) in.size() + 1), (int) c.s.below(4)); } }
    else in = rg::gen_input(c.s, low, g.starts[si], g.nT);
    if (in.size() > 600) in.resize(600);
    c.note("input (N" + to_string(g.starts[si]) + "): " + rg::show_tokens(in));

    // alone
    string alone; int steps = 0;
    {
        tree_parser p(*tables);
        unique_ptr<tree_parser::state> st(p.create_parser(new tree_actions(in), initial[si]));
        for (;; ++steps) { VP_CHECK(steps < 50000, "still running"); auto r = st->process(); if (r == lr::parser_result::more) continue; alone = outcome_of(st.get(), r, (int) in.size()); break; }
    }

    // tables and parsers copied and assigned, the originals gone
    unique_ptr<tree_parser> parser;
    int how = c.s.below(5);
    c.note(VP_STR("tables: way " << how));
    if (how == 0) parser.reset(new tree_parser(*tables));
    else if (how == 1) { unique_ptr<tree_parser> p1(new tree_parser(*tables)); tables.reset(); parser.reset(new tree_parser(*p1)); p1.reset(); }
    else if (how == 2) { unique_ptr<lr::parser_tables> t2(new lr::parser_tables(*tables)); tables.reset(); parser.reset(new tree_parser(t2.release(), true)); }
    else if (how == 3) {
        // assign over the tables of another grammar
        rg::Gram h; h.nT = 2; h.nt.resize(2); h.nt[0].push_back({ rg::It(rg::T, 0), rg::It(rg::N, 1) }); h.nt[1].push_back({ rg::It(rg::T, 1) }); h.starts.push_back(0);
        lib_grammar lh(h); lr::lalr_builder b2(lh.gram, lh.terms); b2.add_initial_state(lh.start(0)); b2.complete_parser();
        unique_ptr<lr::parser_tables> t2(new lr::parser_tables(b2, NULL));
        *t2 = *tables; *t2 = *t2; tables.reset(); parser.reset(new tree_parser(t2.release(), true));
    } else parser.reset(new tree_parser(b, NULL));

    // a history of steps, copies and deletions
    vector<live> states;
    states.push_back(live{unique_ptr<tree_parser::state>(parser->create_parser(new tree_actions(in), initial[si])), false, "", 0});
    int ops = 10 + c.s.below(deep ? 120 : 60), copies = 0, deletions = 0, finished = 0;
    string hist;
    auto step = [&](live& l) {
        auto r = l.st->process(); ++l.steps;
        VP_CHECK(l.steps <= steps + 1, "a state that was copied takes more than the " << steps + 1 << " steps it takes alone");
        if (r != lr::parser_result::more) { l.done = true; l.result = outcome_of(l.st.get(), r, (int) in.size()); ++finished; }
        VP_CHECK(!l.done || l.result == alone, "result " << l.result << "; alone it is " << alone);
    };
    for (int i = 0; i < ops && !states.empty(); ++i) {
        size_t w = c.s.below((uint32_t) states.size());
        int op = c.s.weighted({6, 3, states.size() > 1 ? 2 : 0, 2});
        if (op == 1 && states.size() >= 12) op = 0;
        if (op == 0) { int n = 1 + c.s.below(deep ? 40 : 4); hist += VP_STR(" step" << w << "x" << n); while (n-- > 0 && !states[w].done) step(states[w]); }
        else if (op == 1) { hist += VP_STR(" copy" << w); states.push_back(live{unique_ptr<tree_parser::state>(new tree_parser::state(*states[w].st)), states[w].done, states[w].result, states[w].steps}); ++copies; }
        else if (op == 2) { hist += VP_STR(" delete" << w); states.erase(states.begin() + w); ++deletions; }
        else { int k = c.s.below(6); hist += VP_STR(" look" << w << "+" << k); if (!states[w].done) { int base = look_index(states[w].st.get(), (int) in.size()); const dfa::lexeme_container& l = states[w].st->look(k); int at = l.item() ? l->pos().offset() : (int) in.size(); VP_CHECK(at == min(base + k, (int) in.size()), "look(" << k << ") at token " << base << " gives token " << at); } }
    }
    c.note("history:" + hist);
    for (auto& l : states) while (!l.done) step(l);
    c.label("copies", copies); c.label("deletions", deletions);
    if (alone[0] == 'a') c.label("accepted");
    if (copies && deletions && in.size() > 2) c.nontrivial(rg::text(g) + rg::show_tokens(in) + hist);
    // delete the rest in any order
    while (!states.empty()) states.erase(states.begin() + c.s.below((uint32_t) states.size()));
}

static void f_random(Ctx& c) { run(c, false); }
static void f_deep(Ctx& c) { run(c, true); }

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "random", f_random, 60000, 2000000, "random conflict-free grammar and input; histories of stepping, copying, looking ahead with and deleting parser states, on original, copied or assigned tables; every state must end as it does alone; non-trivial: copies and deletions and 3 or more tokens", 20 },
        { "deep", f_deep, 15000, 400000, "the same with nesting and right recursion up to 600 tokens, so that shared stacks are collected and grow; non-trivial as above", 20 },
    };
    return run_main(argc, argv, "C10", f, { "a state that has accepted or rejected is not stepped again" });
}

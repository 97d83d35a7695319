// C09: the LR(1) resolver only removes conflicts that the context really decides

#include "vp.h"
#include "lr_lib.h"
#include "TameParse/Lr/lr1_rewriter.h"

using namespace std;
using namespace vp;
using namespace contextfree;

/// True if the state that a reduction returns to is always one in which its lookahead is named by a rule: nothing is empty, no rule starts or ends with a nonterminal,
/// and the rules that compete are equally long, so that they return to the same place. (What the resolver hides in other grammars is the recorded finding.)
static bool simple(const rg::Low& low, const vector<rg::LR::Conflict>& lc) {
    for (auto& k : lc) for (int p : k.reduce) { int q = *k.reduce.begin(), n = (int) low.prods.size(); if (p < 0 || q < 0 || p >= n || q >= n || low.prods[p].rhs.size() != low.prods[q].rhs.size()) return false; }
    for (auto& p : low.prods) if (p.rhs.empty() || p.rhs[0] >= low.nT || p.rhs.back() >= low.nT) return false;
    return true;
}

static void judge(Ctx& c, rg::Gram g) {
    if (!rg::reduce_gram(g)) throw Discard();
    rg::Low low(g);
    rg::LR lalr(low, g.starts, true, 200);
    if (lalr.too_big) throw Discard();
    vector<rg::LR::Conflict> lc = lalr.conflicts();
    bool rr = false, sr = false; for (auto& k : lc) { if (k.shift) sr = true; if (k.reduce.size() > 1) rr = true; }
    if (sr) throw Discard();
    c.note(rg::text(g));
    lib_grammar lg(g);
    lr::lalr_builder b(lg.gram, lg.terms);
    vector<int> initial; for (int st : g.starts) initial.push_back(b.add_initial_state(lg.start(st)));
    b.add_rewriter(lr::action_rewriter_container(new lr::lr1_rewriter(), true));
    b.complete_parser();
    lr::conflict_list found; lr::conflict::find_conflicts(b, found);
    rg::LR canon(low, g.starts, false, 600);
    bool lr1 = !canon.too_big && canon.conflicts().empty();
    if (!rr) { VP_CHECK(found.empty(), "a grammar without conflicts gets some from the resolver"); }
    if (rr) c.label(found.empty() ? (lr1 ? "LR(1) grammar resolved" : "other grammar resolved") : (lr1 ? "LR(1) grammar not resolved" : simple(low, lc) ? "framed grammar not resolved" : "other grammar not resolved"));
    if (!found.empty()) { if (rr && !lr1 && simple(low, lc)) c.nontrivial(rg::text(g)); return; }
    // nothing is reported: the parser must be right
    if (rr && !lr1 && !simple(low, lc)) return;
    map<int,int> ids = lg.identifiers(low);
    lr::parser_tables tables(b, NULL);
    tree_parser p(tables);
    for (int i = 0; i < 10; ++i) {
        size_t si = c.s.below((uint32_t) g.starts.size());
        vector<int> in = rg::gen_input(c.s, low, g.starts[si], g.nT);
        if (in.size() > 60) continue;
        rg::Earley e(low, low.nT + g.starts[si], in);
        c.note("input (N" + to_string(g.starts[si]) + "): " + rg::show_tokens(in));
        outcome o = run_parser(p, initial[si], in);
        VP_CHECK(!o.stuck, "the parser is still running after 20000 steps");
        VP_CHECK(o.accept == e.accepts(), "no conflict is reported, but the parser " << (o.accept ? "accepts" : "rejects") << " the input and the grammar " << (e.accepts() ? "accepts" : "rejects") << " it");
        if (o.accept) {
            int pos = 0; string err = check_tree(o.tree, g.nT + g.starts[si], low, ids, lg.gram, in, pos);
            VP_CHECK(err.empty(), "parse tree: " << err);
            if (rr) c.nontrivial(rg::text(g));
        } else VP_CHECK(o.at == e.viable, "parsing stopped at token " << o.at << ", the first token that cannot continue a sentence is " << e.viable);
    }
}

/// Several nonterminals with a common rule, used in random contexts
static rg::Gram contexts(Ctx& c) {
    rg::Gram g; g.nT = 3 + c.s.below(5); int k = 2 + c.s.below(2); int wrap = c.s.below(3);
    g.nt.resize(1 + k + wrap); g.starts.push_back(0);
    auto rnd = [&](int n) { rg::Rule r; for (int i = 0; i < n; ++i) r.push_back(rg::It(rg::T, c.s.below(g.nT))); return r; };
    vector<rg::Rule> common; int nc = 1 + c.s.below(2); for (int i = 0; i < nc; ++i) common.push_back(rnd(c.s.weighted({1, 6, 2})));
    for (int i = 1; i <= k; ++i) {
        for (auto& r : common) if (c.s.chance(5, 6)) g.nt[i].push_back(r);
        if (c.s.chance(1, 3)) g.nt[i].push_back(rnd(1 + c.s.below(2)));
        if (c.s.chance(1, 4)) { rg::Rule r; r.push_back(rg::It(rg::N, 1 + c.s.below(k + wrap))); if (c.s.chance(1, 2)) r.push_back(rg::It(rg::T, c.s.below(g.nT))); g.nt[i].push_back(r); }
        if (g.nt[i].empty()) g.nt[i].push_back(common[0]);
    }
    for (int w = 0; w < wrap; ++w) {                    // a nonterminal around one of them
        int n = 1 + c.s.below(2);
        for (int i = 0; i < n; ++i) { rg::Rule r; if (c.s.chance(1, 3)) r.push_back(rg::It(rg::T, c.s.below(g.nT))); r.push_back(rg::It(rg::N, 1 + c.s.below(k + w))); if (c.s.chance(1, 3)) r.push_back(rg::It(rg::T, c.s.below(g.nT))); g.nt[1 + k + w].push_back(r); }
    }
    int n = 2 + c.s.below(5);
    for (int i = 0; i < n; ++i) {
        rg::Rule r = rnd(c.s.weighted({1, 6, 1})); r.push_back(rg::It(rg::N, 1 + c.s.below(k + wrap)));
        if (c.s.chance(1, 8)) r.push_back(rg::It(rg::N, 1 + c.s.below(k + wrap)));
        rg::Rule t = rnd(c.s.weighted({1, 6, 1})); r.insert(r.end(), t.begin(), t.end());
        g.nt[0].push_back(r);
    }
    if (c.s.chance(1, 8)) { rg::Rule r; r.push_back(rg::It(rg::N, 0)); rg::Rule t = rnd(1); r.push_back(t[0]); g.nt[0].push_back(r); }
    if (c.s.chance(1, 6)) for (auto& rules : g.nt) for (auto& r : rules) if (!r.empty() && c.s.chance(1, 6)) { rg::It x(c.s.chance(1, 2) ? rg::OPT : rg::REP); size_t at = c.s.below((uint32_t) r.size()); x.r.push_back(rg::Rule(1, r[at])); r[at] = x; }
    return g;
}
/// After each prefix every suffix belongs to one of the nonterminals, so that LR(1) can tell them apart
static rg::Gram designed(Ctx& c) {
    rg::Gram g; int k = 2 + c.s.below(2), P = 2 + c.s.below(3), S = 2 + c.s.below(3), M = 1 + c.s.below(2); int wrap = c.s.below(3);
    g.nT = P + S + M; g.nt.resize(1 + k + wrap); g.starts.push_back(0);
    auto mid = [&](int n) { rg::Rule r; for (int i = 0; i < n; ++i) r.push_back(rg::It(rg::T, P + S + c.s.below(M))); return r; };
    rg::Rule common = mid(c.s.weighted({1, 6, 2, 1}));
    if (c.s.chance(1, 4)) { rg::It x(c.s.chance(1, 2) ? rg::REP : rg::OPT); x.r.push_back(mid(1)); common.push_back(x); }
    for (int i = 1; i <= k; ++i) {
        g.nt[i].push_back(common);
        if (c.s.chance(1, 4)) g.nt[i].push_back(mid(1 + c.s.below(3)));
        if (c.s.chance(1, 6)) { rg::Rule r; r.push_back(rg::It(rg::T, c.s.below(P))); r.push_back(rg::It(rg::N, 1 + c.s.below(k))); r.push_back(rg::It(rg::T, P + c.s.below(S))); g.nt[i].push_back(r); }
    }
    vector<int> top; for (int i = 1; i <= k; ++i) top.push_back(i);
    for (int w = 0; w < wrap; ++w) { rg::Rule r; int of = c.s.below(k); r.push_back(rg::It(rg::N, top[of])); if (c.s.chance(1, 3)) r.push_back(rg::It(rg::T, P + c.s.below(S))); g.nt[1 + k + w].push_back(r); if (c.s.chance(1, 2)) top[of] = 1 + k + w; else top.push_back(1 + k + w); }
    for (int p = 0; p < P; ++p) for (int x = 0; x < S; ++x) if (c.s.chance(3, 4)) {
        rg::Rule r; r.push_back(rg::It(rg::T, p)); if (c.s.chance(1, 8)) r.push_back(rg::It(rg::T, c.s.below(P)));
        r.push_back(rg::It(rg::N, c.s.pick(top))); r.push_back(rg::It(rg::T, P + x)); if (c.s.chance(1, 6)) r.push_back(rg::It(rg::N, c.s.below((uint32_t) g.nt.size()))); g.nt[0].push_back(r);
    }
    if (g.nt[0].empty()) throw Discard();
    return g;
}
/// The same terminals stand for one of several nonterminals: the contexts overlap in some grammars, so that the conflict is real
static rg::Gram framed(Ctx& c) {
    rg::Gram g; int k = 2 + c.s.below(2), P = 1 + c.s.below(3), S = 1 + c.s.below(3); g.nT = P + S + 1; g.nt.resize(1 + k); g.starts.push_back(0);
    rg::Rule common; int n = 1 + c.s.below(3); for (int i = 0; i < n; ++i) common.push_back(rg::It(rg::T, P + S));
    auto frame = [&](int of) { rg::Rule r; int a = c.s.weighted({5, 1}); for (int i = 0; i <= a; ++i) r.push_back(rg::It(rg::T, c.s.below(P))); r.push_back(rg::It(rg::N, of)); int b = c.s.weighted({3, 2}); for (int i = 0; i <= b; ++i) r.push_back(rg::It(rg::T, P + c.s.below(S))); return r; };
    for (int i = 1; i <= k; ++i) { g.nt[i].push_back(common); if (c.s.chance(1, 4)) g.nt[i].push_back(frame(1 + c.s.below(k))); }
    int m = 2 + c.s.below(5); for (int i = 0; i < m; ++i) g.nt[0].push_back(frame(1 + c.s.below(k)));
    return g;
}
static void f_framed(Ctx& c) { judge(c, framed(c)); }
static void f_des(Ctx& c) { judge(c, designed(c)); }
static void f_ctx(Ctx& c) { judge(c, contexts(c)); }
static void f_rand(Ctx& c) { rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 5; o.maxT = 6; judge(c, rg::gen_gram(c.s, o, c.s.chance(1, 2))); }

/// KNOWN_FINDINGS.md, C09: the resolver hides the conflict of this one (ambiguous) grammar: N0 = N2 a | N1; N1 = ; N2 = | N1
static bool hidden_conflict() {
    using namespace rg;
    Gram g; g.nT = 1; g.nt.resize(3); g.starts.push_back(0);
    g.nt[0] = { Rule{ It(N, 2), It(T, 0) }, Rule{ It(N, 1) } }; g.nt[1] = { Rule() }; g.nt[2] = { Rule(), Rule{ It(N, 1) } };
    lib_grammar lg(g);
    lr::lalr_builder b(lg.gram, lg.terms); b.add_initial_state(lg.start(0));
    b.add_rewriter(lr::action_rewriter_container(new lr::lr1_rewriter(), true));
    b.complete_parser();
    lr::conflict_list found; lr::conflict::find_conflicts(b, found);
    return found.empty();
}

int main(int argc, char** argv) {
    if (hidden_conflict()) { printf("KNOWN-FINDING: property=C09 with the LR(1) resolver no conflict is reported for the ambiguous grammar N0 = N2 a | N1; N1 = ; N2 = | N1\n"); fflush(stdout); }
    vector<Facet> f = {
        { "designed", f_des, 60000, 2000000, "grammars in which nonterminals share a rule and each prefix decides which of them a suffix belongs to; LR(1) grammars from which the resolver removes every conflict are run on 10 inputs and compared with an Earley recogniser; non-trivial: the LALR(1) automaton has reduce/reduce conflicts, the grammar is LR(1), the resolver removes the conflicts and an input is accepted", 30 },
        { "contexts", f_ctx, 60000, 2000000, "grammars in which nonterminals share a rule and are told apart by context; for LR(1) grammars in which the resolver leaves no conflict, 10 inputs are compared with an Earley recogniser; non-trivial: the LALR(1) automaton has reduce/reduce conflicts, the resolver removes them all and an input is accepted", 30 },
        { "framed", f_framed, 40000, 1000000, "grammars in which nonterminals share a rule and every nonterminal stands between terminals, LR(1) or not: if the resolver leaves no conflict, 10 inputs are compared with an Earley recogniser; non-trivial: as above, or the grammar is not LR(1) and the resolver leaves the conflict", 30 },
        { "random", f_rand, 20000, 600000, "random grammars, judged the same way", 30 },
    };
    return run_main(argc, argv, "C09", f, { "grammars without shift/reduce conflicts", "that every LR(1) grammar is resolved is not required (the manual says the feature is partial)" });
}

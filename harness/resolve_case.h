// One case of C14 or C15: a random grammar with precedence or conflict attributes, compiled from text, against the reference

#ifndef RESOLVE_CASE_H
#define RESOLVE_CASE_H

#include "lr_resolve.h"

namespace vp {

inline void sprinkle(Src& s, rg::Rule& r, int num, int den) { for (auto& i : r) { if (i.k == rg::T && s.chance(num, den)) i.attr = 1 + s.below(3); for (auto& x : i.r) sprinkle(s, x, num, den); } }

inline void resolve_case(Ctx& c, const rg::gen_opts& o, bool tame, bool usePrec, bool useAttr) {
    rg::Gram g = rg::gen_gram(c.s, o, tame);
    if (usePrec && c.s.chance(1, 2)) {                      // something that looks like operators
        int n = c.s.below((uint32_t) g.nt.size()); int k = 1 + c.s.below(3);
        for (int i = 0; i < k; ++i) { rg::Rule r; int op = c.s.below(g.nT); int how = c.s.below(5); if (how != 1) r.push_back(rg::It(rg::N, n)); if (how == 3) r.push_back(rg::It(rg::N, c.s.below((uint32_t) g.nt.size()))); r.push_back(rg::It(rg::T, op)); if (how != 2) r.push_back(rg::It(rg::N, n)); g.nt[n].push_back(r); }
    }
    if (useAttr) {
        if (c.s.chance(1, 2)) {                             // dangling parts
            int n = c.s.below((uint32_t) g.nt.size()); rg::Rule r; r.push_back(rg::It(rg::T, c.s.below(g.nT))); r.push_back(rg::It(rg::N, n));
            rg::It x(c.s.chance(1, 2) ? rg::OPT : c.s.chance(1, 2) ? rg::REP : rg::REP0); rg::Rule in; in.push_back(rg::It(rg::T, c.s.below(g.nT))); if (c.s.chance(2, 3)) in.push_back(rg::It(rg::N, n)); x.r.push_back(in); r.push_back(x);
            g.nt[n].push_back(r);
        }
        for (auto& n : g.nt) for (auto& r : n) sprinkle(c.s, r, 1, 2);
    }
    g = front(g);
    if (!rg::reduce_gram(g)) throw Discard();
    rg::Low low(g);
    rg::LR lr(low, g.starts, true, 200);
    if (lr.too_big) throw Discard();

    prec pr; std::vector<std::string> T = letters(g.nT); std::string ptext;
    if (usePrec) {
        int levels = 1 + c.s.below(4); std::vector<std::vector<int> > at(levels);
        for (int t = 0; t < g.nT; ++t) if (c.s.chance(4, 5)) at[c.s.below(levels)].push_back(t);
        ptext = "  precedence {\n";
        for (int l = 0; l < levels; ++l) {
            int a = 1 + c.s.weighted({3, 3, 1});
            ptext += std::string("    ") + (a == leftAssoc ? "left" : a == rightAssoc ? "right" : c.s.chance(1, 2) ? "non-associative" : "non-assoc");
            if (at[l].size() == 1 && c.s.chance(1, 2)) ptext += " " + T[at[l][0]] + "\n"; else { ptext += " {"; for (int t : at[l]) ptext += " " + T[t]; ptext += " }\n"; }
            for (int t : at[l]) pr.of[t] = std::make_pair(l, a);
        }
        ptext += "  }\n";
    }
    resolver ref(low, lr);
    if (useAttr) ref.attributes(g);
    ref.build(pr);
    if (ref.rr || ref.unclear) throw Discard();

    std::string kw = "  keywords {"; for (auto& t : T) kw += " " + t; kw += " }\n";
    std::string gt = grammar_text(g, T);
    std::string text = "language L {\n" + kw + (c.s.chance(1, 2) ? ptext + gt : gt + ptext) + "}\n";
    c.note(text);
    lang_build b(text);
    std::vector<std::wstring> starts; for (int s : g.starts) starts.push_back(L"<N" + std::to_wstring(s) + L">");
    bool ok = b.tables(L"L", starts);
    VP_CHECK(ok, "the language does not compile:" << b.report());
    int got = b.count("CONFLICT_SHIFT_REDUCE");
    VP_CHECK(b.count("CONFLICT_REDUCE_REDUCE") == 0, "a reduce/reduce conflict is reported:" << b.report());
    VP_CHECK(got == ref.residual, got << " unresolved conflicts are reported, there should be " << ref.residual << ":" << b.report());

    std::string key = text;
    int relevant = (usePrec ? ref.byPrec + ref.nonUsed : 0) + (useAttr ? ref.byAttr : 0);
    if (ref.leftUsed) c.label("left"); if (ref.rightUsed) c.label("right"); if (ref.higherUsed) c.label("shift by precedence"); if (ref.lowerUsed) c.label("reduce by precedence"); if (ref.nonUsed) c.label("non-associative");
    if (ref.attrUsed[1]) c.label("[shift]"); if (ref.attrUsed[2]) c.label("[reduce]"); if (ref.attrUsed[3]) c.label("[weak reduce]"); if (ref.residual) c.label("unresolved conflicts");

    lang_map m(b, g, wide(T), nt_names(g.nt.size()));
    m.symbols(low);
    tree_parser p(*b.lr->get_tables());
    for (int i = 0; i < 8; ++i) {
        size_t si = c.s.below((uint32_t) g.starts.size());
        std::vector<int> in = rg::gen_input(c.s, low, g.starts[si], g.nT);
        if (in.size() > 120) continue;
        rg::LR::Trace t = ref.run((int) si, in);
        if (t.stuck) continue;
        c.note("input (N" + std::to_string(g.starts[si]) + "): " + rg::show_tokens(in));
        outcome o = run_parser(p, (int) si, m.tokens(in));
        VP_CHECK(!o.stuck, "the parser is still running after 20000 steps");
        VP_CHECK(o.accept == t.accept, "the parser " << (o.accept ? "accepts" : "rejects") << ", it should " << (t.accept ? "accept" : "reject"));
        VP_CHECK(o.accept || o.at == t.shifted, "parsing stopped at token " << o.at << " instead of token " << t.shifted);
        if (o.accept) {
            std::vector<int> reds, toks; m.walk(o.tree, low, reds, toks);
            VP_CHECK(toks == in, "the parse tree does not cover the input");
            if (reds != t.reductions) {
                std::string msg = "the parse tree is not the one asked for; reductions made:"; for (int p2 : reds) msg += "\n  " + low.show(low.prods[p2]); msg += "\nreductions that should be made:"; for (int p2 : t.reductions) msg += "\n  " + low.show(low.prods[p2]);
                c.fail(msg);
            }
            if (relevant && in.size() > 2) c.nontrivial(key);
        }
    }
}

}

#endif

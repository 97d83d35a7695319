// C11: a weak token is taken as itself where the grammar wants it, and as its stronger equivalent everywhere else.

#include "vp.h"
#include "lr_ext.h"

using namespace std;
using namespace vp;

static void gen_weak(Src& s, rg::Gram& g, ext_opts& eo) {
    eo.strong.assign(g.nT, -1);
    int n = 1 + s.below(g.nT > 2 ? 2 : 1), strongTok = s.below(g.nT);
    for (int i = 0; i < n; ++i) { int w = s.below(g.nT); if (w != strongTok && eo.strong[w] < 0) eo.strong[w] = strongTok; if (s.chance(1, 3)) { strongTok = s.below(g.nT); if (eo.strong[strongTok] >= 0) break; } }
    for (int t = 0; t < g.nT; ++t) if (eo.strong[t] >= 0 && eo.strong[eo.strong[t]] >= 0) eo.strong[t] = -1;
    bool any = false; for (int t : eo.strong) if (t >= 0) any = true;
    if (!any) throw Discard();
}
static void finish(Ctx& c, const rg::Gram& g, const ext_stats& r) {
    c.label("weak tokens taken as themselves", r.asWeak); c.label("weak tokens taken as the strong one", r.asStrong); c.label("accepted inputs", r.acc);
    if (r.asWeak && r.asStrong && r.acc) c.nontrivial(rg::text(g) + r.key);
}

static void f_random(Ctx& c) {
    rg::gen_opts o; o.ebnf = c.s.below(3); o.maxNT = 4; o.maxT = 5; o.empties = c.s.chance(1, 2);
    rg::Gram g = rg::gen_gram(c.s, o, c.s.chance(3, 4));
    if (!rg::reduce_gram(g) || g.nT < 2) throw Discard();
    ext_opts eo; gen_weak(c.s, g, eo);
    finish(c, g, compare_ext(c, g, eo));
}
static void f_context(Ctx& c) {
    // a list of statements that start with a weak token, or with an expression that uses the strong one
    auto T = [](int i) { return rg::It(rg::T, i); };
    rg::Gram g; g.nT = 5; g.nt.resize(3); g.starts.assign(1, 0);
    // 0 strong, 1..2 weak, 3..4 other
    auto any = [&]() { int k = c.s.weighted({3, 2, 2, 2, 2, 2}); return k == 5 ? rg::It(rg::N, 2) : T(k); };
    rg::It list(c.s.chance(1, 2) ? rg::REP : rg::REP0); list.r.push_back({ rg::It(rg::N, 1) });
    g.nt[0].push_back({ list }); if (c.s.chance(1, 2)) g.nt[0][0].push_back(T(3 + c.s.below(2)));
    int n = 1 + c.s.below(4);
    for (int i = 0; i < n; ++i) { rg::Rule r; r.push_back(any()); int m = c.s.below(4); for (int k = 0; k < m; ++k) r.push_back(any()); g.nt[1].push_back(r); }
    g.nt[2].push_back({ T(0) }); if (c.s.chance(1, 2)) g.nt[2].push_back({ rg::It(rg::N, 2), T(3 + c.s.below(2)), T(0) }); if (c.s.chance(1, 3)) g.nt[2].push_back({ }); if (c.s.chance(1, 3)) g.nt[2].push_back({ T(3), rg::It(rg::N, 2) }); if (c.s.chance(1, 3)) g.nt[2].push_back({ T(1) });
    if (!rg::reduce_gram(g)) throw Discard();
    ext_opts eo; eo.strong = { -1, 0, c.s.chance(3, 4) ? 0 : 3, -1, -1 };
    finish(c, g, compare_ext(c, g, eo));
}
static void f_guards(Ctx& c) {
    rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 3; o.maxT = 4; o.empties = c.s.chance(1, 3);
    rg::Gram g = rg::gen_gram(c.s, o, c.s.chance(3, 4));
    if (!rg::reduce_gram(g) || g.nT < 2) throw Discard();
    add_guards(c.s, g, c.s.chance(1, 3));
    ext_opts eo; eo.nested = true; gen_weak(c.s, g, eo);
    ext_stats r = compare_ext(c, g, eo);
    c.label("guards matched", r.matched); c.label("guards not matched", r.failed);
    finish(c, g, r);
}

static void f_conflicts(Ctx& c) {
    rg::Gram g; ext_opts eo; eo.conflicts = true;
    if (c.s.chance(1, 3)) {
        // statements with an optional last part that starts with a weak token
        auto T = [](int i) { return rg::It(rg::T, i); }; auto N = [](int i) { return rg::It(rg::N, i); };
        g.nT = 4; g.nt.resize(2); g.starts.assign(1, 0);            // 0 strong, 1 and 2 weak, 3 other
        rg::It list(c.s.chance(1, 2) ? rg::REP : rg::REP0); list.r.push_back({ N(1) }); g.nt[0].push_back({ list });
        rg::It opt(c.s.chance(1, 2) ? rg::OPT : c.s.chance(1, 2) ? rg::REP : rg::REP0); opt.r.push_back({ T(2), N(1) });
        g.nt[1].push_back({ T(1), T(0), N(1), opt }); g.nt[1].push_back({ T(0), T(3) }); if (c.s.chance(1, 2)) g.nt[1].push_back({ T(3), N(1), T(2) });
        eo.strong = { -1, 0, 0, -1 };
    } else {
        rg::gen_opts o; o.ebnf = c.s.below(3); o.maxNT = 4; o.maxT = 5; o.empties = c.s.chance(1, 3);
        g = rg::gen_gram(c.s, o, c.s.chance(1, 4));
        if (!rg::reduce_gram(g) || g.nT < 2) throw Discard();
        gen_weak(c.s, g, eo);
    }
    finish(c, g, compare_ext(c, g, eo));
}

static void f_deep(Ctx& c) {
    // much to reduce before a weak token, which may turn out not to belong there
    auto T = [](int i) { return rg::It(rg::T, i); }; auto N = [](int i) { return rg::It(rg::N, i); };
    rg::Gram g; g.nT = 5; g.nt.resize(2); g.starts.assign(1, 0);            // 0 strong, 1 weak, 2 3 4 others
    int levels = 1 + c.s.below(3); g.nt.resize(1 + levels);
    g.nt[0].push_back({ T(3), N(1), T(4) }); if (c.s.chance(3, 4)) g.nt[0].push_back({ N(1), T(1) }); if (c.s.chance(3, 4)) g.nt[0].push_back({ N(1), T(0) }); if (c.s.chance(1, 2)) g.nt[0].push_back({ T(4), N(1) });
    for (int i = 1; i <= levels; ++i) {
        if (i < levels) { g.nt[i].push_back({ N(i + 1) }); if (c.s.chance(2, 3)) g.nt[i].push_back({ N(i + 1), T(2), N(i) }); continue; }
        g.nt[i].push_back({ T(0) }); if (c.s.chance(1, 3)) g.nt[i].push_back({ T(1), N(i) }); if (c.s.chance(2, 3) || levels == 1) g.nt[i].push_back({ T(0), T(2), N(1 + c.s.below(levels)) }); if (c.s.chance(1, 4)) g.nt[i].push_back({ T(3), N(1), T(4) });
    }
    if (!rg::reduce_gram(g) || g.nt.size() < 2) throw Discard();
    ext_opts eo; eo.strong = { -1, 0, -1, -1, -1 }; eo.make = [&]() {
        vector<int> in; int n = 10 + c.s.below(80); if (c.s.chance(2, 3)) in.push_back(3); for (int i = 0; i < n; ++i) { in.push_back(c.s.chance(1, 12) ? 1 : 0); in.push_back(c.s.chance(1, 40) ? 3 : 2); } in.push_back(0); int e = c.s.below(4); for (int i = 0; i < e; ++i) in.push_back(c.s.below(5)); return in;
    };
    finish(c, g, compare_ext(c, g, eo));
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "random", f_random, 150000, 4000000, "random conflict-free grammar, random weak tokens; the reference parser takes a weak token as itself if that leads to it being shifted and as its strong token otherwise; reductions and shifted tokens are compared; non-trivial: weak tokens were taken both ways and an input was accepted", 20 },
        { "context", f_context, 120000, 3000000, "lists of statements that mix weak tokens, their strong tokens and optional expressions; non-trivial as above", 20 },
        { "guards", f_guards, 120000, 3000000, "the same with guards (nested ones too) in the grammar, under AddressSanitizer; non-trivial as above", 20 },
        { "deep", f_deep, 8000, 200000, "long right-recursive inputs with a weak token at the end, so that there is much to reduce when it turns up; the same comparison; non-trivial as above", 10 },
        { "conflicts", f_conflicts, 80000, 2000000, "grammars with shift/reduce conflicts (and reduce/reduce ones, for the reports only): the conflicts found are those of the grammar, and a token is shifted where it can be shifted or reduced; non-trivial as above", 20 },
    };
    return run_main(argc, argv, "C11", f, { "every weak token has one strong token", "inputs where two guards apply at once, or where a guard for the strong token competes with the weak token, are not judged", "with conflicts, inputs where the strong token could be shifted or reduced and the weak one reduced are not judged" });
}

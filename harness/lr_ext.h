// Grammars with guards, weak tokens and ignored tokens: the reference parser, and the comparison with the parser of the library

#ifndef LR_EXT_H
#define LR_EXT_H

#include "lr_lib.h"
#include "TameParse/Lr/weak_symbols.h"
#include "TameParse/Lr/ignored_symbols.h"

namespace vp {

using namespace std;

/// The grammar with its guards turned into terminals nT, nT+1... and their productions into extra start nonterminals
struct split {
    rg::Gram g; int nT; vector<rg::Rule> bodies; map<string,int> ids; int nNT;
    explicit split(const rg::Gram& src) : nT(src.nT), nNT((int) src.nt.size()) {
        g.nT = src.nT; g.nt.resize(src.nt.size()); g.starts = src.starts;
        for (size_t i = 0; i < src.nt.size(); ++i) for (auto& r : src.nt[i]) g.nt[i].push_back(conv(r));
        vector<vector<rg::Rule> > body;
        for (size_t i = 0; i < bodies.size(); ++i) body.push_back(vector<rg::Rule>(1, conv(bodies[i])));      // bodies can grow while this runs
        for (size_t i = 0; i < body.size(); ++i) { g.starts.push_back((int) g.nt.size()); g.nt.push_back(body[i]); }
        g.nT = nT + (int) bodies.size();
    }
    rg::Rule conv(const rg::Rule& r) { rg::Rule o; for (auto& i : r) o.push_back(conv(i)); return o; }
    rg::It conv(const rg::It& i) {
        if (i.k == rg::GUARD) { string k = rg::text(i); auto f = ids.find(k); if (f == ids.end()) { f = ids.insert(make_pair(k, (int) bodies.size())).first; bodies.push_back(i.r[0]); } return rg::It(rg::T, nT + f->second); }
        rg::It o(i.k, i.id); for (auto& r : i.r) o.r.push_back(conv(r)); return o;
    }
    rg::Rule back(const rg::Rule& r) const { rg::Rule o; for (auto& i : r) o.push_back(back(i)); return o; }
    rg::It back(const rg::It& i) const {
        if (i.k == rg::T && i.id >= nT) { rg::It o(rg::GUARD); o.r.push_back(bodies[i.id - nT]); return o; }
        rg::It o(i.k, i.id); for (auto& r : i.r) o.r.push_back(back(r)); return o;
    }
};

struct ref_run {
    const rg::Low& low; const rg::LR& lr; int nT; int nG; int firstGuardStart; bool nested;
    const vector<int>& in;
    vector<int> strong; set<int> ignored;                  // strong[t]: what the weak token t also is, or -1
    vector<pair<int,int> > leaves;                          // what was shifted at the top level: token as shifted, position
    int asWeak, asStrong, skipped;
    bool conflicts; bool ambiguous, stuck; int matched, failed, depth, unusable; long work;
    ref_run(const rg::Low& l, const rg::LR& r, int nt, int ng, int fgs, bool nest, const vector<int>& i) : low(l), lr(r), nT(nt), nG(ng), firstGuardStart(fgs), nested(nest), in(i), strong(nt, -1), asWeak(0), asStrong(0), skipped(0), conflicts(false), ambiguous(false), stuck(false), matched(0), failed(0), depth(0), unusable(0), work(0) { }

    // FIRST tokens of a guard, through guards that it starts with
    bool can_start(int gd, int tok, int fuel = 10) const {
        int body = low.nT + lr.starts[firstGuardStart + gd];
        for (int t : low.first[body]) { if (t == tok) return true; if (t >= nT && fuel && can_start(t - nT, tok, fuel - 1)) return true; }
        return false;
    }
    bool reduces_to_shift(vector<int> st, int tok, vector<int>& out, vector<int>& reds) const {
        for (int n = 0; n < 2000; ++n) {
            auto sh = lr.trans[st.back()].find(tok);
            if (sh != lr.trans[st.back()].end()) { st.push_back(sh->second); out = st; return true; }
            set<int> r = lr.reductions(st.back(), tok); if (r.empty() || *r.begin() < 0) return false;
            int p = *r.begin(); reds.push_back(p); st.resize(st.size() - low.prods[p].rhs.size()); st.push_back(lr.trans[st.back()].at(low.prods[p].lhs));
        }
        return false;
    }
    /// A conflict of the strong token where the weak one has something to do as well: which of the two counts is not specified
    bool contested(const vector<int>& start, int tok) const {
        if (tok >= nT || strong[tok] < 0) return false;
        for (int as : { tok, strong[tok] }) {
            vector<int> st = start;
            for (int n = 0; n < 200; ++n) {
                int s = st.back(), b = strong[tok]; bool own = lr.trans[s].count(tok);
                if (!own && !lr.reductions(s, tok).empty() && lr.trans[s].count(b) && !lr.reductions(s, b).empty()) return true;
                if (lr.trans[s].count(as)) break;
                set<int> r = lr.reductions(s, as); if (r.empty() || *r.begin() < 0) break;
                st.resize(st.size() - low.prods[*r.begin()].rhs.size()); st.push_back(lr.trans[st.back()].at(low.prods[*r.begin()].lhs));
            }
        }
        return false;
    }
    bool matches(int gd, size_t pos) {
        if (!nested) {
            rg::Earley e(low, low.nT + lr.starts[firstGuardStart + gd], vector<int>(in.begin() + pos, in.end()));
            for (char c : e.sentence) if (c) return true;
            return false;
        }
        if (++depth > 60) { stuck = true; --depth; return false; }
        bool ok = false; vector<int> st(1, firstGuardStart + gd), reds;
        size_t p = pos;
        for (int n = 0; ; ++n) {
            if (n > 2000) { stuck = true; break; }
            // the end of the guard comes as soon as it can
            { vector<int> s2 = st; bool acc = false; for (int k = 0; k < 2000; ++k) { set<int> r = lr.reductions(s2.back(), low.nT); if (r.empty()) break; int q = *r.begin(); if (q < 0) { acc = q == -1 - (firstGuardStart + gd); break; } s2.resize(s2.size() - low.prods[q].rhs.size()); s2.push_back(lr.trans[s2.back()].at(low.prods[q].lhs)); } if (acc) { ok = true; break; } }
            int r = step(st, p, reds, true);
            if (r != 0) break;
            if (ambiguous || stuck) break;
        }
        --depth;
        return ok;
    }
    /// One action: 0 more, 1 accept, 2 reject
    int step(vector<int>& st, size_t& pos, vector<int>& reds, bool inGuard) {
        int tok = pos < in.size() ? in[pos] : low.nT;
        if (++work > 4000) { stuck = true; return 2; }       // guards that look ahead through guards cost exponential time
        vector<int> o2, r2;
        bool viable = tok >= nT || reduces_to_shift(st, tok, o2, r2);
        if (conflicts && contested(st, tok)) { ambiguous = true; return 2; }
        if (tok < nT) {
            int used = -1; vector<int> next, nextReds; bool viaStrong = false;
            for (int gd = 0; gd < nG; ++gd) {
                int gt = nT + gd;
                bool has = lr.trans[st.back()].count(gt) || !lr.reductions(st.back(), gt).empty();
                if (!has) continue;
                bool direct = can_start(gd, tok);
                if (!direct && !(strong[tok] >= 0 && can_start(gd, strong[tok]))) continue;
                bool m = matches(gd, pos);
                if (ambiguous || stuck) return 2;
                if (!m) { ++failed; continue; }
                vector<int> o, rd;
                if (!reduces_to_shift(st, gt, o, rd)) { ++unusable; continue; }
                ++matched;
                if (used >= 0) { ambiguous = true; return 2; }
                used = gd; next = o; nextReds = rd; viaStrong = !direct;
            }
            // a guard for what the weak token stands for, where the weak token itself is wanted
            if (used >= 0 && viaStrong && viable) { ambiguous = true; return 2; }
            if (used >= 0) { st = next; reds.insert(reds.end(), nextReds.begin(), nextReds.end()); if (!inGuard) leaves.push_back(make_pair(tok, (int) pos)); return 0; }
        }
        int as = tok;
        if (!viable && strong[tok] >= 0) as = strong[tok];
        if (!viable && ignored.count(tok)) { ++pos; ++skipped; return 0; }
        if (as < low.nT) {
            auto sh = lr.trans[st.back()].find(as);
            if (sh != lr.trans[st.back()].end()) {
                if (!inGuard) { leaves.push_back(make_pair(as, (int) pos)); if (as != tok) ++asStrong; else if (strong[tok] >= 0) ++asWeak; }
                st.push_back(sh->second); ++pos; return 0;
            }
        } else if (inGuard) return 2;
        set<int> r = lr.reductions(st.back(), as);
        if (r.empty()) return 2;
        int p = *r.begin();
        if (p < 0) return 1;
        reds.push_back(p); st.resize(st.size() - low.prods[p].rhs.size()); st.push_back(lr.trans[st.back()].at(low.prods[p].lhs));
        return 0;
    }
};

inline rg::Rule prefix_of(const rg::Rule& r, size_t n) { rg::Rule o; for (auto& i : r) { if (o.size() >= n || i.k == rg::GUARD) break; o.push_back(i); } return o; }

inline void add_guards(Src& s, rg::Gram& g, bool nested) {
    int nN = (int) g.nt.size();
    rg::gen_opts o; o.ebnf = 0; o.empties = false; o.maxLen = 3;
    int n = 1 + s.below(3);
    for (int i = 0; i < n; ++i) {
        int w = s.below(nN); auto& rules = g.nt[w]; size_t k = s.below((uint32_t) rules.size());
        rg::It gd(rg::GUARD);
        rg::Rule body = prefix_of(rules[k], 1 + s.below(3));
        if (body.empty() || s.chance(1, 2)) body = rg::gen_rule(s, o, g.nT, nN, s.chance(1, 4) ? 1 : 0, false);
        gd.r.push_back(body);
        rg::Rule plain = rules[k];
        size_t at = s.chance(1, 4) ? s.below((uint32_t) plain.size() + 1) : 0;
        rules[k].insert(rules[k].begin() + at, gd);
        // an unguarded rule that starts the same way
        if (s.chance(1, 2)) { rg::Rule r = prefix_of(plain, s.below(3)); r.push_back(rg::It(rg::T, s.below(g.nT))); if (s.chance(1, 2)) r.push_back(rg::It(rg::N, s.below(nN))); rules.push_back(r); }
    }
    if (nested) for (auto& rules : g.nt) for (auto& r : rules) for (auto& i : r) if (i.k == rg::GUARD && s.chance(1, 2)) { rg::It gd(rg::GUARD); gd.r.push_back(rg::gen_rule(s, o, g.nT, nN, 0, false)); i.r[0].insert(i.r[0].begin() + s.below((uint32_t) i.r[0].size() + 1), gd); }
}
inline bool has_guard(const rg::Rule& r) { for (auto& i : r) { if (i.k == rg::GUARD) return true; for (auto& x : i.r) if (has_guard(x)) return true; } return false; }
inline bool has_guards(const rg::Gram& g) { for (auto& rules : g.nt) for (auto& r : rules) if (has_guard(r)) return true; return false; }

inline string show_leaves(const vector<pair<int,int> >& v) { string o; for (auto& x : v) o += VP_STR(" " << (char)('a' + x.first) << "@" << x.second); return o; }

inline string show_set(const multiset<int>& v) { string o; for (int x : v) o += string(" ") + (char)('a' + x); return o; }

struct ext_opts { bool nested, conflicts; vector<int> strong; set<int> ignored; function<vector<int>()> make; ext_opts() : nested(false), conflicts(false) { } };
struct ext_stats { int matched, failed, acc, asWeak, asStrong, skipped, inputs; string key; ext_stats() : matched(0), failed(0), acc(0), asWeak(0), asStrong(0), skipped(0), inputs(0) { } };

/// Builds the parser with the library and compares it with the reference on random inputs
inline ext_stats compare_ext(Ctx& c, const rg::Gram& g, const ext_opts& eo) {
    bool nested = eo.nested; ext_stats stats;
    vector<int> strong = eo.strong; strong.resize(g.nT, -1);
    c.note(rg::text(g));
    split sp(g);
    if (sp.bodies.size() > 8 || sp.g.nT > 24) throw Discard();
    if (!nested) {
        // guards whose productions use guards are the business of the nested facet
        rg::Low l0(sp.g); vector<int> todo; set<int> seen;
        for (size_t i = 0; i < sp.bodies.size(); ++i) { int b = l0.nT + sp.nNT + (int) i; todo.push_back(b); seen.insert(b); }
        while (!todo.empty()) { int s = todo.back(); todo.pop_back(); for (int p : l0.by[s]) for (int x : l0.prods[p].rhs) { if (x >= sp.nT && x < l0.nT) throw Discard(); if (x >= l0.nT && seen.insert(x).second) todo.push_back(x); } }
    }
    rg::Low low(sp.g);
    if (low.cyclic()) throw Discard();
    for (int s = low.nT; s < low.nSym; ++s) if (!low.productive[s]) throw Discard();
    int firstGuardStart = (int) g.starts.size();
    for (size_t i = 0; i < sp.bodies.size(); ++i) if (low.nullable[low.nT + sp.nNT + i]) throw Discard();
    {   // a guard that can start with itself has no meaning (the source calls such a grammar invalid)
        int n = (int) sp.bodies.size(); vector<vector<char> > m(n, vector<char>(n, 0));
        for (int i = 0; i < n; ++i) for (int t : low.first[low.nT + sp.nNT + i]) if (t >= sp.nT && t < low.nT) m[i][t - sp.nT] = 1;
        for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (m[i][k] && m[k][j]) m[i][j] = 1;
        for (int i = 0; i < n; ++i) if (m[i][i]) throw Discard();
    }
    rg::LR lr(low, sp.g.starts, true, 250);
    if (lr.too_big || (!lr.conflicts().empty() && !eo.conflicts)) throw Discard();

    lib_grammar lg(g);
    lr::lalr_builder b(lg.gram, lg.terms);
    vector<int> initial; for (int st : g.starts) initial.push_back(b.add_initial_state(lg.start(st)));
    bool anyWeak = false; for (int t : strong) if (t >= 0) anyWeak = true;
    lr::weak_symbols weak(&lg.gram);
    if (anyWeak) {
        string txt; for (size_t t = 0; t < strong.size(); ++t) if (strong[t] >= 0) {
            txt += VP_STR(" " << (char)('a' + t) << "=" << (char)('a' + strong[t]));
            contextfree::item_set ws(lg.gram); ws.insert(contextfree::item_container(new contextfree::terminal((int) t), true));
            weak.add_symbols(contextfree::item_container(new contextfree::terminal(strong[t]), true), ws);
        }
        c.note("weak:" + txt);
        b.add_rewriter(lr::action_rewriter_container(new lr::weak_symbols(weak), true));
    }
    if (!eo.ignored.empty()) {
        string txt; lr::ignored_symbols* ig = new lr::ignored_symbols();
        for (int t : eo.ignored) { ig->add_item(contextfree::item_container(new contextfree::terminal(t), true)); txt += VP_STR(" " << (char)('a' + t)); }
        c.note("ignored:" + txt);
        b.add_rewriter(lr::action_rewriter_container(ig, true));
    }
    b.complete_parser();
    lr::conflict_list found; lr::conflict::find_conflicts(b, found);
    {   // the conflicts are those of the grammar, whatever stands for what
        multiset<int> want, got; bool rr = false; for (auto& k : lr.conflicts()) { want.insert(k.token); if (k.reduce.size() > 1) rr = true; }
        for (auto& k : found) got.insert(k->token()->type() == contextfree::item::terminal ? k->token()->symbol() : low.nT);
        if (want.empty()) VP_CHECK(found.empty(), found.size() << " conflicts reported for a grammar that has none");
        if (want.count(low.nT)) throw Discard();
        VP_CHECK(want == got, "conflicts are reported on" << show_set(got) << " instead of" << show_set(want));
        if (rr) { c.label("reduce/reduce conflicts"); return stats; }
    }
    // the tables themselves, or ones they were assigned to: those of a grammar with a number of items of its own
    lr::parser_tables built(b, anyWeak ? &weak : NULL); unique_ptr<lr::parser_tables> assigned;
    if (c.s.chance(1, 4)) {
        rg::Gram h; h.nT = 2; h.nt.resize(2); h.nt[0].push_back({ rg::It(rg::T, 0), rg::It(rg::N, 1) }); h.nt[1].push_back({ rg::It(rg::T, 1) }); h.starts.push_back(0);
        lib_grammar lh(h); lr::lalr_builder b2(lh.gram, lh.terms); b2.add_initial_state(lh.start(0)); b2.complete_parser();
        assigned.reset(new lr::parser_tables(b2, NULL)); *assigned = built; c.note("tables assigned to others");
    }
    const lr::parser_tables& tables = assigned ? *assigned : built;
    tree_parser p(tables);
    map<int,int> ids; for (int s = low.nT; s < low.nSym; ++s) { rg::It it = sp.back(low.items[s - low.nT]); if (it.k == rg::N && it.id >= sp.nNT) continue; ids[lg.gram.identifier_for_item(lg.item(it))] = s; }
    for (size_t i = 0; i < sp.bodies.size(); ++i) { rg::It gd(rg::GUARD); gd.r.push_back(sp.bodies[i]); ids[lg.gram.identifier_for_item(lg.item(gd))] = sp.nT + (int) i; }

    // sentences for inputs come from the grammar with the guards left out
    rg::Gram bare = sp.g; function<void(rg::Rule&)> strip = [&](rg::Rule& r) { rg::Rule o; for (auto& i : r) { if (i.k == rg::T && i.id >= sp.nT) continue; for (auto& x : i.r) strip(x); o.push_back(i); } r = o; };
    for (auto& rules : bare.nt) for (auto& r : rules) strip(r);
    rg::Low lowBare(bare);
    for (int i = 0; i < 8; ++i) {
        size_t si = c.s.below((uint32_t) g.starts.size());
        vector<int> in = eo.make ? eo.make() : rg::gen_input(c.s, lowBare, g.starts[si], sp.nT);
        for (int t : in) if (t >= sp.nT) throw Discard();
        // weak tokens in place of their strong ones and the other way round, ignored tokens anywhere
        if (anyWeak) for (int& t : in) { vector<int> alt; if (strong[t] >= 0) alt.push_back(strong[t]); for (size_t w = 0; w < strong.size(); ++w) if (strong[w] == t) alt.push_back((int) w); if (!alt.empty() && c.s.chance(2, 5)) t = c.s.pick(alt); }
        if (!eo.ignored.empty()) { vector<int> ig(eo.ignored.begin(), eo.ignored.end()), out; for (size_t k = 0; k <= in.size(); ++k) { while (c.s.chance(1, 4)) out.push_back(c.s.pick(ig)); if (k < in.size()) out.push_back(in[k]); } in = out; }
        if (in.size() > 60 && !eo.make) continue;
        ref_run ref(low, lr, sp.nT, (int) sp.bodies.size(), firstGuardStart, nested, in); ref.strong = strong; ref.ignored = eo.ignored; ref.conflicts = eo.conflicts;
        vector<int> st(1, (int) si), reds; size_t pos = 0; int r = 0; int steps = 0;
        while ((r = ref.step(st, pos, reds, false)) == 0) if (++steps > 3000) { ref.stuck = true; break; }
        if (!nested && !eo.conflicts && !ref.stuck && !ref.ambiguous) {
            // the parser tries guards inside guards even where they cannot be wanted: leave out inputs where that takes exponential time
            ref_run ahead(low, lr, sp.nT, (int) sp.bodies.size(), firstGuardStart, true, in); ahead.strong = strong; ahead.ignored = eo.ignored;
            vector<int> st2(1, (int) si), reds2; size_t pos2 = 0; int r2 = 0;
            while ((r2 = ahead.step(st2, pos2, reds2, false)) == 0) ;
            if (ahead.stuck) ref.stuck = true;
            else if (!ahead.ambiguous && (r2 != r || reds2 != reds)) { c.note("references disagree on " + rg::show_tokens(in)); VP_CHECK(false, "internal: the two reference models of guards disagree"); }
        }
        if (ref.stuck) { c.label("endless guards"); continue; }
        if (ref.ambiguous) { c.label(eo.conflicts ? "not specified" : "two guards at once"); continue; }
        c.note("input (N" + to_string(g.starts[si]) + "): " + rg::show_tokens(in));
        stats.matched += ref.matched; stats.failed += ref.failed; stats.asWeak += ref.asWeak; stats.asStrong += ref.asStrong; stats.skipped += ref.skipped; ++stats.inputs;
        if (ref.unusable) c.label("matched but not wanted here");
        outcome o = run_parser(p, initial[si], in);
        VP_CHECK(!o.stuck, "the parser is still running after 20000 steps");
        VP_CHECK(o.accept == (r == 1), "the parser " << (o.accept ? "accepts" : "rejects") << " an input that should be " << (r == 1 ? "accepted" : "rejected"));
        VP_CHECK(o.accept || o.at == (int) pos, "parsing stopped at token " << o.at << " instead of token " << pos);
        if (o.accept) {
            ++stats.acc;
            vector<int> red; string bad; vector<pair<int,int> > leaves;
            function<void(const pnode_p&)> walk = [&](const pnode_p& n) {
                if (n->term) { leaves.push_back(make_pair(n->id, n->token)); return; }
                for (auto& k : n->kids) walk(k);
                const contextfree::rule& rr = *lg.gram.rule_with_identifier(n->rule); vector<int> rhs;
                if (rr.items().size() != n->kids.size()) bad = "wrong number of items";
                for (auto& x : rr.items()) { if (x->type() == contextfree::item::terminal) rhs.push_back(x->symbol()); else { auto f = ids.find(lg.gram.identifier_for_item(x)); rhs.push_back(f == ids.end() ? -1 : f->second); } }
                auto f = ids.find(n->id); int lhs = f == ids.end() ? -1 : f->second; int q = -1;
                if (lhs >= low.nT) for (int k : low.by[lhs]) if (low.prods[k].rhs == rhs) q = k;
                if (q < 0) bad = "a reduction that is not a rule of the grammar"; red.push_back(q);
            };
            walk(o.tree);
            VP_CHECK(bad.empty(), bad);
            VP_CHECK(red == reds, "the reductions are not the ones of the reference parser");
            VP_CHECK(leaves == ref.leaves, "the tokens in the parse tree are not the ones the reference parser shifts: " << show_leaves(leaves) << " instead of " << show_leaves(ref.leaves));
            if (in.size() > 1) stats.key += rg::show_tokens(in) + ";";
        }
    }
    return stats;
}

}

#endif

// Reference treatment of context-free grammars with EBNF operators, written independently of the code under test:
// grammars as plain data, their expansion to BNF, nullable/FIRST/FOLLOW, an Earley recogniser, canonical LR(1) and
// LALR(1) automata, and generators of grammars and sentences.

#ifndef GRAM_UTIL_H
#define GRAM_UTIL_H

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "vp.h"

namespace rg {

enum kind { T, N, OPT, REP, REP0, ALT, GUARD };

struct It;
typedef std::vector<It> Rule;

struct It {
    int k; int id;
    std::vector<Rule> r;
    int attr;                                           // how a conflict is resolved: 0 not said, 1 shift, 2 reduce, 3 weak reduce
    It(int kk = T, int i = 0) : k(kk), id(i), attr(0) { }
};

struct Gram {
    int nT;
    std::vector<std::vector<Rule> > nt;                 // rules of each nonterminal
    std::vector<int> starts;
};

inline std::string text(const It& i);
inline std::string text(const Rule& r) { std::string o; for (size_t i = 0; i < r.size(); ++i) o += (i ? " " : "") + text(r[i]); return o; }
inline std::string text(const It& i) {
    switch (i.k) {
        case T: return std::string(1, (char)('a' + i.id));
        case N: return std::string("N") + std::to_string(i.id);
        case OPT: return "(" + text(i.r[0]) + ")?";
        case REP: return "(" + text(i.r[0]) + ")+";
        case REP0: return "(" + text(i.r[0]) + ")*";
        case GUARD: return "[=> " + text(i.r[0]) + "]";
        default: { std::string o = "("; for (size_t k = 0; k < i.r.size(); ++k) o += (k ? " | " : "") + text(i.r[k]); return o + ")"; }
    }
}
inline std::string text(const Gram& g) {
    std::string o;
    for (size_t i = 0; i < g.nt.size(); ++i) { o += "N" + std::to_string(i) + " ="; for (size_t k = 0; k < g.nt[i].size(); ++k) o += (k ? " | " : " ") + text(g.nt[i][k]); o += "; "; }
    o += "start"; for (int s : g.starts) o += " N" + std::to_string(s);
    return o;
}

// ---------------------------------------------------------------- expansion to BNF

struct Prod { int lhs; std::vector<int> rhs; };

/// Symbols: 0..nT-1 are terminals, then the nonterminals of the grammar, then one for each distinct EBNF item.
/// Guards become nonterminals of their own with no productions here: they are only used where guards are excluded.
struct Low {
    int nT, nSym;
    std::vector<Prod> prods;
    std::vector<std::vector<int> > by;                  // productions of symbol s
    std::map<std::string, int> ids;
    std::vector<It> items;                              // what each nonterminal stands for
    std::vector<std::string> names;

    int sym(const It& i) {
        if (i.k == T) return i.id;
        if (i.k == N) return nT + i.id;
        std::string key = text(i);
        auto f = ids.find(key);
        if (f != ids.end()) return f->second;
        int s = nSym++;
        ids[key] = s; by.resize(nSym); items.push_back(i); names.push_back(key);
        if (i.k == OPT || i.k == REP0) add(s, std::vector<int>());
        if (i.k == OPT || i.k == REP) add(s, seq(i.r[0]));
        if (i.k == REP || i.k == REP0) { std::vector<int> v = seq(i.r[0]); v.insert(v.begin(), s); add(s, v); }
        if (i.k == ALT) { std::set<std::string> seen; flatten(s, i, seen); }
        return s;
    }
    /// A rule of an alternative that is just another alternative contributes that alternative's rules
    void flatten(int s, const It& i, std::set<std::string>& seen) {
        if (!seen.insert(text(i)).second) return;
        for (auto& r : i.r) { if (flat && r.size() == 1 && r[0].k == ALT) flatten(s, r[0], seen); else add(s, seq(r)); }
    }
    std::vector<int> seq(const Rule& r) { std::vector<int> v; for (auto& i : r) v.push_back(sym(i)); return v; }
    void add(int lhs, const std::vector<int>& rhs) {
        for (int p : by[lhs]) if (prods[p].rhs == rhs) return;
        by[lhs].push_back((int) prods.size()); prods.push_back(Prod{lhs, rhs});
    }
    bool flat;
    explicit Low(const Gram& g, bool fl = true) : nT(g.nT), nSym(g.nT + (int) g.nt.size()), flat(fl) {
        by.resize(nSym);
        for (int i = 0; i < (int) g.nt.size(); ++i) { items.push_back(It(N, i)); names.push_back("N" + std::to_string(i)); }
        for (int i = 0; i < (int) g.nt.size(); ++i) for (auto& r : g.nt[i]) { std::vector<int> v = seq(r); add(nT + i, v); }
        compute();
    }

    // nullable, FIRST (as sets of terminals), FOLLOW
    std::vector<char> nullable;
    std::vector<std::set<int> > first, follow;
    std::vector<char> productive;
    std::vector<int> minlen; std::vector<int> minprod;

    void compute() {
        nullable.assign(nSym, 0); first.assign(nSym, std::set<int>()); follow.assign(nSym, std::set<int>()); productive.assign(nSym, 0);
        minlen.assign(nSym, 1 << 20); minprod.assign(nSym, -1);
        for (int t = 0; t < nT; ++t) { first[t].insert(t); productive[t] = 1; minlen[t] = 1; }
        for (bool ch = true; ch; ) {
            ch = false;
            for (size_t pi = 0; pi < prods.size(); ++pi) {
                const Prod& p = prods[pi];
                bool allNull = true, allProd = true; int len = 0;
                for (int s : p.rhs) {
                    if (allNull) { size_t before = first[p.lhs].size(); first[p.lhs].insert(first[s].begin(), first[s].end()); if (first[p.lhs].size() != before) ch = true; }
                    if (!nullable[s]) allNull = false;
                    if (!productive[s]) allProd = false;
                    len = std::min(1 << 20, len + minlen[s]);
                }
                if (allNull && !nullable[p.lhs]) { nullable[p.lhs] = 1; ch = true; }
                if (allProd && !productive[p.lhs]) { productive[p.lhs] = 1; ch = true; }
                if (len < minlen[p.lhs]) { minlen[p.lhs] = len; minprod[p.lhs] = (int) pi; ch = true; }
            }
        }
        for (bool ch = true; ch; ) {
            ch = false;
            for (auto& p : prods) for (size_t i = 0; i < p.rhs.size(); ++i) {
                int s = p.rhs[i]; size_t before = follow[s].size(); size_t j = i + 1;
                for (; j < p.rhs.size(); ++j) { follow[s].insert(first[p.rhs[j]].begin(), first[p.rhs[j]].end()); if (!nullable[p.rhs[j]]) break; }
                if (j == p.rhs.size()) follow[s].insert(follow[p.lhs].begin(), follow[p.lhs].end());
                if (follow[s].size() != before) ch = true;
            }
        }
    }

    std::set<int> first_of(const std::vector<int>& v, size_t from, bool& null) const {
        std::set<int> r; null = true;
        for (size_t i = from; i < v.size(); ++i) { r.insert(first[v[i]].begin(), first[v[i]].end()); if (!nullable[v[i]]) { null = false; break; } }
        return r;
    }
    std::string show(const Prod& p) const { std::string o = name(p.lhs) + " ->"; for (int s : p.rhs) o += " " + name(s); return o; }
    std::string name(int s) const { if (s < nT) return std::string(1, (char)('a' + s)); return names[s - nT]; }

    /// True if some nonterminal derives itself
    bool cyclic() const {
        std::vector<std::set<int> > unit(nSym);
        for (auto& p : prods) for (size_t i = 0; i < p.rhs.size(); ++i) {
            if (p.rhs[i] < nT) continue;
            bool rest = true; for (size_t j = 0; j < p.rhs.size(); ++j) if (j != i && !nullable[p.rhs[j]]) rest = false;
            if (rest) unit[p.lhs].insert(p.rhs[i]);
        }
        for (bool ch = true; ch; ) { ch = false; for (int s = nT; s < nSym; ++s) { std::set<int> add; for (int t : unit[s]) add.insert(unit[t].begin(), unit[t].end()); for (int a : add) if (unit[s].insert(a).second) ch = true; } }
        for (int s = nT; s < nSym; ++s) if (unit[s].count(s)) return true;
        return false;
    }
    /// True if every nonterminal derives a string and can be reached
    bool reduced(const std::vector<int>& starts) const {
        for (int s = nT; s < nSym; ++s) if (!productive[s]) return false;
        std::set<int> seen; std::vector<int> todo; for (int s : starts) { todo.push_back(nT + s); seen.insert(nT + s); }
        while (!todo.empty()) { int s = todo.back(); todo.pop_back(); for (int p : by[s]) for (int x : prods[p].rhs) if (x >= nT && seen.insert(x).second) todo.push_back(x); }
        return (int) seen.size() == nSym - nT;
    }
};

// ---------------------------------------------------------------- Earley

/// How much of the input can be the start of a sentence, whether each prefix of it is a sentence
struct Earley {
    std::vector<char> sentence;             // sentence[i]: the first i tokens form a sentence
    int viable;                             // longest prefix that can be extended to a sentence (tokens)

    Earley(const Low& g, int start, const std::vector<int>& in) {
        struct key { int p, d, o; bool operator<(const key& k) const { return p != k.p ? p < k.p : d != k.d ? d < k.d : o < k.o; } };
        std::vector<std::vector<key> > sets(in.size() + 1); std::vector<std::set<key> > seen(in.size() + 1);
        auto add = [&](size_t at, key k) { if (seen[at].insert(k).second) sets[at].push_back(k); };
        for (int p : g.by[start]) add(0, key{p, 0, 0});
        sentence.assign(in.size() + 1, 0); viable = 0;
        for (size_t i = 0; i <= in.size(); ++i) {
            if (sets[i].empty()) break;
            viable = (int) i;
            for (size_t n = 0; n < sets[i].size(); ++n) {
                key k = sets[i][n]; const Prod& p = g.prods[k.p];
                if (k.d < (int) p.rhs.size()) {
                    int s = p.rhs[k.d];
                    if (s < g.nT) { if (i < in.size() && in[i] == s) add(i + 1, key{k.p, k.d + 1, k.o}); }
                    else { for (int q : g.by[s]) add(i, key{q, 0, (int) i}); if (g.nullable[s]) add(i, key{k.p, k.d + 1, k.o}); }
                } else {
                    if (p.lhs == start && k.o == 0) sentence[i] = 1;
                    for (size_t m = 0; m < sets[k.o].size(); ++m) { key w = sets[k.o][m]; const Prod& q = g.prods[w.p]; if (w.d < (int) q.rhs.size() && q.rhs[w.d] == p.lhs) add(i, key{w.p, w.d + 1, w.o}); }
                }
            }
        }
    }
    bool accepts() const { return sentence.back() != 0; }
};

// ---------------------------------------------------------------- LR(1) and LALR(1)

/// Lookaheads are bit masks of terminals; EOI is bit nT
struct LR {
    typedef std::pair<int,int> core_item;                       // production (or -1-i for the start rule of start symbol i), dot
    typedef std::map<core_item, unsigned> state;
    const Low& g;
    std::vector<int> starts;
    std::vector<state> states;                                  // closed
    std::vector<std::map<int,int> > trans;
    bool too_big;

    LR(const Low& low, const std::vector<int>& st, bool lalr, size_t limit = 400) : g(low), starts(st), too_big(false) {
        std::vector<state> k1; std::vector<std::map<int,int> > t1;
        std::map<state, int> ids; std::vector<int> todo;
        auto add = [&](const state& kernel) { auto f = ids.insert(std::make_pair(kernel, (int) k1.size())); if (f.second) { k1.push_back(kernel); t1.push_back(std::map<int,int>()); todo.push_back(f.first->second); } return f.first->second; };
        for (size_t i = 0; i < st.size(); ++i) { state s; s[core_item(-1 - (int) i, 0)] = 1u << g.nT; add(s); }
        std::vector<state> closed;
        for (size_t n = 0; n < k1.size(); ++n) {
            if (k1.size() > limit) { too_big = true; return; }
            state c = close(k1[n]); closed.push_back(c);
            std::map<int, state> next;
            for (auto& it : c) { const std::vector<int>& rhs = rhs_of(it.first.first); if (it.first.second < (int) rhs.size()) next[rhs[it.first.second]][core_item(it.first.first, it.first.second + 1)] |= it.second; }
            for (auto& x : next) { int to = add(x.second); t1[n][x.first] = to; }
        }
        if (!lalr) { states = closed; trans = t1; return; }
        // merge the states with the same core
        std::map<std::set<core_item>, int> cores; std::vector<int> to(k1.size());
        for (size_t n = 0; n < k1.size(); ++n) {
            std::set<core_item> c; for (auto& it : k1[n]) c.insert(it.first);
            auto f = cores.insert(std::make_pair(c, (int) states.size()));
            if (f.second) { states.push_back(state()); trans.push_back(std::map<int,int>()); }
            to[n] = f.first->second;
            for (auto& it : closed[n]) states[to[n]][it.first] |= it.second;
        }
        for (size_t n = 0; n < k1.size(); ++n) for (auto& x : t1[n]) trans[to[n]][x.first] = to[x.second];
    }

    const std::vector<int>& rhs_of(int p) const {
        if (p >= 0) return g.prods[p].rhs;
        static thread_local std::map<int, std::vector<int> > tmp; std::vector<int>& v = tmp[p]; v.assign(1, g.nT + starts[-1 - p]); return v;
    }
    state close(const state& kernel) const {
        state c = kernel; std::vector<core_item> todo; for (auto& it : kernel) todo.push_back(it.first);
        while (!todo.empty()) {
            core_item it = todo.back(); todo.pop_back();
            const std::vector<int> rhs = rhs_of(it.first); unsigned la = c[it];
            if (it.second >= (int) rhs.size() || rhs[it.second] < g.nT) continue;
            unsigned f = 0; bool null = true;
            for (size_t j = it.second + 1; j < rhs.size(); ++j) { for (int t : g.first[rhs[j]]) f |= 1u << t; if (!g.nullable[rhs[j]]) { null = false; break; } }
            if (null) f |= la;
            for (int p : g.by[rhs[it.second]]) { core_item n(p, 0); auto x = c.insert(std::make_pair(n, 0u)); if (x.second || (f & ~x.first->second)) { x.first->second |= f; todo.push_back(n); } }
        }
        return c;
    }

    struct Conflict {
        int state; int token; bool shift; std::set<int> reduce;         // token nT is the end of input
        bool operator<(const Conflict& o) const { return token != o.token ? token < o.token : shift != o.shift ? shift < o.shift : reduce < o.reduce; }
        bool operator==(const Conflict& o) const { return token == o.token && shift == o.shift && reduce == o.reduce; }
    };
    /// Reductions possible in a state on a terminal (-1-i: accept for start symbol i)
    std::set<int> reductions(int st, int token) const { std::set<int> r; for (auto& it : states[st]) if (it.first.second == (int) rhs_of(it.first.first).size() && (it.second >> token & 1)) r.insert(it.first.first); return r; }
    std::vector<Conflict> conflicts() const {
        std::vector<Conflict> out;
        for (size_t s = 0; s < states.size(); ++s) for (int t = 0; t <= g.nT; ++t) {
            std::set<int> r = reductions((int) s, t); bool sh = t < g.nT && trans[s].count(t);
            if ((int) r.size() + (sh ? 1 : 0) > 1) out.push_back(Conflict{(int) s, t, sh, r});
        }
        std::sort(out.begin(), out.end());
        return out;
    }

    /// What an LR parser that shifts in a shift/reduce conflict does
    struct Trace { bool accept; int shifted; std::vector<int> reductions; bool stuck; };
    Trace run(int start, const std::vector<int>& in) const {
        Trace t; t.accept = false; t.shifted = 0; t.stuck = false;
        std::vector<int> st(1, start); size_t pos = 0;
        for (int step = 0; ; ++step) {
            if (step > 5000) { t.stuck = true; return t; }
            int tok = pos < in.size() ? in[pos] : g.nT;
            auto sh = tok < g.nT ? trans[st.back()].find(tok) : trans[st.back()].end();
            if (sh != trans[st.back()].end()) { st.push_back(sh->second); ++pos; ++t.shifted; continue; }
            std::set<int> r = reductions(st.back(), tok);
            if (r.empty()) return t;
            int p = *r.begin();
            if (p < 0) { t.accept = true; return t; }
            t.reductions.push_back(p);
            st.resize(st.size() - g.prods[p].rhs.size());
            st.push_back(trans[st.back()].at(g.prods[p].lhs));
        }
    }
};

// ---------------------------------------------------------------- generators

struct gen_opts { int maxNT, maxT, ebnf; bool empties; int maxLen; gen_opts() : maxNT(4), maxT(4), ebnf(2), empties(true), maxLen(4) { } };

inline It gen_item(vp::Src& s, const gen_opts& o, int nT, int nN, int depth);
inline Rule gen_rule(vp::Src& s, const gen_opts& o, int nT, int nN, int depth, bool allowEmpty) {
    Rule r; int n = allowEmpty && s.chance(1, 6) ? 0 : 1 + s.weighted({4, 4, 2, 1});
    if (n > o.maxLen) n = o.maxLen;
    for (int i = 0; i < n; ++i) r.push_back(gen_item(s, o, nT, nN, depth));
    return r;
}
inline It gen_item(vp::Src& s, const gen_opts& o, int nT, int nN, int depth) {
    int k = s.weighted({8, 6, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0});
    if (k == 0) return It(T, s.below(nT));
    if (k == 1) return It(N, s.below(nN));
    if (k < 5) { It i(k == 2 ? OPT : k == 3 ? REP : REP0); i.r.push_back(gen_rule(s, o, nT, nN, depth - 1, o.empties && s.chance(1, 10))); return i; }
    It i(ALT); int n = 1 + s.weighted({1, 5, 2});
    for (int a = 0; a < n; ++a) { if (s.chance(1, 8) && depth > 1) { It x(ALT); int m = 1 + s.below(3); for (int b = 0; b < m; ++b) x.r.push_back(gen_rule(s, o, nT, nN, 0, o.empties)); i.r.push_back(Rule(1, x)); } else i.r.push_back(gen_rule(s, o, nT, nN, depth - 1, o.empties)); }
    return i;
}

/// A grammar; about half of the ones made with tame set have rules that start with different terminals
inline Gram gen_gram(vp::Src& s, const gen_opts& o, bool tame) {
    Gram g; g.nT = 1 + s.below(o.maxT); int nN = 1 + s.below(o.maxNT);
    g.nt.resize(nN);
    for (int i = 0; i < nN; ++i) {
        int n = 1 + s.weighted({3, 5, 3});
        int base = s.below(g.nT);
        for (int k = 0; k < n; ++k) {
            Rule r = gen_rule(s, o, g.nT, nN, o.ebnf, o.empties);
            if (tame && s.chance(3, 4)) r.insert(r.begin(), It(T, (base + k) % g.nT));
            if (k == 0 && s.chance(1, 3)) { r.clear(); r.push_back(It(T, s.below(g.nT))); }       // so that most nonterminals produce something
            g.nt[i].push_back(r);
        }
    }
    g.starts.push_back(0);
    if (nN > 1 && s.chance(1, 6)) g.starts.push_back(1 + s.below(nN - 1));
    return g;
}

/// Removes rules that produce nothing and nonterminals that cannot be reached (keeps N0); false if nothing is left
inline bool uses(const Rule& r, const std::vector<char>& bad) { for (auto& i : r) { if (i.k == N && bad[i.id]) return true; for (auto& x : i.r) if (uses(x, bad)) return true; } return false; }
inline void collect(const Rule& r, std::set<int>& out) { for (auto& i : r) { if (i.k == N) out.insert(i.id); for (auto& x : i.r) collect(x, out); } }
inline void rename(Rule& r, const std::vector<int>& to) { for (auto& i : r) { if (i.k == N) i.id = to[i.id]; for (auto& x : i.r) rename(x, to); } }
inline bool reduce_gram(Gram& g) {
    Low low(g);
    std::vector<char> bad(g.nt.size(), 0); bool any = false;
    for (size_t i = 0; i < g.nt.size(); ++i) if (!low.productive[g.nT + i]) { bad[i] = 1; any = true; }
    if (bad[0]) return false;
    if (any) for (auto& rules : g.nt) { std::vector<Rule> keep; for (auto& r : rules) if (!uses(r, bad)) keep.push_back(r); rules = keep; }
    std::vector<int> st; for (int x : g.starts) if (!bad[x]) st.push_back(x); g.starts = st;
    std::set<int> seen(g.starts.begin(), g.starts.end()); std::vector<int> todo(g.starts.begin(), g.starts.end());
    while (!todo.empty()) { int n = todo.back(); todo.pop_back(); std::set<int> u; for (auto& r : g.nt[n]) collect(r, u); for (int x : u) if (seen.insert(x).second) todo.push_back(x); }
    std::vector<int> to(g.nt.size(), -1); std::vector<std::vector<Rule> > nt; 
    for (size_t i = 0; i < g.nt.size(); ++i) if (seen.count((int) i)) { to[i] = (int) nt.size(); nt.push_back(g.nt[i]); }
    for (auto& rules : nt) { if (rules.empty()) return false; for (auto& r : rules) rename(r, to); }
    for (auto& x : g.starts) x = to[x];
    g.nt = nt;
    return Low(g).reduced(g.starts);
}

/// Random sentence of a symbol
inline void gen_sentence(vp::Src& s, const Low& g, int sym, int& fuel, std::vector<int>& out, size_t most = 40) {
    if (sym < g.nT) { out.push_back(sym); return; }
    const std::vector<int>& ps = g.by[sym];
    int p = (--fuel <= 0 || out.size() > most) ? g.minprod[sym] : ps[s.below((uint32_t) ps.size())];
    for (int x : g.prods[p].rhs) gen_sentence(s, g, x, fuel, out, most);
}
inline std::vector<int> gen_input(vp::Src& s, const Low& g, int start, int nTok) {
    std::vector<int> v; int how = s.weighted({5, 5, 2});
    if (how < 2) { int fuel = 4 + s.below(24); gen_sentence(s, g, g.nT + start, fuel, v); }
    if (how == 1) {
        int e = 1 + s.below(2);
        for (int i = 0; i < e; ++i) {
            int t = s.below(nTok);
            if (v.empty()) { v.push_back(t); continue; }
            size_t p = s.below((uint32_t) v.size());
            switch (s.below(5)) {
                case 0: v.erase(v.begin() + p); break;
                case 1: v.insert(v.begin() + p, t); break;
                case 2: v[p] = t; break;
                case 3: v.resize(p); break;
                default: v.push_back(t); break;
            }
        }
    }
    if (how == 2) { int n = s.below(7); for (int i = 0; i < n; ++i) v.push_back(s.below(nTok)); }
    return v;
}
inline std::string show_tokens(const std::vector<int>& v) { std::string o; for (int t : v) { if (!o.empty()) o += " "; o += t >= 0 && t < 26 ? std::string(1, (char)('a' + t)) : std::to_string(t); } return o.empty() ? "(empty)" : o; }

}

#endif

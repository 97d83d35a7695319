// Reference for conflict resolution: precedence declarations and conflict attributes over the LALR(1) automaton of a
// grammar, and grammars written as definition-language text

#ifndef LR_RESOLVE_H
#define LR_RESOLVE_H

#include "lang.h"

namespace vp {

enum { leftAssoc = 1, rightAssoc = 2, nonassoc = 3 };

struct prec { std::map<int, std::pair<int,int> > of; };        // terminal -> (level, associativity)

struct resolver {
    enum kind { none, shift, reduce, weak };
    struct act { int k; int prod; };
    const rg::Low& low; const rg::LR& lr;
    std::map<std::pair<int,int>, std::set<int> > attrs;         // (production, position) -> attributes written there
    std::vector<std::vector<act> > table;
    int residual, byPrec, byAttr; bool unclear, rr;             // unclear: what the text asks for is not specified
    int leftUsed, rightUsed, higherUsed, lowerUsed, nonUsed, attrUsed[4];

    resolver(const rg::Low& l, const rg::LR& r) : low(l), lr(r), residual(0), byPrec(0), byAttr(0), unclear(false), rr(false), leftUsed(0), rightUsed(0), higherUsed(0), lowerUsed(0), nonUsed(0) { for (int i = 0; i < 4; ++i) attrUsed[i] = 0; }

    int sym(const rg::It& i) const { if (i.k == rg::T) return i.id; if (i.k == rg::N) return low.nT + i.id; return low.ids.at(rg::text(i)); }
    void note(int lhs, const rg::Rule& r, bool self) {
        std::vector<int> rhs; if (self) rhs.push_back(lhs); for (auto& i : r) rhs.push_back(sym(i));
        for (int p : low.by[lhs]) if (low.prods[p].rhs == rhs) for (size_t i = 0; i < r.size(); ++i) if (r[i].k == rg::T) attrs[std::make_pair(p, (int) i + (self ? 1 : 0))].insert(r[i].attr);
        if (!self) for (auto& i : r) inner(i);
    }
    void inner(const rg::It& i) {
        if (i.k == rg::T || i.k == rg::N) return;
        int s = sym(i);
        if (i.k == rg::OPT || i.k == rg::REP) note(s, i.r[0], false);
        if (i.k == rg::REP0) for (auto& x : i.r[0]) inner(x);
        if (i.k == rg::REP || i.k == rg::REP0) note(s, i.r[0], true);
        if (i.k == rg::ALT) alts(s, i);
    }
    void alts(int s, const rg::It& i) { for (auto& r : i.r) if (r.size() == 1 && r[0].k == rg::ALT) alts(s, r[0]); else note(s, r, false); }
    void attributes(const rg::Gram& g) { for (size_t i = 0; i < g.nt.size(); ++i) for (auto& r : g.nt[i]) note(low.nT + (int) i, r, false); for (auto& a : attrs) if (a.second.size() > 1) unclear = true; }

    void build(const prec& pr) {
        table.assign(lr.states.size(), std::vector<act>(low.nT + 1, act{none, 0}));
        for (size_t s = 0; s < lr.states.size(); ++s) for (int t = 0; t <= low.nT; ++t) {
            std::set<int> r = lr.reductions((int) s, t); bool sh = t < low.nT && lr.trans[s].count(t);
            if (r.size() > 1) { rr = true; continue; }
            if (!sh) { if (!r.empty()) table[s][t] = act{reduce, *r.begin()}; continue; }
            if (r.empty()) { table[s][t] = act{shift, 0}; continue; }
            int p = *r.begin(); act a = act{shift, p}; bool done = false;
            // precedence: the operator of the rule is its terminal with a declared precedence
            std::vector<int> ops; if (p >= 0) for (int x : low.prods[p].rhs) if (x < low.nT && pr.of.count(x)) ops.push_back(x);
            auto tp = pr.of.find(t);
            if (tp != pr.of.end() && !ops.empty()) {
                // the manual says the first such terminal counts, the code says there must be just one
                if (ops.size() > 1) unclear = true;
                std::pair<int,int> rp = pr.of.at(ops[0]);
                if (tp->second.first < rp.first) { a = act{reduce, p}; done = true; ++lowerUsed; }
                else if (tp->second.first > rp.first) { done = true; ++higherUsed; }
                else if (rp.second == leftAssoc) { a = act{reduce, p}; done = true; ++leftUsed; }
                else if (rp.second == rightAssoc) { done = true; ++rightUsed; }
                else ++nonUsed;
                if (done) ++byPrec;
            }
            if (!done) {
                std::set<int> want;
                for (auto& it : lr.states[s]) { const std::vector<int>& rhs = lr.rhs_of(it.first.first); if (it.first.second >= (int) rhs.size() || rhs[it.first.second] != t) continue; auto f = attrs.find(it.first); if (f != attrs.end()) for (int x : f->second) if (x) want.insert(x); }
                if (want.size() > 1) unclear = true;
                if (want.size() == 1) {
                    ++byAttr; done = true; int w = *want.begin(); ++attrUsed[w];
                    if (p < 0 && w != 1) unclear = true;            // choosing to stop at a token that cannot follow
                    if (w == 2) a = act{reduce, p};
                    if (w == 3) a = act{weak, p};
                }
            }
            if (!done) ++residual;
            table[s][t] = a;
        }
    }
    void pop(std::vector<int>& st, int p) const { st.resize(st.size() - low.prods[p].rhs.size()); st.push_back(lr.trans[st.back()].at(low.prods[p].lhs)); }
    /// True if carrying on with reductions ends up shifting the token
    bool leads_to_shift(std::vector<int> st, int tok, int first, bool& stuck, int depth = 0) const {
        if (depth > 50 || stuck) { stuck = true; return false; }
        pop(st, first);
        for (int n = 0; n < 1000; ++n) {
            act a = table[st.back()][tok];
            if (a.k == none) return false;
            if (a.k == shift) return true;
            if (a.k == weak) { if (leads_to_shift(st, tok, a.prod, stuck, depth + 1)) { pop(st, a.prod); continue; } return true; }
            if (a.prod < 0) return tok == low.nT;
            pop(st, a.prod);
        }
        stuck = true; return false;
    }
    rg::LR::Trace run(int start, const std::vector<int>& in) const {
        rg::LR::Trace t; t.accept = false; t.shifted = 0; t.stuck = false;
        std::vector<int> st(1, start); size_t pos = 0;
        for (int step = 0; ; ++step) {
            if (step > 5000) { t.stuck = true; return t; }
            int tok = pos < in.size() ? in[pos] : low.nT;
            act a = table[st.back()][tok];
            if (a.k == weak) a.k = leads_to_shift(st, tok, a.prod, t.stuck) ? reduce : shift;
            if (t.stuck || a.k == none) return t;
            if (a.k == shift) { st.push_back(lr.trans[st.back()].at(tok)); ++pos; ++t.shifted; continue; }
            if (a.prod < 0) { t.accept = true; return t; }
            t.reductions.push_back(a.prod); pop(st, a.prod);
        }
    }
};

// ---- text

inline std::string lang_text(const rg::Rule& r, const std::vector<std::string>& T);
inline std::string lang_text(const rg::It& i, const std::vector<std::string>& T) {
    static const char* at[] = { "", "[conflict=shift]", "[conflict=reduce]", "[conflict=weak reduce]" };
    switch (i.k) {
        case rg::T: return T[i.id] + at[i.attr];
        case rg::N: return "<N" + std::to_string(i.id) + ">";
        case rg::OPT: return "(" + lang_text(i.r[0], T) + ")?";
        case rg::REP: return "(" + lang_text(i.r[0], T) + ")+";
        case rg::REP0: return "(" + lang_text(i.r[0], T) + ")*";
        case rg::GUARD: return "[=> " + lang_text(i.r[0], T) + "]";
        default: { std::string o = "("; for (size_t k = 0; k < i.r.size(); ++k) o += (k ? " | " : "") + lang_text(i.r[k], T); return o + ")"; }
    }
}
inline std::string lang_text(const rg::Rule& r, const std::vector<std::string>& T) { std::string o; for (size_t i = 0; i < r.size(); ++i) o += (i ? " " : "") + lang_text(r[i], T); return o; }
inline std::string grammar_text(const rg::Gram& g, const std::vector<std::string>& T) {
    std::string o = "  grammar {\n";
    for (size_t i = 0; i < g.nt.size(); ++i) { o += "    <N" + std::to_string(i) + "> ="; for (size_t k = 0; k < g.nt[i].size(); ++k) o += std::string(k ? "\n        |" : "") + " " + lang_text(g.nt[i][k], T); o += "\n"; }
    return o + "  }\n";
}
inline std::vector<std::string> letters(int n) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back("t" + std::string(1, (char)('a' + i))); return v; }
inline std::vector<std::wstring> wide(const std::vector<std::string>& v) { std::vector<std::wstring> o; for (auto& x : v) o.push_back(widen(x)); return o; }
inline std::vector<std::wstring> nt_names(size_t n) { std::vector<std::wstring> o; for (size_t i = 0; i < n; ++i) o.push_back(L"<N" + std::to_wstring(i) + L">"); return o; }

}

#endif

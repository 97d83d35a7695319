// Runs dfa::ndfa objects directly from their public description (states, transitions, symbol sets, actions)

#ifndef DFA_UTIL_H
#define DFA_UTIL_H

#include <set>
#include <map>
#include <memory>
#include <vector>
#include <sstream>
#include "TameParse/Dfa/ndfa.h"
#include "TameParse/Dfa/ndfa_regex.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Dfa/epsilon.h"
#include "vp.h"

namespace vp {

typedef std::vector<int> units;

/// Interprets an (N)DFA by tracking the set of states it can be in
class nfa_runner {
public:
    typedef std::vector<int> states;                // sorted

    explicit nfa_runner(const dfa::ndfa& n) {
        dfa::symbol_set eps = dfa::epsilon();
        std::map<int, const dfa::symbol_set*> sets;
        std::set<int> epsIds;
        for (dfa::symbol_map::iterator it = n.symbols().begin(); it != n.symbols().end(); ++it) { sets[it->second] = &*it->first; if (*it->first == eps) epsIds.insert(it->second); }
        m_Trans.resize(n.count_states()); m_Eps.resize(n.count_states()); m_Acc.resize(n.count_states()); m_Eager.resize(n.count_states(), 0);
        for (int st = 0; st < n.count_states(); ++st) {
            const dfa::state& s = n.get_state(st);
            for (dfa::state::iterator t = s.begin(); t != s.end(); ++t) {
                if (t->new_state() < 0 || t->new_state() >= n.count_states()) throw Fail{VP_STR("state " << st << " has a transition to missing state " << t->new_state())};
                if (epsIds.count(t->symbol_set())) { m_Eps[st].push_back(t->new_state()); continue; }
                if (!sets.count(t->symbol_set())) throw Fail{VP_STR("state " << st << " has a transition on unknown symbol set " << t->symbol_set())};
                const dfa::symbol_set& ss = *sets[t->symbol_set()];
                for (dfa::symbol_set::iterator r = ss.begin(); r != ss.end(); ++r) if (r->lower() < r->upper()) { m_Trans[st].push_back(edge{r->lower(), r->upper(), t->new_state()}); m_Points.insert(r->lower()); m_Points.insert(r->upper()); }
            }
            const dfa::ndfa::accept_action_list& acts = n.actions_for_state(st);
            for (size_t i = 0; i < acts.size(); ++i) { m_Acc[st].push_back(acts[i]->symbol()); if (acts[i]->eager()) m_Eager[st] = 1; }
        }
        m_Mark.resize(n.count_states(), 0); m_Gen = 0;
    }

    states start(int st = 0) const { states s; s.push_back(st); ++m_Gen; m_Mark[st] = m_Gen; close(s); return s; }

    states step(const states& from, int sym) const {
        states out;
        for (int st : from) if (m_Eager[st]) return out;        // Eager actions stop anything that follows
        ++m_Gen;
        for (int st : from) for (const edge& e : m_Trans[st]) if (sym >= e.lo && sym < e.hi && m_Mark[e.to] != m_Gen) { m_Mark[e.to] = m_Gen; out.push_back(e.to); }
        close(out);
        return out;
    }

    /// The accept symbols after reading the string, or with no entries if it is rejected
    std::set<int> run(const units& u, int st = 0) const {
        states s = start(st);
        for (int c : u) { s = step(s, c); if (s.empty()) break; }
        return accepts(s);
    }

    std::set<int> accepts(const states& s) const { std::set<int> r; for (int st : s) r.insert(m_Acc[st].begin(), m_Acc[st].end()); return r; }

    /// The number of states a DFA for this would have, giving up at the limit
    size_t dfa_size(size_t limit, int st = 0) const {
        std::set<states> seen; std::vector<states> todo(1, start(st)); seen.insert(todo[0]);
        while (!todo.empty() && seen.size() < limit) {
            states s = todo.back(); todo.pop_back();
            std::set<int> pts; for (int x : s) for (const edge& e : m_Trans[x]) { pts.insert(e.lo); pts.insert(e.hi); }
            for (int p : pts) { states n = step(s, p); if (!n.empty() && seen.insert(n).second) todo.push_back(n); }
        }
        return seen.size();
    }

    /// Every symbol at which the behaviour can change
    const std::set<int>& points() const { return m_Points; }

private:
    struct edge { int lo, hi, to; };
    void close(states& s) const {
        for (size_t i = 0; i < s.size(); ++i) for (int t : m_Eps[s[i]]) if (m_Mark[t] != m_Gen) { m_Mark[t] = m_Gen; s.push_back(t); }
        std::sort(s.begin(), s.end());
    }
    std::vector<std::vector<edge> > m_Trans; std::vector<std::vector<int> > m_Eps, m_Acc; std::vector<char> m_Eager; std::set<int> m_Points;
    mutable std::vector<unsigned> m_Mark; mutable unsigned m_Gen;
};

/// Symbol stream over a vector of symbols
class vec_stream : public dfa::lexer_symbol_stream {
public:
    vec_stream(const units& u) : m_U(u), m_Pos(0) { }
    virtual lexer_symbol_stream& operator>>(int& r) { r = m_Pos < m_U.size() ? m_U[m_Pos++] : (int) dfa::symbol_set::end_of_input; return *this; }
private:
    units m_U; size_t m_Pos;
};

struct tok { int sym; units text; int offset, line, column; bool operator==(const tok& o) const { return sym == o.sym && text == o.text; } };

inline std::vector<tok> lex_all(const dfa::basic_lexer& l, const units& u, size_t limit = 100000) {
    std::unique_ptr<dfa::lexeme_stream> st(l.create_stream(new vec_stream(u)));
    std::vector<tok> out;
    for (;;) {
        dfa::lexeme* x = NULL;
        (*st) >> x;
        if (!x) break;
        std::unique_ptr<dfa::lexeme> own(x);
        tok t; t.sym = x->matched(); t.text = units(x->content().begin(), x->content().end());
        t.offset = x->pos().offset(); t.line = x->pos().line(); t.column = x->pos().column();
        out.push_back(t);
        if (out.size() > limit) throw Fail{"the lexer produced more lexemes than there are characters"};
    }
    return out;
}

inline std::string show(const std::vector<tok>& t) {
    std::ostringstream o;
    for (auto& x : t) { std::wstring w; for (int c : x.text) w += (wchar_t) c; o << x.sym << ":" << vp::show(w) << " "; }
    return o.str();
}

}

#endif

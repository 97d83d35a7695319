// C03: making symbol sets unique, determinising, compacting and merging symbol sets never change what an automaton
// recognises: same strings, same accept symbols, from every start state. Decided exactly per case by a product walk.

#include "vp.h"
#include "stages.h"

using namespace std;
using namespace vp;
using namespace dfa;

static const int edges[] = { 0, 1, 2, 3, 4, 5, 6, 'a', 'b', 'c', 'd', 255, 256, 257, 511, 512, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000 };

static symbol_set gen_set(Ctx& c, bool wide, string& text) {
    symbol_set s; int n = 1 + c.s.weighted({6, 2, 1});
    text += "{";
    for (int i = 0; i < n; ++i) {
        int lo, hi;
        if (!wide) { lo = c.s.below(6); hi = lo + 1 + (c.s.chance(1, 2) ? c.s.below(6) : 0); }
        else { lo = edges[c.s.below(23)]; hi = c.s.chance(1, 2) ? lo + 1 + (int) c.s.below(3) : edges[c.s.below(24)]; if (hi <= lo) hi = lo + 1; }
        s |= range<int>(lo, hi); text += VP_STR((i ? "," : "") << lo << "-" << hi);
    }
    text += "}"; return s;
}

/// Walks both automata together over every symbol at which either can change
static void equivalent(Ctx& c, const nfa_runner& a, int sa, const nfa_runner& b, int sb, const string& what, bool bestOnly) {
    set<int> pts(a.points()); pts.insert(b.points().begin(), b.points().end());
    typedef pair<nfa_runner::states, nfa_runner::states> pr;
    map<pr, string> seen; vector<pr> todo; pr first(a.start(sa), b.start(sb)); seen[first] = ""; todo.push_back(first);
    for (size_t i = 0; i < todo.size(); ++i) {
        pr p = todo[i]; string path = seen[p];
        set<int> x = a.accepts(p.first), y = b.accepts(p.second);
        if (bestOnly) { if (x.size() > 1) x.erase(next(x.begin()), x.end()); if (y.size() > 1) y.erase(next(y.begin()), y.end()); }
        if (x != y) { ostringstream o; o << what << ": after the symbols [" << path << " ] accepts {"; for (int v : y) o << " " << v; o << " }, the original accepts {"; for (int v : x) o << " " << v; o << " }"; c.fail(o.str()); }
        if (seen.size() > 4000) return;
        for (int v : pts) {
            pr n(a.step(p.first, v), b.step(p.second, v));
            if (n.first.empty() && n.second.empty()) continue;
            if (seen.insert(make_pair(n, path + VP_STR(" " << v))).second) todo.push_back(n);
        }
    }
}

static void run_case(Ctx& c, bool wide) {
    ndfa n; int states = 2 + c.s.below(7); while (n.count_states() < states) n.add_state();
    string text = VP_STR(states << " states:");
    int trans = 1 + c.s.below(states * 3);
    // A small pool of sets, so that they are shared between transitions and overlap
    vector<pair<symbol_set, string> > pool; int ps = 1 + c.s.below(5); for (int i = 0; i < ps; ++i) { string t; symbol_set s = gen_set(c, wide, t); pool.push_back(make_pair(s, t)); }
    bool eps = c.s.chance(1, 2), anyEps = false; vector<pair<int, pair<const pair<symbol_set, string>*, int> > > made;
    for (int i = 0; i < trans; ++i) {
        int from = c.s.below(states), to = c.s.below(states);
        if (eps && c.s.chance(1, 5)) { n.add_transition(from, epsilon(), to); text += VP_STR(" " << from << "-e>" << to); anyEps = true; }
        else { auto& s = c.s.pick(pool); n.add_transition(from, s.first, to); text += VP_STR(" " << from << "-" << s.second << ">" << to); made.push_back(make_pair(from, make_pair(&s, to))); }
    }
    // Duplicated states, so that there is something to compact
    int dups = c.s.chance(1, 2) ? 1 + c.s.below(3) : 0; vector<pair<int,int> > dup;
    for (int i = 0; i < dups; ++i) {
        int from = c.s.below(states), to = 1 + c.s.below(states - 1); dup.push_back(make_pair(from, to));
        for (size_t j = 0, k = made.size(); j < k; ++j) if (made[j].first == from) { n.add_transition(to, made[j].second.first->first, made[j].second.second); made.push_back(make_pair(to, made[j].second)); text += VP_STR(" " << to << "-" << made[j].second.first->second << ">" << made[j].second.second); }
    }
    int syms = c.s.chance(1, 2) ? 1 : 4; int accs = 1 + c.s.below(states); bool eager = c.s.chance(1, 4), anyEager = false;
    for (int i = 0; i < accs; ++i) { int st = c.s.below(states), sym = c.s.below(syms); bool e = eager && c.s.chance(1, 3); n.accept(st, accept_action(sym, e)); anyEager |= e; text += VP_STR(" accept(" << st << "," << sym << (e ? ",eager)" : ")")); }
    vector<int> initial; initial.push_back(0); int extra = c.s.below(3); for (int i = 0; i < extra; ++i) initial.push_back(c.s.below(states));
    text += " start"; for (int i : initial) text += VP_STR(" " << i);
    c.note(text);

    stage_set st(n, initial);
    VP_CHECK(!st.unique->symbols().has_duplicates(), "symbol sets overlap after to_ndfa_with_unique_symbols");
    for (size_t i = 2; i < st.all.size(); ++i) {
        VP_CHECK(st.all[i]->verify_is_dfa(), st.name(i) << " is not deterministic");
        VP_CHECK(st.all[i]->verify_no_symbol_overlap(), st.name(i) << " has overlapping symbol sets in a state");
        VP_CHECK(!st.all[i]->symbols().has_duplicates(), st.name(i) << " has overlapping symbol sets");
        VP_CHECK(st.all[i]->count_states() <= st.dfa_->count_states(), st.name(i) << " has more states than the DFA");
    }
    VP_CHECK(st.merged->symbols().count_sets() <= st.compact->symbols().count_sets() + 1, "merging symbol sets made more of them");
    for (size_t k = 0; k < initial.size(); ++k) for (size_t i = 1; i < st.all.size(); ++i)
        equivalent(c, st.runners[0], initial[k], st.runners[i], i == 1 ? initial[k] : (int) k, VP_STR(st.name(i) << " from start " << k), false);
    vector<int> first; for (size_t i = 0; i < initial.size(); ++i) first.push_back((int) i);
    unique_ptr<ndfa> cf(st.dfa_->to_compact_dfa(first, true)); nfa_runner rcf(*cf);
    for (size_t k = 0; k < initial.size(); ++k) equivalent(c, st.runners[0], initial[k], rcf, (int) k, VP_STR("compact dfa (first action) from start " << k), true);
    // The transformations leave their input alone, and copies are independent of the original
    ndfa copy(*st.compact); copy.add_transition(0, symbol_set(range<int>(1, 9)), 0); copy.accept(0, accept_action(77)); ndfa assigned; assigned = *st.merged; assigned.clear_accept(0);
    equivalent(c, st.runners[0], initial[0], nfa_runner(*st.compact), 0, "the compact dfa after its copy was changed", false);
    equivalent(c, st.runners[0], initial[0], nfa_runner(*st.merged), 0, "the merged dfa after its copy was changed", false);
    equivalent(c, st.runners[0], initial[0], nfa_runner(n), initial[0], "the original after the transformations", false);

    if (anyEps) c.label("epsilon transitions");
    if (anyEager) c.label("eager actions");
    if (extra) c.label("several start states");
    if (st.compact->count_states() < st.dfa_->count_states()) c.label("compacting merged states");
    if (st.dfa_->count_states() >= 3) c.nontrivial(text);
}

static void f_small(Ctx& c) { run_case(c, false); }
static void f_wide(Ctx& c) { run_case(c, true); }

// ---- the ways to build one automaton

/// The same automaton, built with nothing but add_transition(from, symbols, to)
struct mirror {
    ndfa n; int states; mirror() : states(1) { }
    int state() { ++states; return n.add_state(); }
};

/// Moves about with the automaton's own current state
static void build_direct(Ctx& c, ndfa& n, mirror& m, vector<pair<symbol_set, string> >& pool, string& text) {
    int cur = 0, ops = 3 + c.s.below(14);
    for (int i = 0; i < ops; ++i) {
        auto& s = c.s.pick(pool); int k = c.s.below(m.states);
        switch (c.s.weighted({4, 4, 2, 1, 2, 2, 1, 1})) {
            case 0: { int id = n.add_transition(s.first), want = m.state(); m.n.add_transition(cur, s.first, want); cur = want; text += " add" + s.second; VP_CHECK(id == want, "the state that was added is " << id << " instead of " << want << ":" << text); break; }
            case 1: n.add_transition(s.first, k); m.n.add_transition(cur, s.first, k); cur = k; text += VP_STR(" add" << s.second << ">" << k); break;
            case 2: { int got = n.goto_state(k); cur = k; text += VP_STR(" goto " << k); VP_CHECK(got == k, "moved to " << got << ":" << text); break; }
            case 3: if (c.s.chance(1, 2)) { int got = n.goto_start(); cur = 0; text += " goto start"; VP_CHECK(got == 0, "goto_start returns " << got); } else { int far = c.s.chance(1, 2) ? -1 - (int) c.s.below(3) : m.states + (int) c.s.below(3); int got = n.goto_state(far); cur = 0; text += VP_STR(" goto " << far); VP_CHECK(got == 0, "moving to a state that is not there gives " << got); } break;
            case 4: { int sym = c.s.below(4); bool e = c.s.chance(1, 6); if (c.s.chance(1, 2)) n.accept(sym, e); else n.accept(accept_action(sym, e)); m.n.accept(cur, accept_action(sym, e)); text += VP_STR(" accept " << sym << (e ? " eager" : "")); break; }
            case 5: n.add_transition(k, s.first, cur); m.n.add_transition(k, s.first, cur); text += VP_STR(" " << k << "-" << s.second << ">" << cur); break;
            case 6: n.clear_accept(k); m.n.clear_accept(k); text += VP_STR(" clear " << k); break;
            default: { int a = n.add_state(), b = m.state(); text += " state"; VP_CHECK(a == b, "a new state is " << a << " instead of " << b); }
        }
    }
}

/// Builds a chain of transitions with pushed states and alternatives
static void build_chain(Ctx& c, ndfa& n, mirror& m, vector<pair<symbol_set, string> >& pool, string& text) {
    ndfa::builder b = n.get_cons();
    struct frame { int first, last; }; vector<frame> stack; int cur = 0, prev = 0, next = -1, ops = 4 + c.s.below(18), opt = c.s.below(4);
    bool lower = opt == 1 || opt == 3, upper = opt == 2 || opt == 3; b.set_case_options(lower, upper); if (opt) text += lower ? upper ? " any case" : " lower case too" : " upper case too";
    auto go = [&](const symbol_set& s) { int to = next == -1 ? m.state() : next; next = -1; m.n.add_transition(cur, s, to); prev = cur; cur = to; };
    // Letters only match each other's case: everything the pool has is below a, or is a-d
    auto cased = [&](const symbol_set& s) { symbol_set r(s); for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) for (int ch = i->lower(); ch < i->upper() && ch < 128; ++ch) { if (upper && ch >= 'a' && ch <= 'z') r |= range<int>(ch - 32, ch - 31); if (lower && ch >= 'A' && ch <= 'Z') r |= range<int>(ch + 32, ch + 33); } return r; };
    bool alt = false;
    for (int i = 0; i < ops; ++i) {
        auto& s = c.s.pick(pool); int k = c.s.below(m.states);
        switch (c.s.weighted({8, 3, 2, 2, 2, 2, 1, 1, 1, 1})) {
            case 0: if (c.s.chance(1, 4)) { int ch = "abcdAD09"[c.s.below(8)]; if (c.s.chance(1, 2)) b >> (char) ch; else if (c.s.chance(1, 2)) b >> (wchar_t) ch; else b >> ch; symbol_set one(range<int>(ch, ch + 1)); go(cased(one)); text += VP_STR(" >> '" << (char) ch << "'"); } else { b >> s.first; go(cased(s.first)); text += " >> " + s.second; } break;
            case 1: b >> n.get_state(k); next = k; text += VP_STR(" >> state " << k); b >> s.first; go(cased(s.first)); text += " >> " + s.second; break;
            case 2: b.push(); { frame f = { cur, -1 }; stack.push_back(f); } text += " push"; break;
            case 3: { bool got = b.pop(), want = !stack.empty(); text += " pop"; VP_CHECK(got == want, "pop returns " << got << ":" << text); if (want) { frame f = stack.back(); if (f.last >= 0) { next = f.last; go(epsilon()); } prev = f.first; stack.pop_back(); } break; }
            case 4: b.begin_or(); text += " or"; alt = true; { if (stack.empty()) { frame f = { 0, -1 }; stack.push_back(f); } int p = prev; if (stack.back().last < 0) { go(epsilon()); stack.back().last = cur; } else m.n.add_transition(cur, epsilon(), stack.back().last); prev = p; cur = stack.back().first; next = -1; } break;
            case 5: b.rejoin(); text += " rejoin"; if (!stack.empty() && stack.back().last >= 0) { next = stack.back().last; go(epsilon()); stack.back().last = -1; } break;
            case 6: b.goto_state(n.get_state(k)); cur = k; next = -1; text += VP_STR(" goto " << k); break;
            case 7: { int p = c.s.below(m.states); b.goto_state(n.get_state(k), n.get_state(p)); cur = k; prev = p; next = -1; text += VP_STR(" goto " << k << " from " << p); break; }
            case 8: { int sym = c.s.below(4); b >> accept_action(sym); m.n.accept(cur, accept_action(sym)); text += VP_STR(" accept " << sym); break; }
            default: { ndfa::builder copy(b); if (c.s.chance(1, 2)) b = copy; break; }
        }
        VP_CHECK(b.current_state().identifier() == cur, "the builder is at state " << b.current_state().identifier() << " instead of " << cur << ":" << text);
        VP_CHECK(b.previous_state().identifier() == prev, "the builder says it came from state " << b.previous_state().identifier() << " instead of " << prev << ":" << text);
        VP_CHECK(b.empty() == stack.empty(), "the stack is " << (b.empty() ? "empty" : "not empty") << ":" << text);
        if (!stack.empty()) VP_CHECK(b.top().identifier() == stack.back().first, "the top of the stack is state " << b.top().identifier() << " instead of " << stack.back().first << ":" << text);
    }
    if (alt) c.label("alternatives"); if (opt) c.label("case options");
}

static void f_built(Ctx& c) {
    ndfa n; mirror m; string text;
    vector<pair<symbol_set, string> > pool; int ps = 1 + c.s.below(4);
    for (int i = 0; i < ps; ++i) { string t; symbol_set s; if (c.s.chance(1, 3)) { int lo = (c.s.chance(1, 2) ? 'a' : 'A') + (int) c.s.below(3), hi = lo + 1 + (int) c.s.below(2); s |= range<int>(lo, hi); t = VP_STR("{" << lo << "-" << hi << "}"); } else s = gen_set(c, false, t); pool.push_back(make_pair(s, t)); }
    bool chain = c.s.chance(1, 2);
    if (chain) build_chain(c, n, m, pool, text); else build_direct(c, n, m, pool, text);
    int accs = 1 + c.s.below(m.states); for (int i = 0; i < accs; ++i) { int st = c.s.below(m.states), sym = c.s.below(4); n.accept(st, accept_action(sym)); m.n.accept(st, accept_action(sym)); text += VP_STR(" accept(" << st << "," << sym << ")"); }
    c.note(text);
    VP_CHECK(n.count_states() == m.states && m.n.count_states() == m.states, "there are " << n.count_states() << " states instead of " << m.states);
    nfa_runner x(m.n), y(n);
    for (int i = 0; i < m.states; ++i) equivalent(c, x, i, y, i, VP_STR("the automaton from state " << i), false);
    unique_ptr<ndfa> u(n.to_ndfa_with_unique_symbols()), d(u->to_dfa()); nfa_runner z(*d);
    equivalent(c, x, 0, z, 0, "the DFA", false);
    c.label(chain ? "chains" : "current state");
    if (d->count_states() >= 3) c.nontrivial(text);
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "small", f_small, 300000, 4000000, "random NFA with 2-8 states over symbols 0-12, overlapping and shared symbol sets, epsilons, eager actions, several start states; each transformed automaton is walked in step with the original over every distinguishing symbol; non-trivial: the DFA has at least 3 states", 30 },
        { "wide", f_wide, 200000, 3000000, "as small with symbol ranges that start and end on 256-blocks and surrogate boundaries; non-trivial: the DFA has at least 3 states", 30 },
        { "built", f_built, 100000, 2000000, "random NFA built step by step from the automaton's current state or with its builder (chains, chosen target states, pushed states, alternatives, case options), compared from every state with the same transitions added one by one; non-trivial: the DFA has at least 3 states", 30 },
    };
    return run_main(argc, argv, "C03", f, { "an automaton means what its public state, transition, symbol-set and action accessors say", "eager actions stop a match, as their documentation says" });
}

// C24: grammars, rules, item sets and terminal dictionaries are values: histories of building, copying and asking compared with a model.

#include "vp.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/rule.h"
#include "TameParse/ContextFree/item_set.h"
#include "TameParse/ContextFree/ebnf_items.h"
#include "TameParse/ContextFree/standard_items.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/ContextFree/terminal_dictionary.h"
#include "TameParse/Lr/lr_item.h"
#include "TameParse/Lr/lr1_item_set.h"

#include <memory>

using namespace std;
using namespace vp;
using namespace contextfree;

typedef shared_ptr<grammar> gptr;

// -------- items as text: the model's notion of identity --------

static string canon(const item& i);
static string canon_items(const rule& r) { string s; for (rule::iterator i = r.begin(); i != r.end(); ++i) s += (s.empty() ? "" : " ") + canon(**i); return s; }
static string canon(const item& i) {
    switch (i.type()) {
        case item::empty: return "0"; case item::eoi: return "$"; case item::eog: return "%";
        case item::terminal: return VP_STR("t" << i.symbol()); case item::nonterminal: return VP_STR("N" << i.symbol());
        case item::guard: { const contextfree::guard* g = i.cast_guard(); return g ? VP_STR("[=>" << g->priority() << ": " << canon_items(*g->get_rule()) << "]") : string("[broken guard]"); }
        default: break;
    }
    const ebnf* e = i.cast_ebnf(); if (!e) return VP_STR("?" << i.type());
    string s; for (ebnf::rule_iterator r = e->first_rule(); r != e->last_rule(); ++r) s += (r == e->first_rule() ? "" : " | ") + canon_items(**r);
    const char* op = i.type() == item::optional ? ")?" : i.type() == item::repeat ? ")+" : i.type() == item::repeat_zero_or_one ? ")*" : i.type() == item::alternative ? "|)" : ")??";
    return "(" + s + op;
}

/// Model of an item: built independently of the real one
struct mi { string text; item_container real; };
struct mr { vector<mi> items; string text() const { string s; for (auto& i : items) s += (s.empty() ? "" : " ") + i.text; return s; } };

struct maker {
    Ctx& c; function<int(int)> nt;             // the identifier of the k-th name
    maker(Ctx& c_, function<int(int)> n) : c(c_), nt(n) { }
    mi make(int depth) {
        int k = c.s.weighted({6, 4, depth > 0 ? 4 : 0, depth > 0 ? 1 : 0, 1});
        mi r;
        if (k == 0) { int t = c.s.below(6); r.text = VP_STR("t" << t); r.real = item_container(new terminal(t), true); return r; }
        if (k == 1) { int n = nt(c.s.below(5)); r.text = VP_STR("N" << n); r.real = item_container(new nonterminal(n), true); return r; }
        if (k == 4) {
            switch (c.s.below(3)) { case 0: r.text = "0"; r.real = item_container(new empty_item(), true); break; case 1: r.text = "$"; r.real = item_container(new end_of_input(), true); break; default: r.text = "%"; r.real = item_container(new end_of_guard(), true); }
            return r;
        }
        if (k == 3) { mr m = seq(depth - 1, 1); int pr = c.s.below(3); r.text = VP_STR("[=>" << pr << ": " << m.text() << "]"); rule q; for (auto& i : m.items) q << i.real; r.real = item_container(new contextfree::guard(q, pr), true); return r; }
        int kind = c.s.below(4); mr m = seq(depth - 1, 0); rule q; for (auto& i : m.items) q << i.real;
        if (kind == 0) { r.text = "(" + m.text() + ")?"; r.real = item_container(new ebnf_optional(q), true); }
        else if (kind == 1) { r.text = "(" + m.text() + ")+"; r.real = item_container(new ebnf_repeating(q), true); }
        else if (kind == 2) { r.text = "(" + m.text() + ")*"; r.real = item_container(new ebnf_repeating_optional(q), true); }
        else {
            ebnf_alternate* a = new ebnf_alternate(q); r.real = item_container(a, true); r.text = "(" + m.text(); int n = 1 + c.s.below(2);
            for (int i = 0; i < n; ++i) { mr o = seq(depth - 1, 0); rule_container t = a->add_rule(); for (auto& x : o.items) (*t) << x.real; r.text += " | " + o.text(); }
            r.text += "|)";
        }
        if (c.s.chance(1, 3)) r.real = item_container(r.real->clone(), true);
        return r;
    }
    mr seq(int depth, int least) { mr r; int n = least + c.s.below(3); for (int i = 0; i < n; ++i) r.items.push_back(make(depth)); return r; }
};

// -------- facet: histories over grammars --------

struct mg {
    map<wstring, int> names; map<int, vector<string> > rules; map<string, int> items; map<string, int> ruleIds;
    mg() { items["0"] = 0; }          // every grammar has the empty item
    int next_item() const { return (int) items.size(); }
    int id_for(const wstring& n) { auto f = names.find(n); if (f != names.end()) return f->second; int id = next_item(); names[n] = id; items[VP_STR("N" << id)] = id; return id; }
};

static void check_grammar(const grammar& cg, const mg& m, const string& who) {
    grammar& g = const_cast<grammar&>(cg);
    VP_CHECK(g.max_item_identifier() == (int) m.items.size(), who << " has " << g.max_item_identifier() << " items, should be " << m.items.size());
    VP_CHECK(g.max_rule_identifier() == (int) m.ruleIds.size(), who << " has " << g.max_rule_identifier() << " rule identifiers, should be " << m.ruleIds.size());
    for (auto& n : m.names) {
        VP_CHECK(g.nonterminal_is_defined(n.first), who << " has lost the name " << show(n.first));
        VP_CHECK(g.id_for_nonterminal(n.first) == n.second, who << ": " << show(n.first) << " is nonterminal " << g.id_for_nonterminal(n.first) << ", was " << n.second);
        VP_CHECK(g.name_for_nonterminal(n.second) == n.first, who << ": nonterminal " << n.second << " is called " << show(g.name_for_nonterminal(n.second)) << ", should be " << show(n.first));
        VP_CHECK(canon(*g.get_nonterminal(n.first)) == VP_STR("N" << n.second), who << ": wrong item for " << show(n.first));
        const rule_list& rl = cg.rules_for_nonterminal(n.second); auto f = m.rules.find(n.second); size_t want = f == m.rules.end() ? 0 : f->second.size();
        VP_CHECK(rl.size() == want, who << ": " << show(n.first) << " has " << rl.size() << " rules, should be " << want);
        for (size_t i = 0; i < want; ++i) {
            VP_CHECK(canon_items(*rl[i]) == f->second[i], who << ": rule " << i << " of " << show(n.first) << " is " << canon_items(*rl[i]) << ", should be " << f->second[i]);
            VP_CHECK(canon(*rl[i]->nonterminal()) == VP_STR("N" << n.second), who << ": rule " << i << " of " << show(n.first) << " reduces to " << canon(*rl[i]->nonterminal()));
        }
    }
    for (wchar_t x = L'A'; x < L'F'; ++x) if (!m.names.count(wstring(1, x))) VP_CHECK(!g.nonterminal_is_defined(wstring(1, x)), who << " knows the name " << show(wstring(1, x)) << " that it was never given");
    for (auto& i : m.items) { string t = canon(*cg.item_with_identifier(i.second)); VP_CHECK(t == i.first, who << ": item " << i.second << " reads back as " << t << ", should be " << i.first); VP_CHECK(cg.identifier_for_item(cg.item_with_identifier(i.second)) == i.second, who << ": item " << i.first << " does not have its own identifier"); }
    for (auto& r : m.ruleIds) {
        const rule_container& q = cg.rule_with_identifier(r.second); string t = canon(*q->nonterminal()) + " = " + canon_items(*q);
        VP_CHECK(t == r.first, who << ": rule " << r.second << " reads back as " << t << ", should be " << r.first);
        VP_CHECK(cg.identifier_for_rule(q) == r.second, who << ": rule " << r.first << " does not have its own identifier");
    }
    VP_CHECK(canon(*cg.item_with_identifier((int) m.items.size())) == "0" && canon_items(*cg.rule_with_identifier((int) m.ruleIds.size())).empty(), who << ": an identifier that was never given out reads as something");
}

static void f_grammars(Ctx& c) {
    const int slots = 3; vector<gptr> g(slots); vector<mg> m(slots); string text;
    for (int i = 0; i < slots; ++i) g[i] = gptr(new grammar());
    struct kept { rule r; string lhs; vector<string> items; string text() const { string s; for (auto& i : items) s += (s.empty() ? "" : " ") + i; return s; } string full() const { return lhs + " = " + text(); } };
    vector<kept> pool(3); for (auto& k : pool) k.lhs = "0";
    int ops = 4 + c.s.below(28), copies = 0, asks = 0;
    for (int i = 0; i < ops; ++i) {
        int a = c.s.below(slots), b = c.s.below(slots), p = c.s.below((int) pool.size()), q = c.s.below((int) pool.size()); wstring name(1, L'A' + c.s.below(5));
        grammar& G = *g[a]; mg& M = m[a];
        maker mk(c, [&](int k) { int id = G.id_for_nonterminal(wstring(1, L'A' + k)); VP_CHECK(id == M.id_for(wstring(1, L'A' + k)), "grammar " << a << ": a new nonterminal got identifier " << id); return id; });
        string op;
        switch (c.s.weighted({6, 1, 4, 6, 3, 2, 1, 1, 5, 2, 2, 2})) {
            case 0: {
                mr r = mk.seq(2, 0); grammar::builder bd = (c.s.chance(1, 2) || !M.names.count(name)) ? (G += name) : (G += nonterminal(M.names[name])); int id = M.id_for(name);
                for (auto& it : r.items) { if (it.text[0] == 't' && c.s.chance(1, 2)) bd << atoi(it.text.c_str() + 1); else bd << it.real; }
                M.rules[id].push_back(r.text()); op = VP_STR("g" << a << ": " << show(name) << " = " << r.text()); break; }
            case 1: { bool known = M.names.count(name); VP_CHECK(G.nonterminal_is_defined(name) == known, "nonterminal_is_defined"); int id = G.id_for_nonterminal(name); op = VP_STR("g" << a << ".id(" << show(name) << ")"); VP_CHECK(id == M.id_for(name), op << " is " << id << ", should be " << M.id_for(name)); break; }
            case 2: { mi it = mk.make(2); int want = M.items.count(it.text) ? M.items[it.text] : M.next_item(); M.items[it.text] = want; int id = G.identifier_for_item(it.real); op = VP_STR("g" << a << ".id(" << it.text << ")"); VP_CHECK(id == want, op << " is " << id << ", should be " << want); break; }
            case 3: {           // the identifier of a rule: kept outside, or one in the grammar
                ++asks; auto want = [&](const string& t) { auto f = M.ruleIds.find(t); if (f != M.ruleIds.end()) return f->second; int n = (int) M.ruleIds.size(); M.ruleIds[t] = n; return n; };
                if (c.s.chance(1, 2)) { int id = c.s.chance(3, 4) ? pool[p].r.identifier(G) : G.identifier_for_rule(rule_container(pool[p].r)); int w = want(pool[p].full()); op = VP_STR("g" << a << ".id(r" << p << ")"); VP_CHECK(id == w, op << " is " << id << " for " << pool[p].full() << ", should be " << w); }
                else { auto f = M.names.find(name); if (f == M.names.end() || !M.rules.count(f->second)) break; const rule_list& rl = ((const grammar&) G).rules_for_nonterminal(f->second); int k = c.s.below((int) rl.size()); int id = c.s.chance(3, 4) ? rl[k]->identifier(G) : G.identifier_for_rule(rl[k]); int w = want(VP_STR("N" << f->second << " = " << M.rules[f->second][k])); op = VP_STR("g" << a << ".id(" << show(name) << " #" << k << ")"); VP_CHECK(id == w, op << " is " << id << ", should be " << w); }
                break; }
            case 4: { *g[a] = *g[b]; m[a] = mg(m[b]); op = VP_STR("g" << a << " = g" << b); ++copies; break; }
            case 5: { gptr n(new grammar(*g[b])); mg mm(m[b]); if (a != b) { g[a] = n; m[a] = mm; op = VP_STR("g" << a << " = new copy of g" << b); ++copies; } else { check_grammar(*n, mm, "a copy"); op = VP_STR("copy of g" << b << " made and dropped"); } break; }
            case 6: { g[a] = gptr(); g[a] = gptr(new grammar()); m[a] = mg(); op = VP_STR("g" << a << " = new"); break; }
            case 7: { G.clear_caches(); op = VP_STR("g" << a << ".clear_caches()"); if (!M.items.empty()) VP_CHECK(G.cached_set_for_item(0).empty(), "a cached set survives clear_caches"); break; }
            case 8: { mi it = mk.make(1); pool[p].r << it.real; pool[p].items.push_back(it.text); op = VP_STR("r" << p << " << " << it.text); break; }
            case 9: { if (p == q || pool[p].items.size() > 6) break; pool[p].r << pool[q].r; pool[p].items.insert(pool[p].items.end(), pool[q].items.begin(), pool[q].items.end()); op = VP_STR("r" << p << " << r" << q); break; }
            case 10: { pool[p].r = pool[q].r; pool[p].items = pool[q].items; pool[p].lhs = pool[q].lhs; op = VP_STR("r" << p << " = r" << q); break; }
            case 11: { int id = mk.nt(c.s.below(5)); if (c.s.chance(1, 2)) { pool[p].r = rule(id); pool[p].items.clear(); } else { rule n(pool[p].r, item_container(new nonterminal(id), true)); pool[p].r = n; } pool[p].lhs = VP_STR("N" << id); op = VP_STR("r" << p << " reduces to N" << id); break; }
        }
        if (op.empty()) continue;
        text += op + "; "; c.note(op);
        for (int k = 0; k < slots; ++k) check_grammar(*g[k], m[k], VP_STR("g" << k << " after " << op));
        for (size_t k = 0; k < pool.size(); ++k) VP_CHECK(canon_items(pool[k].r) == pool[k].text() && canon(*pool[k].r.nonterminal()) == pool[k].lhs, "r" << k << " is " << canon_items(pool[k].r) << " after " << op);
    }
    if (copies) c.label("copies"); if (asks) c.label("rule identifiers asked");
    if (ops >= 8 && copies && asks) c.nontrivial(text);
}

// -------- facet: equality and order --------

static void f_orders(Ctx& c) {
    maker mk(c, [](int k) { return k; }); int n = 3 + c.s.below(5); vector<mi> v; string text;
    for (int i = 0; i < n; ++i) { if (i && c.s.chance(1, 4)) { mi x = v[c.s.below(i)]; if (c.s.chance(1, 2)) x.real = item_container(x.real->clone(), true); v.push_back(x); } else v.push_back(mk.make(2)); text += v.back().text + ", "; }
    c.note(text);
    for (int i = 0; i < n; ++i) VP_CHECK(canon(*v[i].real) == v[i].text, "an item made as " << v[i].text << " reads as " << canon(*v[i].real));
    bool same = false;
    vector<vector<bool> > lt(n, vector<bool>(n)), rlt(n, vector<bool>(n)); vector<rule> rs; vector<string> rt;
    for (int i = 0; i < n; ++i) { rule r(item_container(v[c.s.below(n)].real)); mr m; for (int k = c.s.below(3); k > 0; --k) { m.items.push_back(v[c.s.below(n)]); r << m.items.back().real; } rs.push_back(r); rt.push_back(canon(*r.nonterminal()) + " = " + m.text()); c.note(rt.back()); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        const item_container &a = v[i].real, &b = v[j].real; bool eq = v[i].text == v[j].text; if (eq && i != j) same = true; string w = v[i].text + " and " + v[j].text;
        lt[i][j] = a < b;
        VP_CHECK((a == b) == eq && (a != b) == !eq && (*a == *b) == eq && (*a != *b) == !eq, "equality of " << w);
        VP_CHECK((a < b) + (b < a) == (eq ? 0 : 1), "order of " << w << " is not total");
        VP_CHECK((a > b) == (b < a), "> disagrees with < for " << w); VP_CHECK((a <= b) == !(b < a), "<= disagrees with < for " << w); VP_CHECK((a >= b) == !(a < b), ">= disagrees with < for " << w);
        VP_CHECK((*a < *b) + (*b < *a) == (eq ? 0 : 1) && (*a > *b) == (*b < *a) && (*a <= *b) == !(*b < *a) && (*a >= *b) == !(*a < *b), "order of the items " << w << " is not total");
        VP_CHECK(item::compare(*a, *b) == (a < b), "compare of " << w);
        bool req = rt[i] == rt[j]; rlt[i][j] = rs[i] < rs[j]; VP_CHECK((rs[i] == rs[j]) == req, "equality of the rules " << rt[i] << " and " << rt[j]);
        VP_CHECK((rs[i] < rs[j]) + (rs[j] < rs[i]) == (req ? 0 : 1), "order of the rules " << rt[i] << " and " << rt[j] << " is not total");
        bool same_items = canon_items(rs[i]) == canon_items(rs[j]); int k = rs[i].compare_items(rs[j]), o = rs[j].compare_items(rs[i]); VP_CHECK((k == 0) == same_items && (k < 0) == (o > 0) && (k > 0) == (o < 0), "compare_items of " << rt[i] << " and " << rt[j] << " gives " << k << " and " << o);
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) {
        VP_CHECK(!(lt[i][j] && lt[j][k]) || lt[i][k], "order is not transitive: " << v[i].text << " < " << v[j].text << " < " << v[k].text);
        VP_CHECK(!(rlt[i][j] && rlt[j][k]) || rlt[i][k], "rule order is not transitive: " << rt[i] << " < " << rt[j] << " < " << rt[k]);
    }
    if (same) c.label("equal items"); if (n >= 4) c.nontrivial(text);
}

// -------- facet: item sets --------

static void f_sets(Ctx& c) {
    grammar g; const int base = 1 /* item 0 is the empty item */; vector<item_container> pool; int np = 6 + c.s.below(90);
    for (int i = 0; i < np; ++i) { pool.push_back(item_container(new terminal(i), true)); VP_CHECK(g.identifier_for_item(pool.back()) == i + base, "item identifiers are not consecutive"); }
    const int n = 3; vector<item_set> s(n, item_set(g)); vector<set<int> > m(n); string text; int ops = 4 + c.s.below(24); bool er = false, mer = false; int hub = c.s.below(np);
    for (int i = 0; i < ops; ++i) {
        int a = c.s.below(n), b = c.s.below(n), v = c.s.chance(1, 2) ? (hub + c.s.below(3)) % np : (int) c.s.below(np); string op; bool got, want;
        switch (c.s.weighted({6, 4, 2, 1, 1})) {
            case 0: op = VP_STR("s" << a << " insert " << v); c.note(op); got = c.s.chance(1, 2) ? s[a].insert(v + base) : s[a].insert(pool[v]); want = m[a].insert(v).second; VP_CHECK(got == want, op << " returned " << got); break;
            case 1: op = VP_STR("s" << a << " erase " << v); c.note(op); got = c.s.chance(1, 2) ? s[a].erase(v + base) : s[a].erase(pool[v]); want = m[a].erase(v) > 0; VP_CHECK(got == want, op << " returned " << got); er = true; break;
            case 2: { op = VP_STR("s" << a << " merge s" << b); c.note(op); size_t before = m[a].size(); m[a].insert(m[b].begin(), m[b].end()); got = s[a].merge(s[b]); want = m[a].size() != before; VP_CHECK(got == want, op << " returned " << got); mer = true; break; }
            case 3: op = VP_STR("s" << a << " = s" << b); c.note(op); s[a] = s[b]; m[a] = set<int>(m[b]); break;
            case 4: { op = VP_STR("s" << a << " = copy of s" << b); c.note(op); item_set x(s[b]); s[a] = x; m[a] = set<int>(m[b]); break; }
        }
        text += op + "; ";
        for (int k = 0; k < n; ++k) {
            VP_CHECK(s[k].size() == m[k].size() && s[k].empty() == m[k].empty(), "s" << k << " has size " << s[k].size() << " after " << op << ", should be " << m[k].size());
            vector<int> got; for (item_set::iterator it = s[k].begin(); it != s[k].end(); ++it) { VP_CHECK(got.size() < m[k].size() + 2, "iterating s" << k << " does not end after " << op); got.push_back((*it)->symbol()); }
            VP_CHECK(got == vector<int>(m[k].begin(), m[k].end()), "s" << k << " lists " << show(got) << " after " << op << ", should be " << show(vector<int>(m[k].begin(), m[k].end())));
            for (int x = 0; x < np; ++x) VP_CHECK(s[k].contains(x + base) == (m[k].count(x) > 0), "s" << k << (m[k].count(x) ? " has lost " : " has gained ") << x << " after " << op);
            VP_CHECK(s[k].contains(pool[v]) == (m[k].count(v) > 0) && !s[k].contains(-1) && !s[k].contains(np + 70), "membership in s" << k << " after " << op);
        }
        for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) {
            bool eq = m[x] == m[y]; VP_CHECK((s[x] == s[y]) == eq && (s[x] != s[y]) == !eq, "sets " << show(vector<int>(m[x].begin(), m[x].end())) << " and " << show(vector<int>(m[y].begin(), m[y].end())) << " compare " << (eq ? "different" : "equal") << " after " << op);
            VP_CHECK((s[x] < s[y]) + (s[y] < s[x]) == (eq ? 0 : 1) && (s[x] > s[y]) == (s[y] < s[x]) && (s[x] <= s[y]) == !(s[y] < s[x]) && (s[x] >= s[y]) == !(s[x] < s[y]), "order of " << show(vector<int>(m[x].begin(), m[x].end())) << " and " << show(vector<int>(m[y].begin(), m[y].end())) << " is not total after " << op);
        }
        VP_CHECK(!item_set::empty_set.contains(v + base) && !item_set::empty_set.contains(pool[v]) && item_set::empty_set.empty(), "the empty set has something in it");
    }
    if (er && mer) c.label("erased and merged"); if (ops >= 6 && er) c.nontrivial(text);
}

// -------- facet: terminal dictionaries --------

static void f_names(Ctx& c) {
    const int n = 2; vector<terminal_dictionary> d(n); struct md { int next; map<wstring, int> byName; map<int, wstring> name; map<int, int> parent; md() : next(0) { } }; vector<md> m(n); string text; int ops = 4 + c.s.below(30); bool sp = false, cp = false;
    for (int i = 0; i < ops; ++i) {
        int a = c.s.below(n), b = c.s.below(n); string op; wstring nm = L"n" + wstring(1, L'a' + c.s.below(20)); md& M = m[a]; terminal_dictionary& D = d[a];
        switch (c.s.weighted({5, 2, 2, 6, 1})) {
            case 0: { if (M.byName.count(nm)) break; int id = D.add_symbol(nm); op = VP_STR("d" << a << " add " << show(nm)); VP_CHECK(id == M.next, op << " is " << id << ", should be " << M.next); M.byName[nm] = id; M.name[id] = nm; ++M.next; break; }
            case 1: { int id = D.add_symbol(); op = VP_STR("d" << a << " add unnamed"); VP_CHECK(id == M.next, op << " is " << id << ", should be " << M.next); ++M.next; break; }
            case 2: { if (M.byName.count(nm)) break; int id = M.next + c.s.below(5); D.add_symbol(nm, id); op = VP_STR("d" << a << " add " << show(nm) << " as " << id); M.byName[nm] = id; M.name[id] = nm; M.next = id + 1; break; }
            case 3: { if (!M.next) break; int of = c.s.below(M.next); int id = D.split(of); op = VP_STR("d" << a << " split " << of); VP_CHECK(id == M.next, op << " is " << id << ", should be " << M.next); int par = M.parent.count(of) ? M.parent[of] : of; M.parent[id] = par; ++M.next; sp = true; break; }
            case 4: { d[a] = d[b]; m[a] = md(m[b]); op = VP_STR("d" << a << " = d" << b); cp = true; break; }
        }
        if (op.empty()) continue;
        c.note(op); text += op + "; ";
        for (int k = 0; k < n; ++k) {
            const terminal_dictionary& T = d[k]; md& N = m[k]; VP_CHECK(T.count_symbols() == (int) N.name.size(), "d" << k << " counts " << T.count_symbols() << " symbols after " << op << ", should be " << N.name.size());
            for (auto& x : N.byName) VP_CHECK(T.symbol_for_name(x.first) == x.second, "d" << k << ": " << show(x.first) << " is symbol " << T.symbol_for_name(x.first) << " after " << op << ", should be " << x.second);
            for (wchar_t x = L'a'; x < L'u'; ++x) { wstring w = L"n" + wstring(1, x); if (!N.byName.count(w)) VP_CHECK(T.symbol_for_name(w) == -1, "d" << k << " knows " << show(w) << " after " << op); }
            map<int, set<int> > kids; for (auto& p : N.parent) kids[p.second].insert(p.first);
            for (int x = 0; x < N.next + 3; ++x) {
                int par = N.parent.count(x) ? N.parent[x] : x; wstring want = N.name.count(x) ? N.name[x] : N.name.count(par) ? N.name[par] : wstring();
                VP_CHECK(T.parent_of(x) == par, "d" << k << ": symbol " << x << " has parent " << T.parent_of(x) << " after " << op << ", should be " << par);
                VP_CHECK(T.name_for_symbol(x) == want, "d" << k << ": symbol " << x << " is called " << show(T.name_for_symbol(x)) << " after " << op << ", should be " << show(want));
                VP_CHECK(T.children_of(x) == kids[x], "d" << k << ": wrong children of symbol " << x << " after " << op);
            }
        }
    }
    if (sp) c.label("splits"); if (cp) c.label("copies"); if (ops >= 6 && sp) c.nontrivial(text);
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "grammars", f_grammars, 100000, 2000000, "histories of 4-31 steps over 3 grammars and 3 rules kept outside them: adding rules with nested items, asking for identifiers, assigning and copying grammars, destroying them, changing and copying rules; after every step every grammar is read back in full and compared with the model; non-trivial: 8 or more steps, with a copy of a grammar and a rule's identifier asked for", 20 },
        { "orders", f_orders, 200000, 4000000, "3-7 items (nested optionals, repeats, alternatives and guards, and copies of each other) and as many rules made of them, every pair and triple compared; equality must be equality of structure and the orders must be total; non-trivial: 4 or more items", 20 },
        { "sets", f_sets, 200000, 4000000, "histories of insertion, removal, merging and copying over 3 item sets of up to 96 items, each step compared with a model, including equality and order; non-trivial: 6 or more steps with a removal", 20 },
        { "names", f_names, 200000, 4000000, "histories of adding, naming, splitting and copying over two terminal dictionaries, each step compared with a model; non-trivial: 6 or more steps with a split", 20 },
    };
    return run_main(argc, argv, "C24", f, { "nonterminals are those the grammar itself numbered", "a rule is not changed through a reference after the grammar holding it was copied", "numbers given by hand to named terminals are unused, as documented" });
}

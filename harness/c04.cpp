// C04: symbol sets obey set algebra, deduplication yields an exact partition, and every lookup table agrees with them.

#include "vp.h"
#include "dfa_util.h"
#include "TameParse/Dfa/remapped_symbol_map.h"
#include "TameParse/Dfa/symbol_translator.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
#include "TameParse/Dfa/epsilon.h"

using namespace std;
using namespace vp;
using namespace dfa;

/// The model: boundaries at which membership flips
typedef vector<pair<int,int> > mset;            // sorted, disjoint, merged [lo, hi)
static mset norm(mset m) { sort(m.begin(), m.end()); mset o; for (auto& p : m) { if (p.first >= p.second) continue; if (!o.empty() && p.first <= o.back().second) o.back().second = max(o.back().second, p.second); else o.push_back(p); } return o; }
static mset mor(const mset& a, const mset& b) { mset r(a); r.insert(r.end(), b.begin(), b.end()); return norm(r); }
static const int MAXSYM = 0x7fffffff;
static mset mnot(const mset& a) { mset r; int nx = 0; for (auto& p : a) { if (p.first > nx) r.push_back(make_pair(nx, p.first)); nx = p.second; } if (nx < MAXSYM) r.push_back(make_pair(nx, MAXSYM)); return r; }
static mset mand(const mset& a, const mset& b) { mset r; for (auto& x : a) for (auto& y : b) { int lo = max(x.first, y.first), hi = min(x.second, y.second); if (lo < hi) r.push_back(make_pair(lo, hi)); } return norm(r); }
static bool mhas(const mset& a, int v) { for (auto& p : a) if (v >= p.first && v < p.second) return true; return false; }
static string show(const mset& m) { ostringstream o; o << "{"; for (auto& p : m) o << " " << p.first << "-" << p.second; o << " }"; return o.str(); }
static mset of(const symbol_set& s) { mset m; for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) m.push_back(make_pair(i->lower(), i->upper())); return m; }

static const int pts[] = { 0, 1, 2, 3, 5, 8, 13, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 767, 768, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xe000, 0xfeff, 0xff00, 0xfffe, 0xffff, 0x10000, 0x10001, 0x100ff, 0x10ffff, 0x110000, 0x1000000, 0x1000001, 0x7ffffffe };
static pair<int,int> gen_range(Ctx& c, int limit) {
    int lo, hi;
    do {
        if (c.s.chance(1, 2)) { lo = c.s.below(20); hi = lo + 1 + c.s.below(10); }
        else { lo = pts[c.s.below(sizeof pts / sizeof *pts)]; hi = c.s.chance(1, 2) ? lo + 1 : pts[c.s.below(sizeof pts / sizeof *pts)]; if (hi <= lo) { swap(lo, hi); if (lo == hi) ++hi; } }
        if (lo >= limit) lo %= 512, hi = lo + 1 + c.s.below(600);
        if (hi > limit) hi = limit;
    } while (lo >= hi);
    return make_pair(lo, hi);
}
static set<int> probes(const vector<mset>& ms) { set<int> r; for (auto& m : ms) for (auto& p : m) { r.insert(p.first); r.insert(p.second - 1); if (p.first) r.insert(p.first - 1); if (p.second < MAXSYM) r.insert(p.second); } r.insert(0); return r; }

static void check_set(Ctx& c, const symbol_set& s, const mset& m, const string& what) {
    // Adjacent ranges may be stored separately, but stored ranges are ordered and disjoint, and cover exactly the model
    mset raw = of(s); for (size_t i = 0; i + 1 < raw.size(); ++i) VP_CHECK(raw[i].second <= raw[i+1].first, what << ": overlapping or unordered ranges " << show(raw));
    for (auto& p : raw) VP_CHECK(p.first < p.second, what << ": empty range in " << show(raw));
    VP_CHECK(norm(raw) == m, what << " is " << show(raw) << "; should be " << show(m));
    symbol_set copy(s); for (int v : probes(vector<mset>(1, m))) VP_CHECK(copy[v] == mhas(m, v), what << ": membership of " << v << " is " << copy[v]);
}

static void f_algebra(Ctx& c) {
    // A history of operations over a few sets, each checked against the model
    int n = 2 + c.s.below(2); vector<symbol_set> s(n); vector<mset> m(n); string text; int ops = 2 + c.s.below(16); bool inv = false, excl = false;
    for (int i = 0; i < ops; ++i) {
        int a = c.s.below(n), b = c.s.below(n); pair<int,int> r = gen_range(c, MAXSYM); range<int> rr(r.first, r.second); mset mr(1, r);
        string op; c.note(VP_STR("operands s" << a << " s" << b << " " << r.first << "-" << r.second));
        switch (c.s.weighted({6, 2, 4, 2, 2, 2, 1, 1, 1})) {
            case 0: s[a] |= rr; m[a] = mor(m[a], mr); op = VP_STR("s" << a << " |= " << r.first << "-" << r.second); break;
            case 1: s[a] |= s[b]; m[a] = mor(m[a], m[b]); op = VP_STR("s" << a << " |= s" << b); break;
            case 2: s[a].exclude(rr); m[a] = mand(m[a], mnot(mr)); op = VP_STR("s" << a << ".exclude(" << r.first << "-" << r.second << ")"); excl = true; break;
            case 3: s[a].exclude(s[b]); m[a] = mand(m[a], mnot(m[b])); op = VP_STR("s" << a << ".exclude(s" << b << ")"); excl = true; break;
            case 4: s[a] &= rr; m[a] = mand(m[a], mr); op = VP_STR("s" << a << " &= " << r.first << "-" << r.second); break;
            case 5: s[a] &= s[b]; m[a] = mand(m[a], m[b]); op = VP_STR("s" << a << " &= s" << b); break;
            case 6: s[a].invert(); m[a] = mnot(m[a]); op = VP_STR("s" << a << ".invert()"); inv = true; break;
            case 7: s[a] = ~s[b]; m[a] = mnot(m[b]); op = VP_STR("s" << a << " = ~s" << b); inv = true; break;
            case 8: s[a] = symbol_set(rr); m[a] = mr; op = VP_STR("s" << a << " = " << r.first << "-" << r.second); break;
        }
        text += op + "; "; c.note(op);
        check_set(c, s[a], m[a], VP_STR("s" << a << " after " << op));
        check_set(c, s[b], m[b], VP_STR("s" << b << " after " << op));
    }
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
        if (m[a] == m[b]) { if (of(s[a]) == of(s[b])) VP_CHECK(s[a] == s[b] && !(s[a] < s[b]), "equal sets compare different: " << show(m[a])); }
        else { VP_CHECK(!(s[a] == s[b]), "different sets compare equal: " << show(m[a]) << " " << show(m[b])); VP_CHECK((s[a] < s[b]) != (s[b] < s[a]), "ordering of different sets " << show(m[a]) << " " << show(m[b]) << " is not total"); }
    }
    if (inv) c.label("inversions"); if (excl) c.label("exclusions");
    if (ops >= 4 && (inv || excl)) c.nontrivial(text);
}

static void f_dedupe(Ctx& c) {
    symbol_map src; int n = 1 + c.s.below(7); vector<mset> m; string text; map<int, mset> byId; bool overlap = false;
    for (int i = 0; i < n; ++i) {
        symbol_set s; mset x; int k = 1 + c.s.weighted({4, 3, 2, 1}); for (int j = 0; j < k; ++j) { pair<int,int> r = gen_range(c, MAXSYM); s |= range<int>(r.first, r.second); x = mor(x, mset(1, r)); }
        for (auto& o : m) if (!mand(o, x).empty() && o != x) overlap = true;
        int id = src.identifier_for_symbols(s); byId[id] = x; m.push_back(x); text += show(x) + " ";
        VP_CHECK(src.find_identifier_for_symbols(s) == id, "find_identifier_for_symbols disagrees with identifier_for_symbols");
    }
    bool withEps = c.s.chance(1, 3); int epsId = -1; if (withEps) { epsId = src.identifier_for_symbols(epsilon()); }
    c.note("sets " + text);
    unique_ptr<remapped_symbol_map> d(remapped_symbol_map::deduplicate(src));
    // The new sets are disjoint and each old set is exactly the union of the sets it maps to
    vector<pair<int, mset> > now; for (symbol_map::iterator it = d->begin(); it != d->end(); ++it) now.push_back(make_pair(it->second, norm(of(*it->first))));
    for (size_t i = 0; i < now.size(); ++i) for (size_t j = i + 1; j < now.size(); ++j) VP_CHECK(mand(now[i].second, now[j].second).empty(), "new sets " << show(now[i].second) << " and " << show(now[j].second) << " overlap");
    for (auto& o : byId) { mset u; for (int id : d->new_symbols(o.first)) for (auto& x : now) if (x.first == id) u = mor(u, x.second); VP_CHECK(u == o.second, "old set " << show(o.second) << " became " << show(u)); }
    if (withEps) { const remapped_symbol_map::new_symbol_set& e = d->new_symbols(epsId); VP_CHECK(e.size() == 1 && norm(of((*d)[*e.begin()])).empty(), "the empty set was remapped to " << e.size() << " sets"); }
    // Nothing is invented
    mset all; for (auto& x : m) all = mor(all, x); mset got; for (auto& x : now) got = mor(got, x.second); VP_CHECK(got == all, "the new sets cover " << show(got) << " instead of " << show(all));
    VP_CHECK(!d->has_duplicates(), "has_duplicates after deduplicate");
    VP_CHECK(src.has_duplicates() == [&]() { vector<mset> v; for (auto& o : byId) v.push_back(o.second); for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) if (!mand(v[i], v[j]).empty()) return true; return false; }(), "has_duplicates is wrong for " << text);
    if (overlap) c.nontrivial(text);
}

static void f_tables(Ctx& c) {
    // Disjoint sets added range by range in any order
    bool wide = c.s.chance(1, 2); int limit = wide ? 0x7fffffff : 0x10000;
    symbol_map src; string text; vector<pair<int,int> > ranges; vector<int> ids; mset used; int n = 1 + c.s.below(6); vector<symbol_set> sets(n);
    int k = 1 + c.s.below(10); vector<vector<pair<int,int> > > per(n);
    for (int i = 0; i < k; ++i) { pair<int,int> r = gen_range(c, limit); int w = c.s.below(n); for (auto& p : mand(mset(1, r), mnot(used))) { sets[w] |= range<int>(p.first, p.second); per[w].push_back(p); } used = mor(used, mset(1, r)); }
    vector<pair<pair<int,int>, int> > adds;
    for (int i = 0; i < n; ++i) { if (per[i].empty()) continue; int id = src.identifier_for_symbols(sets[i]); text += VP_STR(id << "=" << show(norm(per[i])) << " "); for (auto& p : norm(per[i])) adds.push_back(make_pair(p, id)); }
    for (size_t i = adds.size(); i > 1; --i) swap(adds[i-1], adds[c.s.below(i)]);
    c.note("ranges " + text);
    symbol_translator<wchar_t> tw(src); symbol_translator<int> ti(src);
    symbol_table<wchar_t> sw; symbol_table<int> si; symbol_table<char> sc; for (auto& a : adds) { sw.add_range(range<int>(a.first.first, a.first.second), a.second); si.add_range(range<int>(a.first.first, a.first.second), a.second); sc.add_range(range<int>(a.first.first, a.first.second), a.second); }
    symbol_translator<wchar_t> copy(tw); copy.add_range(range<int>(0, 700), 99);        // a copy is independent
    size_t size = 0; int* t = sw.table.to_hard_coded_table(size); VP_CHECK(size < 1000000, "hard coded table has size " << size); vector<int> hc(t, t + size); delete[] t; hard_coded_symbol_table<wchar_t, 2> h(hc.data());
    size_t size4 = 0; t = si.table.to_hard_coded_table(size4); VP_CHECK(size4 < 10000000, "hard coded table has size " << size4); vector<int> hc4(t, t + size4); delete[] t; hard_coded_symbol_table<int, 4> h4(hc4.data());
    size_t size1 = 0; t = sc.table.to_hard_coded_table(size1); vector<int> hc1(t, t + size1); delete[] t; hard_coded_symbol_table<unsigned char, 1> h1(hc1.data());
    vector<mset> ms; for (auto& a : adds) ms.push_back(mset(1, a.first)); set<int> pr = probes(ms); for (int i = 0; i < 8; ++i) pr.insert(pts[c.s.below(sizeof pts / sizeof *pts)]); for (int i = 0; i < 8; ++i) pr.insert(c.s.below(0x10000));
    for (int v : pr) {
        int want = -1; for (auto& a : adds) if (v >= a.first.first && v < a.first.second) want = a.second;
        VP_CHECK(ti.set_for_symbol(v) == want, "int translator maps " << v << " to " << ti.set_for_symbol(v) << ", should be " << want);
        VP_CHECK(si.lookup(v) == want, "int table maps " << v << " to " << si.lookup(v) << ", should be " << want);
        VP_CHECK(h4.lookup(v) == want, "32 bit hard coded table maps " << v << " to " << h4.lookup(v) << ", should be " << want);
        if (v < 0x10000) {
            VP_CHECK(tw.set_for_symbol(v) == want, "wchar_t translator maps " << v << " to " << tw.set_for_symbol(v) << ", should be " << want);
            VP_CHECK(sw.lookup(v) == want, "wchar_t table maps " << v << " to " << sw.lookup(v) << ", should be " << want);
            VP_CHECK(h.lookup(v) == want, "16 bit hard coded table maps " << v << " to " << h.lookup(v) << ", should be " << want);
            VP_CHECK(copy.set_for_symbol(v) == (v < 700 ? 99 : want), "copied translator maps " << v << " to " << copy.set_for_symbol(v));
        }
        if (v < 256) { VP_CHECK(sc.lookup(v) == want, "char table maps " << v << " to " << sc.lookup(v) << ", should be " << want); VP_CHECK(h1.lookup(v) == want, "8 bit hard coded table maps " << v << " to " << h1.lookup(v) << ", should be " << want); }
    }
    if (adds.size() >= 3) c.nontrivial(text);
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "algebra", f_algebra, 300000, 4000000, "histories of union, exclusion, intersection, inversion and assignment over 2-3 symbol sets, each step compared with an interval model; non-trivial: 4 or more steps with an exclusion or inversion", 10 },
        { "dedupe", f_dedupe, 300000, 4000000, "1-7 overlapping symbol sets deduplicated; the result must be an exact partition with the right mapping; non-trivial: two different sets overlap", 10 },
        { "tables", f_tables, 40000, 600000, "disjoint ranges on and around 256-block boundaries added in any order to 8, 16 and 32 bit tables, translators and hard coded tables; every lookup compared at all boundaries; non-trivial: 3 or more ranges", 20 },
    };
    return run_main(argc, argv, "C04", f, { "symbols are 0 to 0x7ffffffe, the range the lexers use" });
}

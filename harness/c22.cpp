// C22: conflicts and clashing guards are reported, once each, at the rules that take part in them, and as severe as asked

#include "vp.h"
#include "lr_ext.h"
#include "lr_resolve.h"

using namespace std;
using namespace vp;

struct place { string file; int line, col; bool operator<(const place& o) const { return tie(file, line, col) < tie(o.file, o.line, o.col); } };
static string show(const place& p) { return p.file + ":" + to_string(p.line) + (p.col < 0 ? "" : ":" + to_string(p.col)); }

/// A grammar as text in one or two files, and where everything ended up
struct written {
    string base, main; rg::Gram g; vector<string> T; split* sp; int salt, flagRate; bool literals;
    map<string, set<place>> rules, items;                       // by text of the rule after the name of the nonterminal, and by text of the item
    string* out; string file; int line, col;
    written() : sp(NULL), salt(0), flagRate(0), literals(false), out(NULL) { }
    vector<string> pending;                                     // rules with nothing in them are where the next token is
    void put(const string& s) { *out += s; for (char ch : s) { if (!isspace((unsigned char) ch)) { for (auto& k : pending) rules[k].insert(place{file, line, col}); pending.clear(); } if (ch == '\n') { ++line; col = 0; } else ++col; } }
    string key(const rg::Rule& r) const { return rg::text(sp ? sp->conv(r) : r); }
    bool flagged(const string& ruleKey, size_t i) const { return flagRate && (int) (hash_str(VP_STR(salt << ruleKey << "#" << i)) % 8) < flagRate; }
    void rule(const rg::Rule& r, bool flags) { string k = key(r); for (size_t i = 0; i < r.size(); ++i) { if (i) put(" "); item(r[i], flags && flagged(k, i), flags); } }
    void item(const rg::It& i, bool flag, bool flags) {
        if (i.k == rg::T) { put(T[i.id]); return; }
        if (i.k == rg::N) { put("<N" + to_string(i.id) + ">"); return; }
        rg::It as = sp ? sp->conv(i) : i; items[rg::text(as)].insert(place{file, line, -1});
        if (i.k == rg::GUARD) { put(flag ? "[=>[can-clash] " : "[=> "); rule(i.r[0], false); put("]"); return; }
        put("("); for (size_t k = 0; k < i.r.size(); ++k) { if (k) put(" | "); rule(i.r[k], flags); } put(")");
        put(i.k == rg::OPT ? "?" : i.k == rg::REP ? "+" : i.k == rg::REP0 ? "*" : "");
    }
    void production(int n, size_t k) { const rg::Rule& r = g.nt[n][k]; string k2 = "N" + to_string(n) + " = " + key(r); if (r.empty()) pending.push_back(k2); else rules[k2].insert(place{file, line, col}); rule(r, true); }
    void open(string& where, const string& name) { out = &where; file = name; line = 0; col = 0; }
    /// Languages in two files get some of the rules of some nonterminals in the second one
    void write(Src& s, bool two, const string& extra) {
        if (two) {
            open(base, "base.tp"); put("language M {\n"); if (!literals) { put("  keywords {"); for (auto& t : T) put(" " + t); put(" }\n"); } put("  grammar {\n");
            vector<size_t> from(g.nt.size()); for (size_t n = 0; n < g.nt.size(); ++n) { from[n] = 1 + s.below((uint32_t) g.nt[n].size()); put("    <N" + to_string(n) + "> = "); for (size_t k = 0; k < from[n]; ++k) { if (k) put("\n      | "); production((int) n, k); } put("\n"); }
            put("  }\n}\n");
            open(main, "main.tp"); put(extra + "import \"base.tp\"\nlanguage L : M {\n  grammar {\n");
            for (size_t n = 0; n < g.nt.size(); ++n) if (from[n] < g.nt[n].size()) { put("    <N" + to_string(n) + "> |= "); for (size_t k = from[n]; k < g.nt[n].size(); ++k) { if (k > from[n]) put("\n      | "); production((int) n, k); } put("\n"); }
            put("  }\n}\n"); return;
        }
        open(main, "main.tp"); put(extra + "language L {\n"); if (!literals) { put("  keywords {"); for (auto& t : T) put(" " + t); put(" }\n"); } put("  grammar {\n");
        for (size_t n = 0; n < g.nt.size(); ++n) { put("    <N" + to_string(n) + "> = "); for (size_t k = 0; k < g.nt[n].size(); ++k) { if (k) put(s.chance(1, 4) ? " | " : "\n      | "); production((int) n, k); } put("\n"); }
        put("  }\n}\n");
    }
};

/// The rules of the text that a production of the reference comes from, with the number of symbols it has in front
static vector<pair<rg::Rule, int>> sources(rg::Low& low, const rg::Gram& g, int p) {
    const rg::Prod& pr = low.prods[p]; vector<pair<rg::Rule, int>> o;
    if (pr.lhs < low.nT + (int) g.nt.size()) { for (auto& r : g.nt[pr.lhs - low.nT]) if (low.seq(r) == pr.rhs) o.push_back(make_pair(r, 0)); return o; }
    function<void(const rg::It&)> look = [&](const rg::It& i) { for (auto& r : i.r) { vector<int> v = low.seq(r); if (v == pr.rhs) o.push_back(make_pair(r, 0)); v.insert(v.begin(), pr.lhs); if (v == pr.rhs && (i.k == rg::REP || i.k == rg::REP0)) o.push_back(make_pair(r, 1)); if (i.k == rg::ALT && r.size() == 1 && r[0].k == rg::ALT) look(r[0]); } };
    look(low.items[pr.lhs - low.nT]); return o;
}
/// Where a production of the reference is in the text
static set<place> places(const written& w, rg::Low& low, const rg::Gram& g, int p) {
    set<place> o; if (p < 0) { o.insert(place{"", -1, -1}); return o; }
    const rg::Prod& pr = low.prods[p];
    if (pr.lhs < low.nT + (int) g.nt.size()) { for (auto& s : sources(low, g, p)) { auto f = w.rules.find("N" + to_string(pr.lhs - low.nT) + " = " + rg::text(s.first)); if (f != w.rules.end()) o.insert(f->second.begin(), f->second.end()); } }
    else { auto f = w.items.find(rg::text(low.items[pr.lhs - low.nT])); if (f != w.items.end()) o.insert(f->second.begin(), f->second.end()); }
    return o;
}
static bool at(const lang_error& e, const set<place>& ps) { for (auto& p : ps) if ((p.line < 0 && e.line < 0) || (e.file == p.file && e.line == p.line && (p.col < 0 || e.col == p.col))) return true; return false; }

/// Can every element on the left get one of its own on the right?
static bool matching(size_t n, size_t m, const function<bool(size_t, size_t)>& ok) {
    vector<int> of(m, -1);
    for (size_t i = 0; i < n; ++i) { vector<char> seen(m, 0); function<bool(size_t)> aug = [&](size_t a) { for (size_t j = 0; j < m; ++j) if (!seen[j] && ok(a, j)) { seen[j] = 1; if (of[j] < 0 || aug((size_t) of[j])) { of[j] = (int) a; return true; } } return false; }; if (!aug(i)) return false; }
    return true;
}

struct group { lang_error head; vector<lang_error> shifts, reduces; };

static void f_conflicts(Ctx& c) {
    Src& s = c.s;
    rg::gen_opts o; o.ebnf = s.below(3); o.maxNT = 4; o.maxT = 5;
    rg::Gram g = rg::gen_gram(s, o, s.chance(1, 2));
    if (!rg::reduce_gram(g)) throw Discard();
    if (g.starts.size() > 1 && g.starts[0] == g.starts[1]) g.starts.resize(1);
    g = front(g);
    rg::Low low(g); if (low.nSym > 40) throw Discard();
    rg::LR lr(low, g.starts, true, 200); if (lr.too_big) throw Discard();
    vector<rg::LR::Conflict> want = lr.conflicts(); if (want.empty() && !s.chance(1, 5)) throw Discard();
    if (want.size() > 60) throw Discard();
    written w; w.g = g; w.literals = s.chance(1, 3); w.T = letters(g.nT); if (w.literals) for (auto& t : w.T) t = "\"" + t.substr(1) + "\"";
    w.write(s, s.chance(1, 3), s.chance(1, 3) ? "// something first\n\n" : "");
    if (!w.base.empty()) c.note("--- base.tp\n" + w.base); c.note("--- main.tp\n" + w.main);
    lang_build b(w.main); if (!w.base.empty()) b.st->files[L"base.tp"] = w.base;
    bool details = s.chance(1, 3), none = s.chance(1, 4), allow = s.chance(1, 4);
    if (details) { b.st->options[L"show-conflict-details"] = L"1"; c.note("show-conflict-details"); } if (none) { b.st->options[L"no-conflicts"] = L"1"; c.note("no-conflicts"); } if (allow) { b.st->options[L"allow-reduce-conflicts"] = L"1"; c.note("allow-reduce-conflicts"); }
    vector<wstring> starts; for (int x : g.starts) starts.push_back(L"<N" + to_wstring(x) + L">");
    VP_CHECK(b.lex(L"L"), "the language does not compile:" << b.report());
    size_t before = b.st->errors.size();
    b.tables(L"L", starts);
    int srSev = none ? compiler::error::sev_error : compiler::error::sev_warning, rrSev = none || !allow ? compiler::error::sev_error : compiler::error::sev_warning;
    bool sr = false, rr = false; for (auto& k : want) (k.shift ? sr : rr) = true;
    // the messages, in groups
    vector<group> got;
    for (size_t i = before; i < b.st->errors.size(); ++i) {
        const lang_error& e = b.st->errors[i]; if (e.sev < compiler::error::sev_detail) continue;
        if (e.sev > compiler::error::sev_detail) { VP_CHECK(e.id == "CONFLICT_SHIFT_REDUCE" || e.id == "CONFLICT_REDUCE_REDUCE", e.id << " is reported:" << b.report(compiler::error::sev_detail)); group x; x.head = e; if (e.id == "CONFLICT_SHIFT_REDUCE") x.shifts.push_back(e); else x.reduces.push_back(e); got.push_back(x); continue; }
        VP_CHECK(!got.empty(), "a detail without a message: " << e.text);
        if (e.id == "CONFLICT_SHIFT_REDUCE") { VP_CHECK(details, "details that were not asked for"); got.back().shifts.push_back(e); }
        else if (e.id == "DETAIL_REDUCE") got.back().reduces.push_back(e);
        else VP_CHECK(details && e.id == "DETAIL_REDUCE_IN", "unexpected detail " << e.id);
    }
    VP_CHECK(got.size() == want.size(), got.size() << " conflicts are reported, there are " << want.size() << b.report());
    for (auto& x : got) { int sev = x.head.id == "CONFLICT_SHIFT_REDUCE" ? srSev : rrSev; VP_CHECK(x.head.sev == sev, x.head.id << " has the wrong severity: " << x.head.sev << " instead of " << sev); }
    auto same = [&](size_t wi, size_t gi) {
        const rg::LR::Conflict& k = want[wi]; const group& x = got[gi];
        if (k.shift != (x.head.id == "CONFLICT_SHIFT_REDUCE")) return false;
        if (k.token < low.nT && x.head.text.find(w.T[k.token]) == string::npos) return false;
        if (x.reduces.size() != k.reduce.size()) return false;
        vector<int> reds(k.reduce.begin(), k.reduce.end());
        if (!matching(reds.size(), x.reduces.size(), [&](size_t a, size_t r) { return at(x.reduces[r], places(w, low, g, reds[a])); })) return false;
        if (k.shift) {
            // items that go on with something that begins with the token
            vector<set<place>> ok; for (auto& it : lr.states[k.state]) { const vector<int>& rhs = lr.rhs_of(it.first.first); if (it.first.second < (int) rhs.size() && low.first[rhs[it.first.second]].count(k.token)) ok.push_back(places(w, low, g, it.first.first)); }
            if (details && x.shifts.size() != ok.size()) return false;
            if (!matching(x.shifts.size(), ok.size(), [&](size_t e, size_t p) { return at(x.shifts[e], ok[p]); })) return false;
        }
        return true;
    };
    if (!matching(want.size(), got.size(), same)) {
        string m = "the conflicts that are reported:"; for (auto& e : b.st->errors) if (e.sev >= compiler::error::sev_detail) m += "\n  " + e.file + ":" + to_string(e.line) + ":" + to_string(e.col) + " " + e.id + " " + e.text;
        m += "\nare not those of the language (lines from 0):";
        for (auto& k : want) { m += "\n  " + (k.token == low.nT ? string("end") : low.name(k.token)) + (k.shift ? " shift" : ""); for (int p : k.reduce) { m += " / reduce " + (p < 0 ? string("start") : low.show(low.prods[p])); for (auto& x : places(w, low, g, p)) m += " at " + show(x); } }
        c.fail(m);
    }
    bool error = (sr && srSev == compiler::error::sev_error) || (rr && rrSev == compiler::error::sev_error);
    VP_CHECK((b.st->exitCode != 0) == error, "the exit code is " << b.st->exitCode);
    VP_CHECK(b.lr->get_tables() != NULL, "there is no parser");
    if (sr) c.label("shift/reduce"); if (rr) c.label("reduce/reduce"); if (want.empty()) c.label("no conflicts"); if (!w.base.empty()) c.label("two files");
    if (sr || rr) c.nontrivial(w.base + w.main);
}

static void f_guards(Ctx& c) {
    Src& s = c.s;
    rg::gen_opts o; o.ebnf = s.below(3); o.maxNT = 4; o.maxT = 4; o.empties = s.chance(1, 3);
    rg::Gram g = rg::gen_gram(s, o, s.chance(3, 4));
    if (!rg::reduce_gram(g)) throw Discard();
    add_guards(s, g, false); if (s.chance(1, 2)) add_guards(s, g, false);
    g = front(g); if (!has_guards(g)) throw Discard();
    if (g.starts.size() > 1 && g.starts[0] == g.starts[1]) g.starts.resize(1);
    split sp(g); if (sp.g.nT > 24) throw Discard();
    rg::Low low(sp.g); if (low.nSym > 50) throw Discard();
    rg::LR lr(low, sp.g.starts, true, 250); if (lr.too_big) throw Discard();
    written w; w.g = g; w.sp = &sp; w.T = letters(g.nT); w.salt = s.below(1000); w.flagRate = s.weighted({ 3, 2, 1, 1 }) * 2;
    w.write(s, s.chance(1, 3), s.chance(1, 3) ? "\n" : "");
    if (!w.base.empty()) c.note("--- base.tp\n" + w.base); c.note("--- main.tp\n" + w.main);
    lang_build b(w.main); if (!w.base.empty()) b.st->files[L"base.tp"] = w.base;
    b.st->options[L"allow-reduce-conflicts"] = L"1"; b.st->options[L"allow-empty-guards"] = L"1";
    vector<wstring> starts; for (int x : g.starts) starts.push_back(L"<N" + to_wstring(x) + L">");
    // guards that cannot be decided
    int nG = (int) sp.bodies.size(); multiset<string> bad, badGot; bool all = true;
    vector<set<int>> reach(nG); for (int i = 0; i < nG; ++i) for (int t : low.first[low.nT + sp.g.starts[g.starts.size() + i]]) if (t >= sp.nT && t < low.nT) reach[i].insert(t - sp.nT);
    for (int n = 0; n < nG; ++n) for (int i = 0; i < nG; ++i) { set<int> r = reach[i]; for (int j : r) reach[i].insert(reach[j].begin(), reach[j].end()); }
    set<place> badAt;
    for (int i = 0; i < nG; ++i) {
        rg::It gi(rg::GUARD); gi = rg::It(rg::T, sp.nT + i); set<place>& at = w.items[rg::text(gi)];
        bool self = reach[i].count(i), nothing = low.nullable[low.nT + sp.g.starts[g.starts.size() + i]];
        if (self) bad.insert("RECURSIVE_GUARD"); if (nothing && !sp.bodies[i].empty()) bad.insert("INEFFECTIVE_GUARD"); if (self || nothing) badAt.insert(at.begin(), at.end());
    }
    bool ok = b.lex(L"L");
    for (auto& e : b.st->errors) if (e.sev >= compiler::error::sev_error) { badGot.insert(e.id); if (!at(e, badAt)) all = false; }
    if (!w.base.empty()) { set<string> x(bad.begin(), bad.end()), y(badGot.begin(), badGot.end()); bad = multiset<string>(x.begin(), x.end()); badGot = multiset<string>(y.begin(), y.end()); }    // what is wrong with a base is also wrong with what inherits from it
    if (badGot != bad || !all) { string m; for (auto& x : bad) m += " " + x; c.fail("errors about guards:" + b.report(compiler::error::sev_error) + "\ninstead of" + (m.empty() ? " none" : m)); }
    if (!bad.empty()) { for (auto& x : set<string>(bad.begin(), bad.end())) c.label(x); c.nontrivial(w.base + w.main); return; }
    VP_CHECK(ok, "the language does not compile:" << b.report());
    b.tables(L"L", starts);
    // what clashes
    vector<int> none; ref_run first(low, lr, sp.nT, (int) sp.bodies.size(), (int) g.starts.size(), true, none);
    set<place> must, may; set<string> tokens; int groups = 0;
    for (size_t st = 0; st < lr.states.size(); ++st) for (int t = 0; t < sp.nT; ++t) {
        set<int> G; for (int gd = sp.nT; gd < low.nT; ++gd) if ((lr.trans[st].count(gd) || !lr.reductions((int) st, gd).empty()) && first.can_start(gd - sp.nT, t)) G.insert(gd);
        if (G.size() < 2) continue;
        set<place> all; bool any = false;
        for (auto& it : lr.states[st]) {
            int p = it.first.first, d = it.first.second; const vector<int>& rhs = lr.rhs_of(p); if (d >= (int) rhs.size() || !G.count(rhs[d]) || p < 0) continue;
            set<place> at = places(w, low, sp.g, p); if (at.empty()) continue;                      // the body of a guard
            bool flag = true; for (auto& src : sources(low, sp.g, p)) if (!w.flagged(rg::text(src.first), (size_t) (d - src.second))) flag = false;
            all.insert(at.begin(), at.end()); if (!flag) { any = true; if (at.size() == 1) must.insert(at.begin(), at.end()); }
        }
        if (any) { ++groups; may.insert(all.begin(), all.end()); tokens.insert(w.T[t]); }
    }
    int heads = 0, details = 0; vector<lang_error> said;
    for (auto& e : b.st->errors) {
        if (e.id != "CLASHING_GUARDS" && e.id != "CLASHING_GUARDS_DETAIL") continue;
        VP_CHECK(at(e, may), "guards that do not clash are reported: " << e.file << ":" << e.line + 1 << ":" << e.col + 1 << " " << e.text);
        if (e.id == "CLASHING_GUARDS") { VP_CHECK(e.sev == compiler::error::sev_warning, "severity " << e.sev); ++heads; bool tok = false; for (auto& t : tokens) if (e.text.find(t) != string::npos) tok = true; VP_CHECK(tok, "guards do not clash on this: " << e.text); } else { VP_CHECK(e.sev == compiler::error::sev_detail && heads, "severity " << e.sev); ++details; said.push_back(e); }
    }
    VP_CHECK((heads > 0) == (groups > 0), heads << " clashes are reported, there are " << groups << b.report());
    VP_CHECK(heads <= groups, heads << " clashes are reported, there are only " << groups);
    for (auto& p : must) { set<place> one; one.insert(p); bool is = false; for (auto& e : said) if (at(e, one)) is = true; VP_CHECK(is, "the clashing guard at " << p.file << ":" << p.line + 1 << " is not mentioned:" << b.report(compiler::error::sev_detail)); }
    c.label(groups ? "clashes" : "no clashes"); if (w.flagRate) c.label("can-clash"); if (groups && !w.base.empty()) c.label("two files");
    if (groups || w.flagRate) c.nontrivial(w.base + w.main);
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "conflicts", f_conflicts, 12000, 250000, "random EBNF languages in one or two files, with any of the options about conflicts: the messages are matched one to one with the conflicts of the reference LALR(1) automaton (kind, token, positions of the rules, severity, exit status); non-trivial: there is a conflict", 30 },
        { "guards", f_guards, 12000, 250000, "random languages with guards, some marked can-clash: the guards mentioned are those that can begin with the same token in some state of the reference automaton; non-trivial: guards clash, or are marked", 30 },
    };
    return run_main(argc, argv, "C22", f, { "no guards in the bodies of guards (only in what they refer to)" });
}

// Random languages as definition text, with samples of every terminal
#ifndef TLANG_H
#define TLANG_H

#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include "lr_resolve.h"

using namespace std;
using namespace vp;

static wstring wide8(const string& s) {
    wstring o;
    for (size_t i = 0; i < s.size(); ) { unsigned ch = (unsigned char) s[i]; int n = ch < 0x80 ? 0 : ch < 0xE0 ? 1 : ch < 0xF0 ? 2 : 3; unsigned v = n == 0 ? ch : ch & (0x3F >> n); for (++i; n-- > 0; ++i) v = v << 6 | (s[i] & 0x3F); o += (wchar_t) v; }
    return o;
}

static int run(const string& cmd) { int r = system(cmd.c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : 128 + WTERMSIG(r); }
static string slurp(const string& f) { ifstream i(f.c_str(), ios::binary); ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const string& f, const string& d) { ofstream o(f.c_str(), ios::binary); o << d; if (!o.flush()) throw Discard(); }

// ---- languages

struct term_def { string ref, name, block, def; vector<wstring> samples; };

static const char* s_Names[] = { "a", "b", "a-1", "a_1", "a-2", "id", "num", "x", "class", "t", "nt", "lexer", "list-of-a", "optional-a", "int", "pos", "N0", "state", "terminal", "a-n", "A", "empty-item", "one-of-a-or-b", "a_2", "b-n", "yy-a" };
static const int s_NNames = sizeof(s_Names) / sizeof(*s_Names);
struct rx { const char* re; vector<const wchar_t*> samples; };
static const vector<rx> s_Rx = { { "[a-z]+", { L"q", L"abc", L"if", L"a" } }, { "[0-9]+", { L"7", L"42", L"007" } }, { "0x[0-9a-f]+", { L"0xf", L"0x10" } }, { "[A-Z][a-z]*", { L"B", L"Cat" } },
    { "[\xCE\xB1-\xCF\x89]+", { L"\x3B1\x3B2", L"\x3C9" } }, { "\\$[a-z]?", { L"$", L"$k" } }, { "'[^'\\n]*'", { L"''", L"'z z'" } }, { "[\xF0\x9F\x98\x80-\xF0\x9F\x98\x8F]", { L"\x1F600", L"\x1F605" } }, { "#(a|b)*", { L"#", L"#ab" } } };
static const vector<pair<const char*, const wchar_t*>> s_Lit = { { "a", L"a" }, { "b", L"b" }, { "if", L"if" }, { "+", L"+" }, { "-", L"-" }, { "--", L"--" }, { "<", L"<" }, { "<>", L"<>" }, { "<=>", L"<=>" }, { "=", L"=" }, { "'", L"'" }, { "\xC3\xA9", L"\xE9" }, { "\xC3\xBC", L"\xFC" },
    { "_", L"_" }, { "a-1", L"a-1" }, { "a_1", L"a_1" }, { "::", L"::" }, { "class", L"class" }, { "@", L"@" }, { "a b", L"a b" }, { "_a", L"_a" }, { "-a", L"-a" }, { "N0", L"N0" }, { "(", L"(" }, { ")", L")" }, { "0", L"0" }, { "x", L"x" } };

struct tlang {
    rg::Gram g; vector<term_def> T; vector<string> N; string text; int salt, nameRate; vector<vector<wstring>> samples;
    /// The name written next to an item, or nothing. Rules that are the same get the same names.
    string name(const rg::Rule& r, size_t i) const {
        if (r[i].k == rg::GUARD || !nameRate) return "";
        uint64_t h = hash_str(VP_STR(salt << rg::text(r) << "#" << i));
        if ((int)(h % 8) >= nameRate) return "";
        static const char* pool[] = { "x", "y", "a", "b", "class", "pos", "x-1", "x_1", "list", "n", "a-n", "item", "operator", "size" };
        return pool[(h >> 8) % 14];
    }
    string write(const rg::Rule& r, bool named = true) const {
        string o;
        for (size_t i = 0; i < r.size(); ++i) { o += (i ? " " : "") + write(r[i]); if (named) { string n = name(r, i); if (!n.empty()) o += "[" + n + "]"; } }
        return o;
    }
    string write(const rg::It& i) const {
        switch (i.k) {
            case rg::T: return T[i.id].ref;
            case rg::N: return N[i.id];
            case rg::OPT: return "(" + write(i.r[0]) + ")?";
            case rg::REP: return "(" + write(i.r[0]) + ")+";
            case rg::REP0: return "(" + write(i.r[0]) + ")*";
            case rg::GUARD: return "[=> " + write(i.r[0], false) + "]";
            default: { string o = "("; for (size_t k = 0; k < i.r.size(); ++k) o += (k ? " | " : "") + write(i.r[k], !(i.r[k].size() == 1 && i.r[k][0].k == rg::ALT)); return o + ")"; }
        }
    }
};

static void add_guards(Src& s, rg::Rule& r, int nT, int depth = 0) {
    rg::Rule o;
    for (auto& i : r) {
        if (i.k == rg::T && s.chance(1, 6)) { rg::It g(rg::GUARD); g.r.push_back(rg::Rule(1, rg::It(rg::T, i.id))); o.push_back(g); }
        o.push_back(i);
        if (i.k != rg::T && i.k != rg::N && i.k != rg::GUARD) for (auto& x : o.back().r) add_guards(s, x, nT, depth + 1);
    }
    if (r.empty() && nT && s.chance(2, 5)) { rg::It g(rg::GUARD); g.r.push_back(rg::Rule(1, rg::It(rg::T, (int) s.below(nT)))); o.push_back(g); }
    r = o;
}

/// True if a symbol can start with itself after something empty: an LR parser that has such a conflict never stops
static bool hidden_left_recursion(const rg::Low& low) {
    vector<set<int>> all(low.nSym); vector<pair<int, int>> hidden;
    for (auto& p : low.prods) for (size_t i = 0; i < p.rhs.size(); ++i) { if (p.rhs[i] >= low.nT) { all[p.lhs].insert(p.rhs[i]); if (i) hidden.push_back(make_pair(p.lhs, p.rhs[i])); } if (!low.nullable[p.rhs[i]]) break; }
    for (bool ch = true; ch; ) { ch = false; for (int s = low.nT; s < low.nSym; ++s) { set<int> add; for (int t : all[s]) add.insert(all[t].begin(), all[t].end()); for (int a : add) if (all[s].insert(a).second) ch = true; } }
    for (auto& h : hidden) if (h.first == h.second || all[h.second].count(h.first)) return true;
    return false;
}

static bool gen_lang(Ctx& c, tlang& l, bool reduceConflicts = false) {
    rg::gen_opts o; o.maxNT = 4; o.maxT = 6; o.ebnf = c.size > 20 ? 2 : 1;
    Src& s = c.s;
    l.g = rg::gen_gram(s, o, s.chance(3, 4));
    if (!rg::reduce_gram(l.g)) return false;
    if (l.g.starts.size() > 1 && l.g.starts[0] == l.g.starts[1]) l.g.starts.resize(1);
    l.g = front(l.g);
    { map<int, int> to; function<void(rg::Rule&)> fix = [&](rg::Rule& r) { for (auto& i : r) { if (i.k == rg::T) i.id = to.insert(make_pair(i.id, (int) to.size())).first->second; for (auto& x : i.r) fix(x); } };
      for (auto& n : l.g.nt) for (auto& r : n) fix(r); if (to.empty()) return false; l.g.nT = (int) to.size(); }
    { rg::Low low(l.g); if (low.cyclic() || hidden_left_recursion(low) || low.nSym > 40) return false; rg::LR lr(low, l.g.starts, true, 200); if (lr.too_big) return false; for (auto& x : lr.conflicts()) if (x.reduce.size() > 1 && !reduceConflicts) return false; }
    bool guards = s.chance(1, 3);
    if (guards) for (auto& n : l.g.nt) for (auto& r : n) add_guards(s, r, l.g.nT);
    if (guards) for (auto& n : l.g.nt) for (size_t k = 0; k < n.size(); ++k) if (n[k].size() == 1 && n[k][0].k == rg::GUARD && s.chance(1, 2)) {
        // rules that differ in nothing but the guard
        rg::Rule r = n[k]; r[0].r[0][0].id = (int) s.below(l.g.nT); bool known = false; for (auto& x : n) if (rg::text(x) == rg::text(r)) known = true; if (!known) n.push_back(r); break;
    }
    l.salt = s.below(1000); l.nameRate = s.weighted({2, 2, 1, 1}) * 2;
    set<string> used; bool close = s.chance(1, 4);                   // names that become one identifier
    auto pickName = [&]() { static const char* pool[] = { "a", "a-1", "a_1", "a_2", "A", "b" }; return string(close ? pool[s.below(6)] : s_Names[s.below(s_NNames)]); };
    for (int t = 0; t < l.g.nT; ++t) {
        term_def d; 
        for (int tries = 0; ; ++tries) {
            if (tries > 40) return false;
            d = term_def();
            switch (s.weighted({3, 4, 1, 1})) {
                case 0: { static const int near[] = { 0, 1, 14, 15 }; auto& x = s_Lit[close ? near[s.below(4)] : s.below((uint32_t) s_Lit.size())]; d.ref = d.name = string("\"") + x.first + "\""; d.samples.push_back(x.second); break; }
                case 1: { const rx& x = s_Rx[s.below((uint32_t) s_Rx.size())]; d.name = d.ref = pickName(); d.block = s.chance(1, 5) ? "weak lexer" : "lexer"; d.def = d.name + " = /" + x.re + "/"; for (auto w : x.samples) d.samples.push_back(w); break; }
                case 2: { auto& x = s_Lit[s.below((uint32_t) s_Lit.size())]; d.name = d.ref = pickName(); d.block = s.chance(1, 4) ? "weak keywords" : "keywords"; d.def = d.name + " = \"" + x.first + "\""; d.samples.push_back(x.second); break; }
                default: { d.name = d.ref = pickName(); d.block = s.chance(1, 4) ? "case insensitive keywords" : "keywords"; d.def = d.name; d.samples.push_back(wide8(d.name)); if (d.block != "keywords") { wstring u = d.samples[0]; for (auto& ch : u) ch = towupper(ch); d.samples.push_back(u); } break; }
            }
            bool clash = false; for (auto& e : l.T) { if (e.def == d.def && !d.def.empty()) clash = true; size_t p = e.def.find('='), q = d.def.find('='); if (p != string::npos && q != string::npos && e.def.substr(p) == d.def.substr(q)) clash = true; }
            // A keyword called K is the string "K"
            string lit = !d.def.empty() && d.def == d.name ? "\"" + d.name + "\"" : d.name;
            for (auto& e : l.T) { string el = !e.def.empty() && e.def == e.name ? "\"" + e.name + "\"" : e.name; if (e.samples[0] == d.samples[0] && e.block != "lexer" && d.block != "lexer" && e.block != "weak lexer" && d.block != "weak lexer") clash = true; (void) el; }
            (void) lit;
            if (!clash && used.insert(d.name).second) break;
        }
        l.T.push_back(d);
    }
    set<string> nts;
    for (size_t i = 0; i < l.g.nt.size(); ++i) {
        string n = "<N" + to_string(i) + ">";
        if (s.chance(1, 4)) n = "<" + pickName() + ">";
        if (!nts.insert(n).second) { n = "<Nt" + to_string(i) + ">"; nts.insert(n); }
        l.N.push_back(n);
    }
    string last, body;
    for (auto& d : l.T) { if (d.block.empty()) continue; body += "  " + d.block + " { " + d.def + " }\n"; }
    body += "  ignore { whitespace = /[ \\n\\t]+/ }\n";
    string gr = "  grammar {\n";
    for (size_t i = 0; i < l.g.nt.size(); ++i) { gr += "    " + l.N[i] + " ="; for (size_t k = 0; k < l.g.nt[i].size(); ++k) gr += string(k ? "\n        |" : "") + " " + l.write(l.g.nt[i][k]); gr += "\n"; }
    l.text = "language L {\n" + body + gr + "  }\n}\n";
    return true;
}

#endif

// C01: a regular expression recognises exactly the language its documented syntax denotes, at every stage of the
// pipeline that turns it into a DFA.

#include "vp.h"
#include "ref_regex.h"
#include "dfa_util.h"
#include "stages.h"

using namespace std;
using namespace vp;
using namespace dfa;

static wstring u16(const string& utf8);

/// Regexes reach the library as UTF-16 units (from a definition file) or as code points (from a wstring)
static symbol_string to_symbols(const string& utf8, bool asUnits) {
    symbol_string r;
    for (size_t i = 0; i < utf8.size(); ) {
        unsigned c = (unsigned char) utf8[i]; int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
        int cp = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
        ++i;
        while (n-- > 0) cp = (cp << 6) | (utf8[i++] & 63);
        r += cp;
    }
    return r;
}

static vector<int> alphabet_for(const set<int>& bounds) {
    vector<int> a(bounds.begin(), bounds.end());
    if (a.empty()) a.push_back('a');
    // lone surrogates are legal units as well
    return a;
}

static vector<units> strings_for(Ctx& c, const ref::re& r, int count, bool exhaustive, int letters) {
    set<int> b; ref::boundaries(r, b);
    vector<int> alpha = alphabet_for(b);
    vector<units> out;
    out.push_back(units());
    for (int i = 0; i < count; ++i) out.push_back(ref::gen_string(c.s, r, alpha));
    if (exhaustive) {
        int maxLen = letters <= 2 ? 4 : 3;
        for (int len = 1; len <= maxLen; ++len) {
            vector<int> idx(len, 0);
            for (;;) {
                units u; for (int i : idx) u.push_back('a' + i);
                out.push_back(u);
                int p = len - 1; while (p >= 0 && ++idx[p] == letters) idx[p--] = 0;
                if (p < 0) break;
            }
        }
    }
    return out;
}

static void compare(Ctx& c, const vector<ref::re>& res, ndfa_regex& n, const vector<units>& strs, bool ignoreSurr = false) {
    stage_set stages(n);
    bool anyAcc = false, anyRej = false;
    for (auto& u : strs) {
        set<int> want;
        for (size_t i = 0; i < res.size(); ++i) if (ref::matches(res[i], u)) want.insert((int) i);
        (want.empty() ? anyRej : anyAcc) = true;
        for (size_t st = 0; st < stages.all.size(); ++st) {
            set<int> got = stages.run(st, u);
            if (got != want) {
                ostringstream o; o << "input " << ref::show_units(u) << " at stage " << stages.name(st) << ": accepted by {";
                for (int x : got) o << " " << x;
                o << " }, should be {"; for (int x : want) o << " " << x;
                o << " }";
                c.fail(o.str());
            }
        }
    }
    if (anyAcc) c.label("some string accepted");
    if (anyRej) c.label("some string rejected");
}

static bool interesting(const ref::re& r, int& ops) {
    if (r->k == ref::k_star || r->k == ref::k_plus || r->k == ref::k_opt || r->k == ref::k_alt || r->k == ref::k_group) ++ops;
    for (auto& k : r->kids) interesting(k, ops);
    return ops >= 2;
}

static void f_small(Ctx& c) {
    ref::gen_options o; o.wide = false; o.escapes = false; o.alphabet = 2 + c.s.below(2);
    ref::re r = ref::gen_alt(c.s, o, 1 + c.s.below(3));
    string text = ref::print(r);
    c.note("regex /" + text + "/");
    ndfa_regex n;
    n.add_regex(0, to_symbols(text, true), accept_action(0));
    vector<ref::re> rs(1, r);
    compare(c, rs, n, strings_for(c, r, 10, true, o.alphabet));
    int ops = 0; if (interesting(r, ops)) c.nontrivial(text);
}

static void f_wide(Ctx& c) {
    ref::gen_options o; o.wide = true; o.astral = c.s.chance(2, 3); o.escapes = true; o.alphabet = 3;
    ref::re r = ref::gen_alt(c.s, o, 1 + c.s.below(2));
    string text = ref::print(r);
    c.note("regex /" + text + "/");
    ndfa_regex n;
    n.add_regex(0, to_symbols(text, true), accept_action(0));
    vector<ref::re> rs(1, r);
    vector<units> strs = strings_for(c, r, 25, false, 0);
    // Surrogate neighbours: change the low or high half of any pair
    size_t k = strs.size();
    for (size_t i = 0; i < k; ++i) for (size_t j = 0; j + 1 < strs[i].size(); ++j) {
        if (strs[i][j] >= 0xd800 && strs[i][j] < 0xdc00) {
            units u = strs[i]; u[j+1] = 0xdc00 + c.s.below(0x400); strs.push_back(u);
            u = strs[i]; u[j] = 0xd800 + c.s.below(0x400); strs.push_back(u);
            u = strs[i]; u[j+1] = 0xd800 + c.s.below(0x400); strs.push_back(u);
            c.label("surrogate pairs");
            break;
        }
    }
    compare(c, rs, n, strs);
    for (char ch : text) if ((unsigned char) ch >= 0x80 || ch == '\\' || ch == '[') { c.nontrivial(text); break; }
}

static void f_multi(Ctx& c) {
    ref::gen_options o; o.wide = c.s.chance(1, 4); o.escapes = false; o.alphabet = 2;
    int count = 2 + c.s.below(4);
    vector<ref::re> rs; ndfa_regex n; string key;
    ref::re all = ref::mk(ref::k_alt);
    vector<units> strs;
    for (int i = 0; i < count; ++i) {
        ref::re r; string text;
        if (c.s.chance(1, 4)) {
            // A literal: the characters stand for themselves
            r = ref::mk(ref::k_cat); int len = 1 + c.s.below(4);
            for (int j = 0; j < len; ++j) { ref::re a = ref::mk(ref::k_set); int ch = c.s.chance(1, 4) ? "*+(|[.\\?"[c.s.below(8)] : 'a' + (int) c.s.below(2); a->set.add(ch, ch); text += (char) ch; r->kids.push_back(a); }
            n.add_literal(0, to_symbols(text, true), accept_action(i));
            key += "\"" + text + "\" ";
            c.label("literals");
        } else {
            r = ref::gen_alt(c.s, o, 1 + c.s.below(2)); text = ref::print(r);
            n.add_regex(0, to_symbols(text, true), accept_action(i));
            key += "/" + text + "/ ";
        }
        rs.push_back(r);
        all->kids.push_back(r);
    }
    c.note("expressions " + key);
    compare(c, rs, n, strings_for(c, all, 16, true, 2));
    c.nontrivial(key);
}

static void f_expr(Ctx& c) {
    // {name} stands for the expression with that name, as a unit
    ref::gen_options o; o.wide = false; o.escapes = false; o.alphabet = 2;
    int defs = 1 + c.s.below(3);
    vector<ref::re> vals; vector<string> names; string key;
    ndfa_regex n;
    for (int i = 0; i < defs; ++i) {
        string name = string("x") + (char)('p' + i);
        ref::re v; string text;
        if (c.s.chance(1, 4)) {
            v = ref::mk(ref::k_cat); int len = 1 + c.s.below(3);
            for (int j = 0; j < len; ++j) { ref::re a = ref::mk(ref::k_set); int ch = c.s.chance(1, 4) ? '*' : 'a' + (int) c.s.below(2); a->set.add(ch, ch); text += (char) ch; v->kids.push_back(a); }
            n.define_expression_literal(to_symbols(name, true), to_symbols(text, true));
            key += name + "=\"" + text + "\" ";
        } else {
            v = ref::gen_alt(c.s, o, 1);
            // An expression may refer to earlier ones
            if (i > 0 && c.s.chance(1, 3)) { ref::re cat = ref::mk(ref::k_cat); int w = c.s.below(i); ref::re sub = ref::mk(ref::k_group, vals[w]); cat->kids.push_back(ref::mk(ref::k_group, v)); cat->kids.push_back(sub); text = "(" + ref::print(v) + "){" + names[w] + "}"; v = cat; }
            else text = ref::print(v);
            n.define_expression(to_symbols(name, true), to_symbols(text, true));
            key += name + "=/" + text + "/ ";
        }
        vals.push_back(v); names.push_back(name);
    }
    // The regex: a sequence of pieces, some of them references
    ref::re r = ref::mk(ref::k_alt); string text;
    int alts = 1 + c.s.below(2);
    for (int a = 0; a < alts; ++a) {
        if (a) text += "|";
        ref::re cat = ref::mk(ref::k_cat); int pieces = 1 + c.s.below(3);
        for (int i = 0; i < pieces; ++i) {
            ref::re p; string pt;
            if (c.s.chance(1, 3)) { p = ref::gen_piece(c.s, o, 1); pt = ref::print(p); }
            else {
                int w = c.s.below(defs); p = ref::mk(ref::k_group, vals[w]); pt = "{" + names[w] + "}";
                switch (c.s.weighted({4, 1, 1, 1})) { case 1: p = ref::mk(ref::k_star, p); pt += "*"; break; case 2: p = ref::mk(ref::k_plus, p); pt += "+"; break; case 3: p = ref::mk(ref::k_opt, p); pt += "?"; break; }
            }
            cat->kids.push_back(p); text += pt;
        }
        r->kids.push_back(cat);
    }
    c.note("definitions " + key + "\nregex /" + text + "/");
    n.add_regex(0, to_symbols(text, true), accept_action(0));
    compare(c, vector<ref::re>(1, r), n, strings_for(c, r, 12, true, 2));
    c.nontrivial(key + text);
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "small", f_small, 60000, 1200000, "random regex over 2-3 letters with groups, alternation, sets and quantifiers, tried on every string up to length 4-5 and on samples/mutants of its language at each of the 7 automaton stages; non-trivial: at least two operators", 20 },
        { "wide", f_wide, 20000, 400000, "regex with escapes (\\u \\x \\NNN \\oNNNNNN and single letter), sets and ranges over the BMP and astral planes, tried on samples, boundary characters and perturbed surrogate pairs; non-trivial: contains an escape, set or non-ascii character", 20 },
        { "multi", f_multi, 24000, 400000, "2-5 expressions or literals in one automaton, compared on the exact set of expressions that accept; always non-trivial", 20 },
        { "expr", f_expr, 24000, 400000, "regexes with {name} references to regex and literal definitions; always non-trivial", 20 },
    };
    return run_main(argc, argv, "C01", f, { "the reference matcher in ref_regex.h implements the documented syntax", "input is UTF-16 code units" });
}

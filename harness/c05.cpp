// C05: characters. UTF-8 input decodes to exactly the characters it encodes and stops at anything malformed; the
// {unicode-...} sets hold the characters of their Unicode category; case-insensitive expressions match a text exactly
// when the sensitive expression matches it under simple upper/lower case mapping of some of its characters.

#include <sstream>
#include "vp.h"
#include "ref_regex.h"
#include "dfa_util.h"
#include "stages.h"
#include "ucd_core.h"
#include "TameParse/Util/utf8reader.h"
#include "TameParse/Util/unicode.h"
#include "TameParse/Dfa/symbol_set.h"

using namespace std;
using namespace vp;
using namespace dfa;

// ---- reference data

static const int run_count = sizeof ucd_runs / sizeof *ucd_runs;
static map<int,int> g_Up, g_Low;
static void init() {
    if (!g_Up.empty()) return;
    for (auto& p : ucd_upper) g_Up[p.from] = p.to;
    for (auto& p : ucd_lower) g_Low[p.from] = p.to;
}
/// Category of a character, or NULL if Unicode versions disagree about it
static const char* cat_of(int c) {
    int a = 0, b = run_count;
    while (a < b) { int m = (a + b) / 2; if (ucd_runs[m].hi < c) a = m + 1; else b = m; }
    return a < run_count && ucd_runs[a].lo <= c ? ucd_runs[a].cat : NULL;
}
/// The mapped character, or -1 where versions disagree
static int up(int c) { init(); if (!cat_of(c)) return -1; auto f = g_Up.find(c); return f == g_Up.end() ? c : f->second; }
static int low(int c) { init(); if (!cat_of(c)) return -1; auto f = g_Low.find(c); return f == g_Low.end() ? c : f->second; }

static symbol_string syms(const string& utf8) {
    symbol_string r;
    for (size_t i = 0; i < utf8.size(); ) {
        unsigned c = (unsigned char) utf8[i]; int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
        int cp = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
        ++i;
        while (n-- > 0) cp = (cp << 6) | (utf8[i++] & 63);
        r += cp;
    }
    return r;
}

static int gen_stable(Ctx& c) {
    switch (c.s.weighted({3, 2, 4, 3, 2})) {
        case 0: return 'a' + c.s.below(26);
        case 1: return c.s.below(0x180);
        case 2: { const ucd_run& r = ucd_runs[c.s.below(run_count)]; return c.s.chance(1, 2) ? r.lo : r.hi; }
        case 3: { int k = c.s.below(2); if (k) { const auto& p = ucd_upper[c.s.below(sizeof ucd_upper / sizeof *ucd_upper)]; return p.from; } const auto& p = ucd_lower[c.s.below(sizeof ucd_lower / sizeof *ucd_lower)]; return p.from; }
        default: { const ucd_run& r = ucd_runs[c.s.below(run_count)]; return r.lo + (int) c.s.below(r.hi - r.lo + 1); }
    }
}

// ---- utf-8

static void put_utf8(string& s, int c) {
    if (c < 0x80) s += (char) c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
}

static void f_utf8(Ctx& c) {
    int n = c.s.below(2 + c.size / 5);
    string text; units want; string shown;
    static const int edges[] = { 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0xfffff, 0x100000, 0x10ffff, 1, 0xa, 0xd };
    bool multi = false;
    for (int i = 0; i < n; ++i) {
        int ch;
        switch (c.s.weighted({3, 3, 2, 2})) {
            case 0: ch = 1 + c.s.below(0x7f); break;
            case 1: ch = edges[c.s.below(sizeof edges / sizeof *edges)]; break;
            case 2: ch = 0x80 + c.s.below(0xff80); if (ch >= 0xd800 && ch < 0xe000) ch = 0xe9; break;
            default: ch = 0x10000 + c.s.below(0x100000); break;
        }
        if (ch >= 0x80) multi = true;
        put_utf8(text, ch); ref::push_cp(want, ch);
        char b[16]; snprintf(b, sizeof b, " %x", ch); shown += b;
    }
    string bad; int kind = c.s.weighted({3, 1, 1, 1, 1});
    string follow;
    if (kind == 1) { bad += (char)(0x80 + c.s.below(0x40)); }                                      // continuation byte with no lead
    if (kind == 2) { bad += (char)(0xf8 + c.s.below(8)); }                                         // not a lead byte
    if (kind == 3) {                                                                               // truncated, or a bad continuation
        string f; int ch = c.s.below(3); put_utf8(f, ch == 0 ? 0x80 + c.s.below(0x700) : ch == 1 ? 0x800 + c.s.below(0xc000) : 0x10000 + c.s.below(0x100000));
        int at = 1 + c.s.below((uint32_t) f.size() - 1);
        if (c.s.chance(1, 2)) { f.resize(at); bad = f; if (c.s.chance(1, 2)) { kind = 5; } }
        else { int w = c.s.below(2); f[at] = (char)(w ? c.s.below(0x80) : 0xc0 + c.s.below(0x40)); bad = f; }
    }
    if (kind == 4) { int v = 0x110000 + c.s.below(0xf0000); bad += (char)(0xf0 | v >> 18); bad += (char)(0x80 | ((v >> 12) & 63)); bad += (char)(0x80 | ((v >> 6) & 63)); bad += (char)(0x80 | (v & 63)); }
    if (kind == 5 || kind == 0) follow = ""; else follow = "abcd";
    { string h; char b[8]; for (unsigned char x : bad) { snprintf(b, sizeof b, " %02x", x); h += b; } c.note("characters" + shown + (bad.empty() ? "" : " then bytes" + h) + (follow.empty() ? "" : " then more text")); }
    istringstream* in = new istringstream(text + bad + follow);
    bool owns = c.s.chance(1, 2);
    unique_ptr<istringstream> keep(owns ? NULL : in);
    util::utf8reader rd(in, owns);
    units got;
    for (size_t i = 0; i <= want.size() + 8; ++i) {
        wchar_t w = 0x55; rd.get(w);
        if (!rd.good() && w == 0) break;
        if (!rd.good()) break;
        got.push_back((int) w);
    }
    // a final character that ends the stream exactly leaves the stream good, so everything valid has been read by now
    VP_CHECK(got == want, "decoded to " << ref::show_units(got) << ", should be " << ref::show_units(want));
    for (int i = 0; i < 3; ++i) { wchar_t w = 0x55; rd.get(w); VP_CHECK(w == 0 && !rd.good(), "characters were produced after the end or an error"); }
    if (multi || !bad.empty()) c.nontrivial(text + "|" + bad);
    c.label(bad.empty() ? "well formed" : "malformed");
}

// ---- categories

struct cat_name { const char* name; const char* cat; };
static const cat_name cat_names[] = {
    {"letter","L"},{"mark","M"},{"number","N"},{"punctuation","P"},{"symbol","S"},{"separator","Z"},{"control","C"},
    {"letter-uppercase","Lu"},{"letter-lowercase","Ll"},{"letter-titlecase","Lt"},{"letter-modifier","Lm"},{"letter-other","Lo"},
    {"mark-nonspacing","Mn"},{"mark-spacing","Mc"},{"mark-enclosing","Me"},
    {"number-decimal","Nd"},{"number-letter","Nl"},{"number-other","No"},
    {"punctuation-connector","Pc"},{"punctuation-dash","Pd"},{"punctuation-open","Ps"},{"punctuation-close","Pe"},{"punctuation-initial","Pi"},{"punctuation-final","Pf"},{"punctuation-other","Po"},
    {"symbol-math","Sm"},{"symbol-currency","Sc"},{"symbol-modifier","Sk"},{"symbol-other","So"},
    {"separator-space","Zs"},{"separator-line","Zl"},{"separator-paragraph","Zp"},
    {"control-control","Cc"},{"control-format","Cf"},{"control-surrogate","Cs"},{"control-private","Co"},
};

static bool in_cat(const char* want, const char* cat) { return cat[0] == want[0] && (!want[1] || cat[1] == want[1]); }

static void f_category(Ctx& c) {
    const cat_name& k = cat_names[c.s.below(sizeof cat_names / sizeof *cat_names)];
    static const char* prefixes[] = { "u-", "uni-", "unicode-" };
    string item = string("{") + prefixes[c.s.below(3)] + k.name + "}";
    int form = c.s.weighted({3, 1, 1, 1});
    string text = form == 1 ? "<" + item + ">" : form == 2 ? item + "+;" : form == 3 ? "(" + item + "|#)?" : item;
    c.note("regex /" + text + "/");
    ndfa_regex n;
    n.add_regex(0, syms(text), accept_action(7));
    nfa_runner raw(n);
    unique_ptr<ndfa> full;
    unique_ptr<nfa_runner> fullRun;
    if (c.s.chance(1, 6)) {
        unique_ptr<ndfa> u(n.to_ndfa_with_unique_symbols()), d(u->to_dfa(vector<int>(1, 0))), cp(d->to_compact_dfa(vector<int>(1, 0)));
        full.reset(cp->to_ndfa_with_merged_symbols()); fullRun.reset(new nfa_runner(*full));
        c.label("through to the compact dfa");
    }
    int yes = 0, no = 0;
    for (int i = 0; i < 60; ++i) {
        int ch = gen_stable(c);
        if (c.s.chance(1, 2)) {                                                                  // aim at the category
            int from = c.s.below(run_count);
            for (int j = 0; j < run_count; ++j) { const ucd_run& r = ucd_runs[(from + j) % run_count]; if (in_cat(k.cat, r.cat)) { ch = c.s.chance(1, 2) ? r.lo + (int) c.s.below(r.hi - r.lo + 1) : c.s.chance(1, 2) ? r.hi : r.lo; break; } }
        }
        if (c.s.chance(1, 4)) ch += c.s.chance(1, 2) ? 1 : -1;
        const char* cat = cat_of(ch);
        if (!cat || (form == 3 && ch == '#')) continue;
        if (ch >= 0x10000 && (!strcmp(k.cat, "C") || !strcmp(k.cat, "Cs"))) continue;       // written as surrogates, which are in these sets themselves
        bool want = in_cat(k.cat, cat);
        units u; if (form == 1) u.push_back('<'); ref::push_cp(u, ch); if (form == 1) u.push_back('>'); if (form == 2) { ref::push_cp(u, ch); u.push_back(';'); }
        // ';' and '>' are characters too, but only the last character can be one of them
        bool got = raw.run(u).count(7) != 0;
        VP_CHECK(got == want, "character U+" << hex << ch << " (category " << cat << ") " << (got ? "matches" : "does not match"));
        if (fullRun) { bool g2 = fullRun->run(u).count(7) != 0; VP_CHECK(g2 == want, "character U+" << hex << ch << " (category " << cat << ") " << (g2 ? "matches" : "does not match") << " in the compact dfa"); }
        (want ? yes : no)++;
        c.label("characters");
    }
    // Case-insensitivity, names that are not categories
    if (yes && no) c.nontrivial(text + VP_STR(yes << " " << no << c.s.below(1)));
}

// ---- case mapping

static void f_case_sets(Ctx& c) {
    init();
    int items = 1 + c.s.below(4);
    vector<pair<int,int> > rs; string shown;
    set<int> chars; symbol_set src;
    for (int i = 0; i < items; ++i) {
        int a = gen_stable(c), len = c.s.weighted({3, 3, 1}); len = len == 0 ? 1 : len == 1 ? 1 + c.s.below(12) : 1 + c.s.below(200);
        if (a + len > 0x10ffff) len = 1;
        if (c.s.chance(1, 3) && a > 8) a -= c.s.below(8);
        rs.push_back(make_pair(a, a + len)); shown += VP_STR(" " << hex << a << "-" << a + len - 1);
        src |= range<int>(a, a + len);
        for (int k = a; k < a + len; ++k) chars.insert(k);
    }
    c.note("characters" + shown);
    util::unicode u;
    for (int dir = 0; dir < 2; ++dir) {
        symbol_set got = dir ? u.to_upper(src) : u.to_lower(src);
        set<int> gotc, want; 
        for (symbol_set::iterator r = got.begin(); r != got.end(); ++r) for (int k = r->lower(); k < r->upper() && gotc.size() < 5000; ++k) gotc.insert(k);
        bool known = true;
        for (int ch : chars) {
            symbol_set one; one |= range<int>(ch, ch + 1);
            symbol_set m = dir ? u.to_upper(one) : u.to_lower(one);
            int cnt = 0, val = -1; for (symbol_set::iterator r = m.begin(); r != m.end(); ++r) for (int k = r->lower(); k < r->upper() && cnt < 3; ++k) { ++cnt; val = k; }
            VP_CHECK(cnt == 1, "U+" << hex << ch << " alone maps to " << dec << cnt << " characters");
            int expect = dir ? up(ch) : low(ch);
            VP_CHECK(expect < 0 || expect == val, "U+" << hex << ch << " maps to U+" << val << " in " << (dir ? "upper" : "lower") << " case, should be U+" << expect);
            want.insert(val);
            if (expect >= 0 && expect != ch) c.label("mapped characters");
        }
        (void) known;
        VP_CHECK(gotc == want, (dir ? "upper" : "lower") << " case of the set has " << gotc.size() << " characters, the characters map to " << want.size());
    }
    if (chars.size() > 1) c.nontrivial(shown);
}

/// Makes every set in the expression insensitive to case; false if Unicode versions disagree about it
static bool fold(ref::re r) {
    if (r->k == ref::k_set) {
        ref::cpset out = r->set; int total = 0;
        for (auto& p : r->set.r) {
            if (p.first == 0 && p.second == 0x10ffff) continue;
            for (int ch = p.first; ch <= p.second; ++ch) {
                if (++total > 400) return false;
                int a = up(ch), b = low(ch);
                if (a < 0 || b < 0) return false;
                out.r.push_back(make_pair(a, a)); out.r.push_back(make_pair(b, b));
            }
        }
        out.norm(); r->set = out;
    }
    for (auto& k : r->kids) if (!fold(k)) return false;
    return true;
}

static void gen_ci(Ctx& c, ref::re& r, string& text) {
    // pieces: characters, ranges, groups; no negated sets
    r = ref::mk(ref::k_cat); int n = 1 + c.s.below(4);
    ref::gen_options o;
    for (int i = 0; i < n; ++i) {
        ref::re a = ref::mk(ref::k_set);
        int ch = gen_stable(c);
        if (ch >= 0xd800 && ch < 0xe000) ch = 'q';
        if (c.s.chance(1, 3)) {
            int ch2 = min(0x10ffff, ch + (int) c.s.below(8)); if (ch2 >= 0xd800 && ch2 < 0xe000) ch2 = ch;
            a->set.add(ch, ch2); a->text = "[" + ref::char_text(c.s, o, ch, true) + "-" + ref::char_text(c.s, o, ch2, true);
            if (c.s.chance(1, 2)) { int x = gen_stable(c); if (x >= 0xd800 && x < 0xe000) x = 'Q'; a->set.add(x, x); a->text += ref::char_text(c.s, o, x, true); }
            a->text += "]";
        } else { a->set.add(ch, ch); a->text = ref::char_text(c.s, o, ch, false); }
        ref::re p = a;
        switch (c.s.weighted({5, 1, 1, 1})) { case 1: p = ref::mk(ref::k_star, a); break; case 2: p = ref::mk(ref::k_plus, a); break; case 3: p = ref::mk(ref::k_opt, a); break; }
        r->kids.push_back(p);
    }
    text = ref::print(r);
}

static void f_insensitive(Ctx& c) {
    init();
    bool literal = c.s.chance(1, 3);
    ref::re r; string text; symbol_string lit;
    if (literal) {
        r = ref::mk(ref::k_cat); int n = 1 + c.s.below(6);
        for (int i = 0; i < n; ++i) { int ch = gen_stable(c); if (ch >= 0xd800 && ch < 0xe000) ch = 'q'; ref::re a = ref::mk(ref::k_set); a->set.add(ch, ch); r->kids.push_back(a); lit += ch; text += ref::utf8(ch); }
    } else gen_ci(c, r, text);
    c.note((literal ? "literal " : "regex /") + text + (literal ? "" : "/"));
    ndfa_regex n; n.set_case_insensitive(true);
    // A second expression that stays sensitive to case
    ref::re r2; string text2; bool two = c.s.chance(1, 2);
    if (literal) n.add_literal(0, lit, accept_action(1)); else n.add_regex(0, syms(text), accept_action(1));
    if (two) { gen_ci(c, r2, text2); n.set_case_insensitive(false); n.add_regex(0, syms(text2), accept_action(2)); c.note("sensitive regex /" + text2 + "/"); }
    if (!fold(r)) return;
    stage_set st(n);
    set<int> b; ref::boundaries(r, b); if (two) ref::boundaries(r2, b);
    vector<int> alpha; for (int x : b) if (cat_of(x)) alpha.push_back(x);
    if (alpha.empty()) alpha.push_back('a');
    bool mapped = false;
    for (int i = 0; i < 20; ++i) {
        units u = ref::gen_string(c.s, i % 4 == 3 && two ? r2 : r, alpha);
        // swap the case of some characters
        for (size_t j = 0; j < u.size(); ++j) if (c.s.chance(1, 3)) { int v = c.s.chance(1, 2) ? up(u[j]) : low(u[j]); if (v >= 0 && v < 0x10000 && !(u[j] >= 0xd800 && u[j] < 0xe000)) { if (v != u[j]) mapped = true; u[j] = v; } }
        // only characters Unicode versions agree on
        bool ok = true; for (int x : u) if (x < 0xd800 || x >= 0xe000) if (!cat_of(x) || up(x) < 0 || low(x) < 0) ok = false;
        if (!ok) continue;
        set<int> want; if (ref::matches(r, u)) want.insert(1); if (two && ref::matches(r2, u)) want.insert(2);
        for (size_t s = 0; s < st.all.size(); ++s) {
            set<int> got = st.run(s, u);
            VP_CHECK(got == want, "input " << ref::show_units(u) << " at stage " << st.name(s) << ": accepted by " << got.size() << " expressions" << (got.count(1) ? " (the insensitive one)" : "") << ", should be " << want.size() << (want.count(1) ? " (with the insensitive one)" : ""));
        }
        if (want.count(1)) c.label("matched");
    }
    if (mapped) c.nontrivial(text + " " + text2);
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "utf8", f_utf8, 600000, 20000000, "byte strings: valid UTF-8 of every length followed by nothing or by one malformed sequence (stray continuation, bad lead, bad or missing continuation, above U+10FFFF) and more text; non-trivial: a multi-byte character or malformed", 10 },
        { "category", f_category, 90000, 3000000, "every documented set and modifier with every prefix, alone and inside larger expressions, tried on characters at and beside the edges of the category in all planes; non-trivial: characters both inside and outside", 60 },
        { "case-sets", f_case_sets, 200000, 8000000, "sets of characters and ranges; their upper and lower case must be the union of that of their characters, which must be the Unicode simple mapping; non-trivial: more than one character", 10 },
        { "insensitive", f_insensitive, 250000, 8000000, "case-insensitive regex or literal, alone or beside a sensitive one, against members of the language with the case of some characters changed, at each automaton stage; non-trivial: the case of a character changed", 60 },
    };
    return run_main(argc, argv, "C05", f, { "ucd_core.h holds the characters on whose category and case Unicode 3.2 and 15 agree", "negated sets in case-insensitive expressions are not covered" });
}

// C02: a lexer splits any input into longest matches, whatever table format it runs from.

#include "vp.h"
#include "ref_regex.h"
#include "lexforms.h"
#include "TameParse/Util/utf8reader.h"
#include "TameParse/Util/stringreader.h"
#include "TameParse/Dfa/character_lexer.h"
#include <sstream>

using namespace std;
using namespace vp;
using namespace dfa;

struct pattern { ref::re r; string text; bool literal; int id; };

static symbol_string syms(const string& utf8) {
    symbol_string r;
    for (size_t i = 0; i < utf8.size(); ) {
        unsigned c = (unsigned char) utf8[i]; int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
        int cp = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
        ++i; while (n-- > 0) cp = (cp << 6) | (utf8[i++] & 63);
        r += cp;
    }
    return r;
}

/// Position model: offset counts every symbol; a newline sequence moves to the next line; other symbols move one column
struct posmodel { int off, line, col; bool cr; posmodel() : off(0), line(0), col(0), cr(false) { }
    void step(int c) {
        ++off;
        if (c == 0x0a && cr) { cr = false; return; }
        cr = c == 0x0d;
        if (c == 0x0a || c == 0x0b || c == 0x0c || c == 0x0d || c == 0x85 || c == 0x2028 || c == 0x2029) { ++line; col = 0; } else ++col;
    }
};

static vector<tok> reference(const vector<pattern>& ps, const units& u) {
    vector<tok> out; size_t p = 0; posmodel m;
    while (p < u.size()) {
        size_t best = p; int sym = -1;
        units rest(u.begin() + p, u.end());
        for (auto& x : ps) {
            ref::posset f; f.insert(0);
            ref::posset e = ref::match(x.r, rest, f);
            if (e.empty()) continue;
            size_t end = p + *e.rbegin();
            if (end == p) continue;
            if (end > best || (end == best && x.id < sym)) { best = end; sym = x.id; }
        }
        if (best == p) best = p + 1;
        tok t; t.sym = sym; t.text = units(u.begin() + p, u.begin() + best); t.offset = m.off; t.line = m.line; t.column = m.col;
        for (size_t i = p; i < best; ++i) m.step(u[i]);
        p = best; out.push_back(t);
    }
    return out;
}

static void compare(Ctx& c, const string& what, const vector<tok>& got, const vector<tok>& want, const units& u) {
    if (got != want) c.fail(VP_STR(what << " split " << ref::show_units(u) << " into " << show(got) << "; should be " << show(want)));
    for (size_t i = 0; i < got.size(); ++i)
        VP_CHECK(got[i].offset == want[i].offset && got[i].line == want[i].line && got[i].column == want[i].column,
            what << ": lexeme " << i << " of " << ref::show_units(u) << " at offset " << got[i].offset << " line " << got[i].line << " column " << got[i].column
            << "; should be offset " << want[i].offset << " line " << want[i].line << " column " << want[i].column);
}

static vector<pattern> gen_patterns(Ctx& c, const ref::gen_options& o, int count, string& key) {
    vector<pattern> ps;
    vector<int> ids; int next = 0; for (int i = 0; i < count; ++i) { next += 1 + (c.s.chance(1, 3) ? c.s.below(5) : 0); ids.push_back(next - 1); }
    // Symbol ids need not be in the order the patterns are added
    for (int i = count - 1; i > 0; --i) if (c.s.chance(1, 2)) swap(ids[i], ids[c.s.below(i + 1)]);
    for (int i = 0; i < count; ++i) {
        pattern p; p.literal = c.s.chance(1, 4); p.id = ids[i];
        if (p.literal) {
            p.r = ref::mk(ref::k_cat); int len = 1 + c.s.below(4);
            for (int j = 0; j < len; ++j) { ref::re a = ref::mk(ref::k_set); int ch = c.s.chance(1, 8) ? "*+(|[.\\?"[c.s.below(8)] : 'a' + (int) c.s.below(o.alphabet); a->set.add(ch, ch); p.text += (char) ch; p.r->kids.push_back(a); }
            key += VP_STR(p.id << "=\"" << p.text << "\" ");
        } else { p.r = ref::gen_alt(c.s, o, 1 + c.s.below(2)); p.text = ref::print(p.r); key += VP_STR(p.id << "=/" << p.text << "/ "); }
        ps.push_back(p);
    }
    return ps;
}

static void add_all(ndfa_regex& n, const vector<pattern>& ps, int start = 0) {
    for (auto& p : ps) if (p.literal) n.add_literal(start, syms(p.text), accept_action(p.id)); else n.add_regex(start, syms(p.text), accept_action(p.id));
}

static units gen_input(Ctx& c, const vector<pattern>& ps, const vector<int>& alphabet) {
    units u; int parts = 1 + c.s.below(8);
    for (int i = 0; i < parts; ++i) {
        int k = c.s.weighted({5, 3, 2, 1});
        if (k == 0) { int fuel = 40; ref::sample(c.s, ps[c.s.below(ps.size())].r, u, fuel); }
        else if (k == 1) { units v = ref::gen_string(c.s, ps[c.s.below(ps.size())].r, alphabet); u.insert(u.end(), v.begin(), v.end()); }
        else if (k == 2) { int l = 1 + c.s.below(3); for (int j = 0; j < l; ++j) ref::push_cp(u, alphabet[c.s.below(alphabet.size())]); }
        else { static const int nl[] = { 0x0a, 0x0d, 0x0b, 0x0c, 0x85, 0x2028, 0x2029, ' ' }; int l = 1 + c.s.below(4); for (int j = 0; j < l; ++j) u.push_back(nl[c.s.below(c.s.chance(1, 2) ? 2 : 8)]); }
        if (u.size() > 200) break;
    }
    return u;
}

static void run_tables(Ctx& c, bool wide) {
    ref::gen_options o; o.wide = wide; o.astral = wide && c.s.chance(1, 3); o.escapes = false; o.alphabet = 2 + c.s.below(3);
    string key; vector<pattern> ps = gen_patterns(c, o, 1 + c.s.below(5), key);
    c.note("patterns " + key);
    ndfa_regex n; add_all(n, ps);
    stage_set st(n);

    set<int> b; for (auto& p : ps) ref::boundaries(p.r, b);
    vector<int> alpha(b.begin(), b.end()); alpha.push_back('a'); alpha.push_back('b');
    vector<units> inputs; for (int i = 0; i < 5; ++i) inputs.push_back(gen_input(c, ps, alpha));

    vector<pair<string, shared_ptr<basic_lexer> > > forms;
    {   // The lexer class, which compiles its own DFA
        bool anyLit = false; for (auto& p : ps) anyLit |= p.literal;
        if (!anyLit) for (int compact = 0; compact < 2; ++compact) {
            shared_ptr<lexer> l(new lexer()); for (auto& p : ps) l->add_symbol(syms(p.text), p.id); l->compile(compact != 0);
            forms.push_back(make_pair(compact ? "lexer::compile(true)" : "lexer::compile(false)", l));
        }
        ndfa_regex* own = new ndfa_regex(); add_all(*own, ps);
        forms.push_back(make_pair("lexer(ndfa_regex*)", shared_ptr<basic_lexer>(new lexer(own))));
    }
    vector<shared_ptr<hard_coded_lexer> > keep;
    for (size_t i = 2; i < st.all.size(); ++i) {
        const ndfa& d = *st.all[i];
        forms.push_back(make_pair("lexer of the " + st.name(i), shared_ptr<basic_lexer>(new lexer(d))));
        forms.push_back(make_pair("compact table lexer of the " + st.name(i), shared_ptr<basic_lexer>(new dfa_lexer<wchar_t, state_machine_compact_table<> >(d))));
        forms.push_back(make_pair("int lexer of the " + st.name(i), shared_ptr<basic_lexer>(new dfa_lexer<int, state_machine_flat_table>(d))));
        shared_ptr<hard_coded_lexer> h(new hard_coded_lexer(d)); keep.push_back(h);
        forms.push_back(make_pair("hard coded lexer of the " + st.name(i), shared_ptr<basic_lexer>(h, h->lex.get())));
    }

    bool backtrack = false, rejects = false, clash = false;
    for (auto& u : inputs) {
        vector<tok> want = reference(ps, u);
        units all; for (auto& t : want) { all.insert(all.end(), t.text.begin(), t.text.end()); if (t.sym < 0) rejects = true; }
        if (want.size() > 1) backtrack = true;
        for (auto& f : forms) compare(c, f.first, lex_all(*f.second, u), want, u);
        for (auto& t : want) { int m = 0; for (auto& p : ps) if (ref::matches(p.r, t.text)) ++m; if (m > 1) clash = true; }
    }
    if (rejects) c.label("rejected symbols");
    if (clash) c.label("several patterns match one lexeme");
    if (backtrack) c.nontrivial(key);
}

static void f_tables(Ctx& c) { run_tables(c, false); }
static void f_wide(Ctx& c) { run_tables(c, true); }

/// The same text through each kind of input stream
static void f_streams(Ctx& c) {
    ref::gen_options o; o.wide = c.s.chance(1, 2); o.astral = o.wide && c.s.chance(1, 2); o.escapes = false; o.alphabet = 3;
    string key; vector<pattern> ps = gen_patterns(c, o, 1 + c.s.below(4), key);
    c.note("patterns " + key);
    ndfa_regex n; add_all(n, ps); stage_set st(n);
    lexer l(*st.merged);
    set<int> b; for (auto& p : ps) ref::boundaries(p.r, b);
    vector<int> alpha; for (int x : b) if (x < 0xd800 || x >= 0xe000) alpha.push_back(x); alpha.push_back('a');
    for (int i = 0; i < 4; ++i) {
        units u = gen_input(c, ps, alpha);
        // Lone surrogates have no UTF-8 encoding
        units clean; wstring cps;
        for (size_t j = 0; j < u.size(); ++j) {
            if (u[j] >= 0xd800 && u[j] < 0xdc00 && j + 1 < u.size() && u[j+1] >= 0xdc00 && u[j+1] < 0xe000) { cps += (wchar_t)(0x10000 + ((u[j] - 0xd800) << 10) + (u[j+1] - 0xdc00)); clean.push_back(u[j]); clean.push_back(u[j+1]); ++j; }
            else if (u[j] >= 0xd800 && u[j] < 0xe000) continue;
            else { cps += (wchar_t) u[j]; clean.push_back(u[j]); }
        }
        vector<tok> want = reference(ps, clean);
        string bytes = to_utf8(cps);
        auto drain = [&](lexeme_stream* raw) { unique_ptr<lexeme_stream> ls(raw); vector<tok> out; for (;;) { lexeme* x = NULL; (*ls) >> x; if (!x) break; unique_ptr<lexeme> own(x); tok t; t.sym = x->matched(); t.text = units(x->content().begin(), x->content().end()); t.offset = x->pos().offset(); t.line = x->pos().line(); t.column = x->pos().column(); out.push_back(t); if (out.size() > 10000) throw Fail{"endless lexemes"}; } return out; };
        { istringstream in(bytes); util::utf8reader rd(&in); compare(c, "UTF-8 reader", drain(l.create_stream_from<wchar_t>(rd)), want, clean); }
        { wstring w; for (int x : clean) w += (wchar_t) x; wistringstream in(w); compare(c, "wide stream", drain(l.create_stream_from(in)), want, clean); }
        { wstring w; for (int x : clean) w += (wchar_t) x; util::wstringreader rd(w); compare(c, "wide string reader", drain(l.create_stream_from<wchar_t>(rd)), want, clean); }
        // A byte stream delivers one symbol per byte, 0 to 255
        units raw; for (char ch : bytes) raw.push_back((unsigned char) ch);
        { istringstream in(bytes); compare(c, "byte stream", drain(l.create_stream_from(in)), reference(ps, raw), raw); }
        { istringstream in(bytes); character_lexer cl; vector<tok> got = drain(cl.create_stream_from(in)); posmodel m;
          VP_CHECK(got.size() == raw.size(), "the character lexer produced " << got.size() << " lexemes for " << raw.size() << " bytes");
          for (size_t j = 0; j < raw.size(); ++j) { VP_CHECK(got[j].sym == raw[j] && got[j].text == units(1, raw[j]) && got[j].offset == m.off && got[j].line == m.line && got[j].column == m.col, "character lexer lexeme " << j << " is " << got[j].sym << " at " << got[j].offset << "," << got[j].line << "," << got[j].column << " in " << ref::show_units(raw)); m.step(raw[j]); } }
        if (bytes.size() != clean.size()) { c.label("multi-byte text"); c.nontrivial(key + bytes); }
    }
}

/// Lexers with several start states: the state chosen for the next lexeme, and the state after a newline
static void f_initial(Ctx& c) {
    ref::gen_options o; o.wide = false; o.escapes = false; o.alphabet = 2;
    int starts = 2 + c.s.below(2); vector<vector<pattern> > ps(starts); string key;
    ndfa_regex n; vector<int> initial;
    for (int i = 0; i < starts; ++i) {
        int st = i == 0 ? 0 : n.add_state(); initial.push_back(st);
        string k; ps[i] = gen_patterns(c, o, 1 + c.s.below(3), k); for (auto& p : ps[i]) p.id += i * 20;
        add_all(n, ps[i], st); key += VP_STR("start" << i << ": " << k);
    }
    c.note(key);
    stage_set s(n, initial);
    vector<int> alpha; alpha.push_back('a'); alpha.push_back('b'); alpha.push_back('c'); alpha.push_back('\n');
    for (int k = 0; k < 4; ++k) {
        int w = c.s.below(starts); units u = gen_input(c, ps[w], alpha);
        vector<int> choice; for (size_t i = 0; i < u.size() + 1; ++i) choice.push_back(c.s.chance(1, 2) ? (int) c.s.below(starts) : -1);
        for (size_t st = 2; st < s.all.size(); ++st) for (int newline = 0; newline < 2; ++newline) {
            shared_ptr<basic_lexer> lx; if (newline) lx.reset(new dfa_lexer<wchar_t, state_machine_flat_table, 1, 1>(*s.all[st])); else lx.reset(new lexer(*s.all[st]));
            unique_ptr<lexeme_stream> ls(lx->create_stream(new vec_stream(u)));
            size_t p = 0, idx = 0; int next = newline ? 1 : 0;
            while (p < u.size()) {
                if (choice[idx] >= 0) { next = choice[idx]; ls->set_initial_state(next); }
                ++idx;
                lexeme* x = NULL; (*ls) >> x; VP_CHECK(x, "no lexeme at offset " << p); unique_ptr<lexeme> own(x);
                vector<tok> want = reference(ps[next], units(u.begin() + p, u.end()));
                tok got; got.sym = x->matched(); got.text = units(x->content().begin(), x->content().end());
                VP_CHECK(got == want[0], "stage " << s.name(st) << " start state " << next << " at offset " << p << " of " << ref::show_units(u) << ": lexeme " << show(vector<tok>(1, got)) << "; should be " << show(vector<tok>(1, want[0])));
                p += got.text.size();
                next = 0; if (newline) { int lc = got.text.back(); if (lc == 0x0a || lc == 0x0b || lc == 0x0c || lc == 0x0d || lc == 0x85 || lc == 0x2028 || lc == 0x2029) next = 1; }
            }
            lexeme* x = NULL; (*ls) >> x; if (x) { delete x; c.fail("a lexeme after the end of input"); }
        }
    }
    c.nontrivial(key);
}

/// Lexemes and inputs much longer than any buffer
static void f_long(Ctx& c) {
    static const char* rx[] = { "a+", "a*b", "[ab]+c", "(ab)+", "a+b", ".", "[^b]+", "b(a|b)*a" };
    vector<pattern> ps; string key; ref::gen_options o;
    auto set1 = [](int a, int b) { ref::re n = ref::mk(ref::k_set); n->set.add(a, b); return n; };
    int count = 1 + c.s.below(3);
    for (int i = 0; i < count; ++i) {
        int w = c.s.below(8); pattern p; p.id = i; p.literal = false; p.text = rx[w]; ref::re A = set1('a', 'a'), B = set1('b', 'b'), C = set1('c', 'c'), AB = set1('a', 'b');
        ref::re r = ref::mk(ref::k_cat);
        auto add = [&](ref::re x) { r->kids.push_back(x); };
        switch (w) { case 0: add(ref::mk(ref::k_plus, A)); break; case 1: add(ref::mk(ref::k_star, A)); add(B); break; case 2: add(ref::mk(ref::k_plus, AB)); add(C); break;
            case 3: { ref::re k = ref::mk(ref::k_cat); k->kids.push_back(A); k->kids.push_back(B); add(ref::mk(ref::k_plus, k)); break; }
            case 4: add(ref::mk(ref::k_plus, A)); add(B); break; case 5: add(set1(0, 0x10ffff)); break; case 6: { ref::re k = set1('b', 'b'); k->set = k->set.inverse(); add(ref::mk(ref::k_plus, k)); break; }
            case 7: add(B); add(ref::mk(ref::k_star, AB)); add(A); break; }
        p.r = r; ps.push_back(p); key += "/" + p.text + "/ ";
    }
    units u; int runs = 1 + c.s.below(3);
    for (int i = 0; i < runs; ++i) { int len = 100 + c.s.below(400); int w = c.s.below(4); for (int j = 0; j < len; ++j) u.push_back(w == 0 ? 'a' : w == 1 ? 'b' : w == 2 ? "ab"[j & 1] : "aaab"[j & 3]); u.push_back("abc\n"[c.s.below(4)]); }
    c.note("patterns " + key + VP_STR("input length " << u.size()));
    // The reference is quadratic, so use it through the NFA instead of per pattern
    ndfa_regex n; add_all(n, ps); stage_set st(n);
    vector<tok> want = reference(ps, u);
    VP_CHECK(want.size() <= u.size(), "bad reference");
    for (size_t i = 2; i < st.all.size(); ++i) { lexer l(*st.all[i]); compare(c, "lexer of the " + st.name(i), lex_all(l, u), want, u); hard_coded_lexer h(*st.all[i]); compare(c, "hard coded lexer of the " + st.name(i), lex_all(*h.lex, u), want, u); }
    c.nontrivial(key + VP_STR(u.size() << hash_bytes(u.data(), u.size() * sizeof(int))));
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "tables", f_tables, 8000, 160000, "1-5 regexes/literals with shuffled symbol ids over a small alphabet; inputs mix samples, mutants and newline characters; every table format at every DFA stage must equal the maximal munch reference (text, symbol, offset, line, column); non-trivial: some input yields two or more lexemes", 30 },
        { "wide", f_wide, 6000, 120000, "as tables, with sets and ranges over the BMP and astral planes so that symbol tables have many blocks; non-trivial: some input yields two or more lexemes", 30 },
        { "streams", f_streams, 8000, 160000, "the same text through UTF-8, wide, byte and symbol streams, a string reader and the character lexer; non-trivial: the text has multi-byte characters", 30 },
        { "initial", f_initial, 5000, 100000, "lexers with 2-3 start states, random set_initial_state calls, and the after-newline start state; always non-trivial", 30 },
        { "long", f_long, 800, 8000, "runs of hundreds of symbols that need long backtracking; always non-trivial", 60 },
    };
    return run_main(argc, argv, "C02", f, { "the reference tokenizer: longest non-empty match, lowest symbol id, otherwise one symbol that matches nothing", "input symbols are UTF-16 units" });
}

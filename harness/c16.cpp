// C16: definition files are read exactly as written

#include "vp.h"
#include "deftext.h"

using namespace std;
using namespace vp;
using namespace yy_language;

static string first_difference(const string& a, const string& b) {
    istringstream x(a), y(b); string l, m; int n = 0;
    for (;;) { bool p = (bool) getline(x, l), q = (bool) getline(y, m); ++n; if (!p && !q) return "none"; if (p != q || l != m) return "line " + to_string(n) + ": expected " + (p ? l : "nothing") + "\n   read as " + (q ? m : "nothing"); }
}

static void f_read(Ctx& c) {
    deftext d(c.s); d.file();
    vector<string> pos; W text = d.render(pos); string want = d.wanted(pos);
    c.note(to_utf8(text));
    language_parser p; bool ok = p.parse(text);
    VP_CHECK(ok, "a valid file is rejected at offset " << (p.errors().empty() ? -1 : p.errors()[0].pos().offset()));
    VP_CHECK(p.errors().empty(), "errors are reported for a valid file");
    VP_CHECK(p.file_definition().item() != NULL, "there is no definition for a valid file");
    string got = file_of(*p.file_definition());
    VP_CHECK(got == want, "the file is not read as written: " << first_difference(want, got));
    // the other ways to read it, and copies
    switch (c.s.below(4)) {
        case 0: { language_parser u; VP_CHECK(u.parse(to_utf8(text)), "the file is rejected as UTF-8"); VP_CHECK(file_of(*u.file_definition()) == want, "read from UTF-8 it is different: " << first_difference(want, file_of(*u.file_definition()))); break; }
        case 1: { language_parser u; istringstream in(to_utf8(text)); VP_CHECK(u.parse(in), "the file is rejected as a stream"); VP_CHECK(file_of(*u.file_definition()) == want, "read from a stream it is different: " << first_difference(want, file_of(*u.file_definition()))); break; }
        case 2: { lang_build b(to_utf8(text)); VP_CHECK(b.parse() && b.parser->definition_file().item(), "the file is rejected by the parser stage:" << b.report()); VP_CHECK(file_of(*b.parser->definition_file()) == want, "the parser stage reads it differently: " << first_difference(want, file_of(*b.parser->definition_file()))); break; }
        default: { const string wantCopy = file_of(*p.file_definition(), true); definition_file copy(*p.file_definition()); VP_CHECK(file_of(copy, true) == wantCopy, "a copy is different: " << first_difference(wantCopy, file_of(copy, true))); string all = spans_of(*p.file_definition()); VP_CHECK(spans_of(copy) == all, "the positions in a copy are different: " << first_difference(all, spans_of(copy)));
            language_parser u; u.parse(L"language a { grammar { <b> = c } } test a { <b> = \"c\" }"); definition_file other(*u.file_definition()); other = copy; VP_CHECK(file_of(other, true) == wantCopy, "an assigned copy is different: " << first_difference(wantCopy, file_of(other, true))); VP_CHECK(file_of(copy, true) == wantCopy && file_of(*p.file_definition()) == want, "copying changes the original"); }
    }
    for (auto& k : d.toks) if (k.k == tk_id) for (int i = 0; i < def_nkeywords; ++i) if (k.s == def_keywords[i]) { c.label("with keywords"); i = def_nkeywords; }
    if (d.guards) c.label("with guards"); if (d.attrs) c.label("with attributes"); if (d.sources) c.label("with qualified names");
    if (d.toks.size() >= 12) c.nontrivial(to_utf8(text));
}

// The syntax, from the manual's grammar of the definition language. 'id' is any identifier, keywords included.
static const char* const syntax =
"File = Top*\n"
"Top = Lang | 'import' str | Par | Test\n"
"Lang = 'language' Id Inh? '{' Def* '}'\n"
"Inh = ':' Id\n"
"Def = SymMod* 'lexer-symbols' '{' Lexeme* '}' | Mod* 'lexer' '{' Lexeme* '}' | 'ignore' '{' Key* '}' | Mod* 'keywords' '{' Key* '}' | 'grammar' '{' Nt* '}' | 'precedence' '{' Prec* '}'\n"
"Mod = 'weak' | SymMod\n"
"SymMod = 'case' 'sensitive' | 'case' 'insensitive'\n"
"Key = Id | Lexeme\n"
"Lexeme = Id '=' Lit | Id '|=' Lit | 'replace' Id '=' Lit | Id '=' Id '.' Id\n"
"Lit = re | str | chr\n"
"Nt = nt '=' Prods | nt '|=' Prods | 'replace' nt '=' Prods\n"
"Prods = Item* OrItems*\n"
"OrItems = '|' Item*\n"
"Item = NtName Sem? | Term Sem? | Guard Sem? | Item '*' Sem? | Item '+' Sem? | Item '?' Sem? | '(' Prods ')' Sem?\n"
"Guard = '[=>' Prods ']' | '[=>' '[' 'can-clash' ']' Prods ']'\n"
"NtName = nt | Id '.' nt\n"
"Term = Basic | Id '.' Basic\n"
"Basic = Id | str | chr\n"
"Sem = '[' SemItem MoreSem* ']'\n"
"MoreSem = ',' SemItem\n"
"SemItem = Id | 'conflict' '=' 'shift' | 'conflict' '=' 'reduce' | 'conflict' '=' 'weak' 'reduce'\n"
"Prec = 'left' Equal | 'right' Equal | 'non-associative' Equal | 'non-assoc' Equal\n"
"Equal = Item | '{' Item* '}'\n"
"Par = 'parser' Id ':' Id '{' NtName+ '}'\n"
"Test = 'test' Id '{' TestDef* '}'\n"
"TestDef = NtName '=' Spec+ | NtName '!=' Spec+ | NtName 'from' Spec+\n"
"Spec = str | Id '(' str ')'\n";

struct def_syntax {
    rg::Gram g; map<string, int> term, nt; unique_ptr<rg::Low> low;
    int terminal(const string& s) { auto f = term.find(s); if (f != term.end()) return f->second; int n = (int) term.size(); return term[s] = n; }
    def_syntax() {
        terminal("id"); terminal("nt"); terminal("re"); terminal("str"); terminal("chr");
        vector<pair<string, string> > rules; istringstream in(syntax); string l;
        while (getline(in, l)) { size_t e = l.find(" = "); string n = l.substr(0, e); int id = (int) nt.size(); nt[n] = id; rules.push_back(make_pair(n, l.substr(e + 3))); }
        int idnt = (int) nt.size(); nt["Id"] = idnt; g.nt.resize(nt.size());
        for (auto& r : rules) {
            istringstream w(r.second); string x; rg::Rule rule;
            while (w >> x) {
                if (x == "|") { g.nt[nt[r.first]].push_back(rule); rule.clear(); continue; }
                char op = 0; if (x.size() > 1 && x[0] != '\'' && strchr("*+?", x[x.size() - 1])) { op = x[x.size() - 1]; x.erase(x.size() - 1); }
                rg::It i = x[0] == '\'' ? rg::It(rg::T, terminal(x.substr(1, x.size() - 2))) : isupper((unsigned char) x[0]) ? rg::It(rg::N, nt.at(x)) : rg::It(rg::T, terminal(x));
                if (op) { rg::It o(op == '*' ? rg::REP0 : op == '+' ? rg::REP : rg::OPT); o.r.push_back(rg::Rule(1, i)); i = o; }
                rule.push_back(i);
            }
            g.nt[nt[r.first]].push_back(rule);
        }
        g.nt[idnt].push_back(rg::Rule(1, rg::It(rg::T, term["id"])));
        for (int i = 0; i < def_nkeywords; ++i) g.nt[idnt].push_back(rg::Rule(1, rg::It(rg::T, terminal(to_utf8(def_keywords[i])))));
        g.nT = (int) term.size(); g.starts.push_back(nt["File"]); low.reset(new rg::Low(g));
    }
    int of(const dtok& t) {
        switch (t.k) {
            case tk_nt: return term["nt"]; case tk_regex: return term["re"]; case tk_string: return term["str"]; case tk_char: return term["chr"];
            default: { auto f = term.find(to_utf8(t.s)); bool own = f != term.end() && f->second > 4; return own ? f->second : term["id"]; }
        }
    }
};

static void f_reject(Ctx& c) {
    static def_syntax* syn = new def_syntax();
    deftext d(c.s); d.words = c.s.chance(1, 3); d.file();
    if (d.toks.empty() || d.toks.size() > 150) throw Discard();
    int n = c.s.weighted({ 6, 2, 1 });
    for (int i = 0; i <= n && !d.toks.empty(); ++i) {
        size_t at = c.s.below((uint32_t) d.toks.size());
        switch (c.s.below(5)) {
            case 0: d.toks.erase(d.toks.begin() + at); break;
            case 1: { dtok x = d.toks[at]; d.toks.insert(d.toks.begin() + at, x); break; }
            case 2: { dtok x = d.toks[c.s.below((uint32_t) d.toks.size())]; d.toks[at] = x; break; }
            case 3: { dtok x = d.toks[c.s.below((uint32_t) d.toks.size())]; d.toks.insert(d.toks.begin() + at, x); break; }
            default: if (c.s.chance(1, 3)) d.toks.resize(at); else { static const wchar_t* pt[] = { L"{", L"}", L"(", L")", L"[", L"]", L"=", L"|", L":", L",", L".", L"*", L"|=", L"!=", L"[=>" }; dtok x; if (c.s.chance(1, 2)) { x.s = pt[c.s.below(15)]; x.k = tk_punct; } else { x.s = def_keywords[c.s.below(def_nkeywords)]; x.k = tk_id; } d.toks.insert(d.toks.begin() + at, x); }
        }
    }
    W text; vector<size_t> start; vector<int> in;
    for (auto& t : d.toks) { start.push_back(text.size()); text += t.s; text += c.s.chance(1, 8) ? L'\n' : L' '; in.push_back(syn->of(t)); }
    c.note(to_utf8(text));
    rg::Earley e(*syn->low, syn->low->nT + syn->g.starts[0], in);
    language_parser p; bool ok = p.parse(text);
    if (ok) { VP_CHECK(e.accepts(), "a file that is not valid is accepted (token " << e.viable << " cannot be there)"); c.label("still valid"); return; }
    VP_CHECK(p.errors().size() == 1 && p.errors()[0].sev() >= compiler::error::sev_error, "a rejected file has " << p.errors().size() << " errors");
    VP_CHECK(p.file_definition().item() == NULL, "there is a definition for a rejected file");
    int off = p.errors()[0].pos().offset(); size_t tok = 0;
    if (off < 0) tok = d.toks.size(); else { while (tok < start.size() && start[tok] != (size_t) off) ++tok; VP_CHECK(tok < start.size(), "the position of the error is not the start of a token: " << off); }
    VP_CHECK((int) tok <= e.viable, "the error is reported at token " << tok << " but token " << e.viable << " already cannot be there");
    if (!e.accepts() && (int) tok == e.viable) { c.label("exact position"); c.nontrivial(to_utf8(text)); }
    if (!e.accepts() && (int) tok < e.viable) c.label("earlier position");
    bool replace = false; for (auto& t : d.toks) if (t.s == L"replace") replace = true;    // as a name, in front of a definition, it is taken as the keyword
    VP_CHECK(replace || !e.accepts(), "a valid file is rejected at token " << tok);
}

/// KNOWN_FINDINGS.md, C16: true if a copy of a test block does not know where it is
static bool loses_position() {
    language_parser p; if (!p.parse(L"language a { grammar { <b> = c } }\ntest a { <b> = \"c\" }")) return false;
    definition_file copy(*p.file_definition());
    for (definition_file::iterator b = copy.begin(), o = p.file_definition()->begin(); b != copy.end() && o != p.file_definition()->end(); ++b, ++o) if ((*b)->test() && (*o)->test()) return (*b)->test()->start_pos().offset() != (*o)->test()->start_pos().offset();
    return false;
}

int main(int argc, char** argv) {
    if (loses_position()) { printf("KNOWN-FINDING: property=C16 a copy of a test block has no position\n"); fflush(stdout); }
    vector<Facet> f = {
        { "read", f_read, 20000, 600000, "random definition files (every kind of block and definition, EBNF with guards and attributes, qualified names, names that are keywords, Unicode names), with random whitespace and comments between the tokens, read from wide text, UTF-8, a stream and the parser stage, and copied; the result is compared with what was written, positions included; non-trivial: at least 12 tokens", 30 },
        { "reject", f_reject, 20000, 600000, "definition files with tokens removed, doubled, replaced or inserted: what is accepted has to be exactly what is valid by an Earley recogniser for the published syntax, and an error is reported at a token not after the first one that cannot be there; non-trivial: the file is not valid and the error is exactly at that token", 30 },
    };
    return run_main(argc, argv, "C16", f, { "edited files in which the name 'replace' occurs may be rejected where it reads as the keyword" });
}

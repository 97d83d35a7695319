// Random definition files: the text as tokens, and what reading it has to give

#ifndef DEFTEXT_H
#define DEFTEXT_H

#include "lang.h"
#include "TameParse/Language/language_parser.h"

namespace vp {

typedef std::wstring W;

inline std::string q(const W& s) { std::string o = "\""; for (char c : to_utf8(s)) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char) c < 32) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char) c); o += b; } else o += c; } return o + "\""; }

// What the library made of a file, in a normal form: sequences are flat, nested alternatives without attributes are one list

struct node { std::string head, tail; std::vector<std::vector<node> > kids; bool alt; node() : alt(false) { } };
typedef std::vector<node> nodes;

inline std::string show(const nodes& n);
inline std::string show(const node& n) { std::string o = "(" + n.head; for (auto& k : n.kids) o += " [" + show(k) + "]"; return o + n.tail + ")"; }
inline std::string show(const nodes& n) { std::string o; for (size_t i = 0; i < n.size(); ++i) o += (i ? " " : "") + show(n[i]); return o; }

inline node make_alt(const std::string& attr, const std::vector<nodes>& branches) {
    node n; n.head = "alt" + attr; n.alt = attr.empty();
    for (auto& b : branches) { if (b.size() == 1 && b[0].alt) n.kids.insert(n.kids.end(), b[0].kids.begin(), b[0].kids.end()); else n.kids.push_back(b); }
    return n;
}
inline std::string attr_text(const W& name, int conflict, bool clash) {
    static const char* c[] = { "", " shift", " reduce", " weakreduce" };
    std::string o; if (!name.empty()) o += " name=" + q(name); o += c[conflict]; if (clash) o += " clash"; return o.empty() ? o : "{" + o + " }";
}
inline std::string attr_of(const yy_language::ebnf_item_attributes& a) {
    int k = a.conflict_action == yy_language::ebnf_item_attributes::conflict_shift ? 1 : a.conflict_action == yy_language::ebnf_item_attributes::conflict_reduce ? 2 : a.conflict_action == yy_language::ebnf_item_attributes::conflict_weakreduce ? 3 : 0;
    return attr_text(a.name, k, a.guard_can_clash);
}
inline std::string at(const dfa::position& p) { return "@" + std::to_string(p.offset()) + "," + std::to_string(p.line()) + "," + std::to_string(p.column()); }

inline std::string span(const yy_language::block* b) { return at(b->start_pos()) + ".." + at(b->end_pos()).substr(1); }

inline nodes seq_of(yy_language::ebnf_item* i) {
    using yy_language::ebnf_item;
    nodes r; node n; std::string a = attr_of(i->attributes());
    switch (i->get_type()) {
        case ebnf_item::ebnf_parenthesized:
            for (ebnf_item::iterator c = i->begin(); c != i->end(); ++c) { nodes k = seq_of(*c); r.insert(r.end(), k.begin(), k.end()); }
            return r;
        case ebnf_item::ebnf_alternative: {
            std::vector<nodes> b; for (ebnf_item::iterator c = i->begin(); c != i->end(); ++c) b.push_back(seq_of(*c));
            r.push_back(make_alt(a, b)); return r;
        }
        case ebnf_item::ebnf_guard: case ebnf_item::ebnf_repeat_zero: case ebnf_item::ebnf_repeat_one: case ebnf_item::ebnf_optional: {
            int t = i->get_type(); n.head = std::string(t == ebnf_item::ebnf_guard ? "guard" : t == ebnf_item::ebnf_repeat_zero ? "*" : t == ebnf_item::ebnf_repeat_one ? "+" : "?") + a;
            nodes k; for (ebnf_item::iterator c = i->begin(); c != i->end(); ++c) { nodes x = seq_of(*c); k.insert(k.end(), x.begin(), x.end()); }
            n.kids.push_back(k); r.push_back(n); return r;
        }
        default: {
            int t = i->get_type(); n.head = std::string(t == ebnf_item::ebnf_nonterminal ? "N" : t == ebnf_item::ebnf_terminal ? "T" : t == ebnf_item::ebnf_terminal_string ? "S" : t == ebnf_item::ebnf_terminal_character ? "C" : "unknown") + " " + q(i->source_identifier()) + " " + q(i->identifier()) + at(i->start_pos()) + a;
            r.push_back(n); return r;
        }
    }
}

inline std::string unit_of(yy_language::language_unit* u) {
    using namespace yy_language;
    std::string o; static const char* names[] = { "null", "lexer-symbols", "keywords", "lexer", "ignore", "grammar", "precedence" };
    o += std::string("  ") + names[u->type()];
    lexer_block* lb = u->any_lexer_block();
    if (lb) {
        if (lb->is_weak()) o += " weak"; if (lb->is_case_insensitive()) o += " insensitive"; if (lb->is_case_sensitive()) o += " sensitive";
        o += "\n";
        for (lexer_block::iterator i = lb->begin(); i != lb->end(); ++i) {
            static const char* t[] = { "literal", "string", "character", "regex" };
            o += std::string("    ") + t[(*i)->get_type()] + " " + q((*i)->identifier()) + span(*i) + ((*i)->add_to_definition() ? " |= " : (*i)->replace_definition() ? " replace " : " = ") + q((*i)->definition()) + at((*i)->definition_pos()) + "\n";
        }
        return o;
    }
    o += "\n";
    if (u->grammar_definition()) for (grammar_block::iterator n = u->grammar_definition()->begin(); n != u->grammar_definition()->end(); ++n) {
        o += "    " + q((*n)->identifier()) + at((*n)->start_pos()) + ((*n)->get_type() == nonterminal_definition::addition ? " |=" : (*n)->get_type() == nonterminal_definition::replace ? " replace" : " =") + "\n";
        for (nonterminal_definition::iterator p = (*n)->begin(); p != (*n)->end(); ++p) {
            nodes r; for (production_definition::iterator i = (*p)->begin(); i != (*p)->end(); ++i) { nodes k = seq_of(*i); r.insert(r.end(), k.begin(), k.end()); }
            o += "      " + show(r) + "\n";
        }
    }
    if (u->precedence_definition()) for (precedence_block::iterator p = u->precedence_definition()->begin(); p != u->precedence_definition()->end(); ++p) {
        nodes r; for (auto i : p->items) { nodes k = seq_of(i); r.insert(r.end(), k.begin(), k.end()); }
        o += std::string("    ") + (p->assoc == precedence_block::left ? "left" : p->assoc == precedence_block::right ? "right" : "nonassoc") + " " + show(r) + "\n";
    }
    return o;
}
/// What a file says. (Copies of a test block lose their position, which is a known finding: it is left out for those.)
inline std::string file_of(const yy_language::definition_file& f, bool isCopy = false) {
    using namespace yy_language;
    std::string o;
    for (definition_file::iterator b = f.begin(); b != f.end(); ++b) {
        if ((*b)->language()) {
            const language_block* l = (*b)->language();
            o += "language " + q(l->identifier()) + span(l); for (auto& i : l->inherits()) o += " : " + q(i); o += "\n";
            for (language_block::iterator u = l->begin(); u != l->end(); ++u) o += unit_of(*u);
        }
        if ((*b)->import()) o += "import " + q((*b)->import()->import_filename()) + span((*b)->import()) + "\n";
        if ((*b)->parser()) { o += "parser " + q((*b)->parser()->parser_name()) + span((*b)->parser()) + " : " + q((*b)->parser()->language_name()); for (auto& s : (*b)->parser()->start_symbols()) o += " " + q(s); o += "\n"; }
        if ((*b)->test()) {
            o += "test " + q((*b)->test()->language()) + (isCopy ? std::string() : span((*b)->test())) + "\n";
            for (test_block::iterator t = (*b)->test()->begin(); t != (*b)->test()->end(); ++t)
                o += "    " + q((*t)->nonterminal_language()) + " " + q((*t)->nonterminal()) + ((*t)->type() == test_definition::match ? " = " : (*t)->type() == test_definition::no_match ? " != " : " from ") + q((*t)->identifier()) + " " + q((*t)->test_string()) + at((*t)->test_string_position()) + span(*t) + "\n";
        }
    }
    return o;
}

/// The positions of everything there is in a file
inline void spans_of(const yy_language::ebnf_item* i, std::string& o) { o += span(i) + "("; for (yy_language::ebnf_item::iterator c = i->begin(); c != i->end(); ++c) spans_of(*c, o); o += ")"; }
inline std::string spans_of(const yy_language::definition_file& f) {
    using namespace yy_language;
    std::string o;
    for (definition_file::iterator b = f.begin(); b != f.end(); ++b) {
        o += "\ntop " + span(*b);
        if ((*b)->language()) for (language_block::iterator u = (*b)->language()->begin(); u != (*b)->language()->end(); ++u) {
            o += "\n unit " + span(*u);
            if ((*u)->any_lexer_block()) o += " lexer " + span((*u)->any_lexer_block());
            if ((*u)->grammar_definition()) {
                o += " grammar " + span((*u)->grammar_definition());
                for (grammar_block::iterator n = (*u)->grammar_definition()->begin(); n != (*u)->grammar_definition()->end(); ++n) { o += "\n  " + span(*n); for (nonterminal_definition::iterator p = (*n)->begin(); p != (*n)->end(); ++p) { o += "\n   " + span(*p); for (production_definition::iterator i = (*p)->begin(); i != (*p)->end(); ++i) spans_of(*i, o); } }
            }
            if ((*u)->precedence_definition()) { o += " precedence " + span((*u)->precedence_definition()); for (precedence_block::iterator p = (*u)->precedence_definition()->begin(); p != (*u)->precedence_definition()->end(); ++p) for (auto i : p->items) spans_of(i, o); }
        }
    }
    return o;
}

/// Token kinds of the definition language
enum tk { tk_id, tk_nt, tk_regex, tk_string, tk_char, tk_punct };
struct dtok { W s; int k; };

static const wchar_t* const def_keywords[] = { L"language", L"import", L"lexer-symbols", L"lexer", L"ignore", L"weak", L"keywords", L"grammar", L"replace", L"parser", L"test", L"from", L"case", L"sensitive", L"insensitive", L"precedence", L"left", L"right", L"non-associative", L"non-assoc", L"conflict", L"shift", L"reduce", L"can-clash" };
static const int def_nkeywords = sizeof(def_keywords) / sizeof(def_keywords[0]);

/// Generates a file: its tokens, and the text the library's result has to be shown as ("@<n>#" stands for the position of token n)
struct deftext {
    Src& s; std::vector<dtok> toks; std::string want; bool words; std::set<size_t> replaceAt; int depth; int items; bool guards, attrs, sources;
    std::set<std::string> seen; std::vector<std::string> ends;
    deftext(Src& src) : s(src), words(true), depth(0), items(0), guards(false), attrs(false), sources(false) { }

    std::string t(const W& x, int k) { dtok d; d.s = x; d.k = k; toks.push_back(d); return "@" + std::to_string(toks.size() - 1) + "#"; }
    std::string upTo() { return "..!" + std::to_string(toks.size() - 1) + "#"; }        // the end of the last token
    std::string p(const wchar_t* x) { return t(x, tk_punct); }
    std::string kw(const wchar_t* x) { return t(x, tk_id); }
    W ident() {
        if (s.chance(1, 6) && words) return def_keywords[s.below(def_nkeywords)];
        if (s.chance(1, 12)) { static const wchar_t* u[] = { L"\u00e9t\u00e9", L"\u03b1-\u03b2", L"\u0416\u0661", L"\u4e00_\u4e8c", L"_", L"-x-", L"a\u2013b", L"x\u00bd" }; return u[s.below(8)]; }
        W r(1, L"abcxyzAZ_"[s.below(9)]); int n = s.below(5); for (int i = 0; i < n; ++i) r += L"abcxyzAZ019-_"[s.below(13)]; return r;
    }
    W nonterm() { return L"<" + ident() + L">"; }
    W text(bool regex) {
        W r; int n = s.weighted({ 1, 3, 3, 2, 1, 1 }) + (s.chance(1, 10) ? s.below(20) : 0);
        for (int i = 0; i < n; ++i) switch (s.weighted({ 10, 3, 2, 1, 1 })) {
            case 0: r += L"abc019 (){}[]<>=|+-.;:,!#"[s.below(25)]; break;
            case 1: r += L'\\'; r += regex ? L"nrt/.*+?()[]{}|abef\\"[s.below(20)] : L"nrt\"abefz'/\\"[s.below(12)]; break;
            case 2: r += regex ? (i ? L'*' : L'a') : L"*?\\/'"[s.below(2)]; break;
            case 3: r += (wchar_t)(0xa1 + s.below(0x500)); break;
            default: r += s.chance(1, 4) ? L'\n' : regex ? L'"' : L'/';
        }
        if (r.empty() && regex) r = L"x";
        return r;
    }
    W dequoted(const W& x) { W r; for (size_t i = 0; i < x.size(); ++i) { if (x[i] != L'\\') { r += x[i]; continue; } ++i; switch (x[i]) { case L'a': r += L'\a'; break; case L'e': r += (wchar_t) 27; break; case L'n': r += L'\n'; break; case L'r': r += L'\r'; break; case L'f': r += L'\f'; break; case L't': r += L'\t'; break; default: r += x[i]; } } return r; }
    W chr() { W r = L"'"; switch (s.below(4)) { case 0: case 1: r += L"abc09+-*/=\"{}[]()<>|"[s.below(20)]; break; case 2: r += L'\\'; r += L"nrt\\'0x"[s.below(7)]; break; default: r += s.chance(1, 3) ? L'\'' : (wchar_t)(0xa1 + s.below(0x1000)); } return r + L"'"; }

    std::string attributes(bool force = false) {
        if (!force && !s.chance(1, 4)) return "";
        attrs = true;
        W name; int conflict = 0; int how = s.weighted({ 4, 2, 2 }); 
        p(L"["); bool first = s.chance(1, 2);
        for (int i = 0; i < 2; ++i) {
            bool nm = (i == 0) == first; if ((nm && how == 1) || (!nm && how == 0)) continue;
            if (i == 1 && how == 2) p(L",");
            if (nm) { name = ident(); t(name, tk_id); }
            else { kw(L"conflict"); p(L"="); conflict = 1 + s.below(3); if (conflict == 1) kw(L"shift"); else { if (conflict == 3) kw(L"weak"); kw(L"reduce"); } }
        }
        p(L"]");
        return attr_text(name, conflict, false);
    }
    node leaf() {
        node n; W src, id; std::string pos; int k = s.weighted({ 4, 4, 1, 1 });
        if (s.chance(1, 12)) { src = ident(); pos = t(src, tk_id); p(L"."); sources = true; }
        id = k == 0 ? ident() : k == 1 ? nonterm() : k == 2 ? L"\"" + text(false) + L"\"" : chr();
        std::string ip = t(id, k == 0 ? tk_id : k == 1 ? tk_nt : k == 2 ? tk_string : tk_char);
        if (pos.empty()) pos = ip;
        n.head = std::string(k == 0 ? "T" : k == 1 ? "N" : k == 2 ? "S" : "C") + " " + q(src) + " " + q(id) + pos;
        n.head += attributes();
        return n;
    }
    /// Items between brackets: branches separated by '|'
    std::vector<nodes> branches(int d) { std::vector<nodes> b; int n = s.weighted({ 5, 3, 2, 1 }); for (int i = 0; i <= n; ++i) { if (i) p(L"|"); b.push_back(sequence(d)); } return b; }
    nodes sequence(int d) { nodes r; int n = s.weighted({ 1, 6, 4, 2, 1 }); for (int i = 0; i < n && items < 120; ++i) { nodes k = item(d); r.insert(r.end(), k.begin(), k.end()); } return r; }
    nodes item(int d) {
        ++items; nodes r;
        int k = d <= 0 ? 0 : s.weighted({ 8, 3, 1 });
        if (k == 0) r.push_back(leaf());
        else if (k == 1) {
            p(L"("); std::vector<nodes> b = branches(d - 1); p(L")");
            if (b.size() == 1) r = b[0]; else { std::string a = attributes(); r.push_back(make_alt(a, b)); }
        } else {
            guards = true; node n; p(L"[=>"); bool clash = s.chance(1, 3); if (clash) { p(L"["); kw(L"can-clash"); p(L"]"); }
            std::vector<nodes> b = branches(d - 1); p(L"]"); std::string a = attributes();
            if (clash) { if (a.empty()) a = attr_text(L"", 0, true); else a.insert(a.size() - 2, " clash"); }
            n.head = "guard" + a; if (b.size() == 1) n.kids.push_back(b[0]); else n.kids.push_back(nodes(1, make_alt("", b))); r.push_back(n);
        }
        while (d > 0 && s.chance(1, 4)) {
            static const wchar_t* op[] = { L"*", L"+", L"?" }; static const char* on[] = { "*", "+", "?" };
            int o = s.below(3); p(op[o]); std::string a = attributes(); node n; n.head = on[o] + a; n.kids.push_back(r); r.assign(1, n);
        }
        return r;
    }
    void lexeme(bool literals) {
        if (literals && s.chance(1, 2)) { W id = ident(); std::string pos = t(id, tk_id); want += "    literal " + q(id) + pos + upTo() + " = " + q(id) + pos + "\n"; return; }
        std::string start; int how = s.weighted({ 4, 2, 2 });
        if (how == 2) { replaceAt.insert(toks.size()); start = kw(L"replace"); }
        W id = ident(); std::string pos = t(id, tk_id); if (start.empty()) start = pos;
        p(how == 1 ? L"|=" : L"=");
        int k = s.weighted({ 3, 1, 1 }); W d = k == 0 ? L"/" + text(true) + L"/" : k == 1 ? L"\"" + text(false) + L"\"" : chr();
        std::string dp = t(d, k == 0 ? tk_regex : k == 1 ? tk_string : tk_char);
        want += std::string("    ") + (k == 0 ? "regex" : k == 1 ? "string" : "character") + " " + q(id) + start + upTo() + (how == 1 ? " |= " : how == 2 ? " replace " : " = ") + q(d) + dp + "\n";
    }
    void unit() {
        int k = s.weighted({ 5, 2, 2, 2, 3, 2 });
        if (k >= 1 && k <= 4) {
            static const wchar_t* n[] = { L"", L"lexer-symbols", L"lexer", L"ignore", L"keywords" }; static const char* m[] = { "", "lexer-symbols", "lexer", "ignore", "keywords" };
            bool weak = false, ins = false, sen = false;
            if (k != 3) while (s.chance(1, 3)) { int w = s.below(k == 1 ? 2 : 3); if (w == 2) { weak = true; kw(L"weak"); } else { kw(L"case"); if (w) { ins = true; kw(L"insensitive"); } else { sen = true; kw(L"sensitive"); } } }
            kw(n[k]); p(L"{"); want += std::string("  ") + m[k] + (weak ? " weak" : "") + (ins ? " insensitive" : "") + (sen ? " sensitive" : "") + "\n";
            int c = s.weighted({ 1, 3, 3, 2, 1 }); for (int i = 0; i < c; ++i) lexeme(k >= 3);
            p(L"}");
        } else if (k == 0) {
            kw(L"grammar"); p(L"{"); want += "  grammar\n"; int c = s.weighted({ 1, 3, 3, 2, 1 });
            for (int i = 0; i < c; ++i) {
                std::string start; int how = s.weighted({ 4, 2, 2 }); if (how == 2) { replaceAt.insert(toks.size()); start = kw(L"replace"); }
                W id = nonterm(); std::string pos = t(id, tk_nt); if (start.empty()) start = pos; p(how == 1 ? L"|=" : L"=");
                want += "    " + q(id) + start + (how == 1 ? " |=" : how == 2 ? " replace" : " =") + "\n";
                int n = s.weighted({ 4, 3, 2, 1 }); for (int j = 0; j <= n; ++j) { if (j) p(L"|"); nodes r = sequence(s.below(4)); want += "      " + show(r) + "\n"; }
            }
            p(L"}");
        } else {
            kw(L"precedence"); p(L"{"); want += "  precedence\n"; int c = s.weighted({ 1, 3, 3, 2 });
            for (int i = 0; i < c; ++i) {
                int a = s.below(4); static const wchar_t* n[] = { L"left", L"right", L"non-associative", L"non-assoc" }; static const char* m[] = { "left", "right", "nonassoc", "nonassoc" };
                kw(n[a]); nodes r;
                if (s.chance(1, 2)) r = item(s.chance(1, 6) ? 2 : 0); else { p(L"{"); int c2 = s.weighted({ 1, 3, 3, 2 }); for (int j = 0; j < c2; ++j) { nodes k2 = item(0); r.insert(r.end(), k2.begin(), k2.end()); } p(L"}"); }
                want += std::string("    ") + m[a] + " " + show(r) + "\n";
            }
            p(L"}");
        }
    }
    void file() {
        int n = s.weighted({ 1, 4, 3, 2, 1 });
        for (int i = 0; i < n && toks.size() < 400; ++i) switch (s.weighted({ 6, 1, 2, 2 })) {
            case 0: {
                std::string pos = kw(L"language"); W id = ident(); t(id, tk_id); std::string inh; if (s.chance(1, 3)) { p(L":"); W x = ident(); t(x, tk_id); inh = " : " + q(x); } p(L"{");
                std::string head = "language " + q(id) + pos, before; before.swap(want); int c = s.weighted({ 1, 3, 3, 2, 1 }); for (int j = 0; j < c; ++j) unit(); p(L"}"); want = before + head + upTo() + inh + "\n" + want; break;
            }
            case 1: { std::string pos = kw(L"import"); W x = text(false); t(L"\"" + x + L"\"", tk_string); want += "import " + q(dequoted(x)) + pos + upTo() + "\n"; break; }
            case 2: {
                std::string pos = kw(L"parser"), names; W a = ident(); t(a, tk_id); p(L":"); W b = ident(); t(b, tk_id); p(L"{");
                int c = 1 + s.below(3); for (int j = 0; j < c; ++j) { if (s.chance(1, 8)) { t(ident(), tk_id); p(L"."); } W x = nonterm(); t(x, tk_nt); names += " " + q(x); } p(L"}"); want += "parser " + q(a) + pos + upTo() + " : " + q(b) + names + "\n"; break;
            }
            default: {
                std::string pos = kw(L"test"), before; W a = ident(); t(a, tk_id); p(L"{"); before.swap(want); int c = s.weighted({ 1, 3, 2, 1 });
                for (int j = 0; j < c; ++j) {
                    W src; if (s.chance(1, 8)) { src = ident(); t(src, tk_id); p(L"."); } W nt = nonterm(); t(nt, tk_nt); int how = s.below(3); if (how == 2) kw(L"from"); else p(how ? L"!=" : L"=");
                    int c2 = 1 + s.weighted({ 3, 2, 1 });
                    for (int m = 0; m < c2; ++m) { W name; bool named = s.chance(1, 3); if (named) { name = ident(); t(name, tk_id); p(L"("); } W x = text(false); std::string xp = t(L"\"" + x + L"\"", tk_string), sp = "@" + std::to_string(toks.size() - (named ? 3 : 1)) + "#"; if (named) p(L")");
                        want += "    " + q(src) + " " + q(nt) + (how == 0 ? " = " : how == 1 ? " != " : " from ") + q(name) + " " + q(dequoted(x)) + xp.substr(0, xp.size() - 1) + "+" + sp + upTo() + "\n"; }
                }
                p(L"}"); want = before + "test " + q(a) + pos + upTo() + "\n" + want;
            }
        }
        // a name 'replace' in front of something that makes it mean the keyword
        for (size_t i = 0; i + 2 < toks.size(); ++i) if (toks[i].s == L"replace" && toks[i].k == tk_id && !replaceAt.count(i) && (toks[i + 1].k == tk_nt || toks[i + 1].k == tk_id) && toks[i + 2].s == L"=") throw Discard();
    }

    // The text
    static bool wordy(wchar_t c) { return c == L'_' || c == L'-' || (c >= L'0' && c <= L'9') || (c >= L'a' && c <= L'z') || (c >= L'A' && c <= L'Z') || c > 127; }
    bool needsGap(size_t i) {       // between token i and the next
        const W& a = toks[i].s; const W& b = toks[i + 1].s;
        if (toks[i].k == tk_id && wordy(b[0])) return true;
        if (toks[i].k == tk_char && b[0] == L'\'') return true;
        if (a == L"|" && b[0] == L'=') return true;
        return false;
    }
    W filler(bool must) {
        W r; int n = s.weighted({ 4, 5, 2, 1 }); if (must && !n) n = 1;
        for (int i = 0; i < n; ++i) switch (s.weighted({ 8, 4, 2, 2, 2 })) {
            case 0: r += L' '; break;
            case 1: r += L'\n'; break;
            case 2: { static const wchar_t* w[] = { L"\t", L"\r\n", L"\r", L"\u00a0", L"\u2003", L"\u3000", L"   ", L"\n\n" }; r += w[s.below(8)]; break; }
            case 3: { r += L"//"; int m = s.below(8); for (int j = 0; j < m; ++j) r += L"ab /*\"'\u00e9{}\\"[s.below(11)]; r += s.chance(1, 4) ? L"\r\n" : L"\n"; break; }
            default: { W c; int m = s.below(8); for (int j = 0; j < m; ++j) c += L"ab /*\n\"'\u00e9{"[s.below(10)]; for (size_t x; (x = c.find(L"*/")) != W::npos; ) c.erase(x, 1); if (!c.empty() && c[0] == L'/') c.insert(0, 1, L' '); r += L"/*" + c + L"*/"; }
        }
        return r;
    }
    W render(std::vector<std::string>& positions) {
        W out; std::vector<size_t> start; std::vector<size_t> finish;
        if (s.chance(1, 2)) out += filler(false);
        for (size_t i = 0; i < toks.size(); ++i) {
            start.push_back(out.size()); out += toks[i].s; finish.push_back(out.size());
            if (i + 1 < toks.size()) out += s.chance(1, 3) && !needsGap(i) ? W() : filler(needsGap(i));
        }
        if (s.chance(1, 2)) out += filler(false);
        if (s.chance(1, 8)) out += L"// the end";
        size_t off = 0; int line = 0, col = 0; size_t k = 0, e = 0; ends.clear();
        for (; off <= out.size(); ++off) {
            while (k < start.size() && start[k] == off) { positions.push_back("@" + std::to_string(off) + "," + std::to_string(line) + "," + std::to_string(col)); ++k; }
            while (e < finish.size() && finish[e] == off) { ends.push_back(std::to_string(off) + "," + std::to_string(line) + "," + std::to_string(col)); ++e; }
            if (off == out.size()) break;
            wchar_t c = out[off];
            if (c == L'\n' || (c == L'\r' && !(off + 1 < out.size() && out[off + 1] == L'\n')) || c == 0x85 || c == 0x2028 || c == 0x2029 || c == 11 || c == 12) { ++line; col = 0; }
            else ++col;
        }
        return out;
    }
    std::string wanted(const std::vector<std::string>& positions) {
        std::string o;
        for (size_t i = 0; i < want.size(); ++i) {
            size_t j = i + 1; if (want[i] == '@') { while (j < want.size() && isdigit((unsigned char) want[j])) ++j; }
            if (want[i] == '!' && i > 1 && want[i - 1] == '.' && want[i - 2] == '.' && j < want.size() && isdigit((unsigned char) want[j])) {
                while (j < want.size() && isdigit((unsigned char) want[j])) ++j;
                if (j < want.size() && want[j] == '#') { o += ends[atoi(want.c_str() + i + 1)]; i = j; continue; }
            }
            if (want[i] == '@' && j > i + 1 && j < want.size() && (want[j] == '#' || want[j] == '+')) {
                std::string p = positions[atoi(want.c_str() + i + 1)];
                if (want[j] == '+') { int a, b, c; sscanf(p.c_str(), "@%d,%d,%d", &a, &b, &c); p = "@" + std::to_string(a + 1) + "," + std::to_string(b) + "," + std::to_string(c + 1); }
                o += p; i = j;
            } else o += want[i];
        }
        return o;
    }
};

}

#endif

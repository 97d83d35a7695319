// C21: generated C++ parsers do what the tables they were made from do
//
// A random language is compiled in memory, written out as C++ by the C++ output stage, and that C++ is compiled and run
// on random texts. What the generated lexer and parser say, the tree they build (read through the generated classes)
// and its positions have to be the ones of the same language run from memory.

#include "tlang.h"
#include "TameParse/Compiler/OutputStages/cplusplus.h"

using namespace std;
using namespace vp;

static string scratch, compiler_flags;

static void prepare_pch(const string& dir) {
    scratch = dir;
    spit(dir + "/pch.h", "#include <iostream>\n#include <sstream>\n#include <fstream>\n#include <vector>\n#include <string>\n#include <map>\n#include <locale>\n"
        "#include \"TameParse/Util/syntax_ptr.h\"\n#include \"TameParse/Dfa/lexer.h\"\n#include \"TameParse/Lr/parser.h\"\n#include \"TameParse/Lr/parser_tables.h\"\n"
        "#include \"TameParse/Dfa/hard_coded_symbol_table.h\"\n#include \"TameParse/Dfa/state_machine.h\"\n");
    compiler_flags = string("g++ -std=gnu++17 -w -O0 -D_GLIBCXX_ASSERTIONS -I'") + getenv("VP_REPO") + "' -I'" + dir + "' ";
    run(compiler_flags + "-x c++-header '" + dir + "/pch.h' -o '" + dir + "/pch.h.gch' >/dev/null 2>&1");
}

// ---- what the names in the generated code are

static wstring strip(const wstring& n) {
    if (n.size() < 3) return n;
    wchar_t a = n[0], b = n[n.size() - 1];
    if ((a == L'<' && b == L'>') || (a == L'"' && b == L'"') || (a == L'\'' && b == L'\'')) return n.substr(1, n.size() - 2);
    return n;
}
static string ident(const wstring& name) {
    if (name.empty()) return "_";
    wstring n = name; wchar_t a = n[0], b = n[n.size() - 1];
    if ((a == L'<' && b == L'>') || (a == L'"' && b == L'"') || (a == L'\'' && b == L'\'')) n = n.size() < 2 ? wstring() : n.substr(1, n.size() - 2);
    static const map<wchar_t, string> punct = { { L'<', "lessthan" }, { L'>', "greaterthan" }, { L'\'', "quote" }, { L'"', "doublequote" }, { L'&', "ampersand" }, { L':', "colon" }, { L'=', "equals" }, { L'!', "exclamation" }, { L'@', "at" }, { L'#', "hash" }, { L'$', "dollar" },
        { L'%', "percent" }, { L'^', "cicumflex" }, { L'*', "star" }, { L'(', "openparen" }, { L')', "closeparen" }, { L'+', "plus" }, { L'/', "slash" }, { L'\\', "backslash" }, { L'|', "pipe" }, { L';', "semicolon" }, { L'.', "dot" }, { L',', "comma" }, { L'?', "question" },
        { L'~', "tilde" }, { L'{', "opencurly" }, { L'}', "closecurly" }, { L'[', "opensquare" }, { L']', "closesquare" } };
    string o = "yy_";
    for (wchar_t ch : n) {
        if (ch < 128 && isalnum(ch)) o += (char) ch;
        else if (punct.count(ch)) o += "_" + punct.at(ch) + "_";
        else if (ch == L'-' && n.size() == 1) o += "_minus_";
        else o += "_";
    }
    return o;
}

struct naming {
    const tlang& l;
    explicit naming(const tlang& tl) : l(tl) { }
    wstring item(const rg::It& i) const {
        wstring o;
        switch (i.k) {
            case rg::T: o = strip(wide8(l.T[i.id].name)); break;
            case rg::N: o = strip(wide8(l.N[i.id])); break;
            case rg::OPT: o = L"optional_" + ebnf(i); break;
            case rg::REP: case rg::REP0: o = L"list_of_" + ebnf(i); break;
            case rg::ALT: o = L"one_of_" + ebnf(i); break;
            default: o = L"unknown_item";
        }
        return o.empty() ? L"item" : o;
    }
    wstring ebnf(const rg::It& i) const { wstring o; for (size_t k = 0; k < i.r.size(); ++k) o += (k ? L"_or_" : L"") + rule(i.r[k]); return o; }
    wstring rule(const rg::Rule& r) const {
        if (r.empty()) return L"empty";
        if (r.size() > 3) return item(r[0]) + L"_etc";
        wstring o; for (size_t i = 0; i < r.size(); ++i) o += (i ? L"_" : L"") + item(r[i]); return o;
    }
};

// ---- trees

struct node { bool term; int id, rule; dfa::position pos, fin, look; wstring content; vector<shared_ptr<node>> kids; };
typedef shared_ptr<node> node_p;
class gen_actions {
public:
    typedef vector<node_p> reduce_list;
    explicit gen_actions(dfa::lexeme_stream* s) : m_Stream(s) { }
    ~gen_actions() { delete m_Stream; }
    dfa::lexeme* read() { dfa::lexeme* x = NULL; (*m_Stream) >> x; return x; }
    node_p shift(const dfa::lexeme_container& x) { node_p n(new node()); n->term = true; n->id = x->matched(); n->rule = -1; n->pos = x->pos(); n->fin = x->final_pos(); n->content = x->content<wchar_t>(); return n; }
    node_p reduce(int nt, int rule, const vector<node_p>& items, const dfa::position& look) { node_p n(new node()); n->term = false; n->id = nt; n->rule = rule; n->kids.assign(items.rbegin(), items.rend()); n->look = look; return n; }
private:
    dfa::lexeme_stream* m_Stream;
};
typedef lr::parser<node_p, gen_actions> gen_parser;

static string P(const dfa::position& p) { return to_string(p.offset()) + ":" + to_string(p.line()) + ":" + to_string(p.column()); }
static string codes(const wstring& w) { string o; for (wchar_t ch : w) o += "." + to_string((unsigned) ch); return o; }

struct field { string var; int sym; };                      // sym: of the reference grammar; -1 for items without a field

struct model {
    const tlang& l; lang_build& b; rg::Low low; lang_map m; naming nm;
    map<int, int> prodOf;                                   // rule id -> production
    map<int, vector<field>> fields;                         // production -> its items
    map<int, string> classes;                               // item id -> name of the class
    map<int, map<string, int>> members;                     // symbol -> all of its fields
    bool clashes;

    static vector<wstring> tn(const tlang& l) { vector<wstring> o; for (auto& t : l.T) o.push_back(wide8(t.name)); return o; }
    static vector<wstring> nn(const tlang& l) { vector<wstring> o; for (auto& t : l.N) o.push_back(wide8(t)); return o; }
    model(const tlang& tl, lang_build& lb) : l(tl), b(lb), low(tl.g), m(lb, tl.g, tn(tl), nn(tl)), nm(tl), clashes(false) {
        m.symbols(low);
        for (size_t i = 0; i < m.termId.size(); ++i) if (m.termId[i] < 0) throw Fail{"no symbol for " + l.T[i].name};
        contextfree::grammar& g = m.gram;
        for (int p = 0; p < (int) low.prods.size(); ++p) {
            contextfree::rule_container r(new contextfree::rule(lib(low.prods[p].lhs)), true);
            for (int x : low.prods[p].rhs) *r << lib(x);
            if (g.identifier_for_rule(r) >= 0) prodOf[g.identifier_for_rule(r)] = p;
        }
        // classes
        set<string> used = { ident(L"Lang"), "t", "nt", "number_of_symbol_sets", "number_of_lexer_states", "lexer", "lr_tables" };
        auto choose = [&](const string& base) { string n = base; for (int k = 2; !used.insert(n).second; ++k) n = base + "_" + to_string(k); return n; };
        for (int t = 0; t < b.lang->terminals()->count_symbols(); ++t) {
            wstring n = strip(b.lang->terminals()->name_for_symbol(t)); if (n.empty()) n = L"item";
            contextfree::item_container it(new contextfree::terminal(t), true); classes[g.identifier_for_item(it)] = choose(ident(n));
        }
        for (int i = 0; i < g.max_item_identifier(); ++i) {
            contextfree::item_container it = g.item_with_identifier(i); if (it->type() == contextfree::item::terminal || classes.count(i)) continue;
            wstring n = libname(it);
            classes[i] = choose(ident(n));
        }
        set<string> types; for (auto& x : classes) types.insert(x.second + "_n");
        // fields
        map<int, map<int, int>> bySym; for (auto& x : prodOf) bySym[low.prods[x.second].lhs][x.first] = x.second;
        for (auto& s : bySym) for (auto& x : s.second) {
            const rg::Prod& p = low.prods[x.second]; const rg::It& lhs = low.items[p.lhs - low.nT]; bool rep = lhs.k == rg::REP || lhs.k == rg::REP0;
            bool self = rep && !p.rhs.empty() && p.rhs[0] == p.lhs;
            rg::Rule content; for (size_t i = self ? 1 : 0; i < p.rhs.size(); ++i) content.push_back(refItem(p.rhs[i]));
            set<wstring> names; set<string> vars; vector<field>& f = fields[x.second];
            for (size_t i = 0; i < p.rhs.size(); ++i) {
                rg::It it = refItem(p.rhs[i]); bool rec = self && i == 0;
                wstring base = rec ? L"" : wide8(l.name(content, i - (self ? 1 : 0))); if (base.empty()) base = nm.item(it);
                wstring n = base; for (int k = 2; names.count(n); ++k) n = base + L"_" + to_wstring(k);
                names.insert(n);
                if (it.k == rg::GUARD || rec) { f.push_back(field{ "", -1 }); continue; }
                string var = ident(n), v = var;
                for (int k = 2; vars.count(v) || types.count(v) || (members[p.lhs].count(v) && members[p.lhs][v] != p.rhs[i]); ++k) { v = var + "_" + to_string(k); clashes = true; }
                vars.insert(v); members[p.lhs][v] = p.rhs[i]; f.push_back(field{ v, p.rhs[i] });
            }
        }
    }
    /// Also names the groups inside a group of alternatives, which have no rules of their own
    wstring libname(const contextfree::item_container& i) {
        using contextfree::item;
        const wchar_t* pre = L"";
        switch (i->type()) {
            case item::terminal: { wstring n = strip(b.lang->terminals()->name_for_symbol(i->symbol())); return n.empty() ? L"item" : n; }
            case item::nonterminal: { wstring n = strip(m.gram.name_for_nonterminal(i->symbol())); return n.empty() ? L"item" : n; }
            case item::empty: return L"epsilon"; case item::eoi: return L"end_of_input"; case item::eog: return L"end_of_guard";
            case item::optional: pre = L"optional_"; break;
            case item::repeat: case item::repeat_zero_or_one: pre = L"list_of_"; break;
            case item::alternative: pre = L"one_of_"; break;
            default: return L"unknown_item";
        }
        wstring o; const contextfree::ebnf& e = (const contextfree::ebnf&) *i;
        for (auto r = e.first_rule(); r != e.last_rule(); ++r) {
            if (!o.empty()) o += L"_or_";
            const vector<contextfree::item_container>& v = (*r)->items();
            if (v.empty()) o += L"empty"; else if (v.size() > 3) o += libname(v[0]) + L"_etc"; else for (size_t k = 0; k < v.size(); ++k) o += (k ? L"_" : L"") + libname(v[k]);
        }
        return pre + o;
    }
    rg::It refItem(int s) const { return s < low.nT ? rg::It(rg::T, s) : low.items[s - low.nT]; }
    contextfree::item_container lib(int s) { return m.item(refItem(s)); }
    bool list(int s) const { return s >= low.nT && (low.items[s - low.nT].k == rg::REP || low.items[s - low.nT].k == rg::REP0); }

    // what the tree of the generated parser looks like
    void ends(const node_p& n, dfa::position& first, dfa::position& last) const {
        if (n->term) { first = n->pos; last = n->fin; return; }
        int p = prodOf.at(n->rule); const vector<field>& f = fields.at(p);
        bool rep = list(low.prods[p].lhs); bool any = false;
        if (rep) {
            vector<const node*> all; contents(n, all);
            if (all.empty()) { first = last = n->look; const node* z = n.get(); while (!z->kids.empty()) z = z->kids[0].get(); first = last = z->look; return; }
            dfa::position x; content_ends(all.front(), first, x); content_ends(all.back(), x, last); return;
        }
        for (size_t i = 0; i < f.size(); ++i) if (f[i].sym >= 0) { dfa::position a, z; ends(n->kids[i], a, z); if (!any) first = a; last = z; any = true; }
        if (!any) first = last = n->look;
    }
    void content_ends(const node* n, dfa::position& first, dfa::position& last) const {
        const vector<field>& f = fields.at(prodOf.at(n->rule)); bool any = false;
        for (size_t i = 0; i < f.size(); ++i) if (f[i].sym >= 0) { dfa::position a, z; ends(n->kids[i], a, z); if (!any) first = a; last = z; any = true; }
        if (!any) first = last = n->look;
    }
    /// The reductions that each add an element to a list
    void contents(const node_p& n, vector<const node*>& out) const {
        int p = prodOf.at(n->rule); const rg::Prod& pr = low.prods[p];
        if (!pr.rhs.empty() && pr.rhs[0] == pr.lhs) contents(n->kids[0], out);
        if (low.items[pr.lhs - low.nT].k == rg::REP0 && pr.rhs.empty()) return;
        out.push_back(n.get());
    }
    void show(const node_p& n, string& o) const {
        if (!n) throw Fail{"missing node in the tree"};
        if (n->term) { o += VP_STR("T" << P(n->pos) << "-" << P(n->fin) << codes(n->content) << ";"); return; }
        auto f = prodOf.find(n->rule); if (f == prodOf.end()) throw Fail{VP_STR("rule " << n->rule << " in the tree is not a rule of the grammar")};
        dfa::position a, z; ends(n, a, z);
        if (list(low.prods[f->second].lhs)) {
            vector<const node*> all; contents(n, all); o += VP_STR("L" << all.size() << "@" << P(a) << "-" << P(z) << "[");
            for (auto x : all) { content_ends(x, a, z); body(x, a, z, o); }
            o += "]"; return;
        }
        body(n.get(), a, z, o);
    }
    void body(const node* n, const dfa::position& a, const dfa::position& z, string& o) const {
        const vector<field>& f = fields.at(prodOf.at(n->rule));
        o += "{@" + P(a) + "-" + P(z) + " ";
        map<string, size_t> at; for (size_t i = 0; i < f.size(); ++i) if (f[i].sym >= 0) at[f[i].var] = i;
        for (auto& x : at) { o += x.first + "="; show(n->kids[x.second], o); }
        o += "}";
    }

    // a program that prints the same from the generated classes
    string driver(const string& cls, const vector<wstring>& starts, const vector<pair<string, int>>& consts) const {
        ostringstream o, decl, def;
        o << "static std::string P(const dfa::position& p) { std::ostringstream o; o << p.offset() << ':' << p.line() << ':' << p.column(); return o.str(); }\n"
          << "static std::string codes(const std::wstring& w) { std::ostringstream o; for (size_t i = 0; i < w.size(); ++i) o << '.' << (unsigned) w[i]; return o.str(); }\n"
          << "template<class N> static void term(const N& n, std::ostream& o) { o << 'T' << P(n->pos()) << '-' << P(n->final_pos()) << codes(n->template content<wchar_t>()) << ';'; }\n";
        for (int s = low.nT; s < low.nSym; ++s) {
            if (low.items[s - low.nT].k == rg::GUARD) continue;
            decl << "template<class N> static void sym" << s << "(const N& n, std::ostream& o);\n";
            auto mem = members.find(s);
            string fn = list(s) ? "con" : "sym";
            def << "template<class N> static void " << fn << s << "(const N& n, std::ostream& o) {\n  o << \"{@\" << P(n->pos()) << '-' << P(n->final_pos()) << ' ';\n";
            if (mem != members.end()) for (auto& x : mem->second) def << "  if (n->" << x.first << ".item()) { o << \"" << x.first << "=\"; " << (x.second < low.nT ? string("term") : "sym" + to_string(x.second)) << "(n->" << x.first << ", o); }\n";
            def << "  o << '}';\n}\n";
            if (list(s)) def << "template<class N> static void sym" << s << "(const N& n, std::ostream& o) {\n  o << 'L' << n->size() << '@' << P(n->pos()) << '-' << P(n->final_pos()) << '[';\n  for (auto it = n->begin(); it != n->end(); ++it) con" << s << "(*it, o);\n  o << ']';\n}\n";
        }
        o << decl.str() << def.str();
        o << "template<class S> static void lex(S& in, std::ostream& o) { dfa::lexeme_stream* s = " << cls << "::lexer.create_stream_from<typename S::char_type, typename S::traits_type>(in); for (;;) { dfa::lexeme* l = NULL; (*s) >> l; if (!l) break; o << l->matched() << '@' << P(l->pos()) << '-' << P(l->final_pos()) << codes(l->content<wchar_t>()) << ' '; delete l; } delete s; o << '\\n'; }\n";
        set<string> createNames;
        for (size_t i = 0; i < starts.size(); ++i) {
            string id = ident(starts[i]); for (int v = 2; !createNames.insert(id).second; ++v) id = ident(starts[i]) + "_" + to_string(v); int item = m.gram.id_for_nonterminal(starts[i]); int s = m.symOf.at(item);
            o << "template<class S> static void parse" << i << "(S& in, std::ostream& o) { " << cls << "::state* s = " << cls << "::create_" << id << "(in); if (s->parse()) { o << \"yes \"; auto r = s->get_item().template cast_to<" << cls << "::" << classes.at(item) << "_n>(); sym" << s << "(r, o); } else { o << \"no\"; if (s->look().item()) o << ' ' << P(s->look()->pos()); else o << \" end\"; } o << '\\n'; delete s; }\n";
        }
        o << "int main(int argc, char** argv) {\n  std::ifstream f(argv[1]); std::ostream& o = std::cout; std::string line;\n";
        for (auto& x : consts) o << "  o << " << cls << "::" << x.first << " << '\\n';\n";
        o << "  while (std::getline(f, line)) { std::istringstream t(line); int narrow; t >> narrow; std::wstring w; std::string a; unsigned v; while (t >> v) { w += (wchar_t) v; a += (char) v; }\n"
          << "    if (narrow) { { std::istringstream s(a); lex(s, o); }";
        for (size_t i = 0; i < starts.size(); ++i) o << " { std::istringstream s(a); parse" << i << "(s, o); }";
        o << " }\n    else { { std::wistringstream s(w); lex(s, o); }";
        for (size_t i = 0; i < starts.size(); ++i) o << " { std::wistringstream s(w); parse" << i << "(s, o); }";
        o << " }\n  }\n}\n";
        return o.str();
    }
};

static void in_memory(model& md, lang_build& b, const wstring& text, size_t nStarts, string& out, int& yes, int& no) {
    { wistringstream in(text); unique_ptr<dfa::lexeme_stream> s(b.lexer->get_lexer()->create_stream_from(in)); for (;;) { dfa::lexeme* x = NULL; (*s) >> x; if (!x) break; out += VP_STR(x->matched() << "@" << P(x->pos()) << "-" << P(x->final_pos()) << codes(x->content<wchar_t>()) << " "); delete x; } out += "\n"; }
    gen_parser parser(b.lr->get_tables(), false);
    for (size_t i = 0; i < nStarts; ++i) {
        wistringstream in(text);
        unique_ptr<gen_parser::state> st(parser.create_parser(new gen_actions(b.lexer->get_lexer()->create_stream_from(in)), (int) i));
        if (st->parse()) { ++yes; out += "yes "; md.show(st->get_item(), out); }
        else { ++no; out += "no"; if (st->look().item()) out += " " + P(st->look()->pos()); else out += " end"; }
        out += "\n";
    }
}

static void f_equal(Ctx& c) {
    tlang l; unique_ptr<lang_build> b; vector<wstring> starts; bool found = false;
    for (int tries = 0; tries < 12 && !found; ++tries) {
        l = tlang(); if (!gen_lang(c, l)) continue;
        starts.clear(); for (int s : l.g.starts) starts.push_back(wide8(l.N[s]));
        b.reset(new lang_build(l.text)); for (const wchar_t* opt : { L"disable-compact-dfa", L"disable-merged-dfa", L"enable-lr1-resolver" }) if (c.s.chance(1, 6)) b->st->options[opt] = L"1";
        if (b->tables(L"L", starts)) found = true; else c.label(b->st->errors.empty() ? "rejected" : "rejected: " + b->st->errors.back().id);
    }
    if (!found) throw Discard();
    c.note(l.text); string st; for (auto& s : starts) st += " " + to_utf8(s); c.note("start symbols:" + st);
    model md(l, *b);
    // texts
    vector<pair<wstring, bool>> texts; string lines;
    int n = 4 + c.s.below(6);
    rg::Gram noGuard = l.g; function<void(rg::Rule&)> drop = [&](rg::Rule& r) { rg::Rule o; for (auto& i : r) { if (i.k == rg::GUARD) continue; o.push_back(i); for (auto& x : o.back().r) drop(x); } r = o; };
    for (auto& x : noGuard.nt) for (auto& r : x) drop(r);
    rg::Low plain(noGuard);
    for (int i = 0; i < n; ++i) {
        vector<int> toks = rg::gen_input(c.s, plain, l.g.starts[c.s.below((uint32_t) l.g.starts.size())], l.g.nT);
        wstring w; static const wchar_t* sep[] = { L" ", L"\n", L"", L"\t ", L"?", L"\r\n " };
        for (int t : toks) { w += l.T[t].samples[c.s.below((uint32_t) l.T[t].samples.size())]; w += sep[c.s.weighted({ 12, 3, 1, 1, i == 0 ? 1 : 0, 0 })]; }
        if (c.s.chance(1, 3)) w = L" \n" + w;
        bool narrow = c.s.chance(1, 4); for (wchar_t ch : w) if (ch > 126) narrow = false;
        texts.push_back(make_pair(w, narrow)); lines += narrow ? "1" : "0"; for (wchar_t ch : w) lines += " " + to_string((unsigned) ch); lines += "\n"; c.note("text " + show(w));
    }
    string want; int yes = 0, no = 0;
    vector<pair<string, int>> consts; map<string, vector<int>> byName;
    for (int t = 0; t < b->lang->terminals()->count_symbols(); ++t) byName["t::" + ident(b->lang->terminals()->name_for_symbol(t))].push_back(t);
    for (size_t i = 0; i < l.N.size(); ++i) byName["nt::" + ident(wide8(l.N[i]))].push_back(md.m.ntId[i]);
    auto numbered = [&](const string& n) { for (auto& x : byName) if (x.second.size() > 1 && n.compare(0, x.first.size() + 1, x.first + "_") == 0) return true; return false; };   // may be the name chosen for another
    for (auto& x : byName) if (x.second.size() == 1 && !numbered(x.first)) { consts.push_back(make_pair(x.first, x.second[0])); want += to_string(x.second[0]) + "\n"; } else c.label("constants with one name");
    for (auto& t : texts) in_memory(md, *b, t.first, starts.size(), want, yes, no);
    // generate, compile and run
    string dir = VP_STR(scratch << "/g" << getpid()); mkdir(dir.c_str(), 0700);
    struct cleanup { string d; ~cleanup() { run("rm -rf -- '" + d + "'"); } } cl{ dir };
    wstring ns = c.s.chance(1, 3) ? L"" : c.s.chance(1, 2) ? L"space" : L"Name-space";
    { compiler::output_cplusplus out(b->cc, L"main.tp", b->lexer.get(), b->lang, b->lr.get(), L"gen", L"Lang", ns); out.compile(); }
    VP_CHECK(!b->st->exitCode, "errors while writing the parser:" << b->report());
    VP_CHECK(b->st->written.count(L"gen.cpp") && b->st->written.count(L"gen.h"), "the files were not written");
    spit(dir + "/gen.cpp", b->st->written[L"gen.cpp"]->str()); spit(dir + "/gen.h", b->st->written[L"gen.h"]->str()); spit(dir + "/texts", lines);
    string cls = (ns.empty() ? "" : ident(ns) + "::") + ident(L"Lang");
    spit(dir + "/one.cpp", "#include \"pch.h\"\n#include \"gen.cpp\"\n" + md.driver(cls, starts, consts));
    int r = run("cd '" + dir + "' && " + compiler_flags + "one.cpp '" + getenv("VP_LIB") + "' -o one >log 2>&1");
    VP_CHECK(r == 0, "the generated parser does not compile:\n" << slurp(dir + "/log").substr(0, 3000));
    r = run("cd '" + dir + "' && ulimit -t 20; ./one texts >out 2>err");
    string got = slurp(dir + "/out");
    if (got != want) {
        istringstream a(want), z(got); string x, y; int ln = 0, per = 1 + (int) starts.size();
        for (;;) { bool p = (bool) getline(a, x), q = (bool) getline(z, y); if (!p && !q) break; if (p != q || x != y) { int k = ln - (int) consts.size(); throw Fail{VP_STR((k < 0 ? "constant " + consts[ln].first : "text " + show(texts[min<size_t>(k / per, texts.size() - 1)].first) + (k % per ? " start symbol " + to_utf8(starts[k % per - 1]) : string(" lexer"))) << ": generated code says\n" << (q ? y : string("(nothing)")) << "\ninstead of\n" << (p ? x : string("(nothing)")) << "\n" << slurp(dir + "/err").substr(0, 500))}; } ++ln; }
    }
    VP_CHECK(r == 0, "the generated parser ended with status " << r << "\n" << slurp(dir + "/err").substr(0, 500));
    c.label("accepted", yes); c.label("rejected texts", no); if (md.clashes) c.label("field names that clash"); if (l.text.find("[=>") != string::npos) c.label("with guards");
    if (yes && no) c.nontrivial(l.text);
}

int main(int argc, char** argv) {
    prepare = prepare_pch;
    vector<Facet> f = {
        { "equal", f_equal, 330, 5200, "random languages (literals, regular expressions, keywords, weak and case insensitive symbols, EBNF, guards, names of items, awkward names) are written out as C++, compiled and run on random texts; tokens, acceptance, where a text fails, trees read through the generated classes, positions and constants are compared with the language run from memory; non-trivial: a text is accepted and one is rejected", 60 },
    };
    return run_main(argc, argv, "C21", f, { "the C++ compiler is g++ in its GNU++17 mode" });
}

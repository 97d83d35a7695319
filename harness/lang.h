// Compiles definition-language text in memory with the library under test

#ifndef LANG_H
#define LANG_H

#include <functional>
#include <memory>
#include <sstream>
#include "lr_lib.h"
#include "TameParse/Compiler/console.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Compiler/import_stage.h"
#include "TameParse/Compiler/language_builder_stage.h"
#include "TameParse/Compiler/language_stage.h"
#include "TameParse/Compiler/lexer_stage.h"
#include "TameParse/Compiler/lr_parser_stage.h"
#include "TameParse/Compiler/test_stage.h"
#include "TameParse/Util/stringreader.h"

namespace vp {

struct lang_error { int sev; std::string id, text, file; int line, col, offset; };

struct console_state {
    std::map<std::wstring, std::string> files;
    std::map<std::wstring, std::wstring> options;
    std::map<std::wstring, std::shared_ptr<std::ostringstream> > written;
    std::vector<lang_error> errors;
    std::wostringstream messages, verbose;
    std::wstring input;
    int exitCode;
    console_state() : exitCode(0) { }
};

/// A console that keeps everything in memory. Copies share what has been reported.
class mem_console : public compiler::console {
public:
    std::shared_ptr<console_state> st;
    explicit mem_console(const std::shared_ptr<console_state>& s) : st(s) { }
    virtual compiler::console* clone() const { return new mem_console(st); }
    virtual void report_error(const compiler::error& e) {
        lang_error x; x.sev = e.sev(); x.id = to_utf8(e.identifier()); x.text = to_utf8(e.description()); x.file = to_utf8(e.filename()); x.line = e.pos().line(); x.col = e.pos().column(); x.offset = e.pos().offset();
        st->errors.push_back(x);
        if (e.sev() >= compiler::error::sev_error) st->exitCode = e.sev();
    }
    virtual int exit_code() { return st->exitCode; }
    virtual std::wostream& message_stream() { return st->messages; }
    virtual std::wostream& verbose_stream() { return st->verbose; }
    virtual std::wstring get_option(const std::wstring& n) const { auto f = st->options.find(n); return f == st->options.end() ? std::wstring() : f->second; }
    virtual const std::wstring& input_file() const { return st->input; }
    virtual std::string convert_filename(const std::wstring& f) { return to_utf8(f); }
    virtual std::istream* open_file(const std::wstring& f) { auto x = st->files.find(f); return x == st->files.end() ? NULL : new std::istringstream(x->second); }
    virtual std::ostream* open_binary_file_for_writing(const std::wstring& f) { std::shared_ptr<std::ostringstream> o(new std::ostringstream()); st->written[f] = o; return new std::ostream(o->rdbuf()); }
};

struct lang_build {
    std::shared_ptr<console_state> st;
    std::unique_ptr<mem_console> cons;
    compiler::console_container cc;
    std::unique_ptr<compiler::parser_stage> parser;
    std::unique_ptr<compiler::import_stage> import;
    std::unique_ptr<compiler::language_builder_stage> builder;
    compiler::language_stage* lang;
    std::unique_ptr<compiler::lexer_stage> lexer;
    std::unique_ptr<compiler::lr_parser_stage> lr;

    explicit lang_build(const std::string& text, const std::wstring& file = L"main.tp") : st(new console_state()), cons(new mem_console(st)), cc(cons.get(), false), lang(NULL) {
        st->files[file] = text; st->input = file;
    }
    /// Each step is taken only if the ones before it succeeded
    bool parse() { parser.reset(new compiler::parser_stage(cc, st->input)); parser->compile(); return !st->exitCode; }
    bool imports() {
        if (!parser && !parse()) return false;
        if (st->exitCode) return false;
        if (!parser->definition_file().item()) return false;
        import.reset(new compiler::import_stage(cc, st->input, parser->definition_file())); import->compile(); return !st->exitCode;
    }
    bool languages(const std::wstring& name) {
        if (!import && !imports()) return false;
        if (st->exitCode) return false;
        builder.reset(new compiler::language_builder_stage(cc, st->input, import.get())); builder->compile();
        if (st->exitCode) return false;
        lang = builder->language_with_name(name);
        return lang != NULL;
    }
    bool lex(const std::wstring& name) {
        if (!lang && !languages(name)) return false;
        lexer.reset(new compiler::lexer_stage(cc, import->file_with_language(name), lang)); lexer->compile();
        return !st->exitCode;
    }
    bool tables(const std::wstring& name, const std::vector<std::wstring>& starts) {
        if (!lexer && !lex(name)) return false;
        lr.reset(new compiler::lr_parser_stage(cc, import->file_with_language(name), lang, lexer.get(), starts)); lr->compile();
        return lr->get_tables() != NULL && !st->exitCode;
    }
    int count(const std::string& id) const { int n = 0; for (auto& e : st->errors) if (e.id == id) ++n; return n; }
    std::string report(int from = compiler::error::sev_warning) const { std::string o; for (auto& e : st->errors) if (e.sev >= from) o += "\n  " + e.id + " " + VP_STR(e.line + 1 << ":" << e.col + 1) + " " + e.text; return o.empty() ? " (none)" : o; }
};

/// Reads text through the lexer of a language
class text_actions {
public:
    typedef std::vector<pnode_p> reduce_list;
    text_actions(dfa::lexeme_stream* s) : m_Stream(s), m_Next(0) { }
    ~text_actions() { delete m_Stream; }
    dfa::lexeme* read() { dfa::lexeme* l = NULL; (*m_Stream) >> l; return l; }
    pnode_p shift(const dfa::lexeme_container& l) { pnode_p n(new pnode()); n->term = true; n->id = l->matched(); n->token = l->pos().offset(); n->rule = -1; n->lookOffset = (int) l->content().size(); return n; }
    pnode_p reduce(int nt, int rule, const std::vector<pnode_p>& items, const dfa::position& look) {
        pnode_p n(new pnode()); n->term = false; n->id = nt; n->rule = rule; n->token = -1; n->kids.assign(items.rbegin(), items.rend()); n->lookOffset = look.offset();
        return n;
    }
private:
    dfa::lexeme_stream* m_Stream; int m_Next;
};
typedef lr::parser<pnode_p, text_actions> text_parser;

// ---------------------------------------------------------------- grammars as definition-language text

/// As the front end sees it: groups of one alternative are just brackets, alternatives are right-nested pairs
inline rg::Rule front(const rg::Rule& r);
inline rg::It front_alt(const std::vector<rg::Rule>& rs, size_t from) {
    rg::It i(rg::ALT); i.r.push_back(rs[from]);
    if (from + 2 == rs.size()) i.r.push_back(rs[from + 1]); else i.r.push_back(rg::Rule(1, front_alt(rs, from + 1)));
    return i;
}
inline rg::Rule front(const rg::Rule& r) {
    rg::Rule o;
    for (auto& i : r) {
        if (i.k == rg::ALT) {
            std::vector<rg::Rule> rs; for (auto& x : i.r) rs.push_back(front(x));
            if (rs.size() == 1) o.insert(o.end(), rs[0].begin(), rs[0].end()); else o.push_back(front_alt(rs, 0));
        } else { rg::It n = i; for (auto& x : n.r) x = front(x); o.push_back(n); }
    }
    return o;
}
inline rg::Gram front(const rg::Gram& g) { rg::Gram o = g; for (auto& n : o.nt) for (auto& r : n) r = front(r); return o; }

/// Links a language compiled from text with the grammar it was written from
struct lang_map {
    contextfree::grammar& gram;
    const rg::Gram& g;
    std::vector<int> termId, ntId;
    std::map<int,int> termOf, symOf;                        // symbol of the language -> symbol of the reference

    lang_map(lang_build& b, const rg::Gram& src, const std::vector<std::wstring>& termNames, const std::vector<std::wstring>& ntNames) : gram(*b.lang->grammar()), g(src) {
        for (int t = 0; t < g.nT; ++t) { int id = b.lang->terminals()->symbol_for_name(termNames[t]); termId.push_back(id); if (id >= 0) termOf[id] = t; }
        for (size_t i = 0; i < g.nt.size(); ++i) ntId.push_back(gram.id_for_nonterminal(ntNames[i]));
    }
    void fill(contextfree::rule& r, const rg::Rule& from) { for (auto& x : from) r << item(x); }
    contextfree::item_container item(const rg::It& i) {
        using namespace contextfree;
        switch (i.k) {
            case rg::T: return item_container(new terminal(termId[i.id]), true);
            case rg::N: return item_container(new nonterminal(ntId[i.id]), true);
            case rg::OPT: { ebnf_optional* e = new ebnf_optional(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            case rg::REP: { ebnf_repeating* e = new ebnf_repeating(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            case rg::REP0: { ebnf_repeating_optional* e = new ebnf_repeating_optional(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            case rg::GUARD: { guard* e = new guard(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            default: {
                ebnf_alternate* e = new ebnf_alternate(); fill(*e->get_rule(), i.r[0]);
                for (size_t k = 1; k < i.r.size(); ++k) { rule_container rc = e->add_rule(); fill(*rc, i.r[k]); }
                return item_container(e, true);
            }
        }
    }
    void symbols(const rg::Low& low) { for (int s = low.nT; s < low.nSym; ++s) symOf[gram.identifier_for_item(item(low.items[s - low.nT]))] = s; }
    /// The production of the reference grammar that a node of the tree uses; throws Fail if it uses none
    int prod(const pnode_p& n, const rg::Low& low) const {
        auto sym = [&](const pnode_p& k) -> int { if (!k) throw Fail{"missing node in the parse tree"}; auto& m = k->term ? termOf : symOf; auto f = m.find(k->id); if (f == m.end()) throw Fail{VP_STR("unknown symbol " << k->id << " in the parse tree")}; return f->second; };
        std::vector<int> rhs; for (auto& k : n->kids) rhs.push_back(sym(k));
        int lhs = sym(n);
        for (int p : low.by[lhs]) if (low.prods[p].rhs == rhs) return p;
        throw Fail{"reduction that is not a rule of the grammar: " + low.show(rg::Prod{lhs, rhs})};
    }
    /// The reductions of a tree in the order they happened, and the tokens it covers
    void walk(const pnode_p& n, const rg::Low& low, std::vector<int>& reds, std::vector<int>& toks) const {
        if (n->term) { auto f = termOf.find(n->id); if (f == termOf.end()) throw Fail{VP_STR("unknown token " << n->id << " in the parse tree")}; toks.push_back(f->second); return; }
        for (auto& k : n->kids) { if (!k) throw Fail{"missing node in the parse tree"}; walk(k, low, reds, toks); }
        reds.push_back(prod(n, low));
    }
    std::vector<int> tokens(const std::vector<int>& in) const { std::vector<int> o; for (int t : in) o.push_back(termId[t]); return o; }
};

}

#endif

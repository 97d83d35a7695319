// Compares a compiled language with what it means

#ifndef LANGCHECK_H
#define LANGCHECK_H

#include "langmodel.h"

namespace vp { namespace lm {

struct stats { int texts, accepted, lexemes, asWeak, asStrong, ignored, usedIgnored, rejected; stats() : texts(0), accepted(0), lexemes(0), asWeak(0), asStrong(0), ignored(0), usedIgnored(0), rejected(0) { } };

/// Records what the parser shifts
struct shifts { std::vector<std::pair<int, int> > got; std::vector<size_t> len; };
class record_actions {
public:
    typedef std::vector<int> reduce_list;
    record_actions(dfa::lexeme_stream* s, shifts* o) : m_Stream(s), m_Out(o) { }
    ~record_actions() { delete m_Stream; }
    dfa::lexeme* read() { dfa::lexeme* l = NULL; (*m_Stream) >> l; return l; }
    int shift(const dfa::lexeme_container& l) { m_Out->got.push_back(std::make_pair(l->matched(), l->pos().offset())); m_Out->len.push_back(l->content().size()); return 0; }
    int reduce(int, int, const std::vector<int>&, const dfa::position&) { return 0; }
private:
    dfa::lexeme_stream* m_Stream; shifts* m_Out;
};
typedef lr::parser<int, record_actions> record_parser;

/// A language that cannot be judged is discarded
struct judge {
    const flat& f; automaton a; std::set<std::string> used; std::set<int> split;
    explicit judge(const flat& fl) : f(fl), a(fl), used(fl.used()), split(a.split()) {
        if (a.W[0] >= 0) throw Discard();                                           // a symbol that matches nothing at all
        // ignored symbols that the grammar does not use are one symbol: which of them wins over one that is used is not specified
        for (size_t i = 0; i < a.W.size(); ++i) {
            bool plain = false, wanted = false; for (int x : a.syms[i]) if (f.syms[x].type == b_ign) { if (f.everUsed.count(f.syms[x].name)) wanted = true; if (!used.count(f.syms[x].name)) plain = true; }
            if (plain && wanted && (f.syms[a.W[i]].type == b_ign || (a.S[i] >= 0 && f.syms[a.S[i]].type == b_ign))) throw Discard();
        }
    }
    bool bland(int x) const { return f.syms[x].type == b_ign && !used.count(f.syms[x].name); }
};

inline std::string sample(Src& s, const automaton& a, int want) {
    std::vector<int> in; for (size_t i = 0; i < a.W.size(); ++i) if (a.W[i] == want || a.S[i] == want) in.push_back((int) i);
    if (in.empty()) return "";
    std::string t = a.example[in[s.below((uint32_t) in.size())]];
    // other texts that lead to the same place
    if (s.chance(1, 2)) {
        std::string u; int st = 0; for (int i = 0; i < 12; ++i) { if (a.next[st].empty()) break; auto x = a.next[st].begin(); std::advance(x, s.below((uint32_t) a.next[st].size())); u += x->first; st = x->second; if ((a.W[st] == want || a.S[st] == want) && s.chance(1, 2)) return u; }
    }
    return t;
}

inline void check_language(Ctx& c, lang_build& b, const std::string& name, const judge& j, int texts, stats& st) {
    const flat& f = j.f; const automaton& a = j.a;
    compiler::language_stage* lang = b.builder->language_with_name(widen(name));
    VP_CHECK(lang != NULL, "language " << name << " is missing");
    std::wstring file = b.import->file_with_language(widen(name));
    size_t before = b.st->errors.size();
    compiler::lexer_stage lexer(b.cc, file, lang); lexer.compile();
    VP_CHECK(b.st->exitCode == 0, "the lexer of " << name << " does not compile:" << b.report());
    // the warnings
    std::set<std::string> never, wantNever, winners; for (size_t i = 0; i < a.W.size(); ++i) if (a.W[i] >= 0) winners.insert(f.syms[a.W[i]].name);
    for (auto& s : f.syms) if (s.type != b_ign && !winners.count(s.name)) wantNever.insert(s.name);
    std::string sub;
    for (size_t i = before; i < b.st->errors.size(); ++i) {
        const lang_error& e = b.st->errors[i];
        if (e.id == "SYMBOL_CANNOT_BE_GENERATED") { sub = e.text.substr(e.text.rfind(": ") + 2); never.insert(sub); }
        else if (e.id == "SYMBOL_CLASHES_WITH") {
            std::string with = e.text.substr(e.text.rfind(": ") + 2); bool both = false;
            for (auto& x : a.syms) { bool p = false, q = false; for (int y : x) { if (f.syms[y].name == sub) p = true; if (f.syms[y].name == with || (f.syms[y].type == b_ign)) q = true; } if (p && q) both = true; }
            VP_CHECK(both, name << ": no text matches both " << sub << " and " << with << ", which are said to clash");
        } else VP_CHECK(e.sev < compiler::error::sev_warning, name << ": unexpected report " << e.id << " " << e.text);
    }
    for (auto& x : wantNever) VP_CHECK(never.count(x), name << ": nothing says that '" << x << "' can never be generated");
    for (auto& x : never) VP_CHECK(wantNever.count(x), name << ": '" << x << "' can be generated, but a warning says that it cannot");
    before = b.st->errors.size();
    lang->report_unused_symbols();
    std::set<std::string> unused;
    for (size_t i = before; i < b.st->errors.size(); ++i) { const lang_error& e = b.st->errors[i]; VP_CHECK(e.id == "UNUSED_TERMINAL_SYMBOL", name << ": unexpected report " << e.id << " " << e.text); unused.insert(e.text.substr(e.text.rfind(": ") + 2)); }
    for (auto& s : f.syms) {
        if (j.used.count(s.name)) VP_CHECK(!unused.count(s.name), name << ": '" << s.name << "' is used, but a warning says that it is not");
        else if (s.type != b_ign && !f.everUsed.count(s.name)) VP_CHECK(unused.count(s.name), name << ": nothing says that '" << s.name << "' is not used");
    }
    // the symbols
    std::map<int, int> symOf; for (size_t i = 0; i < f.syms.size(); ++i) { int id = lang->terminals()->symbol_for_name(widen(f.syms[i].name)); VP_CHECK(id >= 0, name << ": there is no symbol '" << f.syms[i].name << "'"); symOf[id] = (int) i; }
    std::vector<std::wstring> starts; std::unique_ptr<compiler::lr_parser_stage> lr;
    if (f.nts.count("Top")) {
        starts.push_back(L"<Top>");
        before = b.st->errors.size();
        lr.reset(new compiler::lr_parser_stage(b.cc, file, lang, &lexer, starts)); lr->compile();
        for (size_t i = before; i < b.st->errors.size(); ++i) VP_CHECK(b.st->errors[i].sev < compiler::error::sev_warning, name << ": the parser: " << b.st->errors[i].id << " " << b.st->errors[i].text);
        VP_CHECK(lr->get_tables() != NULL, name << ": no parser");
    }
    std::unique_ptr<record_parser> parser(lr ? new record_parser(*lr->get_tables()) : NULL);
    std::vector<int> ign; for (size_t i = 0; i < f.syms.size(); ++i) if (f.syms[i].type == b_ign) ign.push_back((int) i);
    std::string noise; for (size_t i = 0; i < a.next.size(); ++i) for (auto& x : a.next[i]) if (noise.find(x.first) == std::string::npos) noise += x.first; std::sort(noise.begin(), noise.end());
    for (int t = 0; t < texts; ++t) {
        // a text that mostly follows the grammar
        std::string in; ll p(f, "S");
        int steps = c.s.below(10); int wrong = c.s.below(3);
        for (int i = 0; i < steps; ++i) {
            std::vector<std::string> ex = p.expected(); int k = c.s.weighted({ 12, ign.empty() ? 0 : 4, wrong ? 1 : 0, wrong ? 1 : 0 });
            if (k == 1) { in += sample(c.s, a, ign[c.s.below((uint32_t) ign.size())]); continue; }
            if (k == 2) { in += sample(c.s, a, c.s.below((uint32_t) f.syms.size())); continue; }
            if (k == 3) { if (!noise.empty()) in += noise[c.s.below((uint32_t) noise.size())]; if (c.s.chance(1, 8)) in += '#'; continue; }
            if (ex.empty()) break;
            std::string x = c.s.pick(ex); int id = -1; for (size_t q = 0; q < f.syms.size(); ++q) if (f.syms[q].name == x) id = (int) q;
            in += sample(c.s, a, id); p.shift(x);
            if (i + 1 == steps && !p.done() && steps < 25) ++steps;
        }
        if (in.size() > 200) continue;
        ++st.texts;
        int bad; std::vector<ltok> want = lex(a, in, bad); std::string say = name + " on " + vp::show(in) + ": ";
        // the lexer on its own
        {
            std::wistringstream ws(widen(in)); std::unique_ptr<dfa::lexeme_stream> ls(lexer.get_lexer()->create_stream_from(ws));
            for (size_t i = 0; ; ++i) {
                dfa::lexeme* l = NULL; (*ls) >> l; std::unique_ptr<dfa::lexeme> hold(l);
                if (i == want.size()) { if (bad < 0) VP_CHECK(!l, say << "there is a lexeme after the end of the text"); else VP_CHECK(!l || l->matched() < 0, say << "a lexeme at " << bad << ", where nothing matches"); break; }
                VP_CHECK(l, say << "the lexer stops at " << want[i].at << " instead of reading " << vp::show(want[i].text));
                VP_CHECK(l->pos().offset() == want[i].at, say << "a lexeme at " << l->pos().offset() << " instead of " << want[i].at);
                VP_CHECK(l->content().size() == want[i].text.size(), say << "the lexeme at " << want[i].at << " has " << l->content().size() << " characters instead of " << want[i].text.size());
                auto m = symOf.find(lang->terminals()->parent_of(l->matched())); VP_CHECK(m != symOf.end(), say << "an unknown symbol " << l->matched() << " at " << want[i].at);
                bool same = m->second == want[i].w || (j.bland(want[i].w) && f.syms[m->second].type == b_ign);
                VP_CHECK(same, say << vp::show(want[i].text) << " at " << want[i].at << " is read as " << f.syms[m->second].name << " instead of " << f.syms[want[i].w].name);
                ++st.lexemes;
            }
        }
        if (!parser) continue;
        // the reference parser
        ll q(f, "S"); std::vector<std::pair<int, int> > shifted; bool ok = true;
        for (auto& w : want) {
            if (q.can(f.syms[w.w].name)) { q.shift(f.syms[w.w].name); shifted.push_back(std::make_pair(w.w, w.at)); if (f.syms[w.w].weak && w.s >= 0) ++st.asWeak; if (f.syms[w.w].type == b_ign) ++st.usedIgnored; continue; }
            if (w.s >= 0 && w.s != w.w && q.can(f.syms[w.s].name)) { q.shift(f.syms[w.s].name); shifted.push_back(std::make_pair(w.s, w.at)); ++st.asStrong; continue; }
            if (f.syms[w.w].type == b_ign || (w.s >= 0 && f.syms[w.s].type == b_ign)) { ++st.ignored; continue; }
            ok = false; break;
        }
        if (bad >= 0) ok = false;
        if (ok && !q.done()) ok = false;
        std::wistringstream ws(widen(in)); shifts got;
        std::unique_ptr<record_parser::state> ps(parser->create_parser(new record_actions(lexer.get_lexer()->create_stream_from(ws), &got)));
        lr::parser_result::result r; int fuel = 100000;
        do r = ps->process(); while (r == lr::parser_result::more && --fuel > 0);
        VP_CHECK(fuel > 0, say << "the parser does not stop");
        bool accepted = r == lr::parser_result::accept;
        auto list = [&](const std::vector<std::pair<int, int> >& v, bool ids) { std::string o; for (auto& x : v) { int k = x.first; if (ids) { auto m = symOf.find(lang->terminals()->parent_of(k)); k = m == symOf.end() ? -1 : m->second; } o += (o.empty() ? "" : " ") + (k < 0 ? std::string("?") : f.syms[k].name) + "@" + std::to_string(x.second); } return o; };
        VP_CHECK(accepted == ok, say << (ok ? "rejected after shifting " : "accepted with ") << list(got.got, true) << " instead of " << (ok ? "accepting " : "rejecting it after ") << list(shifted, false));
        VP_CHECK(list(got.got, true) == list(shifted, false), say << "the symbols used are " << list(got.got, true) << " instead of " << list(shifted, false));
        if (ok) ++st.accepted; else ++st.rejected;
    }
}

inline std::wstring wide(const std::string& s) { return widen(s); }

/// A chain of languages, each inheriting from the one before, spread over files that import one another
struct chain {
    std::vector<lang_t> langs; std::map<std::string, std::string> files; std::string mainFile;
    std::vector<flat> flats;
    void make(Src& s, maker& m, int n, int nfiles) {
        flat base;
        for (int i = 0; i < n; ++i) {
            lang_t l; l.name = std::string(1, "PBXC"[i]) + "lang"; m.nlang = i; if (i) l.base = langs.back().name;
            l.file = nfiles <= 1 ? "main.tp" : "f" + std::to_string(s.below(nfiles)) + ".tp";
            m.fill(l, base); langs.push_back(l); base.apply(l);
        }
        mainFile = "main.tp";
    }
    void print(Src& s) {
        std::map<std::string, std::vector<int> > in; for (size_t i = 0; i < langs.size(); ++i) { std::vector<int>& v = in[langs[i].file]; v.insert(v.begin() + s.below((uint32_t) v.size() + 1), (int) i); }
        in[mainFile];
        std::vector<std::string> names; for (auto& x : in) names.push_back(x.first);
        // every file is imported by the main one or by one that comes before it; further imports may go anywhere
        std::map<std::string, std::set<std::string> > imp; std::vector<std::string> reach(1, mainFile);
        for (auto& x : names) if (x != mainFile) { imp[s.pick(reach)].insert(x); reach.push_back(x); }
        for (auto& x : names) for (auto& y : names) if (s.chance(1, 5)) imp[x].insert(y);
        for (auto& x : names) {
            printer p; std::vector<std::string> im(imp[x].begin(), imp[x].end()); bool late = s.chance(1, 4);
            if (!late) for (auto& y : im) p.put("import \"" + y + "\"");
            for (int i : in[x]) p.lang(langs[i]);
            if (late) for (auto& y : im) p.put("import \"" + y + "\"");
            files[x] = p.out;
        }
        flat f; flats.clear(); for (auto& l : langs) { flat g; if (!l.base.empty()) g = f; g.problems.clear(); g.implicits.clear(); g.apply(l); f = g; flats.push_back(g); }
    }
    std::string text() const { std::string o; for (auto& f : files) o += (files.size() > 1 ? "--- " + f.first + "\n" : "") + f.second; return o; }
    void put(lang_build& b) const { for (auto& f : files) b.st->files[widen(f.first)] = f.second; }
};

}}

#endif

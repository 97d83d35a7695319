// C17: a language that inherits from another is that language with the changes made to it, and nothing else changes.

#include "langcheck.h"

using namespace std;
using namespace vp;

static set<lm::problem> reported(lang_build& b, int from, const char* skip = NULL) {
    set<lm::problem> got; for (auto& e : b.st->errors) { if (e.sev < from || (skip && e.id == skip)) continue; got.insert(lm::problem{ e.id, e.file, e.line + 1 }); } return got;
}
static string show(const set<lm::problem>& p) { string o; for (auto& x : p) o += VP_STR(" " << x.id << "@" << x.file << ":" << x.line); return o.empty() ? " none" : o; }

static void f_inherit(Ctx& c) {
    lm::maker m(c.s); m.rich = false; lm::chain ch; int n = 2 + c.s.weighted({ 3, 2 });
    ch.make(c.s, m, n, 1 + c.s.below(4)); ch.print(c.s);
    c.note(ch.text());
    set<lm::problem> implicits;
    for (auto& f : ch.flats) { if (f.syms.empty() || !f.problems.empty()) throw Discard(); implicits.insert(f.implicits.begin(), f.implicits.end()); }
    vector<unique_ptr<lm::judge> > js; for (auto& f : ch.flats) js.push_back(unique_ptr<lm::judge>(new lm::judge(f)));
    lang_build b(ch.files[ch.mainFile]); ch.put(b);
    bool ok = b.languages(lm::wide(ch.langs.back().name));
    VP_CHECK(ok, "valid languages are rejected:" << b.report());
    set<lm::problem> got = reported(b, compiler::error::sev_warning);
    VP_CHECK(got == implicits, "the reports are" << show(got) << " instead of" << show(implicits));
    lm::stats st; vector<size_t> order; for (size_t i = 0; i < ch.langs.size(); ++i) order.insert(order.begin() + c.s.below((uint32_t) order.size() + 1), i);
    for (size_t i : order) lm::check_language(c, b, ch.langs[i].name, *js[i], i + 1 == ch.langs.size() ? 4 : 2, st);
    int adds = 0, reps = 0; for (auto& l : ch.langs) for (auto& k : l.blocks) { for (auto& i : k.items) { adds += i.op == 1; reps += i.op == 2; } for (auto& d : k.nts) { adds += d.op == 1; reps += d.op == 2; } }
    c.label("definitions added to", adds); c.label("definitions replaced", reps); c.label("accepted", st.accepted); c.label("rejected", st.rejected); c.label("lexemes", st.lexemes); c.label("weak symbols taken as themselves", st.asWeak); c.label("weak symbols taken as the strong one", st.asStrong); c.label("files", (int) ch.files.size());
    if (adds + reps && st.lexemes > 3 && st.accepted) c.nontrivial(ch.text());
}

/// Each start symbol that is not defined is reported, at the parser block if there is one, and there is no parser without a start symbol
static void check_starts(Ctx& c, lang_build& lb, const lm::chain& ch) {
    const lm::lang_t& l = ch.langs.back(); set<string> defined; for (auto& x : ch.flats.back().nts) defined.insert(x.first);
    vector<wstring> starts; multiset<string> wanted; int n = c.s.below(4), have = 0, line = 0; string block = string(c.s.below(3), '\n') + string(c.s.below(3), ' ') + "parser Prs : " + l.name + " {", all;
    for (int i = 0; i < n; ++i) {
        string x; if (c.s.chance(1, 2)) x = "Undefined" + to_string(c.s.below(2)); else x = c.s.chance(1, 2) ? "Top" : *next(defined.begin(), c.s.below((uint32_t) defined.size()));
        if (defined.count(x)) ++have; else wanted.insert(VP_STR("UNDEFINED_NONTERMINAL: Start symbol is not defined: <" << x << ">"));
        starts.push_back(lm::wide("<" + x + ">")); block += " <" + x + ">"; all += " <" + x + ">";
    }
    if (!have) wanted.insert("NO_START_SYMBOLS");
    bool asBlock = n && c.s.chance(1, 2); wstring file = lb.import->file_with_language(lm::wide(l.name));
    lb.lexer.reset(new compiler::lexer_stage(lb.cc, file, lb.lang)); lb.lexer->compile();
    if (lb.st->exitCode) return;
    size_t from = lb.st->errors.size(); unique_ptr<compiler::lr_parser_stage> lr; yy_language::language_parser p;
    if (asBlock) {
        block += " }"; VP_CHECK(p.parse(block), "a parser block is rejected: " << block); for (char ch : block) if (ch == '\n') ++line;
        lr.reset(new compiler::lr_parser_stage(lb.cc, file, lb.lang, lb.lexer.get(), const_cast<yy_language::parser_block*>((*p.file_definition()->begin())->parser())));
    } else lr.reset(new compiler::lr_parser_stage(lb.cc, file, lb.lang, lb.lexer.get(), starts));
    lr->compile();
    multiset<string> got;
    for (size_t i = from; i < lb.st->errors.size(); ++i) {
        const lang_error& e = lb.st->errors[i]; if (e.id != "UNDEFINED_NONTERMINAL" && e.id != "NO_START_SYMBOLS") continue;
        got.insert(e.id == "NO_START_SYMBOLS" ? e.id : e.id + ": " + e.text);
        VP_CHECK(e.sev == compiler::error::sev_error, e.id << " is not an error"); VP_CHECK(e.file == to_utf8(file), e.id << " is reported in " << e.file);
        VP_CHECK(e.line == (asBlock ? line : -1), "with the start symbols" << all << ": " << e.id << " is reported on line " << e.line + 1);
    }
    auto list = [](const multiset<string>& s) { string o; for (auto& x : s) o += "\n  " + x; return o.empty() ? string(" nothing") : o; };
    VP_CHECK(got == wanted, "with the start symbols" << (all.empty() ? " (none)" : all) << " the reports are" << list(got) << "\ninstead of" << list(wanted));
    VP_CHECK(wanted.empty() || lb.st->exitCode >= compiler::error::sev_error, "the exit status is " << lb.st->exitCode);
    if (!have) VP_CHECK(!lr->get_tables(), "there are tables without a start symbol");
    if (wanted.empty() && !lb.st->exitCode) VP_CHECK(lr->get_tables(), "there are no tables");
    c.label(wanted.empty() ? "start symbols defined" : have ? "start symbols partly defined" : "no start symbols");
}

/// One thing that is not allowed
static void f_errors(Ctx& c) {
    lm::maker m(c.s); m.rich = false; lm::chain ch; int n = 1 + c.s.weighted({ 1, 3, 2 });
    ch.make(c.s, m, n, 1 + c.s.below(3));
    size_t at = c.s.below((uint32_t) ch.langs.size()); lm::lang_t& l = ch.langs[at];
    lm::flat before; for (size_t i = 0; i <= at; ++i) before.apply(ch.langs[i]);
    if (!before.problems.empty()) throw Discard();
    int what = c.s.below(13); bool onlyContains = false; set<lm::problem> extra; string missingFile;
    auto some = [&](vector<string> v) -> string { if (v.empty()) throw Discard(); return c.s.pick(v); };
    vector<string> names; for (auto& x : before.syms) if (!x.implicit) names.push_back(x.name);
    vector<string> exprs; for (auto& x : before.exprs) exprs.push_back(x.first);
    vector<string> nts; for (auto& x : before.nts) if (x.first != "Top") nts.push_back(x.first);
    lm::block_t b; lm::litem it; it.d.kind = 1; it.d.lit = "zz"; lm::ntdef nd;
    switch (what) {
        case 0: b.type = c.s.below(3); it.name = some(names); b.items.push_back(it); break;                                 // defined twice
        case 1: b.type = lm::b_sym; it.name = some(exprs); b.items.push_back(it); break;
        case 2: b.type = c.s.below(4); it.name = "nothing"; it.op = 1; b.items.push_back(it); break;                          // adding to or replacing what is not there
        case 3: b.type = c.s.below(4); it.name = "nothing"; it.op = 2; b.items.push_back(it); break;
        case 4: {                                                                                                           // adding in another kind of block
            it.name = some(names); it.op = 1; b.type = (before.find(it.name)->type + 1 + c.s.below(2)) % 3;
            for (auto& w : ch.langs) for (auto& x : w.blocks) for (auto& y : x.items) if (x.type != lm::b_sym && y.name == it.name && (y.op || &w == &l)) throw Discard();      // the order of the blocks matters, and which kind it then is is not specified
            b.items.push_back(it); break;
        }
        case 5: { b.type = lm::b_gram; nd.name = some(nts); nd.alts.push_back(lm::alt_t(1, lm::gitem{ 1, "zz" })); b.nts.push_back(nd); break; }
        case 6: { b.type = lm::b_gram; nd.name = "Uses"; nd.alts.push_back({ lm::gitem{ 1, "zz" }, lm::gitem{ 2, "Missing" }, lm::gitem{ 1, "z" } }); b.nts.push_back(nd); break; }
        case 7: if (at) l.base = "Nolang"; else l.base = "Nolang"; onlyContains = true; break;
        case 8: break;                                                                                                      // the language is defined twice
        case 9: { lm::flat g; for (auto& x : ch.langs) { g.apply(x); lm::automaton size(g); }                                // those that are too large are discarded
            b.type = c.s.below(3); it.name = "zzz"; it.d.kind = 0; it.d.re = lm::mk(lm::r_cat, { lm::chr('z'), lm::mk(lm::r_ref) }); it.d.re->kids[1]->text = "undefined-one"; b.items.push_back(it); break; }
        case 10: break;                                                                                                     // a file that is not there
        case 11: l.base = ch.langs[at + c.s.below((uint32_t)(ch.langs.size() - at))].name; break;                                // a language that inherits from itself
        default: break;                                                                                                     // nothing wrong
    }
    if (b.type == lm::b_lex || b.type == lm::b_kw) { b.weak = c.s.chance(1, 3); if (what == 4) b.weak = before.find(it.name)->weak; }
    if (!b.items.empty() || !b.nts.empty()) l.blocks.push_back(b);                                                          // last: it is the new one that is reported
    if (what == 0) {
        for (auto& x : ch.langs) for (auto& y : x.blocks) for (auto& z : y.items) if (z.op && z.name == it.name) throw Discard();    // which of the two is changed is not specified
        // in a language where the other definition comes later in the order of processing, that one is the second
        for (size_t i = 0; i + 1 < l.blocks.size(); ++i) for (auto& y : l.blocks[i].items) if (l.blocks[i].type != lm::b_sym && y.name == it.name && y.op == 0) { l.blocks.back().type = l.blocks[i].type; l.blocks.back().weak = l.blocks[i].weak; }
    }
    ch.print(c.s);
    if (what == 8) { string& t = ch.files[c.s.chance(1, 2) ? ch.mainFile : l.file]; t += "language " + l.name + " { lexer { zz = /z/ } }\n"; onlyContains = true; }
    if (what == 10) { string& t = ch.files[c.s.chance(1, 2) ? ch.mainFile : l.file]; t = "import \"missing.tp\"\n" + t; }
    string all; for (auto& f : ch.files) all += "--- " + f.first + "\n" + f.second; c.note(VP_STR("mistake " << what << " in " << l.name)); c.note(all);
    // what has to be reported; a language that is not there takes what depends on it with it
    set<lm::problem> want; for (auto& f : ch.flats) for (auto& p : f.problems) want.insert(p);
    if (what == 7) { want.clear(); want.insert(lm::problem{ "CANT_FIND_LANGUAGE", l.file, l.line }); }
    lang_build lb(ch.files[ch.mainFile]); ch.put(lb);
    bool ok = lb.languages(lm::wide(ch.langs.back().name));
    set<lm::problem> got = reported(lb, compiler::error::sev_error);
    auto has = [&](const char* id) { for (auto& p : got) if (p.id == id) return true; return false; };
    if (what == 8) { VP_CHECK(!ok && has("AMBIGUOUS_LANGUAGE_DEFINITION"), "a language is defined twice, reports:" << show(got)); c.label("mistake 8"); c.nontrivial(all); return; }
    if (what == 11) { VP_CHECK(!ok && has("INHERITANCE_LOOP"), "a language inherits from itself, reports:" << show(got)); c.label("mistake 11"); c.nontrivial(all); return; }
    if (what == 10) { VP_CHECK(!ok && has("CANT_OPEN_FILE"), "a file is missing, reports:" << show(got)); for (auto& p : got) VP_CHECK(p.id == "CANT_OPEN_FILE", "a file is missing, reports:" << show(got)); c.label("mistake 10"); c.nontrivial(all); return; }
    if (what == 9) {
        VP_CHECK(ok && got.empty(), "reports before the lexer is made:" << show(got));
        for (auto& x : ch.langs) {
            size_t from = lb.st->errors.size(); compiler::lexer_stage ls(lb.cc, lb.import->file_with_language(lm::wide(x.name)), lb.builder->language_with_name(lm::wide(x.name))); ls.compile();
            bool bad = false; for (size_t i = from; i < lb.st->errors.size(); ++i) if (lb.st->errors[i].id == "BAD_REGULAR_EXPRESSION") { bad = true; VP_CHECK(lb.st->errors[i].file == l.file && lb.st->errors[i].line + 1 == l.blocks.back().items[0].line, "the bad regular expression is reported at " << lb.st->errors[i].file << ":" << lb.st->errors[i].line + 1); }
            bool inherits = x.name >= "" && (&x - &ch.langs[0]) >= (ptrdiff_t) at; VP_CHECK(bad == inherits, x.name << (bad ? ": a bad regular expression is reported" : ": a bad regular expression is not reported"));
        }
        c.label("mistake 9"); c.nontrivial(all); return;
    }
    VP_CHECK(ok == want.empty(), (ok ? "a file with mistakes is accepted, expected:" : "a file is rejected:") << (ok ? show(want) : lb.report()));
    for (auto& p : want) VP_CHECK(got.count(p), "the reports are" << show(got) << " instead of" << show(want));
    if (!onlyContains) VP_CHECK(got == want, "the reports are" << show(got) << " instead of" << show(want));
    if (ok) check_starts(c, lb, ch);
    c.label(VP_STR("mistake " << what)); if (!want.empty()) c.nontrivial(all);
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "inherit", f_inherit, 8000, 500000, "chains of two or three languages over one to four files that import one another (also in circles): new definitions, '|=' and 'replace' for lexer-symbols, lexemes of every kind and rules; every language of the chain is compared with an independent evaluation of its definitions: texts are lexed and parsed (symbols, positions, what is ignored, acceptance), warnings compared; non-trivial: something was added to or replaced and a text was accepted", 30 },
        { "errors", f_errors, 10000, 600000, "the same with one thing wrong (symbol, rule or language defined twice, '|=' or 'replace' of something that is not there, '|=' in another kind of block, undefined rule, language, file or lexer-symbol) or nothing wrong: exactly the expected errors are reported, at the right file and line; non-trivial: there is a mistake", 30 },
    };
    return run_main(argc, argv, "C17", f, { "when several kinds of ignored symbol match the same text and the grammar uses some of them, which one wins is not judged" });
}

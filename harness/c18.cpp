// C18: a language reads text as its lexer blocks and its grammar say.

#include "langcheck.h"

using namespace std;
using namespace vp;

static void run(Ctx& c, int n) {
    lm::maker m(c.s); lm::chain ch; ch.make(c.s, m, 1, 1); ch.print(c.s);
    c.note(ch.text());
    lm::flat& f = ch.flats[0];
    if (f.syms.empty()) throw Discard();
    if (!f.problems.empty()) throw Discard();
    lm::judge j(f);
    if (!j.split.empty()) c.label("weak symbol with several strong equivalents");
    lang_build b(ch.text()); 
    bool ok = b.languages(L"Plang");
    VP_CHECK(ok, "a valid language is rejected:" << b.report());
    set<lm::problem> got; for (auto& e : b.st->errors) { if (e.sev < compiler::error::sev_warning) continue; VP_CHECK(e.id == "IMPLICIT_LEXER_SYMBOL", "unexpected report" << b.report()); got.insert(lm::problem{ e.id, e.file, e.line + 1 }); }
    VP_CHECK(got == f.implicits, "the warnings about symbols that are not declared are not those expected:" << b.report());
    lm::stats st; lm::check_language(c, b, "Plang", j, n, st);
    c.label("accepted", st.accepted); c.label("rejected", st.rejected); c.label("lexemes", st.lexemes); c.label("weak symbols taken as themselves", st.asWeak); c.label("weak symbols taken as the strong one", st.asStrong); c.label("ignored", st.ignored); c.label("ignored symbols used in the grammar", st.usedIgnored);
    bool clash = false; for (size_t i = 0; i < j.a.W.size(); ++i) if (j.a.syms[i].size() > 1) clash = true;
    if (clash && st.lexemes > 3 && st.accepted) c.nontrivial(ch.text());
}
static void f_language(Ctx& c) { run(c, 6); }

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "language", f_language, 30000, 1000000, "random languages (keywords, lexer and ignore blocks, weak and case insensitive ones, lexer-symbols, literals and undeclared names in a deterministic grammar); the automaton of all the definitions is built independently, and texts are read by the lexer and the parser and compared with it (symbol, position and length of every lexeme, what the parser uses it as, what is ignored, acceptance), as are the warnings about symbols that can never be produced, are unused or are not declared; non-trivial: two symbols match the same text and a text was accepted", 30 },
    };
    return run_main(argc, argv, "C18", f, { });
}

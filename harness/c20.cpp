// C20: test blocks pass and fail exactly as the language says, and say so.

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "langcheck.h"

using namespace std;
using namespace vp;

/// What has to happen when a text is parsed as a nonterminal: where it stops (-1 at the end), or accepted
struct verdict { bool ok; int at; };

static verdict decide(const lm::judge& j, const string& start, const string& in) {
    const lm::flat& f = j.f; int bad; vector<lm::ltok> want = lm::lex(j.a, in, bad);
    lm::ll q(f, "S"); bool once = start != "Top", begun = !once;
    auto can = [&](const string& t) -> bool {
        if (begun) return once && q.done() ? false : q.can(t);
        for (auto& a : f.nts.find(start)->second) if (lm::sym_of(a[0]) == t) return true;
        return false;
    };
    auto shift = [&](const string& t) {
        if (begun) { q.shift(t); return; }
        for (auto& a : f.nts.find(start)->second) if (lm::sym_of(a[0]) == t) { q.st.clear(); q.st.push_back(lm::ll::place{ &q.root, 0 }); q.st.push_back(lm::ll::place{ &a, 1 }); q.pop(); break; }
        begun = true;
    };
    for (auto& w : want) {
        if (can(f.syms[w.w].name)) { shift(f.syms[w.w].name); continue; }
        if (w.s >= 0 && w.s != w.w && can(f.syms[w.s].name)) { shift(f.syms[w.s].name); continue; }
        if (f.syms[w.w].type == lm::b_ign || (w.s >= 0 && f.syms[w.s].type == lm::b_ign)) continue;
        return verdict{ false, w.at };
    }
    if (bad >= 0) return verdict{ false, bad };
    if (!begun || !q.done()) return verdict{ false, -1 };
    return verdict{ true, -1 };
}

/// A text that mostly can be the nonterminal
static string text_for(Src& s, const lm::judge& j, const string& start, const string& noise) {
    const lm::flat& f = j.f; string in; vector<int> ign; for (size_t i = 0; i < f.syms.size(); ++i) if (f.syms[i].type == lm::b_ign) ign.push_back((int) i);
    auto put = [&](const string& x) { for (size_t q = 0; q < f.syms.size(); ++q) if (f.syms[q].name == x) in += sample(s, j.a, (int) q); };
    lm::ll q(f, "S"); int steps = s.below(8), wrong = s.weighted({ 2, 1 });
    if (start != "Top") {
        auto& alts = f.nts.find(start)->second; const lm::alt_t& a = s.pick(alts);
        if (!s.chance(1, 10)) put(lm::sym_of(a[0])); q.st.push_back(lm::ll::place{ &a, 1 }); q.pop(); steps += 2;
    }
    for (int i = 0; i < steps; ++i) {
        if (start != "Top" && q.done() && !s.chance(1, 12)) break;
        int k = s.weighted({ 12, ign.empty() ? 0 : 3, wrong ? 1 : 0, wrong ? 1 : 0 });
        if (k == 1) { in += sample(s, j.a, ign[s.below((uint32_t) ign.size())]); continue; }
        if (k == 2) { in += sample(s, j.a, s.below((uint32_t) f.syms.size())); continue; }
        if (k == 3) { if (!noise.empty()) in += noise[s.below((uint32_t) noise.size())]; if (s.chance(1, 8)) in += "#\n"[s.below(2)]; continue; }
        vector<string> ex = q.expected(); if (ex.empty()) break;
        string x = s.pick(ex); put(x); q.shift(x);
        if (i + 1 == steps && !q.done() && steps < 25) ++steps;
    }
    return in.size() > 120 ? in.substr(0, 120) : in;
}

static string quoted(Src& s, const string& t, bool& plain) {
    string o = "\""; plain = true; bool fancy = s.chance(1, 4);
    for (char c : t) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; plain = false; }
        else if (c == '\n') { o += "\\n"; plain = false; }
        else if (fancy && !isalnum((unsigned char) c) && s.chance(1, 2)) { o += '\\'; o += c; plain = false; }
        else o += c;
    }
    return o + "\"";
}

struct one { string name, text, file; int type; bool plain, missing, undefinedNt; verdict want; int line, col, endLine, endCol; };
struct tblock { string lang; bool known; int index, line; vector<one> tests; };

static void f_tests(Ctx& c) {
    lm::maker m(c.s); m.rich = false; lm::chain ch; ch.make(c.s, m, 1 + c.s.below(2), 1 + c.s.below(2)); ch.print(c.s);
    vector<unique_ptr<lm::judge> > js; for (auto& f : ch.flats) { if (f.syms.empty() || !f.problems.empty()) throw Discard(); js.push_back(unique_ptr<lm::judge>(new lm::judge(f))); }
    vector<string> noise; for (auto& j : js) { string n; for (auto& x : j->a.next) for (auto& y : x) if (n.find(y.first) == string::npos) n += y.first; sort(n.begin(), n.end()); noise.push_back(n); }
    vector<tblock> blocks; int nb = c.s.weighted({ 1, 5, 3, 1 }); string out; map<string, string> files = ch.files; int fileNo = 0;
    string& main = files[ch.mainFile]; bool first = c.s.chance(1, 4); string before = first ? "" : main;
    // names that nearly fill the column they are shown in (longer ones are a known finding)
    auto ident = [&](size_t lang) -> string { static const char* n[] = { "t", "works", "fails", "a-name", "S", "Top" }; string o = n[c.s.below(6)]; if (c.s.chance(1, 8)) { size_t k = 30 + c.s.below(20); while (o.size() < k && o.size() + lang + 5 < 54) o += "x"; } return o; };
    int line = 1, col = 1; for (char x : before) { if (x == '\n') { ++line; col = 1; } else ++col; }
    auto put = [&](const string& t) { out += t; for (char x : t) { if (x == '\n') { ++line; col = 1; } else ++col; } };
    auto gap = [&]() { static const char* g[] = { " ", "\n", "  ", "\n    ", " /* c */ ", " // \"x\"\n" }; put(g[c.s.below(6)]); };
    for (int b = 0; b < nb; ++b) {
        tblock t; t.index = c.s.below((uint32_t) ch.langs.size()); t.lang = ch.langs[t.index].name; t.known = !c.s.chance(1, 20); if (!t.known) t.lang = "Nolang";
        const lm::flat& f = ch.flats[t.index]; vector<string> nts; for (auto& x : f.nts) if (!x.second.empty()) { nts.push_back(x.first); if (x.first == "S") nts.push_back("Top"); }
        t.line = line; put("test " + t.lang + " {"); gap();
        int nd = nts.empty() ? 0 : c.s.weighted({ 1, 4, 4, 2 });
        for (int d = 0; d < nd; ++d) {
            string nt = c.s.pick(nts); const bool undefinedNt = false;       // a known finding
            int type = c.s.weighted({ 5, 3, 2 }); put("<" + nt + ">"); gap(); put(type == 0 ? "=" : type == 1 ? "!=" : "from"); gap();
            int ns = 1 + c.s.below(3);
            for (int k = 0; k < ns; ++k) {
                one o; o.type = type; o.undefinedNt = undefinedNt; o.missing = false; o.plain = false; o.name = "<" + nt + ">"; o.want = verdict{ false, -1 };
                if (!undefinedNt) { o.text = text_for(c.s, *js[t.index], nt, noise[t.index]); o.want = decide(*js[t.index], nt, o.text); if (type == 1 && o.want.ok && c.s.chance(2, 3)) { o.text += c.s.chance(1, 2) ? "#" : o.text; o.want = decide(*js[t.index], nt, o.text); } }
                bool named = c.s.chance(1, 2);
                if (named) { o.name = ident(t.lang.size()); put(o.name); gap(); put("("); gap(); }
                o.line = line; o.col = col;
                if (type == 2) { o.missing = c.s.chance(1, 25); o.file = "t" + to_string(fileNo++) + ".txt"; if (!o.missing) files[o.file] = o.text; put("\"" + o.file + "\""); }
                else put(quoted(c.s, o.text, o.plain));
                o.endLine = line; o.endCol = col;
                if (named) { gap(); put(")"); o.endLine = line; o.endCol = col; }
                gap(); t.tests.push_back(o);
            }
        }
        put("}\n"); blocks.push_back(t);
    }
    if (first) main = out + main; else main += out;
    for (auto& f : files) c.note("--- " + f.first + "\n" + f.second);
    lang_build b(main, widen(ch.mainFile)); for (auto& f : files) b.st->files[widen(f.first)] = f.second;
    VP_CHECK(b.imports(), "a valid file is rejected:" << b.report());
    compiler::test_stage tests(b.cc, b.st->input, b.parser->definition_file(), b.import.get());
    tests.compile();
    // what has to be reported
    struct rep { string id, file; int line, col; bool operator<(const rep& o) const { return tie(id, file, line, col) < tie(o.id, o.file, o.line, o.col); } };
    multiset<rep> want, got; bool failed = false; string lines, summary; int passes = 0, fails = 0; bool undefinedSeen = false, skipEmpty = false;
    for (auto& t : blocks) {
        if (!t.known) { want.insert(rep{ "CANT_FIND_LANGUAGE", ch.mainFile, t.line, 0 }); failed = true; continue; }
        int p = 0, q = 0; map<string, int> ids;
        for (auto& o : t.tests) {
            if (o.undefinedNt) { undefinedSeen = failed = true; if (o.type == 2 && o.missing) { } continue; }
            if (o.type == 2 && o.missing) { want.insert(rep{ "TEST_FILE_NOT_FOUND", o.file, -1, 0 }); failed = true; continue; }
            bool pass = o.want.ok != (o.type == 1); string full = t.lang + "." + o.name; full += "." + to_string(++ids[full]);
            lines += full + " " + (pass ? "ok" : "FAILED") + "\n"; (pass ? p : q)++;
            if (pass) continue;
            failed = true;
            int ln = 0, cl = 0; if (o.want.at >= 0) for (int i = 0; i < o.want.at; ++i) { if (o.text[i] == '\n') { ++ln; cl = 0; } else ++cl; }
            if (o.type == 2) want.insert(rep{ "TEST_SYNTAX_ERROR", o.file, o.want.at < 0 ? -1 : ln + 1, o.want.at < 0 ? 0 : cl + 1 });
            else {
                want.insert(rep{ "THIS_TEST_FAILED", ch.mainFile, o.line, o.col + 1 });
                if (o.type == 0) { if (o.want.at < 0) want.insert(rep{ "FAILURE_POSITION", ch.mainFile, o.endLine, 0 }); else if (o.plain) want.insert(rep{ "FAILURE_POSITION", ch.mainFile, o.line, o.col + 1 + cl }); else want.insert(rep{ "FAILURE_POSITION", ch.mainFile, ln ? -2 : o.line, 0 }); }
            }
        }
        if (q) want.insert(rep{ "TESTS_FAILED", ch.mainFile, t.line, 0 });
        if (!p && !q) { if (t.tests.empty()) want.insert(rep{ "NO_TESTS_TO_RUN", ch.mainFile, t.line, 0 }); else skipEmpty = true; }
        summary += t.lang + ": " + to_string(p) + "/" + to_string(p + q) + " passed\n"; passes += p; fails += q;
    }
    if (blocks.empty()) { want.insert(rep{ "NO_TEST_BLOCKS", ch.mainFile, -1, 0 }); failed = true; }
    bool undefinedReported = false; static const set<string> judged = { "CANT_FIND_LANGUAGE", "TEST_FILE_NOT_FOUND", "TEST_SYNTAX_ERROR", "THIS_TEST_FAILED", "FAILURE_POSITION", "TESTS_FAILED", "NO_TESTS_TO_RUN", "NO_TEST_BLOCKS" };
    for (auto& e : b.st->errors) {
        if (e.id == "UNDEFINED_NONTERMINAL") { undefinedReported = true; continue; }
        if (undefinedSeen && e.id == "NO_START_SYMBOLS") continue;
        if (!judged.count(e.id)) { VP_CHECK(e.sev < compiler::error::sev_error, "an unexpected error:" << b.report()); continue; }
        bool exact = e.id == "THIS_TEST_FAILED" || e.id == "TEST_SYNTAX_ERROR" || e.id == "FAILURE_POSITION";
        got.insert(rep{ e.id, e.file, e.line < 0 ? -1 : e.line + 1, exact && e.line >= 0 ? e.col + 1 : 0 });
    }
    auto show = [](const multiset<rep>& r) { string o; for (auto& x : r) o += VP_STR("\n  " << x.id << " " << x.file << ":" << x.line << ":" << x.col); return o.empty() ? string(" nothing") : o; };
    auto left = got; for (int pass = 0; pass < 2; ++pass) for (auto& w : want) {
        if ((w.col == 0) != (pass == 1)) continue;
        auto x = left.end(); for (auto i = left.begin(); i != left.end(); ++i) if (i->id == w.id && i->file == w.file && (i->line == w.line || w.line == -2) && (i->col == w.col || w.col == 0)) { x = i; break; }
        VP_CHECK(x != left.end(), "not reported: " << w.id << " at " << w.file << ":" << w.line << ":" << w.col << "; reported:" << show(got)); left.erase(x);
    }
    for (auto& x : left) VP_CHECK(skipEmpty && x.id == "NO_TESTS_TO_RUN", "reported, but it did not happen: " << x.id << " at " << x.file << ":" << x.line << ":" << x.col << "; expected:" << show(want));
    VP_CHECK(undefinedReported == undefinedSeen, (undefinedSeen ? "nothing says" : "it is said") << " that a nonterminal is not defined");
    VP_CHECK((b.st->exitCode != 0) == failed, "the exit code is " << b.st->exitCode << (failed ? ", though something failed" : ", though every test passed"));
    // the list of the tests that ran, and the counts
    string all = to_utf8(b.st->messages.str()) + "\n" + to_utf8(b.st->verbose.str()); multiset<string> wantLines, gotLines, wantSum, gotSum; string l;
    { istringstream s(lines); while (getline(s, l)) wantLines.insert(l); } { istringstream s(summary); while (getline(s, l)) wantSum.insert(l); }
    istringstream s(all); while (getline(s, l)) {
        size_t a = l.find_first_not_of(' '); if (a == string::npos) continue; l = l.substr(a);
        if (l.size() > 7 && l.substr(l.size() - 7) == " passed") { gotSum.insert(l); continue; }
        for (const char* e : { "ok", "FAILED" }) { string z = e; if (l.size() > z.size() && l.substr(l.size() - z.size()) == z && l.find(' ') == string::npos) { string n = l.substr(0, l.size() - z.size()); while (!n.empty() && n.back() == '.') n.pop_back(); gotLines.insert(n + " " + z); } }
    }
    VP_CHECK(gotLines == wantLines, "the tests listed are not the ones that ran:\n" << all << "\ninstead of\n" << lines);
    VP_CHECK(gotSum == wantSum, "the counts are not right:\n" << all << "\ninstead of\n" << summary);
    c.label("tests passed", passes); c.label("tests failed", fails); if (undefinedSeen) c.label("undefined nonterminal");
    if (passes + fails > 1) c.nontrivial(main);
}

/// KNOWN_FINDINGS.md, C20: true if running the tests of this file ends the process
static bool dies(const string& text) {
    fflush(stdout); pid_t p = fork();
    if (p < 0) return false;
    if (!p) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); alarm(20); lang_build b(text); if (b.imports()) { compiler::test_stage t(b.cc, b.st->input, b.parser->definition_file(), b.import.get()); t.compile(); } _exit(0); }
    int st = 0; waitpid(p, &st, 0); return !WIFEXITED(st) || WEXITSTATUS(st) != 0;
}

int main(int argc, char** argv) {
    const string lang = "language L { grammar { <S> = \"a\" } }\n";
    if (dies(lang + "test L { <Nothing> = \"a\" }\n")) printf("KNOWN-FINDING: property=C20 a test for a nonterminal that is not defined (test L { <Nothing> = \"a\" }) crashes\n");
    if (dies(lang + "test L { <S> = " + string(60, 'x') + "(\"a\") }\n")) printf("KNOWN-FINDING: property=C20 a test whose full name is longer than 54 characters crashes\n");
    fflush(stdout);
    vector<Facet> f = {
        { "tests", f_tests, 15000, 600000, "random languages (as in C18, also inherited) with random test blocks against any nonterminal, matching, not matching or from files, named or not, with missing languages and files; the reference lexer and parser decide each test, and every report with its position, the list of tests, the counts and the exit code are compared; non-trivial: at least two tests ran", 30 },
    };
    return run_main(argc, argv, "C20", f, { });
}

// C19: the command line tool does what it is asked to, and its exit status and messages say whether it did
//
// The tool is run as a program in a scratch directory. What it has to do is worked out by going through the same steps
// with the library in memory, in the order the options ask for: the errors, the exit status, the files written and
// their contents, and whether a text on standard input is accepted.

#include <dirent.h>
#include <sys/resource.h>
#include "tlang.h"
#include "TameParse/Compiler/OutputStages/cplusplus.h"

static string scratch;
static void remember(const string& dir) { scratch = dir; }

static string shq(const string& s) { string o = "'"; for (char ch : s) if (ch == '\'') o += "'\\''"; else o += ch; return o + "'"; }
static string base(const string& f) { size_t p = f.rfind('/'); return p == string::npos ? f : f.substr(p + 1); }

// ---- what has to happen

struct wish {
    string input; bool hasInput, badUsage;
    string prefix, target, className, ns, lang; vector<string> starts;
    set<string> flags;                                      // the options without a value
    wish() : hasInput(true), badUsage(false) { }
    bool on(const char* f) const { return flags.count(f) != 0; }
};

struct tool_run {
    int status;                                             // 0, or anything else
    vector<lang_error> errors;
    map<string, string> written;                            // by name
    tool_run() : status(0) { }
};

class null_actions {
public:
    typedef vector<pnode_p> reduce_list;
    explicit null_actions(dfa::lexeme_stream* s) : m_Stream(s) { }
    ~null_actions() { delete m_Stream; }
    dfa::lexeme* read() { dfa::lexeme* x = NULL; (*m_Stream) >> x; return x; }
    pnode_p shift(const dfa::lexeme_container&) { return pnode_p(); }
    pnode_p reduce(int, int, const vector<pnode_p>&, const dfa::position&) { return pnode_p(); }
private:
    dfa::lexeme_stream* m_Stream;
};

static tool_run expect(const wish& w, const map<string, string>& files, const wstring& text) {
    tool_run o;
    if (!w.hasInput || w.badUsage) { o.status = 1; return o; }
    wstring input = wide8(w.input);
    auto has = files.find(base(w.input));
    lang_build b(has == files.end() ? "" : has->second, input); if (has == files.end()) b.st->files.erase(input);
    for (auto& f : files) if (!b.st->files.count(wide8(f.first)) && f.first != base(w.input)) b.st->files[wide8(f.first)] = f.second;
    for (auto& f : w.flags) b.st->options[wide8(f)] = L"1";
    auto done = [&](int status) -> tool_run& { o.errors = b.st->errors; o.status = status; return o; };
    auto report = [&](int sev, const char* id) { lang_error e; e.sev = sev; e.id = id; e.file = w.input; e.line = e.col = e.offset = -1; b.st->errors.push_back(e); return done(sev >= compiler::error::sev_error); };
    if (!b.imports()) return done(1);
    if (w.on("run-tests")) {
        compiler::test_stage tests(b.cc, input, b.parser->definition_file(), b.import.get()); tests.compile();
        if (b.st->exitCode) return done(1);
        if (w.prefix.empty() && w.starts.empty() && w.target.empty() && !w.on("test") && !w.on("show-parser")) return done(0);
    }
    b.builder.reset(new compiler::language_builder_stage(b.cc, input, b.import.get())); b.builder->compile();
    if (b.st->exitCode) return done(1);
    wstring lang = wide8(w.lang), cls = wide8(w.className); vector<wstring> starts; for (auto& s : w.starts) starts.push_back(wide8(s));
    // one parser block counts; of two, neither does
    vector<const yy_language::parser_block*> blocks; vector<const yy_language::language_block*> langs;
    yy_language::definition_file_container df = b.parser->definition_file();
    for (auto d = df->begin(); d != df->end(); ++d) { if ((*d)->parser()) blocks.push_back((*d)->parser()); if ((*d)->language()) langs.push_back((*d)->language()); }
    if (blocks.size() > 1) report(compiler::error::sev_info, "MULTIPLE_PARSER_BLOCKS");
    if (lang.empty() && starts.empty() && blocks.size() == 1) { lang = blocks[0]->language_name(); starts = blocks[0]->start_symbols(); if (cls.empty()) cls = blocks[0]->parser_name(); }
    if (lang.empty() && langs.size() == 1) { lang = langs[0]->identifier(); report(compiler::error::sev_info, "INFERRED_LANGUAGE"); }
    if (lang.empty()) return report(compiler::error::sev_error, "NO_LANGUAGE_SPECIFIED");
    if (cls.empty()) cls = lang;
    b.lang = b.builder->language_with_name(lang);
    if (!b.lang) return report(compiler::error::sev_error, "MISSING_TARGET_LANGUAGE");
    b.lang->report_unused_symbols();
    if (starts.empty()) return report(compiler::error::sev_error, "NO_START_SYMBOLS");
    if (!b.lex(lang)) return done(1);
    if (!b.tables(lang, starts)) return done(1);
    string target = w.on("test") ? "test" : w.target.empty() ? "cplusplus" : w.target;
    string prefix = w.prefix.empty() ? w.input : w.prefix;
    if (target == "cplusplus") {
        compiler::output_cplusplus out(b.cc, b.import->file_with_language(lang), b.lexer.get(), b.lang, b.lr.get(), wide8(prefix), cls, wide8(w.ns)); out.compile();
        for (auto& f : b.st->written) { string n = to_utf8(f.first); if (n.compare(0, 2, "./") == 0) n = n.substr(2); o.written[n] = f.second->str(); }
        return done(b.st->exitCode != 0);
    }
    if (target == "test" || target == "test-trace") {
        lr::parser<pnode_p, null_actions> parser(b.lr->get_tables(), false);
        wistringstream in(text);
        unique_ptr<lr::parser<pnode_p, null_actions>::state> st(parser.create_parser(new null_actions(b.lexer->get_lexer()->create_stream_from(in)), 0));
        if (st->parse()) return done(0);
        lang_error e; e.sev = compiler::error::sev_error; e.id = "TEST_PARSER_ERROR"; e.file = "stdin"; e.line = e.col = -1;
        if (st->look().item()) { e.line = st->look()->pos().line(); e.col = st->look()->pos().column(); }
        b.st->errors.push_back(e); return done(1);
    }
    return report(compiler::error::sev_error, "UNKNOWN_OUTPUT_LANGUAGE_TYPE");
}

/// The text in the form the tool reads it: UTF-16 code units
static wstring units(const wstring& t) { wstring o; for (auto ch : t) if ((unsigned) ch >= 0x10000) { unsigned v = (unsigned) ch - 0x10000; o += (wchar_t) (0xd800 + (v >> 10)); o += (wchar_t) (0xdc00 + (v & 0x3ff)); } else o += ch; return o; }

// ---- running it

/// Everything but the line that says when a file was generated
static string timeless(const string& s) { string o, l; istringstream i(s); while (getline(i, l)) if (l.compare(0, 40, "/// Parser file generated by TameParse at ") && l.find("generated by TameParse at") == string::npos) o += l + "\n"; return o; }

struct shown { string sev, code, file; int line, col; };
static bool parse_line(const string& l, bool codes, shown& o) {
    // file:line:col: severity: [CODE] text
    size_t best = string::npos;
    for (size_t i = 0; i < l.size(); ++i) if (l[i] == ':') {
        size_t j = i + 1; while (j < l.size() && isdigit((unsigned char) l[j])) ++j; if (j >= l.size() || l[j] != ':') continue;
        size_t k = j + 1; while (k < l.size() && isdigit((unsigned char) l[k])) ++k; if (k >= l.size() || l[k] != ':') continue;
        o.line = j == i + 1 ? -1 : atoi(l.c_str() + i + 1); o.col = k == j + 1 ? -1 : atoi(l.c_str() + j + 1); o.file = l.substr(0, i); best = k + 1; break;
    }
    if (best == string::npos) return false;
    string rest = l.substr(best); o.sev = "";
    static const pair<const char*, const char*> sev[] = { { "    ", "detail" }, { " warning:", "warning" }, { " error:", "error" }, { " failure:", "fatal" }, { " compiler failure:", "bug" } };
    for (auto& s : sev) if (rest.compare(0, strlen(s.first), s.first) == 0) { o.sev = s.second; rest = rest.substr(strlen(s.first)); break; }
    o.code = "";
    if (codes && rest.compare(0, 2, " [") == 0) { size_t e = rest.find(']'); if (e != string::npos) o.code = rest.substr(2, e - 2); }
    return true;
}
static string sev_name(int s) { return s >= compiler::error::sev_bug ? "bug" : s == compiler::error::sev_fatal ? "fatal" : s == compiler::error::sev_error ? "error" : s == compiler::error::sev_warning ? "warning" : s == compiler::error::sev_detail ? "detail" : ""; }

struct box { string dir; box() : dir(VP_STR(scratch << "/b" << getpid())) { run("rm -rf -- " + shq(dir)); mkdir(dir.c_str(), 0700); } ~box() { run("rm -rf -- " + shq(dir)); } };

static void tree(const string& dir, const string& rel, map<string, string>& out) {
    DIR* d = opendir(dir.c_str()); if (!d) return;
    while (dirent* e = readdir(d)) {
        string n = e->d_name; if (n == "." || n == ".." ) continue; string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) tree(p, rel + n + "/", out); else if (S_ISREG(st.st_mode)) out[rel + n] = slurp(p);
    }
    closedir(d);
}

static void judge(Ctx& c, const box& bx, const wish& w, const vector<string>& args, const map<string, string>& files, const string& in, const tool_run& want, const set<string>& unwritable, const map<string, string>& old) {
    string cmd; for (auto& a : args) cmd += " " + shq(a);
    c.note("tameparse" + cmd); if (!in.empty()) c.note("stdin " + show(in));
    spit(bx.dir + "/../in" + to_string(getpid()), in);
    string io = scratch + "/io" + to_string(getpid());
    const char* locale[] = { "C", "C.UTF-8", "POSIX" };
    string env = VP_STR("LC_ALL=" << locale[c.s.weighted({ 2, 2, 1 })] << " ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000 ");
    int st = run("cd " + shq(bx.dir + "/w") + " && ulimit -t 40; ulimit -c 0; " + env + shq(getenv("VP_TOOL")) + cmd + " <" + shq(scratch + "/in" + to_string(getpid())) + " >" + shq(io + ".out") + " 2>" + shq(io + ".err"));
    string out = slurp(io + ".out"), err = slurp(io + ".err");
    unlink((io + ".out").c_str()); unlink((io + ".err").c_str()); unlink((scratch + "/in" + to_string(getpid())).c_str());
    string said = "\nstderr: " + err.substr(0, 1500) + (out.size() < 400 ? "\nstdout: " + out : "");
    VP_CHECK(st < 90, "the tool ended with status " << st << said);
    // files
    bool failsToWrite = false; for (auto& f : want.written) if (unwritable.count(f.first)) failsToWrite = true;
    int status = want.status || failsToWrite;
    VP_CHECK((st != 0) == (status != 0), "exit status " << st << " instead of " << (status ? "an error" : "0") << said);
    map<string, string> now; tree(bx.dir + "/w", "", now);
    for (auto& f : old) { auto x = now.find(f.first); bool mine = want.written.count(f.first); VP_CHECK(x != now.end(), f.first << " is gone" << said); VP_CHECK(mine || x->second == f.second, f.first << " was changed" << said); }
    for (auto& f : now) VP_CHECK(old.count(f.first) || want.written.count(f.first), f.first << " was written" << said);
    for (auto& f : want.written) {
        if (unwritable.count(f.first)) continue;
        auto x = now.find(f.first); VP_CHECK(x != now.end(), f.first << " was not written" << said);
        if (failsToWrite) continue;
        string a = timeless(x->second), b = timeless(f.second);
        if (a != b) { istringstream i(a), j(b); string p, q; int n = 1; while (getline(i, p) && getline(j, q) && p == q) ++n; throw Fail{VP_STR(f.first << " differs from what the library writes at line " << n << ":\n" << p << "\ninstead of\n" << q)}; }
    }
    // messages
    if (w.badUsage || !w.hasInput) {
        bool info = w.on("help") || w.on("version") || w.on("license") || w.on("warranty");
        if (!info) VP_CHECK(!err.empty(), "nothing says what is wrong" << said);
        return;
    }
    bool codes = w.on("show-error-codes"), quiet = w.on("suppress-warnings");
    vector<shown> got; istringstream lines(err); string l;
    while (getline(lines, l)) { shown s; if (parse_line(l, codes, s)) got.push_back(s); }  // the others are parts of quotations
    if (w.target != "test-trace" || w.on("test")) VP_CHECK(err.empty() || !got.empty(), "no error message" << said);
    if (failsToWrite) { int n = 0; for (auto& s : got) if (s.sev == "error") ++n; VP_CHECK(n, "nothing says that a file could not be written" << said); return; }
    vector<lang_error> errs; for (auto& e : want.errors) if (e.sev >= compiler::error::sev_detail && !(quiet && e.sev == compiler::error::sev_warning)) errs.push_back(e);
    string list; for (auto& e : errs) list += VP_STR("\n  " << e.file << ":" << e.line + 1 << ":" << e.col + 1 << " " << sev_name(e.sev) << " " << e.id);
    VP_CHECK(errs.size() == got.size(), got.size() << " messages instead of" << (list.empty() ? " none" : list) << said);
    for (size_t i = 0; i < errs.size(); ++i) {
        const lang_error& e = errs[i]; const shown& s = got[i]; bool file = true; for (unsigned char ch : e.file) if (ch > 127) file = false;
        VP_CHECK(s.sev == sev_name(e.sev) && (!codes || s.code == e.id) && (!file || base(s.file) == base(e.file)) && s.line == (e.line < 0 ? -1 : e.line + 1) && s.col == (e.col < 0 ? -1 : e.col + 1), "message " << i + 1 << " has to be one of:" << list << said);
    }
    bool silent = w.on("silent"), verbose = w.on("verbose"), shows = w.on("show-parser") || w.on("show-parser-closure") || w.on("show-propagation") || w.on("help") || w.on("version") || w.on("license") || w.on("warranty") || w.target == "test-trace";
    if (silent && !verbose && !shows) VP_CHECK(out.empty(), "silent, but stdout is " << out.substr(0, 400));
    if (!silent) VP_CHECK(out.find("TameParse ") != string::npos, "the banner is missing: " << out.substr(0, 200));
    if (!status && w.on("show-parser")) VP_CHECK(out.find("== Parser tables") != string::npos || (w.on("run-tests") && want.written.empty()), "the parser is not shown" << said);
    c.label(status ? "refused" : want.written.empty() ? "text accepted" : "files written");
    if (!status) for (auto& f : w.flags) c.label("ok with " + f);
}

/// Options in any order and spelling
struct option_maker {
    Ctx& c; wish w; vector<vector<string> > parts;
    explicit option_maker(Ctx& ctx) : c(ctx) { }
    void value(const char* shortName, const char* longName, const string& v) {
        switch (c.s.below(3)) { case 0: parts.push_back({ string("-") + shortName, v }); break; case 1: parts.push_back({ string("--") + longName, v }); break; default: if (v.empty()) parts.push_back({ string("--") + longName, v }); else parts.push_back({ string("--") + longName + "=" + v }); }
    }
    void flag(const char* name, const char* shortName = NULL) { w.flags.insert(name); parts.push_back({ shortName && c.s.chance(1, 2) ? string("-") + shortName : string("--") + name }); }
    vector<string> args() { vector<string> o; while (!parts.empty()) { size_t i = c.s.below((uint32_t) parts.size()); o.insert(o.end(), parts[i].begin(), parts[i].end()); parts.erase(parts.begin() + i); } return o; }
};

static void common_flags(option_maker& m) {
    Src& s = m.c.s;
    static const char* f[] = { "enable-lr1-resolver", "allow-reduce-conflicts", "no-conflicts", "show-conflict-details", "suppress-warnings", "silent", "show-parser", "show-parser-closure", "show-propagation", "disable-compact-dfa", "disable-merged-dfa" };
    for (auto x : f) if (s.chance(1, 9)) m.flag(x);
    if (s.chance(1, 6)) m.flag("verbose", "v");
    if (s.chance(3, 4)) m.flag("show-error-codes");
}

static string tests_for(Ctx& c, const tlang& l, const string& name) {
    string o = "test " + name + " {\n"; rg::Gram g = l.g; function<void(rg::Rule&)> drop = [&](rg::Rule& r) { rg::Rule o; for (auto& i : r) { if (i.k == rg::GUARD) continue; o.push_back(i); for (auto& x : o.back().r) drop(x); } r = o; };
    for (auto& x : g.nt) for (auto& r : x) drop(r);
    rg::Low plain(g); int n = 1 + c.s.below(3);
    for (int i = 0; i < n; ++i) {
        int st = l.g.starts[0]; vector<int> toks = rg::gen_input(c.s, plain, st, l.g.nT); string t; for (int x : toks) { string u = to_utf8(l.T[x].samples[0]); for (char ch : u) { if (ch == '"' || ch == '\\') t += '\\'; t += ch; } t += " "; }
        o += "  " + l.N[st] + (c.s.chance(1, 4) ? " != \"" : " = \"") + t + "\"\n";
    }
    return o + "}\n";
}

static string input_text(Ctx& c, const tlang& l, const string& start) {
    rg::Gram g = l.g; function<void(rg::Rule&)> drop = [&](rg::Rule& r) { rg::Rule o; for (auto& i : r) { if (i.k == rg::GUARD) continue; o.push_back(i); for (auto& x : o.back().r) drop(x); } r = o; };
    for (auto& x : g.nt) for (auto& r : x) drop(r);
    rg::Low plain(g); int st = l.g.starts[0]; for (size_t i = 0; i < l.N.size(); ++i) if (l.N[i] == start) st = (int) i;
    vector<int> toks = rg::gen_input(c.s, plain, st, l.g.nT); string t; static const char* sep[] = { " ", "\n", "", "\t", "?", "\xC3\xA9 ", " \xF0\x9F\x98\x80" };
    for (int x : toks) { t += to_utf8(l.T[x].samples[c.s.below((uint32_t) l.T[x].samples.size())]); t += sep[c.s.weighted({ 14, 3, 1, 1, 1, 1, 1 })]; }
    if (c.s.chance(1, 2)) t += "\n";
    return t;
}

static void f_invoke(Ctx& c) {
    tlang l, l2; bool ok = false; for (int t = 0; t < 6 && !ok; ++t) { l = tlang(); ok = gen_lang(c, l, c.s.chance(1, 4)); } if (!ok) throw Discard();
    option_maker m(c); wish& w = m.w; Src& s = c.s;
    // the definition
    string text = l.text, parserBlock; map<string, string> files; string second;
    auto pick_start = [&]() -> string { return s.chance(1, 10) ? string(s.chance(1, 2) ? "<nothing>" : "N0") : l.N[s.chance(3, 4) ? l.g.starts[0] : (int) s.below((uint32_t) l.N.size())]; };
    static const char* names[] = { "main.tp", "m.tp", "a-b", "caf\xC3\xA9.tp", "two words.tp", "x.y.tp" };
    string mainName = names[s.weighted({ 8, 2, 1, 1, 1, 1 })];
    int extra = s.weighted({ 5, 2, 2 });                     // nothing; another language; an imported base language
    if (extra == 1) second = "language M { grammar { <S> = \"q\" } }\n";
    if (extra == 2) { string b = text; size_t p = b.find("language L"); b.replace(p, 10, "language M"); files["base.tp"] = b; text = "import \"base.tp\"\nlanguage L : M { }\n"; if (s.chance(1, 8)) files.erase("base.tp"); }
    if (s.chance(1, 2)) { string st = pick_start(); parserBlock = "parser " + string(s.chance(1, 2) ? "Prs" : "my-parser") + " : " + (s.chance(1, 10) ? "Nolang" : extra == 1 && s.chance(1, 4) ? "M" : "L") + " { " + (st[0] == '<' ? st : "<N0>") + (s.chance(1, 4) ? " " + l.N[0] : "") + " }\n"; if (s.chance(1, 12)) parserBlock += "parser Other : L { " + l.N[0] + " }\n"; }
    string tests; if (s.chance(1, 5)) tests = tests_for(c, l, "L");
    switch (s.below(3)) { case 0: text = text + second + parserBlock + tests; break; case 1: text = parserBlock + second + text + tests; break; default: text = tests + second + text + parserBlock; }
    if (s.chance(1, 25)) text += "language {";
    if (s.chance(1, 30)) text = "";
    files[mainName] = text;
    // where the files are
    box bx; mkdir((bx.dir + "/w").c_str(), 0700); for (auto d : { "/w/d", "/w/inc", "/w/inc 2" }) mkdir((bx.dir + d).c_str(), 0700);
    bool sub = s.chance(1, 3); w.input = (sub ? "d/" : s.chance(1, 6) ? "./" : "") + mainName;
    bool missing = s.chance(1, 40); map<string, string> disk; if (!missing) disk[(sub ? "d/" : "") + mainName] = text; else files.erase(mainName);
    if (files.count("base.tp")) {
        int where = s.below(4); string d = where == 0 ? "" : where == 1 && sub ? "d/" : where == 2 ? "inc/" : where == 3 ? "inc 2/" : "";
        disk[d + "base.tp"] = files["base.tp"]; if (d == "inc/" || d == "inc 2/" || s.chance(1, 6)) { bool both = s.chance(1, 2); if (both || d == "inc 2/") m.value("I", "include-path", "inc 2"); if (both || d != "inc 2/") m.value("I", "include-path", "inc"); }
    }
    // options
    common_flags(m);
    if (!s.chance(1, 30)) { if (s.chance(1, 4)) m.value("i", "input-file", w.input); else m.parts.push_back({ w.input }); } else { w.hasInput = false; }
    if (s.chance(1, 4)) { w.lang = s.chance(1, 6) ? "Nolang" : extra == 1 && s.chance(1, 3) ? "M" : "L"; m.value("L", "compile-language", w.lang); }
    if (s.chance(parserBlock.empty() ? 9 : 2, 10)) { int n = 1 + s.chance(1, 5); for (int i = 0; i < n; ++i) w.starts.push_back(pick_start()); vector<string> p; for (auto& x : w.starts) { p.push_back(s.chance(1, 2) ? "-S" : "--start-symbol"); p.push_back(x); } m.parts.push_back(p); }
    if (s.chance(1, 6)) { w.className = s.chance(1, 2) ? "Cls" : "a-class"; m.value("C", "class-name", w.className); }
    if (s.chance(1, 8)) { w.ns = "Space"; m.value("N", "namespace-name", w.ns); }
    set<string> unwritable;
    if (s.chance(2, 3)) {
        static const char* p[] = { "out", "d/out", "sub.x/out", "f\xC3\xBCr", "out file" }; w.prefix = p[s.weighted({ 6, 3, 1, 1, 1 })];
        m.value("o", "output-file", w.prefix);
        if (w.prefix == "sub.x/out") { unwritable.insert(w.prefix + ".cpp"); unwritable.insert(w.prefix + ".h"); }
        else if (s.chance(1, 15)) { string e = s.chance(1, 2) ? ".cpp" : ".h"; unwritable.insert(w.prefix + e); if (s.chance(1, 2)) mkdir((bx.dir + "/w/" + w.prefix + e).c_str(), 0700); else if (symlink("/dev/full", (bx.dir + "/w/" + w.prefix + e).c_str())) throw Discard(); }
        else if (s.chance(1, 3)) disk[w.prefix + (s.chance(1, 2) ? ".cpp" : ".h")] = "keep me\n";
    }
    switch (s.weighted({ 6, 1, 2, 1, 1 })) { case 1: w.target = "cplusplus"; break; case 2: w.target = "test"; break; case 3: w.target = "test-trace"; break; case 4: w.target = s.chance(1, 2) ? "java" : "CPlusPlus"; break; default: break; }
    if (!w.target.empty()) m.value("T", "output-language", w.target);
    if (s.chance(1, 5)) m.flag("test");
    if (!tests.empty() ? s.chance(2, 3) : s.chance(1, 20)) m.flag("run-tests");
    if (s.chance(1, 25)) { static const char* i[] = { "help", "version", "license", "warranty" }; m.flag(i[s.below(4)]); }
    if (s.chance(1, 40)) { w.badUsage = true; static const char* bad[] = { "--bogus", "-q", "--class-name" }; int k = s.below(3); if (k == 2) m.parts.clear(); m.parts.push_back({ bad[k] }); }
    vector<string> args = m.args();
    string in = input_text(c, l, w.starts.empty() ? l.N[l.g.starts[0]] : w.starts[0]);
    for (auto& f : disk) { spit(bx.dir + "/w/" + f.first, f.second); c.note("--- " + f.first + "\n" + f.second); }
    tool_run want = expect(w, files, units(wide8(in)));
    judge(c, bx, w, args, files, in, want, unwritable, disk);
    if (!want.status || !want.errors.empty()) c.nontrivial(text + [&]() { string o; for (auto& a : args) o += a + "\1"; return o; }());
}

static vector<string> corpus() {
    static vector<string> all; if (!all.empty()) return all;
    string root = getenv("VP_REPO");
    for (auto d : { "/Examples/Test", "/Examples/JsonPrettyPrinter" }) { map<string, string> t; tree(root + d, "", t); for (auto& f : t) if (f.first.size() > 3 && f.first.substr(f.first.size() - 3) == ".tp" && f.second.size() < 6000) all.push_back(f.second); }
    return all;
}

static void f_edited(Ctx& c) {
    Src& s = c.s; string text; static vector<string> ex = corpus();
    if (!ex.empty() && s.chance(1, 3)) text = ex[s.below((uint32_t) ex.size())];
    else { tlang l; if (!gen_lang(c, l, true)) throw Discard(); text = l.text; }
    // tokens, more or less
    auto split = [](const string& t) { vector<string> o; for (size_t i = 0; i < t.size(); ) { size_t j = i + 1; if (isalnum((unsigned char) t[i])) while (j < t.size() && (isalnum((unsigned char) t[j]) || t[j] == '-')) ++j; else if (isspace((unsigned char) t[i])) while (j < t.size() && isspace((unsigned char) t[j])) ++j; o.push_back(t.substr(i, j - i)); i = j; } return o; };
    vector<string> tk = split(text); if (tk.empty()) throw Discard();
    static const char* bits[] = { "{", "}", "<", ">", "\"", "/", "(", ")", "[", "]", "=", "|", "*", "+", "?", ":", "|=", "replace", "weak", "lexer", "keywords", "ignore", "lexer-symbols", "grammar", "language", "L", "<N0>", "[=>", "[=>[can-clash]", "[conflict=shift]", "[conflict=reduce]", "[conflict=weak reduce]", "precedence { left { \"a\" } }", "case insensitive", "case sensitive", "import \"x\"", "parser P : L { <N0> }", "\\", "'", "//", "/*", "{a}", "{digit}", "\xC3\xA9", "\xFF", "a", "x-1", ".", "^", "-", "0", "\n", " " };
    int n = s.weighted({ 1, 6, 4, 3, 2 });
    for (int i = 0; i < n && !tk.empty(); ++i) {
        size_t p = s.below((uint32_t) tk.size());
        switch (s.below(6)) {
            case 0: tk.erase(tk.begin() + p, tk.begin() + min(tk.size(), p + 1 + s.below(3))); break;
            case 1: tk.insert(tk.begin() + p, bits[s.below(sizeof(bits) / sizeof(*bits))]); break;
            case 2: tk[p] = bits[s.below(sizeof(bits) / sizeof(*bits))]; break;
            case 3: { size_t q = s.below((uint32_t) tk.size()); swap(tk[p], tk[q]); break; }
            case 4: { size_t q = s.below((uint32_t) tk.size()), k = 1 + s.below(6); vector<string> cp(tk.begin() + q, tk.begin() + min(tk.size(), q + k)); tk.insert(tk.begin() + p, cp.begin(), cp.end()); break; }
            default: { string& t = tk[p]; size_t q = s.below((uint32_t) t.size() + 1); if (q < t.size() && s.chance(1, 2)) t.erase(q, 1); else t.insert(q, 1, "azAZ019_-<>\"\\/()[]{}"[s.below(21)]); break; }
        }
    }
    text.clear(); for (auto& t : tk) text += t;
    if (text.size() > 6000) throw Discard();
    option_maker m(c); wish& w = m.w; map<string, string> files, disk; w.input = "main.tp"; files["main.tp"] = disk["main.tp"] = text;
    box bx; mkdir((bx.dir + "/w").c_str(), 0700);
    common_flags(m); m.parts.push_back({ "main.tp" }); w.prefix = "out"; m.value("o", "output-file", "out");
    // a start symbol out of the text
    vector<string> nts; for (size_t i = 0; i + 1 < text.size(); ++i) if (text[i] == '<') { size_t e = text.find('>', i); if (e != string::npos && e - i < 40 && text.find_first_of(" \n\"", i) > e) nts.push_back(text.substr(i, e - i + 1)); }
    if (!nts.empty() && s.chance(4, 5)) { w.starts.push_back(nts[s.chance(1, 2) ? 0 : s.below((uint32_t) nts.size())]); m.value("S", "start-symbol", w.starts[0]); }
    if (s.chance(1, 2)) { size_t p = text.find("language "); string name = "L"; if (p != string::npos) { size_t q = text.find_first_of(" \n{:", p + 9); name = text.substr(p + 9, q == string::npos ? 0 : q - p - 9); } if (!name.empty() && name[0] != '-') { w.lang = name; m.value("L", "compile-language", name); } }
    vector<string> args = m.args(); for (auto& a : args) if (a.find('\0') != string::npos) throw Discard();
    spit(bx.dir + "/w/main.tp", text); c.note("--- main.tp\n" + text);
    tool_run want = expect(w, files, L"");
    for (auto& e : want.errors) if (e.sev >= compiler::error::sev_error) c.label(e.id);
    judge(c, bx, w, args, files, "", want, set<string>(), disk);
    c.nontrivial(text);
}

int main(int argc, char** argv) {
    prepare = remember;
    vector<Facet> f = {
        { "invoke", f_invoke, 4000, 40000, "random definitions (inheritance, imports in any directory, parser and test blocks, awkward file names) with random options, texts on standard input and output files that cannot be written; exit status, every message, every file and what is in it are compared with the steps taken in memory; non-trivial: the tool gets as far as reading the definition", 90 },
        { "edited", f_edited, 5000, 60000, "definitions with random edits (from random languages and from the examples); the same comparison; non-trivial: every case", 90 },
    };
    return run_main(argc, argv, "C19", f, { "--run-tests is not tried on edited definitions, because of the known findings of C20" });
}

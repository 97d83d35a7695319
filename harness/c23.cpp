// C23: what a language means does not depend on how it is written down. A random language is written twice, the second
// time with other names, another order, other blocks, inheritance and so on; both have to behave in the same way.

#include "tlang.h"

// ---- a language without the way it is written

struct spec { tlang l; bool attrs, prec; vector<pair<int, vector<int>>> levels; int salt; };

static int attr_of(const spec& sp, const rg::Rule& r, size_t i) {
    if (!sp.attrs || r[i].k != rg::T) return 0;
    uint64_t h = hash_str(VP_STR(sp.salt << "/" << rg::text(r) << "/" << i)) >> 7;
    return h % 3 ? 0 : 1 + (int)(hash_str(VP_STR(sp.salt << ":" << r[i].id)) / 7 % 3);       // the same wish wherever the symbol is: what contradicting ones mean is not specified
}

// ---- writing it

struct written { map<string, string> files; vector<wstring> T, N; string all() const { string o; for (auto& f : files) o += (files.size() > 1 ? "--- " + f.first + "\n" : "") + f.second; return o; } };

struct writer {
    Src* s; const spec& sp; const tlang& l; written w; vector<string> ref, nt; set<string> used; int nameRate, nameSalt; bool wrap, mirror; string sepStyle;
    writer(Src* src, const spec& x) : s(src), sp(x), l(x.l), nameRate(x.l.nameRate), nameSalt(x.l.salt), wrap(false), mirror(false) { }

    bool chance(int a, int b) { return s && s->chance(a, b); }
    string fresh(bool nonterminal = false) {
        static const char* pre[] = { "aa", "zz", "Mm", "q", "_k", "w-x", "Zy", "b0", "N", "opt" };
        for (;;) { string n = string(pre[s->below(10)]) + to_string(s->below(100)); bool lit = false; for (auto& t : l.T) for (auto& x : t.samples) if (to_utf8(x) == n) lit = true; if (lit && !nonterminal) continue; if (used.insert((nonterminal ? "<" : "") + n).second) return nonterminal ? "<" + n + ">" : n; }
    }
    string item_name(const rg::Rule& r, size_t i) const { tlang n; n.salt = nameSalt; n.nameRate = nameRate; return n.name(r, i); }
    void rule(const rg::Rule& r, vector<string>& o, bool named = true) {
        size_t open = wrap && r.size() && chance(1, 4) ? s->below((uint32_t) r.size()) : r.size(), close = open < r.size() ? open + s->below((uint32_t)(r.size() - open)) : 0;
        for (size_t i = 0; i < r.size(); ++i) {
            if (i == open) o.push_back("(");
            item(r[i], o);
            if (r[i].k != rg::GUARD) {
                string n = named ? item_name(r, i) : ""; int a = named ? attr_of(sp, r, i) : 0; static const char* at[] = { "", "shift", "reduce", "weak reduce" };
                if (!n.empty() || a) { o.push_back("["); if (!n.empty()) o.push_back(n); if (!n.empty() && a) o.push_back(","); if (a) { o.push_back("conflict"); o.push_back("="); string x = at[a]; if (a == 3) { o.push_back("weak"); o.push_back("reduce"); } else o.push_back(x); } o.push_back("]"); }
            }
            if (open < r.size() && i == close) o.push_back(")");
        }
    }
    void item(const rg::It& i, vector<string>& o) {
        switch (i.k) {
            case rg::T: o.push_back(ref[i.id]); return;
            case rg::N: o.push_back(nt[i.id]); return;
            case rg::GUARD: o.push_back("[=>"); rule(i.r[0], o, false); o.push_back("]"); return;
            case rg::ALT: o.push_back("("); for (size_t k = 0; k < i.r.size(); ++k) { size_t x = mirror ? i.r.size() - 1 - k : k; if (k) o.push_back("|"); rule(i.r[x], o, !(i.r[x].size() == 1 && i.r[x][0].k == rg::ALT)); } o.push_back(")"); return;
            default: o.push_back("("); rule(i.r[0], o); o.push_back(")"); o.push_back(i.k == rg::OPT ? "?" : i.k == rg::REP ? "+" : "*"); return;
        }
    }
    string text(const vector<string>& v) {
        string o;
        for (auto& x : v) {
            if (!o.empty()) { if (!s) o += " "; else switch (s->weighted({ 30, 4, 2, 1, 1, 1 })) { case 0: o += " "; break; case 1: o += "\n    "; break; case 2: o += "  "; break; case 3: o += " // not | a <part> of \"it\"\n"; break; case 4: o += " /* { nor = 'this */ "; break; default: o += "\t\r\n"; } }
            o += x;
        }
        return o;
    }
    struct block { vector<string> head, body; };
    void put(vector<string>& o, const vector<block>& bs) {
        for (size_t i = 0; i < bs.size(); ) { o.insert(o.end(), bs[i].head.begin(), bs[i].head.end()); o.push_back("{"); size_t j = i; do { o.insert(o.end(), bs[j].body.begin(), bs[j].body.end()); ++j; } while (j < bs.size() && bs[j].head == bs[i].head && chance(1, 2)); o.push_back("}"); i = j; }
    }
    static vector<string> words(const string& x) { istringstream i(x); vector<string> o; string w; while (i >> w) o.push_back(w); return o; }
    static string inner(const string& lit) { return lit.substr(1, lit.size() - 2); }
    static string as_regex(const string& lit) { string o; for (char c : inner(lit)) { if (strchr(".*+?()[]{}|\\^$\"/", c)) o += '\\'; o += c; } return "/" + o + "/"; }

    /// s == NULL: as it stands
    void write() {
        bool names = chance(1, 2), ntNames = chance(2, 3);
        if (s) { if (chance(1, 3)) nameRate = s->below(7); if (chance(1, 3)) nameSalt = s->below(1000); wrap = chance(1, 3); mirror = chance(1, 4); bool nested = false; function<void(const rg::Rule&)> look = [&](const rg::Rule& r) { for (auto& i : r) for (auto& x : i.r) { if (i.k == rg::ALT && x.size() == 1 && x[0].k == rg::ALT) nested = true; look(x); } }; for (auto& n : l.g.nt) for (auto& r : n) look(r); if (nested) mirror = false; }
        for (auto& t : l.T) used.insert(t.name);
        for (auto& n : l.N) used.insert("<" + inner(n));
        // the symbols
        vector<block> K, X, Y; ref.resize(l.T.size()); w.T.resize(l.T.size());
        for (size_t t = 0; t < l.T.size(); ++t) {
            const term_def& d = l.T[t]; string name = d.name, lit, re; bool kw = d.block.find("keywords") != string::npos, own = d.def == d.name && kw;
            if (d.block.empty()) lit = d.name; else if (kw) lit = own ? "\"" + d.name + "\"" : d.def.substr(d.def.find('=') + 2); else re = d.def.substr(d.def.find('=') + 2);
            ref[t] = name;
            if (d.block.empty()) {
                int how = s ? s->weighted({ 4, 3, 1, 1 }) : 0; string plain = inner(lit); bool id = isalpha((unsigned char) plain[0]); for (char c : plain) if (!isalnum((unsigned char) c)) id = false;
                if (how == 1) { name = ref[t] = fresh(); block b; b.head = { "weak", "keywords" }; b.body = { name, "=", chance(1, 4) ? as_regex(lit) : lit }; K.insert(K.begin() + s->below((uint32_t) K.size() + 1), b); }
                if (how == 2 && l.T[t].samples[0].size() == 1) ref[t] = name = plain == "'" ? "'\\''" : "'" + plain + "'";
                if (how == 3 && id && used.insert(plain).second) name = ref[t] = plain;
            } else {
                if (d.block == "weak keywords" && chance(1, 4)) { name = ref[t] = lit; w.T[t] = wide8(name); continue; }
                if (names && chance(3, 4)) { name = ref[t] = fresh(); own = own && !s; }
                block b; b.head = words(d.block); string def = kw ? lit : re;
                bool ci = d.block.find("insensitive") != string::npos;
                if (s && kw && !ci && s->chance(1, 5)) def = as_regex(lit);
                if (s && kw && ci && s->chance(1, 5)) { b.head = { "keywords", "case", "insensitive" }; b.head = { "case", "insensitive", "keywords" }; }
                if (s && !kw) switch (s->weighted({ 5, 1, 1, 1, 1 })) {
                    case 1: def = "/(" + inner(def) + ")/"; break;
                    case 2: { string y = fresh(); block z; z.head = { "lexer-symbols" }; z.body = { y, "=", def }; Y.push_back(z); def = "/{" + y + "}/"; break; }
                    case 3: def = "/" + inner(def) + "|(" + inner(def) + ")/"; break;
                    case 4: { string y = fresh(), v = fresh(); block z; z.head = { "lexer-symbols" }; z.body = { y, "=", "/{" + v + "}/" }; block u; u.head = z.head; u.body = { v, "=", def }; if (s->chance(1, 2)) { Y.push_back(z); Y.push_back(u); } else { Y.push_back(u); Y.push_back(z); } def = "/({" + y + "})/"; break; }
                    default: break;
                }
                if (own && name == d.name && !(s && s->chance(1, 3))) b.body = { name }; else b.body = { name, "=", def };
                (kw ? K : X).push_back(b);
            }
            w.T[t] = wide8(name);
        }
        block ig; ig.head = { "ignore" }; ig.body = { names ? fresh() : "whitespace", "=", chance(1, 3) ? "/( |\\n|\\t)+/" : "/[ \\n\\t]+/" };
        // the rules
        for (auto& n : l.N) { string x = s && ntNames && chance(3, 4) ? fresh(true) : n; nt.push_back(x); w.N.push_back(wide8(x)); }
        struct ndef { int n; string op; vector<size_t> alts; };
        int mode = s ? s->weighted({ 3, 1, 2 }) : 0;
        vector<ndef> base, top;
        vector<int> order; for (size_t i = 0; i < l.N.size(); ++i) order.insert(order.begin() + (s && s->chance(2, 3) ? s->below((uint32_t) order.size() + 1) : (uint32_t) order.size()), (int) i);
        vector<ndef> later; map<int, string> bogus;
        for (int n : order) {
            vector<size_t> a; for (size_t k = 0; k < l.g.nt[n].size(); ++k) a.insert(a.begin() + (s && s->chance(1, 2) ? s->below((uint32_t) a.size() + 1) : (uint32_t) a.size()), k);
            bool inBase = mode == 2;
            int how = s ? s->weighted({ 5, 2, inBase ? 2 : 0 }) : 0;
            if (how == 1 && a.size() < 2) how = 0;
            vector<ndef>& to = inBase ? base : top;
            if (how == 0) { to.push_back(ndef{ n, "=", a }); continue; }
            if (how == 1) { size_t k = 1 + s->below((uint32_t) a.size() - 1); to.push_back(ndef{ n, "=", vector<size_t>(a.begin(), a.begin() + k) }); (inBase && chance(2, 3) ? top : later).push_back(ndef{ n, "|=", vector<size_t>(a.begin() + k, a.end()) }); continue; }
            bogus[n] = chance(1, 2) ? ref[s->below((uint32_t) ref.size())] : ref[s->below((uint32_t) ref.size())] + " " + nt[s->below((uint32_t) nt.size())];
            base.push_back(ndef{ n, "bogus", a }); top.push_back(ndef{ n, "replace", a });
        }
        for (auto& d : later) (mode == 2 ? base : top).push_back(d);
        auto blocks = [&](const vector<ndef>& v) {
            vector<block> o;
            for (auto& d : v) {
                block b; b.head = { "grammar" };
                if (d.op == "replace") b.body.push_back("replace");
                b.body.push_back(nt[d.n]); b.body.push_back(d.op == "|=" ? "|=" : "=");
                if (d.op == "bogus") { vector<string> x = words(bogus[d.n]); if (ref[0].find(' ') != string::npos || bogus[d.n].find('"') != string::npos) x = vector<string>(1, ref[0]); b.body.insert(b.body.end(), x.begin(), x.end()); }
                else for (size_t k = 0; k < d.alts.size(); ++k) { if (k) b.body.push_back("|"); rule(l.g.nt[d.n][d.alts[k]], b.body); }
                o.push_back(b);
            }
            if (!s && o.size() > 1) { for (size_t i = 1; i < o.size(); ++i) o[0].body.insert(o[0].body.end(), o[i].body.begin(), o[i].body.end()); o.resize(1); }
            return o;
        };
        vector<block> gb = blocks(base), gt = blocks(top);
        int junk = s ? s->weighted({ 3, 1, 1 }) : 0;
        for (int i = 0; i < junk; ++i) { block b; b.head = { "grammar" }; string me = fresh(true); b.body = { me, "=" }; int n = s->below(4); for (int k = 0; k < n; ++k) switch (s->below(4)) { case 0: b.body.push_back(me); break; case 1: b.body.push_back(nt[s->below((uint32_t) nt.size())]); break; case 2: { for (auto x : { string("("), ref[s->below((uint32_t) ref.size())], string(")"), string(s->chance(1, 2) ? "*" : "?") }) b.body.push_back(x); break; } default: b.body.push_back(ref[s->below((uint32_t) ref.size())]); } if (!n) b.body.push_back(ref[0]); vector<block>& to = mode == 2 && chance(1, 2) ? gb : gt; to.insert(to.begin() + s->below((uint32_t) to.size() + 1), b); }
        vector<block> P; if (sp.prec) {
            block b; b.head = { "precedence" };
            for (auto& v : sp.levels) { b.body.push_back(v.first == leftAssoc ? "left" : v.first == rightAssoc ? "right" : chance(1, 2) ? "non-assoc" : "non-associative"); vector<int> x = v.second; if (s) for (size_t i = 1; i < x.size(); ++i) swap(x[i], x[s->below((uint32_t) i + 1)]); bool bare = x.size() == 1 && chance(1, 2); if (!bare) b.body.push_back("{"); for (int t : x) b.body.push_back(ref[t]); if (!bare) b.body.push_back("}"); }
            P.push_back(b);
        }
        // mixed, each kind in its own order
        auto mix = [&](vector<vector<block>> parts) { vector<block> o; for (;;) { vector<int> k; for (size_t i = 0; i < parts.size(); ++i) if (!parts[i].empty()) k.push_back((int) i); if (k.empty()) return o; int i = s ? s->pick(k) : k[0]; o.push_back(parts[i][0]); parts[i].erase(parts[i].begin()); } };
        vector<block> IG(1, ig), none; vector<string> L, B;
        auto open = [&](vector<string>& o, const string& name, const string& from) { o.push_back("language"); o.push_back(name); if (!from.empty()) { o.push_back(":"); o.push_back(from); } o.push_back("{"); };
        if (mode == 0) { open(L, "L", ""); put(L, mix({ K, X, IG, Y, gt, P })); L.push_back("}"); }
        else {
            string bn = chance(1, 2) ? "Base" : "Aa"; open(B, bn, ""); open(L, "L", bn);
            if (mode == 2) { bool p = bogus.empty() && top.empty() && chance(2, 3); put(B, mix({ K, X, IG, Y, gb, p ? P : none })); put(L, mix({ gt, p ? none : P })); }
            else {
                vector<block> all = mix({ K, X, IG, Y }); size_t k = s->below((uint32_t) all.size() + 1); vector<block> lo(all.begin(), all.begin() + k), hi(all.begin() + k, all.end());
                // what a definition uses has to be there
                vector<block> sy, rest; for (auto& b : hi) (b.head[0] == "lexer-symbols" ? sy : rest).push_back(b); lo.insert(lo.begin() + s->below((uint32_t) lo.size() + 1), sy.begin(), sy.end());
                put(B, lo); put(L, mix({ rest, gt, P }));
            }
            B.push_back("}"); L.push_back("}");
        }
        string lt = text(L) + "\n", bt = B.empty() ? "" : text(B) + "\n"; string& main = w.files["main.tp"];
        if (bt.empty()) main = lt; else if (chance(1, 2)) { w.files["base.tp"] = bt; main = chance(1, 2) ? "import \"base.tp\"\n" + lt : lt + "import \"base.tp\"\n"; } else main = chance(1, 2) ? bt + lt : lt + bt;

    }
};

// ---- what it does

struct runner {
    typedef vector<int> reduce_list;
    struct acts {
        typedef vector<int> reduce_list; dfa::lexeme_stream* st; const map<int, string>& t; const map<int, string>& n; string& out; const contextfree::terminal_dictionary& dict;
        acts(dfa::lexeme_stream* s, const map<int, string>& tt, const map<int, string>& nn, string& o, const contextfree::terminal_dictionary& d) : st(s), t(tt), n(nn), out(o), dict(d) { }
        ~acts() { delete st; }
        dfa::lexeme* read() { dfa::lexeme* l = NULL; (*st) >> l; return l; }
        int shift(const dfa::lexeme_container& l) { auto f = t.find(dict.parent_of(l->matched())); out += VP_STR(" " << (f == t.end() ? string("?") : f->second) << "@" << l->pos().offset()); return 0; }
        int reduce(int nt, int, const vector<int>& items, const dfa::position& look) { auto f = n.find(nt); out += VP_STR(" " << (f == n.end() ? string("*") : f->second) << "/" << items.size() << "@" << look.offset()); return 0; }
    };
};
typedef lr::parser<int, runner::acts> trace_parser;

struct built {
    lang_build b; bool ok, lexOk; map<int, string> t, n; unique_ptr<trace_parser> p; string errors; bool clash, conflicts;
    built(const spec& sp, const written& w, const vector<wstring>& options) : b(w.files.at("main.tp")), ok(false), lexOk(false), clash(false), conflicts(false) {
        for (auto& f : w.files) b.st->files[widen(f.first)] = f.second;
        for (auto& o : options) b.st->options[o] = L"true";
        lexOk = b.lex(L"L");
        if (lexOk) { vector<wstring> st; for (int x : sp.l.g.starts) st.push_back(w.N[x]); ok = b.tables(L"L", st); }
        map<string, int> ids; for (auto& e : b.st->errors) { if (e.id.find("CLASHING") != string::npos) clash = true; if (e.id.find("CONFLICT") != string::npos) conflicts = true; if (e.sev >= compiler::error::sev_warning && e.id != "IMPLICIT_LEXER_SYMBOL" && e.id != "CLASHING_GUARDS") ++ids[e.id]; }
        for (auto& i : ids) errors += VP_STR(" " << i.first << "*" << i.second);
        if (!b.lang) return;
        for (size_t i = 0; i < w.T.size(); ++i) { int id = b.lang->terminals()->symbol_for_name(w.T[i]); VP_CHECK(id >= 0, "there is no symbol " << to_utf8(w.T[i]) << " in\n" << w.all() << b.report()); t[id] = VP_STR("t" << i); }
        for (size_t i = 0; i < w.N.size(); ++i) n[b.lang->grammar()->id_for_nonterminal(w.N[i])] = VP_STR("N" << i);
        if (ok) p.reset(new trace_parser(*b.lr->get_tables()));
    }
    string lexemes(const wstring& in) {
        string o; wistringstream ws(in); unique_ptr<dfa::lexeme_stream> ls(b.lexer->get_lexer()->create_stream_from(ws));
        for (;;) { dfa::lexeme* l = NULL; (*ls) >> l; unique_ptr<dfa::lexeme> hold(l); if (!l) return o; auto f = t.find(b.lang->terminals()->parent_of(l->matched())); o += VP_STR(" " << (l->matched() < 0 ? string("!") : f == t.end() ? string("?") : f->second) << "@" << l->pos().offset() << "+" << l->content().size()); if (l->matched() < 0) return o; }
    }
    string trace(const wstring& in, int start, bool& accepted) {
        string o; wistringstream ws(in); unique_ptr<trace_parser::state> ps(p->create_parser(new runner::acts(b.lexer->get_lexer()->create_stream_from(ws), t, n, o, *b.lang->terminals()), start));
        lr::parser_result::result r; int fuel = 3000; do r = ps->process(); while (r == lr::parser_result::more && --fuel > 0);
        accepted = r == lr::parser_result::accept; return o + (fuel <= 0 ? " ..." : accepted ? " accept" : " reject");
    }
};

static void f_rewritten(Ctx& c) {
    Src& s = c.s; spec sp; if (!gen_lang(c, sp.l, s.chance(1, 8))) throw Discard();
    sp.salt = s.below(1000); sp.attrs = s.chance(1, 4); sp.prec = s.chance(1, 4);
    if (sp.prec) { int n = 1 + s.below(3); sp.levels.resize(n); for (auto& v : sp.levels) v.first = 1 + s.weighted({ 3, 3, 1 }); for (int t = 0; t < sp.l.g.nT; ++t) if (s.chance(3, 4)) sp.levels[s.below(n)].second.push_back(t); }
    writer a(NULL, sp); a.write(); writer b(&s, sp); b.write();
    vector<wstring> opt; if (s.chance(1, 8)) opt.push_back(L"disable-compact-dfa"); if (s.chance(1, 8)) opt.push_back(L"disable-merged-dfa");
    c.note(a.w.all()); c.note("--- written differently"); c.note(b.w.all()); for (auto& o : opt) c.note("--" + to_utf8(o));
    built A(sp, a.w, vector<wstring>());
    if (!A.conflicts && !A.clash && s.chance(1, 6)) { opt.push_back(L"enable-lr1-resolver"); c.note("--enable-lr1-resolver"); }
    built B(sp, b.w, opt);
    VP_CHECK(A.ok == B.ok && A.lexOk == B.lexOk, "one of the two does not compile:" << A.b.report() << "\nand written differently:" << B.b.report());
    VP_CHECK(A.clash == B.clash, "clashing guards are reported for one of the two:" << A.b.report() << "\nand written differently:" << B.b.report());
    VP_CHECK(A.errors == B.errors, "the reports differ:" << A.b.report() << "\nand written differently:" << B.b.report());
    if (!A.lexOk) { c.label("not valid"); return; }
    rg::Gram g = sp.l.g; function<void(rg::Rule&)> drop = [&](rg::Rule& r) { rg::Rule o; for (auto& i : r) { if (i.k == rg::GUARD) continue; o.push_back(i); for (auto& x : o.back().r) drop(x); } r = o; };
    for (auto& x : g.nt) for (auto& r : x) drop(r);
    rg::Low plain(g); static const wchar_t* sep[] = { L" ", L"\n", L"", L"\t ", L"?", L"\xE9 " }; bool acc = false; int longest = 0;
    for (int i = 0; i < 8; ++i) {
        int k = s.below((uint32_t) g.starts.size()); vector<int> toks = rg::gen_input(s, plain, g.starts[k], g.nT); wstring in;
        for (int x : toks) { in += sp.l.T[x].samples[s.below((uint32_t) sp.l.T[x].samples.size())]; in += sep[s.weighted({ 14, 3, 1, 1, i ? 0 : 1, i ? 0 : 1 })]; }
        string la = A.lexemes(in), lb = B.lexemes(in);
        VP_CHECK(la == lb, "the text " << vp::show(in) << " is read as" << la << ", written differently as" << lb);
        if (!A.ok || A.clash) continue;
        bool xa, xb; string ta = A.trace(in, k, xa), tb = B.trace(in, k, xb);
        VP_CHECK(ta == tb, "the text " << vp::show(in) << " is parsed as" << ta << ", written differently as" << tb);
        if (xa) { acc = true; longest = max(longest, (int) toks.size()); c.label("accepted"); } else c.label("rejected");
    }
    if (!A.ok) c.label("lexer only"); if (A.clash) c.label("clashing guards"); if (A.conflicts) c.label("conflicts");
    if (acc && longest > 1 && a.w.all() != b.w.all()) c.nontrivial(a.w.all() + b.w.all());
}

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "rewritten", f_rewritten, 20000, 700000, "random languages (EBNF, guards, named items, precedence, conflict attributes, weak, case insensitive and clashing symbols) written twice: other names for rules and symbols, rules, alternatives and blocks in another order, literals as declared weak keywords, characters or undeclared names, regular expressions through lexer-symbols, extra brackets, comments, rules that are not used, parts moved to a base language or an imported file and added to or replaced, automaton options; the reports, the lexemes of every text and every step of the parser have to be the same; non-trivial: a text of two or more symbols is accepted", 60 },
    };
    return run_main(argc, argv, "C23", f, { "when guards clash, which of them is taken is not judged" });
}

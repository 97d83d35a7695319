// Whole languages: random lexer blocks, lexer-symbols, grammars and chains of inheritance, what they mean, and how the
// library has to lex and parse text with them. Nothing here is taken from the library: the meaning comes from the manual.

#ifndef LANGMODEL_H
#define LANGMODEL_H

#include "lang.h"

namespace vp { namespace lm {

// ---------------------------------------------------------------- regular expressions

enum rk { r_set, r_cat, r_alt, r_star, r_plus, r_opt, r_ref };
struct rnode; typedef std::shared_ptr<rnode> rx;
struct rnode { rk k; std::set<char> chars; std::string text; std::vector<rx> kids; };
inline rx mk(rk k, const std::vector<rx>& kids = std::vector<rx>()) { rx n(new rnode()); n->k = k; n->kids = kids; return n; }
inline rx chr(char c) { rx n = mk(r_set); n->chars.insert(c); n->text = strchr("()[]{}|*+?.\\^-/\"", c) ? std::string("\\") + c : std::string(1, c); return n; }
inline rx word(const std::string& s) { std::vector<rx> k; for (char c : s) k.push_back(chr(c)); return mk(r_cat, k); }

inline std::string print(const rx& n) {
    std::string o;
    switch (n->k) {
        case r_set: return n->text;
        case r_ref: return "{" + n->text + "}";
        case r_cat: for (auto& k : n->kids) o += k->k == r_alt ? "(" + print(k) + ")" : print(k); return o;
        case r_alt: for (size_t i = 0; i < n->kids.size(); ++i) o += (i ? "|" : "") + print(n->kids[i]); return o;
        default: o = n->kids[0]->k == r_cat || n->kids[0]->k == r_alt ? "(" + print(n->kids[0]) + ")" : print(n->kids[0]); return o + (n->k == r_star ? "*" : n->k == r_plus ? "+" : "?");
    }
}
inline rx gen_re(Src& s, int depth, const std::vector<std::string>& refs) {
    auto atom = [&]() -> rx {
        if (!refs.empty() && s.chance(2, 5)) { rx n = mk(r_ref); n->text = s.pick(refs); return n; }
        switch (depth > 0 ? s.weighted({ 6, 4, 3 }) : s.weighted({ 3, 2 })) {
            case 0: return chr("abAB01"[s.below(6)]);
            case 1: {
                static const struct { const char* t, * c; } sets[] = { { "[ab]", "ab" }, { "[a-b]", "ab" }, { "[AB]", "AB" }, { "[aA]", "aA" }, { "[01]", "01" }, { "[a-b0]", "ab0" }, { "[A-B1]", "AB1" }, { "[abAB]", "abAB" } };
                auto& d = sets[s.below(8)]; rx n = mk(r_set); n->text = d.t; for (const char* c = d.c; *c; ++c) n->chars.insert(*c); return n;
            }
            default: return gen_re(s, depth - 1, refs);
        }
    };
    auto piece = [&]() -> rx { rx a = atom(); switch (s.weighted({ 6, 1, 3, 1 })) { case 1: return mk(r_star, { a }); case 2: return mk(r_plus, { a }); case 3: return mk(r_opt, { a }); default: return a; } };
    auto cat = [&]() -> rx { int n = 1 + s.below(3); std::vector<rx> k; for (int i = 0; i < n; ++i) k.push_back(piece()); return k.size() == 1 ? k[0] : mk(r_cat, k); };
    if (s.chance(1, 4)) return mk(r_alt, { cat(), cat() });
    return cat();
}

inline bool nullable(const rx& n) {
    switch (n->k) {
        case r_set: case r_ref: return false;
        case r_cat: for (auto& k : n->kids) if (!nullable(k)) return false; return true;
        case r_alt: for (auto& k : n->kids) if (nullable(k)) return true; return false;
        case r_plus: return nullable(n->kids[0]);
        default: return true;
    }
}

// ---------------------------------------------------------------- what is written

struct def_t { int kind; std::string lit; rx re; def_t() : kind(0) { } };       // 0 regex 1 string 2 character 3 the name itself
struct litem { std::string name; int op; def_t d; int line; litem() : op(0), line(0) { } };                 // op: 0 =, 1 |=, 2 replace
struct gitem { int k; std::string name; };                  // 0 declared terminal 1 literal (name is its text) 2 any number of a nonterminal
typedef std::vector<gitem> alt_t;
struct ntdef { std::string name; int op; std::vector<alt_t> alts; std::vector<int> altLine; int line; ntdef() : op(0), line(0) { } };
enum { b_kw, b_lex, b_ign, b_sym, b_gram };
struct block_t { int type; bool weak, ci, cs; std::vector<litem> items; std::vector<ntdef> nts; block_t() : type(0), weak(false), ci(false), cs(false) { } };
struct lang_t { std::string name, base, file; std::vector<block_t> blocks; int line; };

inline std::string sym_of(const gitem& g) { return g.k == 1 ? "\"" + g.name + "\"" : g.name; }
inline std::string show(const gitem& g) { return g.k == 2 ? "<" + g.name + ">*" : sym_of(g); }
inline std::string show(const alt_t& a) { std::string o; for (auto& g : a) o += (o.empty() ? "" : " ") + show(g); return o; }

struct printer {
    std::string out; int line;
    printer() : line(1) { }
    int put(const std::string& s) { int l = line; out += s + "\n"; ++line; return l; }
    void lang(lang_t& l) {
        l.line = put("language " + l.name + (l.base.empty() ? "" : " : " + l.base) + " {");
        static const char* names[] = { "keywords", "lexer", "ignore", "lexer-symbols", "grammar" };
        for (auto& b : l.blocks) {
            put(std::string("  ") + (b.weak ? "weak " : "") + (b.ci ? "case insensitive " : b.cs ? "case sensitive " : "") + names[b.type] + " {");
            for (auto& i : b.items) {
                std::string d = i.d.kind == 0 ? "/" + print(i.d.re) + "/" : i.d.kind == 1 ? "\"" + i.d.lit + "\"" : "'" + i.d.lit + "'";
                i.line = put("    " + std::string(i.op == 2 ? "replace " : "") + i.name + (i.d.kind == 3 ? "" : (i.op == 1 ? " |= " : " = ") + d));
            }
            for (auto& n : b.nts) {
                n.altLine.clear();
                for (size_t k = 0; k < n.alts.size(); ++k) { int at = put(k ? "      | " + show(n.alts[k]) : "    " + std::string(n.op == 2 ? "replace " : "") + "<" + n.name + ">" + (n.op == 1 ? " |= " : " = ") + show(n.alts[k])); if (!k) n.line = at; n.altLine.push_back(at); }
            }
            put("  }");
        }
        put("}");
    }
};

// ---------------------------------------------------------------- what it means

struct ldef { def_t d; bool ci, cs; };
struct lsym { std::string name; int type; bool weak, implicit; std::vector<ldef> defs; };
struct problem { std::string id, file; int line; bool operator<(const problem& o) const { return std::tie(id, file, line) < std::tie(o.id, o.file, o.line); } bool operator==(const problem& o) const { return id == o.id && file == o.file && line == o.line; } };

/// A language with everything it inherits
struct flat {
    std::vector<lsym> syms;                                 // in order of priority within their class
    std::map<std::string, std::vector<ldef> > exprs;
    std::map<std::string, std::vector<alt_t> > nts;
    std::set<std::string> everUsed;                         // symbols that some rule uses, or that one used before it was replaced
    std::vector<problem> problems;
    std::set<problem> implicits;

    lsym* find(const std::string& n) { for (auto& s : syms) if (s.name == n) return &s; return NULL; }
    void problemAt(const char* id, const lang_t& l, int line) { problems.push_back(problem{ id, l.file, line }); }
    void apply(const lang_t& l) {
        for (auto& b : l.blocks) if (b.type == b_sym) for (auto& i : b.items) {
            bool have = exprs.count(i.name) && !exprs[i.name].empty();
            if (have && i.op == 0) problemAt("DUPLICATE_LEXER_SYMBOL", l, i.line);
            if (!have && i.op == 1) problemAt("MISSING_LEXER_SYMBOL_FOR_ADDING", l, i.line);
            if (!have && i.op == 2) problemAt("MISSING_LEXER_SYMBOL_FOR_REPLACING", l, i.line);
            if (i.op == 2) exprs[i.name].clear();
            exprs[i.name].push_back(ldef{ i.d, b.ci, b.cs });
        }
        for (int weak = 1; weak >= 0; --weak) for (int type = b_kw; type <= b_ign; ++type) for (auto& b : l.blocks) {
            bool isWeak = b.weak && b.type != b_ign;
            if (b.type != type || isWeak != (weak == 1)) continue;
            for (auto& i : b.items) {
                lsym* s = find(i.name);
                if (i.op == 0) {
                    if (s) { problemAt("DUPLICATE_LEXER_SYMBOL", l, i.line); continue; }
                    syms.push_back(lsym()); s = &syms.back(); s->name = i.name; s->implicit = false;
                } else if (!s) { problemAt(i.op == 1 ? "MISSING_LEXER_SYMBOL_FOR_ADDING" : "MISSING_LEXER_SYMBOL_FOR_REPLACING", l, i.line); continue; }
                else if (i.op == 1 && s->type != type) { problemAt("CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE", l, i.line); continue; }
                if (i.op != 1) { s->defs.clear(); s->type = type; s->weak = isWeak; }
                def_t d = i.d; if (d.kind == 3) { d.kind = 1; d.lit = i.name; }
                s->defs.push_back(ldef{ d, b.ci, b.cs });
            }
        }
        for (auto& b : l.blocks) for (auto& n : b.nts) for (size_t k = 0; k < n.alts.size(); ++k) for (auto& g : n.alts[k]) {
            if (g.k == 2 || find(sym_of(g))) continue;
            syms.push_back(lsym()); lsym& s = syms.back(); s.name = sym_of(g); s.type = b_kw; s.weak = true; s.implicit = true;
            def_t d; d.kind = 1; d.lit = g.name; s.defs.push_back(ldef{ d, false, false });
            if (g.k == 0) implicits.insert(problem{ "IMPLICIT_LEXER_SYMBOL", l.file, n.altLine.empty() ? 0 : n.altLine[k] });
        }
        std::map<std::string, int> firstUse;
        for (auto& b : l.blocks) for (auto& n : b.nts) {
            bool have = nts.count(n.name) && !nts[n.name].empty();
            if (n.op == 0 && have) problemAt("DUPLICATE_NONTERMINAL_DEFINITION", l, n.line);
            if (n.op == 2) nts[n.name].clear();
            for (size_t k = 0; k < n.alts.size(); ++k) { nts[n.name].push_back(n.alts[k]); for (auto& g : n.alts[k]) if (g.k == 2) firstUse.insert(std::make_pair(g.name, n.altLine.empty() ? 0 : n.altLine[k])); }
        }
        for (auto& u : firstUse) if (!nts.count(u.first) || nts[u.first].empty()) problemAt("UNDEFINED_NONTERMINAL", l, u.second);
        for (auto& n : used()) everUsed.insert(n);
    }
    std::set<std::string> used() const { std::set<std::string> o; for (auto& n : nts) for (auto& a : n.second) for (auto& g : a) if (g.k != 2) o.insert(sym_of(g)); return o; }
    bool weaker(int a, int b) const {       // a gives way to b
        if (syms[a].weak != syms[b].weak) return syms[b].weak;
        if (syms[a].type != syms[b].type) return syms[b].type < syms[a].type;
        return b < a;
    }
};

/// The deterministic automaton for all the symbols of a language together
struct automaton {
    struct nfa { std::vector<std::vector<std::pair<std::string, int> > > edge; std::map<int, int> accept; int add() { edge.push_back(std::vector<std::pair<std::string, int> >()); return (int) edge.size() - 1; } } n;
    const flat& f;
    std::vector<std::map<char, int> > next; std::vector<std::vector<int> > syms; std::vector<int> W, S;
    std::vector<std::string> example;                       // a text that leads to each state

    static std::string cls(const std::set<char>& c, bool ci) { std::set<char> o; for (char x : c) { o.insert(x); if (ci) { o.insert((char) tolower(x)); o.insert((char) toupper(x)); } } return std::string(o.begin(), o.end()); }
    int build(const rx& r, bool ci, int from) {
        switch (r->k) {
            case r_set: { int t = n.add(); n.edge[from].push_back(std::make_pair(cls(r->chars, ci), t)); return t; }
            case r_cat: for (auto& k : r->kids) from = build(k, ci, from); return from;
            case r_alt: { int t = n.add(); for (auto& k : r->kids) { int st = n.add(); eps(from, st); eps(build(k, ci, st), t); } return t; }
            case r_ref: {
                int t = n.add(); auto e = f.exprs.find(r->text); if (e == f.exprs.end()) throw Discard();
                for (auto& d : e->second) { int st = n.add(); eps(from, st); bool sub = d.ci ? true : d.cs ? false : ci; eps(build(d.d.kind == 0 ? d.d.re : word(d.d.lit), sub, st), t); }
                return t;
            }
            default: { int st = n.add(), t = n.add(); eps(from, st); int e = build(r->kids[0], ci, st); eps(e, t); if (r->k != r_plus) eps(st, t); if (r->k != r_opt) eps(e, st); return t; }
        }
    }
    void eps(int a, int b) { n.edge[a].push_back(std::make_pair(std::string(), b)); }
    void close(std::set<int>& s) const { std::vector<int> w(s.begin(), s.end()); while (!w.empty()) { int x = w.back(); w.pop_back(); for (auto& e : n.edge[x]) if (e.first.empty() && s.insert(e.second).second) w.push_back(e.second); } }

    explicit automaton(const flat& fl) : f(fl) {
        std::set<int> start; n.add(); start.insert(0);
        for (size_t i = 0; i < f.syms.size(); ++i) for (auto& d : f.syms[i].defs) { int st = n.add(); eps(0, st); int e = build(d.d.kind == 0 ? d.d.re : word(d.d.lit), d.ci, st); int a = n.add(); eps(e, a); n.accept[a] = (int) i; }
        if (n.edge.size() > 3000) throw Discard();
        close(start); std::map<std::set<int>, int> ids; std::vector<std::set<int> > sets; ids[start] = 0; sets.push_back(start); example.push_back("");
        for (size_t i = 0; i < sets.size(); ++i) {
            if (sets.size() > 400) throw Discard();
            std::map<char, std::set<int> > to; for (int x : sets[i]) for (auto& e : n.edge[x]) for (char c : e.first) to[c].insert(e.second);
            next.push_back(std::map<char, int>());
            for (auto& t : to) { close(t.second); auto in = ids.insert(std::make_pair(t.second, (int) sets.size())); if (in.second) { sets.push_back(t.second); example.push_back(example[i] + t.first); } next[i][t.first] = in.first->second; }
            std::set<int> a; for (int x : sets[i]) { auto k = n.accept.find(x); if (k != n.accept.end()) a.insert(k->second); }
            syms.push_back(std::vector<int>(a.begin(), a.end()));
            int w = -1, s = -1; for (int x : a) { if (w < 0 || f.weaker(w, x)) w = x; if (!f.syms[x].weak && (s < 0 || f.weaker(s, x))) s = x; }
            W.push_back(w); S.push_back(s);
        }
    }
    /// Weak symbols that stand for different strong ones (or none) depending on how they are written
    std::set<int> split() const {
        std::map<int, std::set<int> > m; for (size_t i = 0; i < W.size(); ++i) if (W[i] >= 0 && f.syms[W[i]].weak) m[W[i]].insert(S[i]);
        std::set<int> o; for (auto& x : m) if (x.second.size() > 1) o.insert(x.first); return o;
    }
};

struct ltok { int w, s; int at; std::string text; };
/// Reads the whole text, or up to where nothing matches (bad is set)
inline std::vector<ltok> lex(const automaton& a, const std::string& in, int& bad) {
    std::vector<ltok> o; size_t p = 0; bad = -1;
    while (p < in.size()) {
        int st = 0, best = -1; size_t end = p;
        for (size_t i = p; i < in.size(); ++i) { auto x = a.next[st].find(in[i]); if (x == a.next[st].end()) break; st = x->second; if (a.W[st] >= 0) { best = st; end = i + 1; } }
        if (best < 0) { bad = (int) p; return o; }
        o.push_back(ltok{ a.W[best], a.S[best], (int) p, in.substr(p, end - p) }); p = end;
    }
    return o;
}

/// The grammars are LL(1) with every alternative starting with a terminal: a stack of places is enough to parse
struct ll {
    const flat& f; std::string start;
    struct place { const std::vector<gitem>* alt; size_t pos; };
    std::vector<place> st; alt_t root;
    ll(const flat& fl, const std::string& s) : f(fl), start(s) { root.push_back(gitem{ 2, s }); st.push_back(place{ &root, 0 }); }
    /// 0: cannot be next; 1: can
    bool can(const std::string& t) const {
        const place& p = st.back(); const gitem& g = (*p.alt)[p.pos];
        if (g.k != 2) return sym_of(g) == t;
        auto n = f.nts.find(g.name); if (n != f.nts.end()) for (auto& a : n->second) if (sym_of(a[0]) == t) return true;
        return p.pos + 1 < p.alt->size() && sym_of((*p.alt)[p.pos + 1]) == t;
    }
    void shift(const std::string& t) {
        place& p = st.back(); const gitem& g = (*p.alt)[p.pos];
        if (g.k == 2) {
            for (auto& a : f.nts.find(g.name)->second) if (sym_of(a[0]) == t) { st.push_back(place{ &a, 1 }); pop(); return; }
            ++p.pos;
        }
        ++p.pos; pop();
    }
    void pop() { while (st.size() > 1 && st.back().pos >= st.back().alt->size()) st.pop_back(); }
    bool done() const { return st.size() == 1; }
    std::vector<std::string> expected() const {
        std::vector<std::string> o; const place& p = st.back(); const gitem& g = (*p.alt)[p.pos];
        if (g.k != 2) { o.push_back(sym_of(g)); return o; }
        auto n = f.nts.find(g.name); if (n != f.nts.end()) for (auto& a : n->second) o.push_back(sym_of(a[0]));
        if (p.pos + 1 < p.alt->size()) { o.push_back(sym_of((*p.alt)[p.pos + 1])); o.push_back(o.back()); }
        return o;
    }
};

/// True if a stack of places is enough to parse with these rules
inline bool deterministic(const flat& f) {
    for (auto& n : f.nts) if (n.first != "Top") {
        std::set<std::string> first; for (auto& a : n.second) if (a.empty() || a[0].k == 2 || !first.insert(sym_of(a[0])).second) return false;
        for (auto& a : n.second) for (size_t i = 0; i < a.size(); ++i) if (a[i].k == 2) {
            if (i + 1 >= a.size() || a[i + 1].k == 2) return false;
            auto x = f.nts.find(a[i].name); if (x == f.nts.end()) return false;
            for (auto& b : x->second) if (!b.empty() && sym_of(b[0]) == sym_of(a[i + 1])) return false;
        }
    }
    return true;
}

// ---------------------------------------------------------------- making them

struct maker {
    Src& s; int nsym, nls, nlang; bool rich;
    std::vector<std::string> ntNames;
    explicit maker(Src& src) : s(src), nsym(0), nls(0), nlang(0), rich(true) { }

    std::string letters() { std::string o; int n = 1 + s.below(3); for (int i = 0; i < n; ++i) o += "abAB01"[s.below(i ? 6 : 4)]; return o; }
    def_t gen_def(const std::vector<std::string>& refs, bool ign, bool kw) {
        def_t d; int k = s.weighted({ kw ? 2 : 5, 4, 2 });
        if (ign && s.chance(3, 4)) { static const char* t[] = { " ", " +", ";", ",+", " ;" }; int x = s.below(5); d.kind = 0; std::string q = t[x]; if (q.size() == 2 && q[1] == '+') d.re = mk(r_plus, { chr(q[0]) }); else d.re = word(q); return d; }
        if (k == 0) { d.kind = 0; for (int i = 0; i < 6; ++i) { d.re = gen_re(s, 1, refs); if (!nullable(d.re)) break; } }
        else { d.kind = k; d.lit = k == 2 ? std::string(1, "abAB01(),"[s.below(9)]) : letters(); }
        return d;
    }
    std::vector<std::string> refs(const flat& f, const std::string& below) { std::vector<std::string> o; for (auto& e : f.exprs) if (!e.second.empty() && (below.empty() || order(e.first) < order(below))) o.push_back(e.first); return o; }
    static int order(const std::string& n) { return atoi(n.c_str() + 2); }
    std::string new_name(bool ident) {
        // names that sort differently from the order they are made in, and some that are texts themselves
        ++nsym; if (ident) { std::string t = letters(); if (isalpha((unsigned char) t[0])) return t; }
        return std::string(1, "zqmhcw"[nsym % 6]) + std::to_string(nsym);
    }
    /// Adds blocks to the language; base is what it inherits
    void fill(lang_t& l, const flat& base) {
        flat f = base; int nb = s.below(rich ? 5 : 4) + (base.syms.empty() ? 2 : 0);
        auto redo = [&]() { f = base; f.apply(l); };
        // lexer-symbols come first, so that their names are known
        std::vector<std::string> mine; int ns = 0;
        for (int nb2 = s.chance(1, 4) ? 2 : 1; nb2 > 0; --nb2) if ((ns = s.weighted({ 3, 2, 1 }))) {
            block_t b; b.type = b_sym; b.ci = s.chance(1, 4); b.cs = !b.ci && s.chance(1, 5);
            for (int i = 0; i < ns; ++i) {
                litem it; std::vector<std::string> have = refs(base, ""); std::set<std::string> now; for (auto& x : b.items) now.insert(x.name);
                if (!have.empty() && s.chance(2, 3)) { it.name = s.pick(have); it.op = 1 + s.below(2); if (now.count(it.name)) continue; } else if (!mine.empty() && s.chance(1, 2)) { it.name = s.pick(mine); it.op = 1; } else { it.name = "ls" + std::to_string(nls++); mine.push_back(it.name); }
                it.d = gen_def(refs(f, it.name), false, false); if (it.d.kind == 3) it.d.kind = 1;
                b.items.push_back(it);
                l.blocks.push_back(b); redo(); l.blocks.pop_back();
            }
            if (!b.items.empty()) l.blocks.push_back(b);
            redo();
        }
        for (int k = 0; k < nb; ++k) {
            block_t b; b.type = s.weighted({ 3, 4, 2 }); b.weak = s.chance(1, 3); b.ci = s.chance(1, 4); b.cs = !b.ci && s.chance(1, 6); if (b.type == b_ign) b.weak = b.ci = b.cs = false;
            bool isWeak = b.weak && b.type != b_ign;
            int n = 1 + s.below(3);
            for (int i = 0; i < n; ++i) {
                litem it; std::vector<std::string> same, any; std::set<std::string> touched; for (auto& x : l.blocks) for (auto& y : x.items) if (x.type != b_sym) touched.insert(y.name); for (auto& x : b.items) touched.insert(x.name);
                for (auto& x : base.syms) if (!x.implicit && !touched.count(x.name)) { any.push_back(x.name); if (x.type == b.type) same.push_back(x.name); }
                for (auto& x : b.items) if (x.op == 0) same.push_back(x.name);
                int what = s.weighted({ 5, same.empty() ? 0 : 4, any.empty() ? 0 : 2 });
                if (what == 1) {
                    it.name = s.pick(same); it.op = 1;
                    // how strong a symbol is cannot change by adding to it
                    bool own = false; for (auto& x : b.items) if (x.name == it.name) own = true;
                    if (!own) { bool w = false; for (auto& x : base.syms) if (x.name == it.name) w = x.weak; if (w != isWeak) continue; }
                } else if (what == 2) { it.name = s.pick(any); it.op = 2; }
                else { it.name = new_name(s.chance(1, 3)); if (f.find(it.name) || touched.count(it.name)) continue; }
                it.d = gen_def(refs(f, ""), b.type == b_ign, b.type == b_kw);
                if (b.type != b_lex && it.op == 0 && s.chance(1, b.type == b_kw ? 3 : 12)) { it.d = def_t(); it.d.kind = 3; }
                b.items.push_back(it);
            }
            if (!b.items.empty()) l.blocks.push_back(b);
        }
        // the order of blocks in the text
        for (size_t i = 1; i < l.blocks.size(); ++i) if (s.chance(1, 3) && !(l.blocks[i - 1].type == b_sym && l.blocks[i].type == b_sym)) std::swap(l.blocks[i - 1], l.blocks[i]);
        redo();
        grammar(l, f, base);
        redo();
    }
    void grammar(lang_t& l, flat& f, const flat& base) {
        bool first = base.nts.empty();
        int n = first ? 2 + s.below(2) : s.below(3);
        block_t b; b.type = b_gram;
        for (int i = 0; i < n; ++i) {
            ntdef d;
            std::vector<std::string> have; for (auto& x : f.nts) if (!x.second.empty() && x.first != "Top") have.push_back(x.first);
            if (first) { d.name = i == 0 ? "S" : "N" + std::to_string(i); }
            else if (!have.empty() && s.chance(4, 5)) { d.name = s.pick(have); d.op = 1 + s.below(2); }
            else { d.name = "N" + std::to_string(nlang) + std::to_string(i) + "x"; if (f.nts.count(d.name)) continue; }
            int na = 1 + s.below(3) + (d.op == 1 ? 0 : 1);
            std::vector<std::string> names = have; names.push_back(d.name); if (first) for (int k = 0; k < i; ++k) names.push_back(k == 0 ? "S" : "N" + std::to_string(k));
            for (int k = 0; k < na; ++k) {
                alt_t a; int len = 1 + s.weighted({ 6, 2, 1 });
                for (int j = 0; j < len; ++j) a.push_back(term(f));
                if (s.chance(1, 3)) { a.push_back(gitem{ 2, s.pick(names) }); a.push_back(term(f)); }
                // keep the rules deterministic
                block_t t = b; ntdef nd = d; nd.alts.push_back(a); t.nts.push_back(nd);
                lang_t x = l; x.blocks.push_back(t); flat g = base; g.apply(x);
                if (deterministic(g)) d.alts.push_back(a);
            }
            if (d.alts.empty()) continue;
            b.nts.push_back(d);
            lang_t x = l; x.blocks.push_back(b); f = base; f.apply(x);
        }
        if (first && !b.nts.empty()) { ntdef d; d.name = "Top"; d.alts.push_back(alt_t(1, gitem{ 2, "S" })); b.nts.insert(b.nts.begin() + s.below((uint32_t) b.nts.size() + 1), d); }
        if (b.nts.empty()) return;
        // possibly in two blocks
        if (b.nts.size() > 1 && s.chance(1, 3)) { block_t b2 = b; b2.nts.erase(b2.nts.begin()); b.nts.resize(1); l.blocks.insert(l.blocks.begin() + s.below((uint32_t) l.blocks.size() + 1), b); l.blocks.push_back(b2); }
        else l.blocks.insert(l.blocks.begin() + s.below((uint32_t) l.blocks.size() + 1), b);
    }
    gitem term(const flat& f) {
        std::vector<std::string> d; for (auto& x : f.syms) if (!x.implicit) { d.push_back(x.name); if (x.type != b_ign) d.push_back(x.name); }
        if (!d.empty() && s.chance(3, 4)) return gitem{ 0, s.pick(d) };
        if (s.chance(1, 8)) { std::string t = letters(); if (isalpha((unsigned char) t[0])) return gitem{ 0, t }; }
        if (s.chance(1, 3)) return gitem{ 1, std::string(1, "(),"[s.below(3)]) };
        return gitem{ 1, letters() };
    }
};

}}

#endif

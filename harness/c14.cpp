// C14: precedence and associativity declarations decide shift/reduce conflicts as documented

#include "vp.h"
#include "resolve_case.h"

using namespace std;
using namespace vp;

// ---- expressions, against precedence climbing

struct op { string text; int level, assoc; bool binary, prefix, postfix; int id; };
struct tok { int op; string text; };            // op -1: atom, -2: (, -3: )

struct climber {
    const vector<op>& ops; const vector<tok>& in; size_t pos; bool bad;
    climber(const vector<op>& o, const vector<tok>& i) : ops(o), in(i), pos(0), bad(false) { }
    string primary() {
        if (pos >= in.size()) { bad = true; return ""; }
        const tok& t = in[pos];
        if (t.op == -1) { ++pos; return "x"; }
        if (t.op == -2) { ++pos; string r = expr(-1, 0); if (bad || pos >= in.size() || in[pos].op != -3) { bad = true; return ""; } ++pos; return "( " + r + " )"; }
        if (t.op >= 0 && ops[t.op].prefix) { ++pos; string r = expr(ops[t.op].level, ops[t.op].assoc); return "[" + t.text + " " + r + "]"; }
        bad = true; return "";
    }
    /// An expression whose operators may be taken after an operator of the given level
    string expr(int level, int assoc) {
        string lhs = primary();
        while (!bad && pos < in.size() && in[pos].op >= 0) {
            const op& o = ops[in[pos].op];
            if (!o.binary && !o.postfix) { bad = true; return ""; }
            if (level >= 0) { if (o.level < level) break; if (o.level == level && assoc == leftAssoc) break; }
            ++pos;
            if (o.postfix) { lhs = "[" + lhs + " " + o.text + "]"; continue; }
            string rhs = expr(o.level, o.assoc);
            lhs = "[" + lhs + " " + o.text + " " + rhs + "]";
        }
        return lhs;
    }
    string all() { string r = expr(-1, 0); if (pos != in.size()) bad = true; return r; }
};

static void f_expr(Ctx& c) {
    static const vector<string> pool = { "+", "-", "*", "/", "%", "^", "<", "==", "&&", "||", "**", "++", "=>", "<<", "!", "and", "or", "not", "mod" };
    int levels = 1 + c.s.below(4); vector<int> assoc; for (int l = 0; l < levels; ++l) assoc.push_back(1 + c.s.weighted({4, 4, 1}));
    int n = 1 + c.s.below(6); vector<op> ops; set<string> used;
    for (int i = 0; i < n; ++i) {
        op o; o.text = c.s.pick(pool); if (!used.insert(o.text).second) continue;
        o.level = c.s.below(levels); o.assoc = assoc[o.level]; int k = c.s.weighted({6, 2, 1, 1});
        o.binary = k < 2; o.prefix = k == 1 || k == 2; o.postfix = k == 3;
        ops.push_back(o);
    }
    auto quote = [&](const string& s) { return s.size() == 1 && !isalpha(s[0]) ? "'" + s + "'" : "\"" + s + "\""; };
    string text = "language Calc {\n  lexer { number = /[0-9]+/ }\n  ignore { ws = /[ \\t\\n]+/ }\n";
    string gt = "  grammar {\n    <E> = number\n        | '(' <E> ')'\n";
    for (auto& o : ops) { if (o.binary) gt += "        | <E> " + quote(o.text) + " <E>\n"; if (o.prefix) gt += "        | " + quote(o.text) + " <E>\n"; if (o.postfix) gt += "        | <E> " + quote(o.text) + "\n"; }
    gt += "  }\n";
    string pt = "  precedence {\n";
    for (int l = 0; l < levels; ++l) { pt += string("    ") + (assoc[l] == leftAssoc ? "left" : assoc[l] == rightAssoc ? "right" : "non-associative") + " {"; for (auto& o : ops) if (o.level == l) pt += " " + quote(o.text); pt += " }\n"; }
    pt += "  }\n";
    text += (c.s.chance(1, 2) ? gt + pt : pt + gt) + "}\n";
    c.note(text);
    lang_build b(text);
    bool ok = b.tables(L"Calc", vector<wstring>(1, L"<E>"));
    VP_CHECK(ok, "the language does not compile:" << b.report());
    // operators that are declared non-associative leave their conflicts
    bool anyNon = false; for (auto& o : ops) if (o.assoc == nonassoc && (o.binary || o.prefix)) anyNon = true;
    int got = b.count("CONFLICT_SHIFT_REDUCE");
    bool wantNon = false; for (auto& o : ops) for (auto& q : ops) if (o.assoc == nonassoc && o.level == q.level && (o.binary || o.prefix) && (q.binary || q.postfix)) wantNon = true;
    VP_CHECK((got > 0) == wantNon, got << " conflicts are left, " << (wantNon ? "the non-associative ones should be" : "none should be") << ":" << b.report());
    (void) anyNon;
    text_parser p(*b.lr->get_tables());
    contextfree::grammar& gram = *b.lang->grammar();
    int deep = 0;
    for (int i = 0; i < 8; ++i) {
        vector<tok> in; int depth = 0; bool operand = true; int len = 3 + c.s.below(14);
        for (int k = 0; k < len || operand; ++k) {
            if (operand) {
                int w = k > len + 4 ? 0 : c.s.weighted({6, 2, 2});
                if (w == 1 && depth < 4) { in.push_back(tok{-2, "("}); ++depth; continue; }
                if (w == 2) { vector<int> pre; for (size_t q = 0; q < ops.size(); ++q) if (ops[q].prefix) pre.push_back((int) q); if (!pre.empty()) { int q = c.s.pick(pre); in.push_back(tok{q, ops[q].text}); continue; } }
                in.push_back(tok{-1, to_string(c.s.below(100))}); operand = false;
            } else {
                if (depth && c.s.chance(1, 4)) { in.push_back(tok{-3, ")"}); --depth; continue; }
                vector<int> bi; for (size_t q = 0; q < ops.size(); ++q) if (ops[q].binary || ops[q].postfix) bi.push_back((int) q);
                if (bi.empty()) break;
                int q = c.s.pick(bi); in.push_back(tok{q, ops[q].text}); operand = ops[q].binary;
            }
        }
        while (depth--) in.push_back(tok{-3, ")"});
        if (c.s.chance(1, 5)) { size_t at = c.s.below((uint32_t) in.size()); if (c.s.chance(1, 2)) in.erase(in.begin() + at); else in.insert(in.begin() + at, in[c.s.below((uint32_t) in.size())]); }
        string src; vector<size_t> at; for (auto& t : in) { src += c.s.chance(1, 6) ? "  " : " "; at.push_back(src.size()); src += t.text; }
        c.note("input: " + src);
        climber cl(ops, in); string want = cl.all(); if (cl.bad) want = "(rejected)";
        wstringstream ws(widen(src));
        dfa::lexeme_stream* stream = b.lexer->get_lexer()->create_stream_from(ws);
        unique_ptr<text_parser::state> st(p.create_parser(new text_actions(stream)));
        lr::parser_result::result r; int steps = 0; do { r = st->process(); VP_CHECK(++steps < 20000, "the parser does not stop"); } while (r == lr::parser_result::more);
        string res = "(rejected)";
        if (r == lr::parser_result::accept) {
            function<string(const pnode_p&)> show = [&](const pnode_p& nd) -> string {
                if (nd->term) { string w = src.substr(nd->token, nd->lookOffset); return isdigit((unsigned char) w[0]) ? "x" : w; }
                if (nd->kids.size() == 1) return show(nd->kids[0]);
                string o; for (auto& k : nd->kids) o += (o.empty() ? "" : " ") + show(k);
                return o[0] == '(' && nd->kids[0]->term && src[nd->kids[0]->token] == '(' ? o : "[" + o + "]";
            };
            res = show(st->get_item());
        }
        VP_CHECK(res == want, "parsed as " << res << ", the declared precedence gives " << want);
        int nops = 0; for (auto& t : in) if (t.op >= 0) ++nops;
        if (!cl.bad && nops > 1) { ++deep; c.nontrivial(text + src); }
        c.label(cl.bad ? "rejected" : "accepted");
    }
    (void) gram;
}

static void f_gram(Ctx& c) { rg::gen_opts o; o.ebnf = c.s.below(2); o.maxNT = 3; o.maxT = 5; resolve_case(c, o, c.s.chance(1, 2), true, false); }
static void f_big(Ctx& c) { rg::gen_opts o; o.ebnf = c.s.below(3); o.maxNT = 5; o.maxT = 8; resolve_case(c, o, c.s.chance(3, 4), true, false); }

int main(int argc, char** argv) {
    vector<Facet> f = {
        { "expressions", f_expr, 20000, 500000, "languages with binary, prefix and postfix operators on random precedence levels, written as definition text; 8 expressions each lexed and parsed and the tree compared with precedence climbing; non-trivial: an accepted expression with two or more operators", 30 },
        { "grammars", f_gram, 60000, 2000000, "random grammars with random precedence declarations; unresolved conflicts, acceptance, the failing token and the reductions of 8 inputs compared with a reference LALR(1) automaton resolved by the declared precedence; non-trivial: a declaration decides a conflict and an input of three or more tokens is accepted", 30 },
        { "big", f_big, 20000, 500000, "the same with larger grammars and EBNF", 30 },
    };
    return run_main(argc, argv, "C14", f, { "grammars without reduce/reduce conflicts", "rules in a conflict have at most one terminal with a declared precedence (the manual and the code disagree about several)", "one precedence block per language" });
}

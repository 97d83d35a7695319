// Builds rg:: grammars and parsers with the library under test

#ifndef LR_LIB_H
#define LR_LIB_H

#include "gram_util.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/standard_items.h"
#include "TameParse/ContextFree/ebnf_items.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/ContextFree/terminal_dictionary.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/parser_tables.h"
#include "TameParse/Dfa/lexeme.h"

namespace vp {

struct lib_grammar {
    contextfree::grammar gram;
    contextfree::terminal_dictionary terms;
    std::vector<int> ntId;                              // identifiers of the nonterminals
    const rg::Gram& src;

    explicit lib_grammar(const rg::Gram& g) : src(g) {
        for (int t = 0; t < g.nT; ++t) terms.add_symbol(std::wstring(1, (wchar_t)(L'a' + t)));
        for (size_t i = 0; i < g.nt.size(); ++i) ntId.push_back(gram.id_for_nonterminal(name((int) i)));
        for (size_t i = 0; i < g.nt.size(); ++i) for (auto& r : g.nt[i]) {
            contextfree::grammar::builder b = (gram += name((int) i));
            for (auto& it : r) b << item(it);
        }
    }
    static std::wstring name(int i) { return L"N" + std::to_wstring(i); }
    void fill(contextfree::rule& r, const rg::Rule& from) { for (auto& x : from) r << item(x); }
    contextfree::item_container item(const rg::It& i) {
        using namespace contextfree;
        switch (i.k) {
            case rg::T: return item_container(new terminal(i.id), true);
            case rg::N: return item_container(new nonterminal(ntId[i.id]), true);
            case rg::OPT: { ebnf_optional* e = new ebnf_optional(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            case rg::REP: { ebnf_repeating* e = new ebnf_repeating(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            case rg::REP0: { ebnf_repeating_optional* e = new ebnf_repeating_optional(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            case rg::GUARD: { guard* e = new guard(); fill(*e->get_rule(), i.r[0]); return item_container(e, true); }
            default: {
                ebnf_alternate* e = new ebnf_alternate(); fill(*e->get_rule(), i.r[0]);
                for (size_t k = 1; k < i.r.size(); ++k) { rule_container rc = e->add_rule(); fill(*rc, i.r[k]); }
                return item_container(e, true);
            }
        }
    }
    /// Identifier of every symbol of the lowered grammar that is not a terminal
    std::map<int,int> identifiers(const rg::Low& low) { std::map<int,int> m; for (int s = low.nT; s < low.nSym; ++s) m[gram.identifier_for_item(item(low.items[s - low.nT]))] = s; return m; }
    contextfree::item_container start(int i) { return contextfree::item_container(new contextfree::nonterminal(ntId[i]), true); }
};

// ---- parsing

struct pnode {
    bool term; int id; int rule; int token;             // token: index into the input
    std::vector<std::shared_ptr<pnode> > kids;
    int lookOffset;                                     // position given for the lookahead (reductions)
};
typedef std::shared_ptr<pnode> pnode_p;

class tree_actions {
public:
    typedef std::vector<pnode_p> reduce_list;
    tree_actions(const std::vector<int>& in) : m_In(in), m_Pos(0), m_Reads(0) { }
    dfa::lexeme* read() {
        ++m_Reads;
        if (m_Pos >= (int) m_In.size()) return NULL;
        dfa::lexeme* l = new dfa::lexeme(dfa::lexeme::symbols(), dfa::position(m_Pos, m_Pos, 0), m_In[m_Pos]);
        ++m_Pos;
        return l;
    }
    pnode_p shift(const dfa::lexeme_container& l) { pnode_p n(new pnode()); n->term = true; n->id = l->matched(); n->token = l->pos().offset(); n->rule = -1; n->lookOffset = 0; return n; }
    pnode_p reduce(int nt, int rule, const std::vector<pnode_p>& items, const dfa::position& look) {
        pnode_p n(new pnode()); n->term = false; n->id = nt; n->rule = rule; n->token = -1; n->kids.assign(items.rbegin(), items.rend()); n->lookOffset = look.offset();
        return n;
    }
private:
    std::vector<int> m_In; int m_Pos; int m_Reads;
};
typedef lr::parser<pnode_p, tree_actions> tree_parser;

struct outcome { bool accept, stuck; int at; pnode_p tree; };      // at: index of the token looked at when parsing stopped

inline int look_index(tree_parser::state* st, int n) { const dfa::lexeme_container& l = st->look(); return l.item() ? l->pos().offset() : n; }

inline outcome run_state(tree_parser::state* st, int n, int limit = 20000) {
    outcome o; o.accept = false; o.stuck = false; o.at = 0;
    for (int i = 0; ; ++i) {
        if (i > limit) { o.stuck = true; return o; }
        lr::parser_result::result r = st->process();
        if (r == lr::parser_result::more) continue;
        o.accept = r == lr::parser_result::accept;
        o.at = look_index(st, n);
        if (o.accept) o.tree = st->get_item();
        return o;
    }
}
inline outcome run_parser(const tree_parser& p, int initial, const std::vector<int>& in) {
    std::unique_ptr<tree_parser::state> st(p.create_parser(new tree_actions(in), initial));
    return run_state(st.get(), (int) in.size());
}

/// Checks that a tree derives exactly the input from the symbol, using only rules of the grammar
inline std::string check_tree(const pnode_p& n, int want, const rg::Low& low, const std::map<int,int>& ids, const contextfree::grammar& gram, const std::vector<int>& in, int& pos) {
    if (!n) return "missing node";
    if (n->term) {
        if (want >= low.nT) return "a token where " + low.name(want) + " should be";
        if (n->id != want) return VP_STR("token " << n->id << " where " << low.name(want) << " should be");
        if (n->token != pos) return VP_STR("token number " << n->token << " appears where token number " << pos << " should");
        if (pos >= (int) in.size() || in[pos] != n->id) return VP_STR("token " << n->id << " was not in the input at " << pos);
        ++pos;
        return "";
    }
    auto f = ids.find(n->id);
    if (f == ids.end()) return VP_STR("reduction to unknown nonterminal " << n->id);
    if (f->second != want) return "reduction to " + low.name(f->second) + " where " + low.name(want) + " should be";
    std::vector<int> rhs;
    for (auto& k : n->kids) { if (!k) return "missing child node"; if (k->term) rhs.push_back(k->id); else { auto g = ids.find(k->id); if (g == ids.end()) return VP_STR("reduction to unknown nonterminal " << k->id); rhs.push_back(g->second); } }
    bool ok = false; for (int p : low.by[want]) if (low.prods[p].rhs == rhs) ok = true;
    if (!ok) return "reduction that is not a rule of the grammar: " + low.show(rg::Prod{want, rhs});
    // the rule reported must be the rule that was used
    const contextfree::rule& r = *gram.rule_with_identifier(n->rule);
    if (r.items().size() != rhs.size()) return VP_STR("reported rule number " << n->rule << " has " << r.items().size() << " items, " << rhs.size() << " were reduced");
    for (size_t i = 0; i < rhs.size(); ++i) {
        int s; if (r.items()[i]->type() == contextfree::item::terminal) s = r.items()[i]->symbol(); else { auto g = ids.find(gram.identifier_for_item(r.items()[i])); s = g == ids.end() ? -1 : g->second; }
        if (s != rhs[i]) return "reported rule is not the one that was reduced";
    }
    for (size_t i = 0; i < rhs.size(); ++i) { std::string e = check_tree(n->kids[i], rhs[i], low, ids, gram, in, pos); if (!e.empty()) return e; }
    // The lookahead given to the action is the token after this subtree, or marks the end of the input
    int look = pos < (int) in.size() ? pos : -1;
    if (n->lookOffset != look) return VP_STR("lookahead position " << n->lookOffset << " given for a reduction that ends before token " << look);
    return "";
}

}

#endif

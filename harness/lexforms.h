// Every way the library can run a DFA as a lexer

#ifndef LEXFORMS_H
#define LEXFORMS_H

#include "stages.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
#include "TameParse/Dfa/symbol_table.h"

namespace vp {

/// A lexer running from constant tables, laid out the way generated parsers do it
struct hard_coded_lexer {
    typedef dfa::hard_coded_symbol_table<wchar_t, 2> symtab;
    typedef dfa::state_machine_tables<wchar_t, symtab> sm;
    typedef dfa::dfa_lexer_base<const sm&, 0, 0, false, const sm&> lexer_t;
    typedef dfa::state_machine_compact_table<false>::entry entry;

    std::vector<int> map; std::vector<entry> entries; std::vector<const entry*> states; std::vector<int> accept;
    std::unique_ptr<symtab> tab; std::unique_ptr<sm> machine; std::unique_ptr<lexer_t> lex;

    explicit hard_coded_lexer(const dfa::ndfa& d) {
        dfa::symbol_table<wchar_t> levels;
        for (dfa::symbol_map::iterator it = d.symbols().begin(); it != d.symbols().end(); ++it)
            for (dfa::symbol_set::iterator r = it->first->begin(); r != it->first->end(); ++r) levels.add_range(*r, it->second);
        size_t size = 0; int* t = levels.table.to_hard_coded_table(size);
        if (size > 10000000) throw Fail{VP_STR("hard coded symbol table has impossible size " << size)};
        map.assign(t, t + size); delete[] t;
        std::vector<size_t> off;
        for (int st = 0; st < d.count_states(); ++st) {
            off.push_back(entries.size());
            const dfa::state& s = d.get_state(st);
            for (dfa::state::iterator x = s.begin(); x != s.end(); ++x) { entry e; e.symbolSet = x->symbol_set(); e.state = x->new_state(); entries.push_back(e); }
            const dfa::ndfa::accept_action_list& acts = d.actions_for_state(st);
            const dfa::accept_action* best = NULL;
            for (size_t i = 0; i < acts.size(); ++i) if (!best || *best < *acts[i]) best = acts[i];
            accept.push_back(best ? best->symbol() : -1);
        }
        off.push_back(entries.size());
        for (size_t o : off) states.push_back(entries.data() + o);
        tab.reset(new symtab(map.data())); machine.reset(new sm(*tab, states.data(), d.count_states())); lex.reset(new lexer_t(*machine, d.count_states(), accept.data()));
    }
};

}
#endif

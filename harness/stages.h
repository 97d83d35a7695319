// The automaton at every stage of the lexer pipeline

#ifndef STAGES_H
#define STAGES_H

#include "dfa_util.h"
#include "TameParse/Dfa/state_machine.h"
#include "TameParse/Dfa/basic_lexer.h"

namespace vp {

struct stage_set {
    std::unique_ptr<dfa::ndfa> unique, dfa_, compact, merged, merged_plain, compact_first;
    std::vector<const dfa::ndfa*> all;
    std::vector<std::string> names;
    std::vector<nfa_runner> runners;

    explicit stage_set(const dfa::ndfa& raw, const std::vector<int>& initial = std::vector<int>(1, 0)) {
        for (size_t i = 0; i < initial.size(); ++i) if (nfa_runner(raw).dfa_size(300, initial[i]) >= 300) throw Discard();      // subset construction is exponential
        unique.reset(raw.to_ndfa_with_unique_symbols());
        dfa_.reset(unique->to_dfa(initial));
        std::vector<int> first; for (size_t i = 0; i < initial.size(); ++i) first.push_back((int) i);
        compact.reset(dfa_->to_compact_dfa(first));
        merged.reset(compact->to_ndfa_with_merged_symbols());
        merged_plain.reset(dfa_->to_ndfa_with_merged_symbols());
        add(&raw, "ndfa"); add(unique.get(), "unique symbols"); add(dfa_.get(), "dfa"); add(compact.get(), "compact dfa"); add(merged.get(), "merged compact dfa"); add(merged_plain.get(), "merged dfa");
        for (auto n : all) runners.push_back(nfa_runner(*n));
    }

    void add(const dfa::ndfa* n, const char* nm) { all.push_back(n); names.push_back(nm); }
    const std::string& name(size_t i) const { return names[i]; }
    std::set<int> run(size_t i, const units& u, int start = 0) const { return runners[i].run(u, start); }
};

}

#endif

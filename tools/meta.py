#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
D = "TameParse/Dfa/"; L = "TameParse/Lr/"; G = "TameParse/ContextFree/"; C = "TameParse/Compiler/"; Y = "TameParse/Language/"; U = "TameParse/Util/"

def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe)

PROPS = [
P("C01", "Regular expressions recognise exactly the language they denote",
  "For every well-formed regular expression in the documented syntax (literals, escapes, sets, ranges, negation, '.', groups, alternation, ?, *, + and {name} references), the automaton built from it accepts a string if and only if the string is in the language the expression denotes, and this stays true after each step that prepares the automaton for use. When several expressions share one automaton, a string is accepted for exactly those expressions whose language contains it.",
  ["inputs", "programs"], "every well-formed expression and set of expressions, and every string over Unicode characters, including those outside the basic plane",
  "The unit tests try a few dozen fixed expressions on a few fixed strings; operator nesting, shared prefixes, empty matches and surrogate pairs combine without bound.",
  [D+"ndfa_regex.cpp", D+"ndfa.cpp", D+"state.cpp", D+"ndfa_transformations.cpp", D+"symbol_map.cpp"],
  [("regex compiler", D+"ndfa_regex.cpp compile()/compile_expression()"), ("NDFA builder (sequence, surrogate pairs, push/or/pop/rejoin)", D+"ndfa.cpp builder"), ("determinisation pipeline", D+"ndfa_transformations.cpp to_ndfa_with_unique_symbols/to_dfa/to_compact_dfa")],
  "property-based testing: random regex ASTs against a derivative-style reference matcher, exhaustive short strings plus samples of the language",
  "Generated-input search; trusts the reference matcher in harness/ref_regex.h as the reading of the documented syntax."),
P("C02", "Lexing is longest-match, complete, and the same from every table and stream",
  "For every set of tokens and every input, lexing yields consecutive lexemes that together are exactly the input, each being the longest match at its position with the highest-priority token among those of that length, or a single symbol that matched nothing. Offsets, lines and columns are those of the text, and the result does not depend on the table representation, on how the automaton was prepared, or on the kind of stream the text came from.",
  ["inputs", "programs", "configurations"], "every token set, input text, table format, pipeline stage and stream type",
  "Unit tests lex a handful of fixed strings with one table each; backtracking, buffer growth, block boundaries of symbol tables and multi-byte text need generated combinations.",
  [D+"basic_lexer.h", D+"lexer.h", D+"state_machine.h", D+"symbol_table.h", D+"symbol_translator.h", D+"position.h", U+"utf8reader.cpp", D+"character_lexer.cpp"],
  [("longest match with backtracking", D+"basic_lexer.h"), ("table driven state machine", D+"state_machine.h"), ("symbol lookup", D+"symbol_table.h, hard_coded_symbol_table.h"), ("positions", D+"position.h")],
  "differential property-based testing of every lexer form against a maximal-munch reference tokenizer",
  "Generated-input search; symbols are UTF-16 units as the library's lexers use."),
P("C03", "Automaton transformations preserve the recognised language",
  "Making symbol sets disjoint, determinising, compacting and merging symbols never change which strings an automaton accepts or which tokens it accepts them as, from any of its start states. The result of determinising is deterministic, and compacting never makes it larger.",
  ["inputs", "programs"], "every nondeterministic automaton, with overlapping symbol ranges, empty transitions, several start states and several accept actions per state, in both table settings",
  "The unit tests transform a few fixed automata and try fixed strings; equivalence is over all strings.",
  [D+"ndfa.cpp", D+"ndfa_transformations.cpp", D+"symbol_map.cpp", D+"remapped_symbol_map.cpp"],
  [("unique symbols", D+"ndfa_transformations.cpp to_ndfa_with_unique_symbols"), ("subset construction", D+"ndfa_transformations.cpp to_dfa"), ("minimisation", D+"ndfa_transformations.cpp to_compact_dfa"), ("symbol merging", D+"ndfa_transformations.cpp to_dfa_with_merged_symbols")],
  "property-based testing: random NFAs, language equivalence decided per case by an exact product walk",
  "Exact per generated automaton (product construction), sampled over automata."),
P("C04", "Symbol sets obey set algebra and every lookup table agrees with them",
  "After any history of unions, exclusions, intersections, inversions and copies, a symbol set contains exactly the symbols the operations imply. Splitting overlapping sets into disjoint ones gives an exact partition of the original sets with the right correspondence, and every lookup table built from disjoint sets maps each symbol of their range to its own set and every other symbol to none.",
  ["inputs", "histories"], "every operation history over sets of integer ranges; every family of overlapping sets; every table width",
  "Unit tests use a few hand-picked ranges; adjacency, nesting and block-boundary cases need generated ranges.",
  [D+"symbol_set.cpp", D+"symbol_map.cpp", D+"symbol_table.h", D+"hard_coded_symbol_table.h", D+"symbol_translator.h", D+"remapped_symbol_map.cpp", D+"range.h"],
  [("interval set", D+"symbol_set.cpp"), ("deduplication", D+"remapped_symbol_map.cpp deduplicate"), ("multi-level tables", D+"symbol_table.h, hard_coded_symbol_table.h")],
  "stateful property-based testing against an interval model, under AddressSanitizer",
  "Generated-input search over operation histories; memory errors are caught by AddressSanitizer."),
P("C05", "Text decoding, Unicode categories and case folding are exact",
  "UTF-8 input decodes to exactly the characters it encodes and decoding stops at the first malformed sequence. The named Unicode character sets contain exactly the characters of their category. A case-insensitive pattern matches a text exactly when the case-sensitive pattern matches that text with the case of some of its characters changed.",
  ["inputs"], "every byte string; every documented character set name and every character; every pattern without negated sets and every text",
  "Unit tests look at a few characters per category and a few short byte strings; there are 1.1 million characters and unbounded patterns.",
  [U+"utf8reader.cpp", U+"unicode.cpp", D+"ndfa_regex.cpp", D+"symbol_set.cpp", D+"ndfa.cpp"],
  [("UTF-8 reader", U+"utf8reader.cpp"), ("category tables", U+"unicode.cpp"), ("case conversion of sets", U+"unicode.cpp, "+D+"ndfa.cpp")],
  "property-based testing against Unicode data from an independent source and an independent decoder",
  "Generated-input search; judged only on characters whose category and case are the same in Unicode 3.2 and 15."),
P("C06", "FIRST and FOLLOW sets are exact",
  "For every grammar, the set of terminals that can begin a symbol, an EBNF item or a rule (and whether it can be empty), and the set of terminals that can come after it, are exactly the ones the grammar implies. The answer does not depend on the order in which sets are asked for.",
  ["inputs", "programs", "histories"], "every grammar, with any recursion, empty rules and nested EBNF operators, and every order of queries",
  "Unit tests use a few small textbook grammars; mutual recursion through nullable and repeated items is where the fixpoints and caches go wrong.",
  [G+"grammar.cpp", G+"item.cpp", G+"standard_items.cpp", G+"ebnf_items.cpp", G+"item_set.cpp"],
  [("FIRST with caching", G+"grammar.cpp first()/first_for_rule()"), ("FOLLOW fixpoint", G+"grammar.cpp calculate_follow()")],
  "property-based testing: random EBNF grammars against fixpoints over an independently expanded BNF",
  "Generated-input search; FOLLOW is compared on terminals."),
P("C07", "Parsers accept exactly the grammar's sentences with a faithful parse tree",
  "For every grammar without conflicts and every start symbol of it, the generated parser accepts a sequence of tokens if and only if the grammar derives it, always terminates, and the reductions it reports form a derivation tree of exactly that input using the rules of the grammar. On any other input it stops at the first token that no sentence could have at that point.",
  ["inputs", "programs"], "every conflict-free grammar (BNF and EBNF, one or several start symbols) and every token sequence",
  "Unit tests parse a few sentences with a few grammars; lookahead propagation errors need particular recursion and empty-rule shapes.",
  [L+"lalr_builder.cpp", L+"lalr_machine.cpp", L+"lalr_state.cpp", L+"parser_tables.cpp", L+"parser.h", L+"parser_stack.h", L+"parser_state.h", L+"lr1_item_set.cpp", G+"standard_items.cpp", G+"ebnf_items.cpp"],
  [("LALR state machine and lookahead propagation", L+"lalr_builder.cpp complete_parser/complete_lookaheads"), ("closures", G+"*.cpp closure()"), ("action tables", L+"parser_tables.cpp"), ("parse loop", L+"parser_state.h process()")],
  "property-based testing: random grammars and inputs against an Earley recogniser and a tree checker",
  "Generated-input search; grammars are those that the reference LALR(1) construction finds conflict-free."),
P("C08", "Grammar conflicts are reported exactly, and shift/reduce conflicts shift",
  "The conflicts reported for a grammar are exactly its LALR(1) conflicts: the same tokens, with the rules that could be reduced and whether the token could also be shifted, and none for a conflict-free grammar. A parser built despite shift/reduce conflicts behaves as if the shift had been the only choice.",
  ["inputs", "programs"], "every grammar, ambiguous or not, and every token sequence",
  "Unit tests have a few conflicted grammars and count conflicts; missed and spurious conflicts depend on the exact lookahead sets of every state.",
  [L+"conflict.cpp", L+"lalr_builder.cpp", L+"lr_action.cpp", L+"parser_tables.cpp", C+"lr_parser_stage.cpp"],
  [("conflict search", L+"conflict.cpp find_conflicts"), ("action order in the tables", L+"parser_tables.cpp")],
  "differential property-based testing against an independently built LALR(1) automaton",
  "Generated-input search; the reference merges canonical LR(1) states by core."),
P("C09", "The LR(1) conflict resolver never changes the language of an LR(1) grammar",
  "With the LR(1) resolver on, every LR(1) grammar for which no conflict is reported gets a parser that accepts exactly the grammar's sentences, with a derivation tree of the input, and that stops at the first token that cannot continue a sentence; so does every grammar in which nonterminals stand between terminals and competing rules are equally long. Turning it on never adds a conflict to a grammar that had none.",
  ["inputs", "programs"], "every LR(1) grammar without shift/reduce conflicts in its merged automaton, and every token sequence",
  "Unit tests have two grammars with one split state each; which states may follow a reduction depends on every context of the shared rules.",
  [L+"lr1_rewriter.cpp", L+"lr1_rewriter.h", L+"lalr_builder.cpp"],
  [("splitting actions by the state they lead to", L+"lr1_rewriter.cpp rewrite_actions")],
  "property-based testing: grammars designed to need the resolver, against an Earley recogniser and a tree checker",
  "Generated-input search; grammars that are not LR(1) are a recorded finding (KNOWN_FINDINGS.md) and are not judged."),
P("C10", "Parser states can be copied and run independently",
  "A parser state can be copied at any point, and the copies stepped, inspected ahead and destroyed in any order: each ends exactly as it would have alone, with the same parse tree. Parsers and tables that are copies of others behave as the original does, whatever becomes of the original, and no memory is used after it is freed.",
  ["histories", "inputs"], "every history of steps, copies, lookahead and deletions, for every conflict-free grammar and input",
  "Unit tests run one state from start to end; the shared stack and the shared lookahead only matter when several states are alive at once.",
  [L+"parser.h", L+"parser_state.h", L+"parser_stack.h", L+"parser_tables.cpp"],
  [("shared stack with reference lists", L+"parser_stack.h"), ("session lookahead and trimming", L+"parser_state.h")],
  "stateful property-based testing under AddressSanitizer: every state of a random history against the same parse alone",
  "Generated-input search over histories of up to 130 operations and inputs of up to 600 tokens."),
P("C11", "Weak tokens count as their strong equivalent except where they are wanted",
  "A parser given a weak token takes it as that token wherever the grammar allows the token at that point, and otherwise exactly as it would take the stronger token it is equivalent to, in which case the parse tree shows the stronger token. This holds inside guards too. Conflicts of a weak token are resolved and reported like those of any other token, those of its stronger token are not reported again, and finding out what to do takes time linear in the depth of the parse.",
  ["inputs", "programs"], "every grammar, with or without conflicts, every assignment of weak to strong tokens, and every token sequence",
  "Unit tests use one or two contexts; whether a weak token is wanted depends on reductions that lookahead merging makes possible or not.",
  [L+"weak_symbols.cpp", L+"weak_symbols.h", L+"parser_state.h", L+"parser_tables.cpp"],
  [("rewriting of actions", L+"weak_symbols.cpp rewrite_actions"), ("trying a reduction", L+"parser_state.h can_reduce"), ("substitution when shifting", L+"parser_tables.cpp strong_for_weak")],
  "model-based property-based testing: random grammars and inputs against a reference parser, under AddressSanitizer",
  "Generated-input search; inputs for which a conflict of a strong token meets a reduction that only its weak token has are not judged."),
P("C12", "Ignored tokens have no effect except where the grammar uses them",
  "A token that is marked as ignored is skipped at every point of the input where the grammar cannot use it, inside guards as well, without changing the parse; where the grammar can use it, it is parsed as any other token.",
  ["inputs", "programs"], "every conflict-free grammar, set of ignored tokens, and token sequence",
  "Unit tests put spaces in a few places; a token that is both ignored and used, or ignored in the lookahead of a guard, needs generated grammars.",
  [L+"ignored_symbols.cpp", L+"parser_state.h", C+"lr_parser_stage.cpp"],
  [("rewriting of actions", L+"ignored_symbols.cpp"), ("trying a reduction", L+"parser_state.h can_reduce")],
  "model-based property-based testing: random grammars and inputs against a reference parser, under AddressSanitizer",
  "Generated-input search; grammars are conflict-free by the reference construction."),
P("C13", "A guard selects its alternative exactly when the input ahead matches it",
  "A guard in a grammar behaves as a token that is present exactly at the points where it is wanted and some prefix of the remaining input matches the guard's production, however much lookahead that takes; where present it is always taken, and where not, parsing goes on as if the guarded alternative did not exist. Checking a guard never consumes input.",
  ["inputs", "programs"], "every grammar that is conflict-free when guards are read as tokens, with guards anywhere and guards inside guards, and every token sequence",
  "Unit tests have a few guards on one token; shared states between guards and the rest of the grammar, and guards within guards, are only exercised by generated grammars.",
  [L+"parser_state.h", L+"lalr_builder.cpp", G+"guard.cpp", L+"parser_tables.cpp"],
  [("guard actions", L+"lalr_builder.cpp"), ("lookahead check", L+"parser_state.h check_guard/process_guard"), ("first tokens of a guard", G+"guard.cpp initial")],
  "model-based property-based testing: Earley decides whether a guard matches, a reference automaton the parse",
  "Generated-input search; where two guards apply at once the documentation leaves the choice open, and those inputs are not judged."),
P("C14", "Precedence declarations give expressions the declared structure",
  "In a language with precedence declarations, every shift/reduce choice between two declared operators is settled as documented: the stronger operator binds first, equal ones associate to the left or to the right as declared, and non-associative ones leave the conflict. Every other choice is left as it was, and the parser built follows exactly those choices.",
  ["inputs", "programs"], "every grammar with one operator token per rule, set of precedence blocks, and token sequence",
  "Unit tests evaluate a few arithmetic expressions; levels, associativities and operators outside the declared set interact in every state of the automaton.",
  [Y+"precedence_block.h", L+"precedence_rewriter.cpp", L+"precedence_rewriter.cpp", C+"language_stage.cpp", C+"lr_parser_stage.cpp"],
  [("precedence of rules and tokens", C+"precedence_block_rewriter.cpp, "+L+"precedence_rewriter.cpp rewrite_actions"), ("collecting the declarations", C+"language_stage.cpp")],
  "differential property-based testing: definition texts through the whole compiler against a reference LALR(1) automaton with the documented resolution",
  "Generated-input search; rules with several declared operator tokens are excluded, the manual and the code name different ones."),
P("C15", "Conflict attributes select shifting or reducing exactly where they are written",
  "An item marked conflict=shift, conflict=reduce or conflict=weakreduce settles the choice between the rules that are in conflict at that item as documented, and changes nothing anywhere else. Conflicts that it does not settle are still reported, and the parser follows exactly the remaining choices.",
  ["inputs", "programs"], "every grammar, BNF or EBNF, with attributes on any items, and every token sequence",
  "Unit tests check one or two grammars per attribute; the items concerned appear in many states, with different competitors in each.",
  [C+"conflict_attribute_rewriter.cpp", C+"language_stage.cpp", C+"lr_parser_stage.cpp", "TameParse/ContextFree/rule.cpp"],
  [("rewriting of actions", C+"conflict_attribute_rewriter.cpp rewrite_actions"), ("attributes of rule items", C+"language_stage.cpp get_rule_item_data")],
  "differential property-based testing: definition texts through the whole compiler against a reference LALR(1) automaton with the documented resolution",
  "Generated-input search; weak reductions that repeat for ever are not judged."),
P("C16", "Definition files are read exactly as written",
  "Every valid definition file is read with each of its blocks, definitions, alternatives, items, operators, names, attributes and modifiers, in order and as written, with their positions in the text; it makes no difference what whitespace and comments separate the tokens, whether names are also keywords of the definition language, which way the text is supplied, or whether the result is copied. Everything else is rejected with one error, no later than at the first token that cannot be there.",
  ["inputs"], "every text, valid or not",
  "The unit tests read the definition of the definition language itself and a few short files; the syntax is recursive, has optional parts everywhere and no reserved words.",
  [Y+"definition.tp", Y+"language_parser.cpp", Y+"process.cpp", Y+"ebnf_item.cpp", Y+"lexer_block.cpp", Y+"precedence_block.cpp", C+"parser_stage.cpp", U+"stringreader.h"],
  [("grammar of the definition language", Y+"definition.tp"), ("conversion of the parse tree", Y+"language_parser.cpp definition_for"), ("string escapes", Y+"process.cpp dequote_string")],
  "property-based testing: random definition files printed with random layout and read back; edited files against an Earley recogniser, under AddressSanitizer",
  "Generated-input search; names of brackets that hold a single sequence are not judged."),
P("C17", "An inheriting language is its base with exactly the changes made to it",
  "A language that inherits from another, directly or through other languages and imported files, recognises what the base language with its definitions added to or replaced recognises, and leaves the base language unchanged. Everything that is not allowed (defining or changing something in the wrong way, missing languages, files, symbols or nonterminals, inheritance loops) is reported with its kind, file and line, and nothing else is reported as an error.",
  ["inputs", "programs"], "every chain of languages in any arrangement of files, every set of changes, and every mistake in one of them",
  "The unit tests inherit once or twice from one small language; what a change does depends on the kinds of both definitions, on the modifiers and on the use of the symbols elsewhere.",
  [C+"language_stage.cpp", C+"import_stage.cpp", C+"language_builder_stage.cpp", C+"lexer_stage.cpp", C+"Data/lexer_data.cpp"],
  [("inheritance, additions and replacements", C+"language_stage.cpp compile()"), ("imports", C+"import_stage.cpp"), ("definitions of one symbol", C+"Data/lexer_data.cpp")],
  "differential property-based testing: random chains of languages evaluated by an independent model of the documented semantics, compared through the whole compiler, lexer and parser",
  "Generated-input search; a language and each of its bases are all compiled and compared."),
P("C18", "A compiled language reads text as its lexer blocks and grammar say",
  "In a language defined by keyword, lexer, ignore and lexer-symbols blocks and a grammar, every lexeme is the longest match, taken as the symbol of highest priority (keywords, then lexer, then ignored symbols, earlier definitions first), except that a weak symbol stands for its strong equivalent wherever the grammar does not want the weak one. Ignored symbols disappear wherever they are not used, case-insensitive definitions match any case, and the warnings name exactly the symbols that can never be produced, are unused, or are not declared.",
  ["inputs", "programs"], "every combination of lexer blocks, modifiers, clashing definitions, literals and undeclared names, and every text",
  "The unit tests have one or two fixed languages per feature; the features interact in every state of the lexer and the parser.",
  [C+"language_stage.cpp", C+"lexer_stage.cpp", C+"Data/lexer_item.cpp", C+"lr_parser_stage.cpp", L+"weak_symbols.cpp", L+"ignored_symbols.cpp", "TameParse/ContextFree/terminal_dictionary.cpp"],
  [("priorities and weak symbols", C+"lexer_stage.cpp compile()"), ("weak to strong", L+"weak_symbols.cpp"), ("ignored symbols", L+"ignored_symbols.cpp"), ("symbols used by the grammar", C+"language_stage.cpp")],
  "differential property-based testing: random languages compiled from text, against an independently built automaton of all the definitions and a reference parser",
  "Generated-input search; which of two ignored symbols wins is not judged when only one of them is used."),
P("C20", "Tests in a definition file pass and fail exactly as the language says",
  "When the tests of a definition file are run, each one passes exactly when its text, given as a string or in a file, can (or for '!=' cannot) be parsed as its nonterminal. Every failing test is reported once, with the position of the test and of the first symbol that could not be read, the list of tests and the counts are right, missing languages, files and nonterminals are errors, and the result is an error exactly when something failed.",
  ["inputs", "programs"], "every definition file with test blocks against any of its nonterminals, with any names and texts",
  "The unit tests run the tests of a few fixed files, nearly all of which pass; what must be seen is that failing ones fail, at the right place.",
  [C+"test_stage.cpp", Y+"test_block.cpp", Y+"test_definition.cpp", Y+"language_parser.cpp"],
  [("running tests", C+"test_stage.cpp compile()"), ("reading test blocks", Y+"language_parser.cpp add_test_definition")],
  "differential property-based testing: random languages with random test blocks, every report compared with a reference lexer and parser",
  "Generated-input search; the line of a failure inside a string with an escaped newline is not judged."),
P("C21", "Generated C++ parsers do what the language they were generated from does",
  "The C++ source written for any language compiles on its own, and the parser in it finds the same tokens, accepts the same texts, fails at the same place and builds the same tree, with the same positions, as the language itself run from memory. Every item of every rule can be reached through the generated classes under its own name, and the generated constants are the numbers of the symbols they are named after.",
  ["inputs", "programs"], "every language that compiles without errors, whatever its symbols and items are called, with any start symbols, options, class and namespace names, and every text",
  "No unit test compiles generated code; the only parser that is ever generated by the build is the one of the definition language itself.",
  [C+"output_stage.cpp", C+"OutputStages/cplusplus.cpp", D+"hard_coded_symbol_table.h", D+"state_machine.h", L+"parser_tables.cpp", U+"syntax_ptr.h"],
  [("lexer and parser tables as source", C+"OutputStages/cplusplus.cpp source_lexer_*/source_parser_tables"), ("classes of the syntax tree", C+"OutputStages/cplusplus.cpp header_ast_class_declarations, source_ast_class_definitions"), ("shift and reduce actions", C+"OutputStages/cplusplus.cpp source_shift_actions, source_reduce_actions"), ("names of items", C+"output_stage.cpp name_for_item")],
  "differential property-based testing: random languages are generated, compiled with g++ and run, and compared with the in-memory language",
  "Generated-input search; hidden left recursion, for which LR parsers with resolved conflicts need not stop, is left out."),
P("C19", "The command line tool does what it is told and reports whether it worked",
  "For any definition, valid or not, and any combination of options the tool ends normally; its exit status is zero exactly when there was no error, and every error and warning is reported with its severity, code, file, line and column. It writes exactly the files it was asked for, with the contents the library produces for the chosen language, start symbols, class and namespace, changes no other file, and says so when a file cannot be read or written. Given a text to try, it accepts it exactly when the parser does, and points at the token that was rejected otherwise.",
  ["inputs", "configurations", "fault_sequences"], "every definition and imported file (edited arbitrarily), every combination, order and spelling of options, every text on standard input, names and paths with any characters, and files that cannot be read or written",
  "There are no tests of the command line tool; the build only runs it on the definition language itself.",
  ["parsetool/main.cpp", "parsetool/boost_console.cpp", C+"std_console.cpp", C+"import_stage.cpp", C+"parser_stage.cpp", C+"lexer_stage.cpp", U+"utf8reader.cpp"],
  [("order of the stages and exit status", "parsetool/main.cpp main"), ("options and messages", "parsetool/boost_console.cpp"), ("search for imported files", C+"import_stage.cpp, parsetool/boost_console.cpp"), ("files that are written", C+"output_stage.cpp, parsetool/boost_console.cpp open_binary_file_for_writing")],
  "differential property-based testing with injected faults: the tool is run as a program on random definitions, random edits of them and random options, and compared with the stages run in memory",
  "Generated-input search; the wording of messages is not compared, and --run-tests is left out for edited definitions because of two known findings."),
P("C22", "Conflicts and clashing guards of a language are reported where they are",
  "Compiling a language reports each of its conflicts exactly once, as a warning if a token could also be shifted and as an error if not (or as the options ask), naming the token and giving the position of a rule that takes part and of every rule that could be reduced, in whichever file they were written. Guards that can begin with the same token at the same point are reported at their rules unless they are marked as allowed to clash, guards that match nothing or can begin with themselves are errors, and nothing else is reported.",
  ["inputs", "configurations"], "every language, in one file or inheriting from another one in another file, with any guards, and every combination of the options about conflicts",
  "Conflicts are only tested in a few hand-built grammars, and never as messages about a definition file.",
  [C+"lr_parser_stage.cpp", C+"language_stage.cpp", C+"language_stage.h", L+"conflict.cpp", "TameParse/ContextFree/guard.cpp"],
  [("messages about conflicts", C+"lr_parser_stage.cpp compile"), ("clashing guards", C+"lr_parser_stage.cpp warn_clashing_guards"), ("positions of rules", C+"language_stage.h rule_definition_pos, rule_definition_file"), ("guards that cannot be decided", C+"language_stage.cpp compile")],
  "property-based testing against a reference LALR(1) automaton built from the same random grammar; messages are matched one to one with the reference conflicts",
  "Generated-input search; the wording is only checked for the token."),
P("C23", "What a language means does not depend on how it is written down",
  "A definition that says the same thing in another way is the same language: other names for symbols, rules and items, other order of rules, alternatives and blocks, one block or many, a base language in the same file or an imported one, brackets, comments and spaces, lexer-symbols for parts of an expression, literals instead of names, unused definitions and table options make no difference. The same problems are reported, texts are split into the same tokens, the same ones are accepted, and the steps of the parse, their positions and the point of failure are the same.",
  ["programs", "inputs"], "every language, every sequence of rewritings of it that keep its meaning, and every text",
  "Each unit test has one way of writing one language; whether an identifier, an order in a map or the split into files has leaked into the result can only be seen by comparing many.",
  [C+"language_stage.cpp", C+"language_builder_stage.cpp", C+"lexer_stage.cpp", C+"lr_parser_stage.cpp", C+"import_stage.cpp", L+"precedence_rewriter.cpp", L+"lalr_builder.cpp", L+"conflict.cpp", L+"weak_symbols.cpp"],
  [("grammars and their inheritance", C+"language_stage.cpp compile"), ("finding base languages", C+"language_builder_stage.cpp"), ("conflicts and the order of actions", L+"conflict.cpp, "+L+"lr_action.cpp"), ("weak symbols", L+"weak_symbols.cpp")],
  "metamorphic property-based testing: a random language is written down in two ways, compiled twice, and run on the same random texts",
  "Generated-input search; when guards clash which of them is taken is not judged."),
P("C24", "Grammars, rules, item sets and terminal dictionaries are values",
  "A grammar holds exactly the rules, names and identifiers that were put into it: identifiers are given out once, read back as what they were given for, and are never changed by later questions, copies, or the fate of another grammar or rule. A copy means what the original meant and neither changes the other afterwards. Items, rules and item sets are equal exactly when their structure is, their orders are total and consistent with that, and sets and dictionaries of symbols behave as sets and dictionaries.",
  ["histories", "inputs"], "every sequence of building, asking, copying, assigning and destroying over several grammars, rules, sets and dictionaries",
  "The unit tests build one grammar and ask it once; identifiers left over from an earlier owner, sets that depend on what was removed from them, and orders that fail for nested items need particular histories.",
  [G+"grammar.cpp", G+"rule.cpp", G+"item.cpp", G+"item_set.cpp", G+"ebnf_items.cpp", G+"guard.cpp", G+"standard_items.cpp", G+"terminal_dictionary.cpp"],
  [("identifiers of items and rules", G+"grammar.cpp identifier_for_item, identifier_for_rule; "+G+"rule.cpp identifier"), ("copies", G+"grammar.cpp operator="), ("order of items", G+"item.cpp compare; "+G+"ebnf_items.cpp, "+G+"guard.cpp operators"), ("sets of items", G+"item_set.cpp"), ("split symbols", G+"terminal_dictionary.cpp split")],
  "stateful model-based property testing: random histories over several grammars, rules, sets and dictionaries, read back in full after every step and compared with a model",
  "Generated-input search; rules changed through references into a grammar after it was copied are not judged."),
]

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the checks use the public headers and the command line tool. tools/run.py rebuilds the library from /repo's working tree (content-hash cached under /verif/build) and runs one harness."}
    for p in PROPS:
        assert p["id"] in CHECKS, p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 tools/run.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(root, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")

if __name__ == "__main__": main()

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Bracket words are accepted exactly when they are well nested",
 "A sequence of annotated opening and closing brackets is recognised as a Dyck word exactly when it is generated by the grammar D → ε | D ⟨a D ⟩a: every closing bracket matches the most recent still-open bracket with an equal annotation and nothing is left open at the end. This holds for every word, of any length and over any alphabet with a lawful equality.",
 ["inputs"],"all bracket words over all annotation alphabets with a lawful equality",
 "The only test checks three fixed words; the language is infinite.",
 ["src/dyck/mod.rs"],[("recognize","src/dyck/mod.rs")],observe=["return value of the recogniser"])
p("C02","The unique priority queue holds each item once and pops greatest first",
 "A unique priority queue, however it was created (empty, from an iterator, from a vector) and whatever was pushed to and popped from it since, never holds two entries with an equal item: a push succeeds exactly when no entry with an equal item is currently held and otherwise changes nothing, so an item may be pushed again once popped. Pop and peek return the held entry with the greatest (priority, item), pop removes exactly that entry, and the length, emptiness, iteration and sorted export always describe exactly the entries held. When several entries with an equal item are given at creation, the first one is the one kept.",
 ["histories","inputs"],"all sequences of operations, all items, priorities and ways of creation",
 "Tests run three short operation sequences and one conversion without duplicates.",
 ["unique-heap/src/lib.rs"],[("push/pop","unique-heap/src/lib.rs"),("creation from iterators and vectors","unique-heap/src/lib.rs")],
 [("heap","multiset of held (priority, item) pairs","unique-heap/src/lib.rs"),("current_items","the items held, in step with the heap","unique-heap/src/lib.rs")])
p("C03","Agendas keep what they promise and hand it out in the promised order",
 "Every agenda returns from peek what the next pop would return, and pop removes exactly that element: a stack agenda yields the most recently pushed element, a queue agenda the least recently pushed one, and a weighted, beam or capacity-limited agenda one of greatest priority. A stack, queue or weighted agenda keeps every pushed element; a beam agenda keeps a pushed element exactly when it is empty or the element's priority is at least its greatest held priority times the beam factor, and says so; a limited agenda never holds more than its capacity and, when full, drops (and returns) an element of least priority among those held and the one offered. Nothing else is ever lost, added or duplicated.",
 ["histories","inputs"],"all operation sequences, priorities, beam factors and capacities",
 "The agendas have only benchmarks; no test looks at what is kept or in which order it comes out.",
 ["search/src/agenda/mod.rs","search/src/agenda/weighted.rs","search/src/agenda/binary_heap.rs","search/src/agenda/beam_heap.rs","search/src/agenda/limited_heap.rs"],
 [("push/pop/peek of each agenda","search/src/agenda/"),("priority order of weighted items","search/src/agenda/weighted.rs")])
p("C04","Graph search visits exactly the reachable nodes",
 "A graph search hands out every node it takes from its agenda and puts exactly the successors of that node on the agenda; it starts with exactly the given nodes on it and ends only when it is empty. The deduplicating search hands out each node at most once, skips only nodes it already handed out, and ends only when no other node is left on the agenda. Hence only nodes reachable from the initial nodes are handed out, and when a search on an agenda that loses nothing ends, every reachable node has been.",
 ["inputs","histories"],"all graphs (initial nodes, successor relations) and agendas",
 "No unit test of the search crate runs a search; the searches inside grammar conversion run on two small grammars without repeated agenda entries.",
 ["search/src/search.rs","search/src/agenda/mod.rs"],[("Iterator::next of Search and unique::Search","search/src/search.rs")],
 [("agenda","frontier","search/src/search.rs"),("elements","nodes already handed out","search/src/search.rs")])
p("C05","The index-keyed multimap is a total map from indices to lists",
 "A multimap from natural numbers to lists behaves as a total map that is empty everywhere at first: appending to an index appends to that list and changes no other, mutable access exposes exactly that index's list, and access to an index never touched shows the empty list. Exporting it yields, position by position, the list of each index: trailing empty lists are dropped by the plain export, and the export with a given size has exactly that size.",
 ["histories","inputs"],"all operation sequences and all indices (up to address-space limits)",
 "The crate has no tests at all.",
 ["vecmultimap/src/lib.rs"],[("padding, append, access, export","vecmultimap/src/lib.rs")],observe=["returned lists","exported vector"])
p("C06","An LCFRS is accepted exactly when it is a valid LCFRS",
 "Constructing an LCFRS from rules and an initial nonterminal succeeds exactly when all rules with equal left-hand sides have the same number of components, the initial nonterminal has exactly one, every right-hand-side nonterminal has a rule, and in every rule each component of each right-hand-side nonterminal is used exactly once and no other variable occurs; it then holds exactly the given rules and initial nonterminal. The construction answers for every rule list, without panicking. The normal-form test holds exactly for grammars in which no component is empty and every rule consists of variables only or of exactly one component with exactly one terminal.",
 ["inputs"],"all rule lists over all nonterminals, terminals and weights, and all initial nonterminals",
 "Tests try three rule lists; admission must be exact over all rule shapes.",
 ["src/grammars/lcfrs/mod.rs","vecmultimap/src/lib.rs"],[("Lcfrs::new","src/grammars/lcfrs/mod.rs"),("fanout and linearity checks","src/grammars/lcfrs/mod.rs"),("in_normal_form","src/grammars/lcfrs/mod.rs")])
p("C07","PMCFGs become MCFGs exactly when no variable is copied",
 "Converting a PMCFG into an MCFG succeeds exactly when no rule uses a variable more than once and there is exactly one initial nonterminal; the result then has exactly the rules of the PMCFG, in order, and that initial nonterminal. Converting an MCFG to a PMCFG, and an LCFRS to an MCFG, and taking an MCFG apart, keep rules and initial nonterminal as they are.",
 ["inputs"],"all PMCFGs, MCFGs and LCFRSs",
 "The conversion is only run on a handful of fixed grammars.",
 ["src/grammars/mcfg/mod.rs","src/grammars/pmcfg/mod.rs","src/grammars/lcfrs/mod.rs"],[("from_pmcfg","src/grammars/mcfg/mod.rs"),("From<Mcfg> for PMCFG","src/grammars/pmcfg/mod.rs"),("From<Lcfrs> for Mcfg","src/grammars/mcfg/mod.rs")])
p("C08","A PMCFG with fanout one is turned into the same context-free grammar",
 "Converting a PMCFG whose rules all have one component, and use only first components of existing right-hand-side nonterminals, yields a context-free grammar with the same initial nonterminals and, rule by rule and in order, the same left-hand side, the same weight and the same sequence of terminals and nonterminals as spelled out by the rule's composition. In particular a variable becomes the nonterminal it refers to, also when variables are reordered, repeated or unused.",
 ["inputs"],"all such PMCFGs",
 "One fixed conversion is tested.",
 ["src/grammars/cfg/from_pmcfg.rs"],[("From<PMCFG> for CFG","src/grammars/cfg/from_pmcfg.rs")])
p("C09","Derivations evaluate to the string tuple they denote",
 "Evaluating a derivation tree of composition functions yields the tuple in which each component is the concatenation, left to right, of its terminals and of the referenced components of the evaluated children. Splitting a derivation into compositions and heads keeps both at their addresses. Separating terminals from a derivation into rules of their own leaves that value unchanged and leaves every composition with either only variables or exactly one symbol, a terminal: rules that are so already stay as they are; every other rule keeps its head, its weight and its successors in order, and for each of its distinct terminals, in order of first occurrence, gets one further successor with the rule's weight whose head no original rule has.",
 ["inputs"],"all derivation trees whose variables refer to existing children and components (for the separation: whose nodes have at most as many children as their rules have successors)",
 "Tests evaluate three or four fixed trees; the claim ranges over every tree.",
 ["src/grammars/pmcfg/mod.rs","src/util/tree.rs"],[("evaluate/evaluate_pos","src/grammars/pmcfg/mod.rs"),("separate_terminal_rules","src/grammars/pmcfg/mod.rs"),("to_term","src/grammars/pmcfg/mod.rs")])
p("C10","Turning an MCFG into an LCFRS loses no derivations and adds none",
 "The LCFRS built from an MCFG contains, for the initial nonterminal with nothing deleted and for every (nonterminal, deleted components) pair reachable from it, one rule per MCFG rule of that nonterminal whose right-hand-side nonterminals all have rules, and no other rules. That rule has the same weight and the components of the MCFG rule that are not deleted, in order; each right-hand-side nonterminal is paired with exactly its components not used by those, and variables are renumbered by leaving out the deleted components. Hence every derivation of the MCFG has a counterpart with the same weights and the same string tuple, every derivation of the LCFRS is such a counterpart, and the result is non-deleting.",
 ["inputs"],"all MCFGs with consistent fanouts whose variables refer to existing successors (for the counterparts of derivations: to existing components)",
 "One grammar is converted in the tests.",
 ["src/grammars/lcfrs/conversion.rs","search/src/search.rs"],[("From<Mcfg> for Lcfrs","src/grammars/lcfrs/conversion.rs"),("composition_deletes","src/grammars/lcfrs/conversion.rs"),("to_lcfrs_rule","src/grammars/lcfrs/conversion.rs")])
p("C11","A partition is accepted exactly when its cells are disjoint",
 "A list of cells is accepted as a partition exactly when no symbol is in two of them. Then every symbol of a cell is mapped to exactly that cell, every other symbol to none, the alphabet is the union of the cells, and listing the cells yields every non-empty cell exactly once, ordered by least symbol.",
 ["inputs"],"all lists of finite cells over all ordered alphabets",
 "One accepted and one rejected list are tested.",
 ["src/util/partition.rs"],[("Partition::new/get_cell/collapse/alphabet","src/util/partition.rs")])
p("C12","The persistent pushdown is a stack",
 "A persistent pushdown behaves as a finite sequence: push adds one element on top, pop takes the top element off and returns it with the rest, setting replaces only the top element, peeking shows it, and pop, set and peek on the empty pushdown report failure and leave it empty. Converting from and to a list, iterating, mapping a function over the elements and comparing for equality agree with the same operations on that sequence, bottom element first.",
 ["histories","inputs"],"all sequences of operations and all contents",
 "Tests check a few stacks with up to four elements.",
 ["src/util/push_down.rs"],[("Pushdown::push/pop/set/peek/to_vec/map, From, Into, PartialEq","src/util/push_down.rs")])
p("C13","A pushdown automaton instruction replaces exactly the matched top symbols",
 "Applying a replace instruction to a pushdown store succeeds exactly when the store's topmost symbols, read from the top, are the symbols to be replaced; it then yields exactly one store in which these are removed and the new symbols are put in their place with everything below unchanged, and otherwise it yields none. The current symbol is the topmost one and a store is at bottom exactly when one symbol is left. Mapping a function over the symbols of a store or an instruction keeps their number and order.",
 ["inputs"],"all instructions and all stores over all symbols with a lawful order",
 "Tests try a handful of fixed stores of at most six symbols.",
 ["src/automata/push_down_automaton/mod.rs"],[("PushDown::replace","src/automata/push_down_automaton/mod.rs"),("PushDownInstruction::apply","src/automata/push_down_automaton/mod.rs")])
p("C14","Tree stacks change only where the stack pointer says",
 "A tree stack is a tree with a stack pointer: moving the pointer up to an existing child or down to the parent never changes the tree, setting changes the label at the pointer only, and pushing adds exactly one childless node at a vacant child position and moves the pointer to it. Moving up to a vacant position, moving down at the root and pushing to an occupied position fail and leave tree and pointer unchanged. An instruction yields a result exactly when the label at the pointer and at the target node match the instruction's and the move is possible, and then its effect is exactly the move and the relabelling of the target node.",
 ["histories","inputs"],"all tree stacks built by any sequence of operations, all instructions",
 "Tests build a few stacks with at most six nodes; shared sub-structures and re-entered children are hardly visited.",
 ["src/automata/tree_stack_automaton/tree_stack.rs","src/automata/tree_stack_automaton/tree_stack_instruction.rs"],
 [("TreeStack::push/push_with/push_next/up/ups/down/set","src/automata/tree_stack_automaton/tree_stack.rs"),("TreeStackInstruction::apply","src/automata/tree_stack_automaton/tree_stack_instruction.rs")],
 [("parent/children","zipper around the focused node","src/automata/tree_stack_automaton/tree_stack.rs")])
p("C15","Automaton transitions consume exactly their word and multiply weights",
 "A transition is applicable to a configuration exactly when the remaining input starts with the transition's word and its instruction is applicable to the storage. It then yields one configuration per storage the instruction yields, in that order, whose remaining input is the old one without that word and whose weight is the product of the configuration's and the transition's weight; otherwise it yields none. The finite-state instruction is applicable exactly in its source state and yields its target state.",
 ["inputs"],"all transitions and configurations over all storage types, terminals and weights",
 "Only a few automata are run end to end.",
 ["src/recognisable/transition.rs","src/recognisable/configuration.rs","src/automata/finite_state_automaton/mod.rs"],[("Transition::apply","src/recognisable/transition.rs"),("FiniteStateInstruction::apply","src/automata/finite_state_automaton/mod.rs")])
p("C16","The reversing weight wrapper reverses the order and nothing else",
 "Wrapping weights reverses their order completely: every comparison of two wrapped weights is the comparison of the underlying weights with the operands swapped, and equality is unchanged. All arithmetic, the neutral elements and tests for them, and factorisation act on the underlying weights unchanged.",
 ["inputs"],"all weights of all underlying types",
 "There is one doc-style use in tests and no test of the arithmetic.",
 ["src/util/reverse.rs"],[("Ord/PartialOrd and arithmetic of Reverse","src/util/reverse.rs")])
p("C17","An equivalence relation maps every value to its class",
 "An equivalence relation given by disjoint classes and a default class label maps each listed value to the label of the class that lists it and every other value to the default label. It is rejected exactly when a class carries the default label or some value is listed in two classes.",
 ["inputs"],"all families of finite classes, labels and values",
 "Tests use two small relations.",
 ["src/approximation/equivalence_classes.rs"],[("EquivalenceRelation::new_safe/project","src/approximation/equivalence_classes.rs")])
p("C18","Multiple-Dyck instructions open and close only what the cell allows, and the languages are what their automata accept",
 "On the tree stack used to recognise multiple Dyck words, an opening instruction with symbol σ and cell C either pushes a new node carrying σ and C without σ, or re-enters an existing child that is closed and still expects σ, removing σ from what it expects; the positioned variant does this at its position only. A closing instruction succeeds exactly when the current node carries σ as open symbol, closes it and moves to the parent. No other node of the tree is changed, and all possible results are yielded. The automaton of a (sorted) multiple Dyck language has exactly the transitions that open and close each symbol of the partition with its cell (at the position its sort gives); a configuration is accepted exactly when the word is used up, the pointer is at the root and every node is closed and expects nothing. A word is recognised if and only if the automaton has an accepting run on it; recognised words are well-bracketed.",
 ["inputs","histories"],"all tree stacks, symbols, cells and positions; all partitions, sorts and words",
 "Tests run five fixed words.",
 ["src/dyck/multiple/automaton/instruction.rs","src/dyck/multiple/automaton/mod.rs","src/dyck/multiple/mod.rs","src/automata/tree_stack_automaton/tree_stack.rs"],[("MultipleDyckInstruction::apply","src/dyck/multiple/automaton/instruction.rs"),("MultipleDyckAutomaton::new/sorted/is_terminal","src/dyck/multiple/automaton/mod.rs"),("MultipleDyckLanguage::recognize","src/dyck/multiple/mod.rs")])
p("C19","Imported discodop and rparse rules mean what the files say",
 "A yield function written as bit strings is read as the composition whose components list the successors in the order the bits say, with each successor's variables numbered in order of occurrence; an rparse clause likewise yields exactly the composition it spells out. Imported rule weights are the relative frequencies of the rules among those with the same left-hand side, counting the lexer's entries; a default lexer has one entry of weight one for each symbol that occurs as a successor and on no left-hand side. A component of more than 64 variables, or a line that is not a rule, is reported as an error.",
 ["inputs"],"all well-formed rule files",
 "Tests import two small files.",
 ["src/grammars/lcfrs/from_discodop.rs","src/grammars/lcfrs/from_rparse.rs"],[("from_binary and conversion of yield functions","src/grammars/lcfrs/from_discodop.rs"),("conversion of rparse clauses","src/grammars/lcfrs/from_rparse.rs")])
p("C20","Parses found by the Chomsky-Schützenberger parser derive the input",
 "Every derivation the Chomsky-Schützenberger parser returns is a derivation of the grammar whose yield is the given word; without beam restriction derivations come with non-increasing weight, and every derivation within the candidate limit is found.",
 ["inputs"],"all grammars in normal form and all words",
 "Tests parse three words with one small grammar; the module is not even built here.",
 ["src/grammars/lcfrs/csparsing/mod.rs","src/grammars/lcfrs/csparsing/cowderiv.rs","src/grammars/lcfrs/csparsing/automaton/mod.rs","src/grammars/lcfrs/csparsing/automaton/chart.rs"],[("fill_chart, k-best enumeration, toderiv","src/grammars/lcfrs/csparsing/")])
p("C21","Exported NeGra trees have consistent numbering",
 "In an exported derivation each terminal of the yield gets exactly one line, in word order; inner nodes are numbered consecutively from 500 (the root, whose rule has no terminals, is 0), and every line's parent column names the number of its parent in the derivation. A derivation meets the export criteria exactly when the composition of each rule consists of variables only or of exactly one terminal; one that does not is refused (a panic). The export for a sentence without parse lists each word once, in order, below one node 500.",
 ["inputs"],"all derivations that meet the export criteria",
 "Tests compare the output for four fixed trees.",
 ["src/grammars/pmcfg/negra.rs"],[("to_negra, identify_terminals, to_negra_vector","src/grammars/pmcfg/negra.rs")])
p("C22","Printed grammars can be read back",
 "Printing a context-free grammar or PMCFG in the textual grammar format and reading it back yields the same grammar; comment lines and lines without non-whitespace characters are ignored, and malformed text is reported as an error rather than by a panic.",
 ["inputs"],"all grammars and all texts",
 "Tests read a dozen fixed lines.",
 ["src/grammars/cfg/from_str.rs","src/grammars/pmcfg/from_str.rs","src/util/parsing.rs"],[("FromStr and Display of grammars and rules","src/grammars/")])
p("C23","Approximated automata accept at least what the original accepts",
 "For every run of an automaton on a word there is a run of its approximation on the same word with at least its weight, provided that adding weights (as an automaton does when it merges equal transitions) does not lower them; the run is accepting iff the original one is. The approximation of an instruction, applied to the approximation of a storage, yields the approximation of what the instruction yields. Un-approximating a transition gives exactly the original transitions whose approximation it is, up to its weight, and un-approximating a run exactly the sequences of such transitions.",
 ["inputs","histories"],"all automata, approximation strategies and runs",
 "Tests approximate three automata.",
 ["src/approximation/mod.rs","src/approximation/relabel.rs","src/approximation/tts.rs"],[("approximate_storage/approximate_instruction","src/approximation/")])
p("C24","Automata enumerate accepting runs best first",
 "Recognition by a weighted automaton enumerates exactly its accepting runs on the given word, each once, in order of non-increasing weight when no weight exceeds one; with a beam, every enumerated run is an accepting run on the word. The transitions and the initial storage an automaton tells are those it was made of; a pushdown automaton makes those one that differ in their weights only, with the sum of the weights.",
 ["inputs","histories"],"all automata with terminating runs and all words",
 "Tests recognise a dozen words with four small automata.",
 ["src/recognisable/automaton.rs","search/src/search.rs","src/recognisable/configuration.rs","src/automata/finite_state_automaton/mod.rs","src/automata/push_down_automaton/mod.rs","src/automata/tree_stack_automaton/mod.rs"],[("recognise/recognise_beam","src/recognisable/automaton.rs"),("list_transitions","src/automata/push_down_automaton/mod.rs")])
p("C25","Address-indexed trees are maps from addresses to values",
 "A tree indexed by Gorn addresses behaves as a finite map from addresses to values: insertion, lookup, removal, clearing, merging another tree into it (whose values win), splitting it at an address, comparing it, counting its nodes and building it from a list (later entries win) are the corresponding operations on that map. It iterates over its nodes, addresses and values in lexicographic order of the addresses, each once, parents before children.",
 ["inputs","histories"],"all sequences of operations and all contents",
 "Tests insert a few nodes.",
 ["src/util/tree.rs"],[("GornTree","src/util/tree.rs")])
p("C26","Coarse-to-fine recognition finds the runs of the original",
 "Coarse-to-fine recognition of a word hands out accepting runs of the original automaton on that word, and all of them when it ends, each once when the original's transitions are pairwise different; on one level as well as on several. They come in order of non-increasing weight when no weight exceeds one and the approximation's runs come in such an order and weigh at least what the original's do.",
 ["inputs","histories"],"all automata, chains of approximation strategies and words with terminating runs",
 "Tests recognise a handful of words with two automata.",
 ["src/recognisable/coarse_to_fine.rs","src/recognisable/automaton.rs","src/approximation/mod.rs"],[("CoarseToFineRecogniser::recognise","src/recognisable/coarse_to_fine.rs")])
p("C27","Automata made of grammars accept what the grammars derive",
 "The pushdown automaton made of a context-free grammar has, as its accepting runs on a word, exactly the leftmost derivations of the word from an initial nonterminal, each once (rules that differ in their weights only being one with the sum of the weights), with the product of the rules' weights; recognition enumerates them. The tree stack automaton made of a multiple context-free grammar whose rules differ in more than their weights and use each component of each successor once, those of a successor in order, does so likewise for its derivations.",
 ["inputs"],"all grammars and words with terminating runs",
 "Tests compare two grammars on a handful of words.",
 ["src/automata/push_down_automaton/from_cfg.rs","src/automata/tree_stack_automaton/from_pmcfg.rs"],[("From<CFG>","src/automata/push_down_automaton/from_cfg.rs"),("From<PMCFG>","src/automata/tree_stack_automaton/from_pmcfg.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")

"""Registry of the claimed properties: the contract files, the probe, what is trusted."""

#: property -> specs (contract files, all must verify), probe (kind, binary)
PROPS = {
    "C01": {"specs": ["C01"], "probe": ("core", "c01"),
            "note": "Proof for all words over any alphabet with a lawful equality; assumes vstd's specifications of Vec and slices.",
            "theorems": ["recognize", "run_iff_derives"]},
    "C02": {"specs": ["C02"], "probe": ("core", "c02"),
            "note": "Proof for all histories as contracts of every operation over the multiset of held entries; std's BinaryHeap is specified (assumed contract), HashSet by vstd.",
            "theorems": ["push", "pop", "from_iter"]},
    "C03": {"specs": ["C03"], "probe": ("core", "c03"),
            "note": "Proof for all histories: each agenda is verified against one trait contract over the multiset held; std's BinaryHeap and the crate min-max-heap are specified (assumed contracts).",
            "theorems": ["push_law", "pop_law", "first_law"]},
    "C04": {"specs": ["C04"], "probe": ("core", "c04"),
            "note": "Proof for all graphs and histories: each answer of a search takes the agenda's first element and pushes exactly its successors; theorems over these steps show that an ended run has handed out everything reachable and nothing else. The successor relation's result type is specialised to Vec; std collections are specified.",
            "theorems": ["next", "ended_run_reaches", "unique_answer_accounts", "unique_answer_confined"]},
    "C05": {"specs": ["C05"], "probe": ("core", "c05"),
            "note": "Proof for all histories as contracts of every operation over the map from indices to lists; get_unchecked is verified as a bounds-checked access.",
            "theorems": ["push_to", "get", "get_mut", "into"]},
    "C06": {"specs": ["C06"], "probe": ("core", "c06"),
            "note": "Proof for all rule lists; sorting a list of numbers and comparing two of them are assumed contracts of std, hash tables are specified by vstd, the multimap is verified (same contracts as C05). The rule list parameter of read_fanouts is specialised to the vector it is called with.",
            "theorems": ["check_composition", "read_fanouts", "new", "in_normal_form"]},
    "C07": {"specs": ["C07"], "probe": ("core", "c07"),
            "note": "Proof for all grammars; the set of variables is std's BTreeSet as specified by vstd, the order of pairs of numbers is assumed lawful.",
            "theorems": ["from_pmcfg", "from"]},
    "C08": {"specs": ["C08"], "probe": ("core", "c08"),
            "note": "Proof for all grammars with faithful clones.",
            "theorems": ["from"]},
    "C09": {"specs": ["C09"], "probe": ("core", "c09"),
            "note": "Proof for all derivations with faithful clones and lawful equality and hashing, down to the theorem that separating terminals changes no value. Ordered maps keyed by addresses are an assumed contract of std (lib/gorn.rs), hash tables are specified by vstd, and so is the memo of evaluate_pos. That the search for an unused head ends is not shown (it depends on what extending a symbol does); the doc comments' Display bounds are dropped.",
            "theorems": ["evaluate", "evaluate_pos", "to_term", "separate_terminal_rules", "same_value", "still_whole", "sorted_out"]},
    "C10": {"specs": ["C10"], "probe": ("core", "c10"),
            "note": "Proof for all MCFGs with consistent fanouts, down to a bijection-free correspondence of derivations; the search and the counting of fanouts are the verified contracts of C04 and C06, and the conversion is assumed to end (which it does: there are finitely many pairs). Taking the nodes of the search out in a for loop is stood in for by collecting them first.",
            "theorems": ["from", "composition_deletes", "to_lcfrs_rule", "same_derivations"]},
    "C11": {"specs": ["C11"], "probe": ("core", "c11"),
            "note": "Proof for all lists of cells over any alphabet with a lawful order; std's BTreeMap and BTreeSet are specified by vstd, taking them apart in increasing order is an assumed contract. Reading a partition back through serde is outside.",
            "theorems": ["new", "get_cell", "collapse", "alphabet"]},
    "C12": {"specs": ["C12"], "probe": ("full", "c12"),
            "note": "Proof for all contents as contracts of every operation over the sequence held, bottom first, with faithful clones; equality for lawful element equality; std's slice reverse and pointer comparison are assumed contracts. A mapped function may have state: each result is an answer it gives in some state, the top one in the state it came with.",
            "theorems": ["push", "pop", "set", "to_vec", "eq", "items_determine"]},
    "C13": {"specs": ["C13"], "probe": ("full", "c13"),
            "note": "Proof for all stores and instructions over symbols with lawful equality and faithful clones; std's to_vec and slice reverse are assumed contracts, ends_with and the vector operations are specified by vstd.",
            "theorems": ["replace", "apply"]},
    "C14": {"specs": ["C14"], "probe": ("full", "c14"),
            "note": "Proof for all tree stacks and histories as contracts of every operation over the labels by address and the pointer, with faithful clones; the clone of a reference-counted pointer is assumed to point to the same value. A child position below usize::MAX.",
            "theorems": ["push", "up", "ups", "down", "set", "push_next", "apply"]},
    "C15": {"specs": ["C15"], "probe": ("full", "c15"),
            "note": "Proof for all instructions (whatever they yield), configurations and weights; terminals with lawful equality, faithful clones of terminals and storages. The product is the weight type's own multiplication, where vstd knows it to be a function.",
            "theorems": ["apply"]},
    "C16": {"specs": ["C16"], "probe": ("core", "c16"),
            "note": "Proof for all weight types: comparison contracts are the standard library's specifications with operands swapped; every arithmetic operation is specified as whatever the wrapped weights answer.",
            "theorems": ["reversed", "partial_cmp", "cmp"],
            "assumptions": ["derived PartialEq/Eq compare the wrapped weights (the derivation itself is checked to be present)", "the traits Zero and One of num-traits are declared with their signatures"]},
    "C17": {"specs": ["C17"], "probe": ("core", "c17"),
            "note": "Proof for all families of classes; std's HashMap (entry API) and HashSet are specified by vstd, taking them apart is an assumed contract (each entry once, in some order).",
            "theorems": ["new_safe", "project", "listed_once"]},
    "C18": {"specs": ["C18", "C18b"], "probe": ("full", "c18"),
            "note": "Proof for all instructions and tree stacks over symbols with lawful equality and order and faithful clones; the tree stack operations are verified (same contracts as C14), std's BTreeSet is specified by vstd. A child position below usize::MAX. The automata and languages are verified over the contracts of recognition (C24), partitions (C11) and tree stacks (C14): which transitions there are, what is accepted, that a word is recognised exactly when there is an accepting run (a search that does not end gives no answer), and that accepted words are well-bracketed.",
            "theorems": ["apply", "is_empty", "all_ways_up", "new", "sorted", "is_terminal", "recognize", "accepted_are_nested", "brackets_weigh"],
            "assumptions": ["for the automaton, apply is a function of its input (its results are proved)", "a list is its contents", "equality, order and hashing of brackets, instructions and storages are derived and lawful"]},
    "C24": {"specs": ["C24", "C24b", "C24c", "C24d"], "probe": ("full", "c24"),
            "note": "Proof for all automata that meet the contract of the trait Automaton, all words and beams: what recognise and recognise_beam hand out are accepting runs, each as often as there are such runs when a full search has ended, in order of non-increasing weight when no transition increases weights. Iterators are stood in for by the sequences they hand out; agendas, search and transitions are the verified contracts of C02, C03, C04 and C15. That the search ends is not shown. FiniteStateAutomaton, TreeStackAutomaton and PushDownAutomaton (new and the methods of the trait) are verified to meet that contract, and what is recognised with them are exactly the accepting runs of the transitions they are made of; for push-down automata of the transitions after those with the same word and instruction are made one with the sum of their weights; each is handed out once (for the other two: if no two transitions are the same). Of each automaton it is verified that from_transitions, transitions, list_transitions and initial give what it is made of (the methods `initial` and `transitions` that tree stack automata have besides the trait's are not looked into). An automaton that has emptied its pushdown panics (there is no topmost symbol to look up): what is said is said of recognition that does not come across that.",
            "theorems": ["recognise", "recognise_beam", "recognised", "history_is_runs", "search_falls", "new", "item_map", "fs_renders", "fs_lawful", "fs_recognised", "integerise", "un_integerise", "ts_renders", "ts_lawful", "ts_recognised", "merged_coded", "gathered_filed", "pd_renders", "pd_lawful", "pd_recognised", "list_transitions", "transitions", "initial", "fs_tells", "ts_tells", "pd_tells", "reported_once", "fs_once", "ts_once", "pd_once"],
            "assumptions": ["what an instruction answers is a function of the storage (for finite states and pushdowns it is shown; for tree stacks what it answers is verified, that it is a function is not)", "std's HashMap::get_mut; what consuming a HashMap, listing its values and collecting into a BinaryHeap yield", "there are lists of every length up to usize::MAX; a recognition that panics hands nothing out", "the crates integeriser and bit_set (a HashIntegeriser numbers values one by one; a BitSet is a set)", "a list is its contents", "the weights' multiplication is total and a function, their order lawful"]},
    "C19": {"specs": ["C19"], "probe": ("full", "c19"),
            "note": "Proof for all rule files that have been read into the lists of rules, counts and bits: the meaning of the bit strings, the conversions of both formats, the relative frequencies and the default lexer. Splitting the text into these parts (the nom parsers) is run on concrete files only.",
            "theorems": ["from_binary", "from", "into", "with_default_lexer"],
            "assumptions": ["the nom parsers hand over the fields of each line (concrete runs only)", "what a name is read as depends on its text only", "powers of two and characters of a text are as std documents", "adding and dividing weights are functions, as vstd describes them"]},
    "C21": {"specs": ["C21"], "probe": ("core", "c21"),
            "note": "Proof for all derivations with faithful clones: rooted, whole, without terminals in the root's rule, and with as many words as variables of the sentence where words are given. That derivations that do not meet the criteria are not exported is shown as: if to_negra hands out a text, they are met. The ordered map from spots to numbers is an assumed contract of std; printing a value is a function of the value (the crate's own writing trait stands in for ToString), and format! is rewritten into the concatenation it denotes.",
            "theorems": ["identify_terminals", "meets_negra_criteria", "get_rule_number", "to_negra_vector", "to_negra", "noparse"],
            "assumptions": ["std's BTreeMap", "to_string is a function of the value and prints strings as themselves"]},
    "C23": {"specs": ["C23"], "probe": ("full", "c23"),
            "note": "Proof for all instructions, storages and runs: both strategies (tree stacks to pushdowns, merging of pushdown symbols) are shown to keep the promises of a contract of the trait ApproximationStrategy, from which follows that a run of the original is one of the approximation on the same words with the same weights. What an instance remembers and what un-approximation returns (transitions and runs, with multiplicities) is proved, from an assumed contract of std's ordered map over a proved order of transitions. The automata are stood in for by the lists of their transitions; that a pushdown automaton is made of them, equal ones merged by adding their weights, and that an automaton lists the transitions it is made of, is verified with C24 (about the automata themselves, not about their stand-ins here).",
            "theorems": ["commutes", "closes", "run_kept", "run_returns", "approximate_automaton", "unapproximate_run", "transitions_ordered"],
            "assumptions": ["std's BTreeMap finds the entries of keys that compare equal, and no others", "the order of lists is lexicographic", "the relabelling is a function", "the stand-ins of automata list the transitions they are built from (of the automata themselves it is verified with C24)"]},
    "C25": {"specs": ["C25"], "probe": ("core", "c25"),
            "note": "The type wraps std's ordered map: proof for all contents that every operation is the map operation it is meant to be and that an iteration lists each node once, parents first, from an assumed contract of std's BTreeMap with address keys (lookups specialised to that key type). entry, values_mut and iteration by mutable reference are under concrete runs only, not under contract.",
            "theorems": ["insert", "get", "remove", "append", "split_off", "cloned", "parents_first", "relisted"]},
    "C26": {"specs": ["C26"], "probe": ("full", "c26"),
            "note": "Proof for all automata, strategies, words and levels: the lazy parse forest (both buffers, the loop of next), the check of runs and the recogniser itself meet contracts from which follows, level by level, that what is handed out are accepting runs of that level's automaton on the word with their weights, all of them at the end, each once, in order under the stated conditions. The boxed iterators are typed concretely; of recognisers on the level below only the contract of the trait is used (for automata that is C24's). Equality and partial order of items are not looked into.",
            "theorems": ["check_run", "peek_input", "next_input", "next", "goes_on", "recognise", "level_finds", "level_once", "run_kept", "run_returns", "items_lawful"],
            "assumptions": ["std's BinaryHeap and BTreeMap", "what derive(Ord) gives for pushdowns and items", "automata list, up to weights, the transitions they are built from (verified with C24 of each automaton)", "partial_cmp and cmp of weights agree", "numbers of children of tree stack nodes stay below the range of usize"]},
    "C27": {"specs": ["C27", "C27b", "C27c"], "probe": ("full", "c27"),
            "note": "Proof for all context-free grammars and words: the automaton's transitions are exactly one per rule (right side reversed), one per letter and one per initial nonterminal; its accepting runs are then the leftmost derivations, with their weights, and recognition hands each of them out once. Reading of the set of letters is assumed to give each once (a list, if the letters are gathered in one, has to be shown free of repetitions; letters have a lawful equality). For all multiple context-free grammars whose variables refer to components that exist, the transitions of the tree stack automaton are proved to be, one for one, entries into and exits from initial rules, calls and returns (all_steps), and reading the tree of rules off a storage gives what hangs below the root's first child; that their runs are the derivations is compared with an enumeration of derivations on random grammars (bounded).",
            "theorems": ["from_cfg", "made_weights", "merged_total", "accepted_derives", "derivation_runs", "cfg_recognised", "one_telling", "cfg_once", "from_pmcfg", "to_abstract_syntax_tree"],
            "assumptions": ["what derive(Hash, Eq, Ord, Clone) gives for states, rules, instructions and transitions", "std's HashMap, HashSet, BTreeMap and BinaryHeap", "adding to zero changes nothing (a hypothesis)", "sentential forms fit into memory"]},
}

#: property -> why it is not claimed
NOT_APPLICABLE = {
    "C20": "the modules under grammars/lcfrs/csparsing are left out of the build (they need the crate integeriser, which is not here), so no change in them can be compiled against the real code and tested; their chart and k-best enumeration are lazy iterators over borrowed, interiorly mutable tables, which Verus does not accept as they stand, and rewriting them would verify a model",
    "C22": "reading is done by parsers that nom's macros expand into (nested closures over nom's result types, which no deductive verifier here has contracts for) and printing goes through std::fmt::Formatter, which Verus does not model; what is left to put under contract says nothing about reading back",
}

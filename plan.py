"""What each check runs: crate, amounts per tier, what must have been observed, and the rule by
which cases are made."""

GRAMMARS = (
    "seeded random grammars of twelve families (tiny, small, medium, delimited, precedence ladders, "
    "rings of mutually recursive rules, wide, large ones of hundreds of productions or symbols, shared cores in several contexts, curated real ones, "
    "mutations of those, compositions), symbols in a random order"
)


def p(cases, secs, rule, need, thorough=900, crate="mon", **k):
    return dict(crate=crate, quick=dict(cases=cases, secs=secs),
                thorough=dict(cases=10_000_000, secs=thorough), rule=rule, need=need, **k)


WORDS = ("per grammar: sentences drawn from it, mutations of sentences (insert, delete, replace, swap, "
         "duplicate, truncate) and random words")

TEXTS = ("seeded random texts: programs of the grammar language in random layouts, mutations of their tokens, truncations, "
         "character-level damage, soups of tokens and characters, and the tool's own grammar, whole and damaged.")

PLAN = {
    "C01": p(18000, 60, f"{GRAMMARS}, kept if the reference CLR table is conflict-free; {WORDS}. The verdict of "
             "validate and parse is compared with an Earley recogniser and the reference table. "
             "Non-trivial: distinct (grammar, word) pairs with at least one token.",
             ["sentences", "non_sentences"]),
    "C02": p(22000, 60, f"{GRAMMARS}, kept if the reference LALR(1) table is conflict-free; {WORDS}; as C01.",
             ["sentences", "non_sentences"]),
    "C03": p(80000, 60, f"{GRAMMARS}, kept if the reference SLR(1) table is conflict-free; {WORDS}; as C01.",
             ["sentences", "non_sentences"]),
    "C04": p(40000, 60, f"{GRAMMARS}; the CLR table is walked in lockstep with a reference LR(1) automaton, cell by "
             "cell. Non-trivial: distinct grammars with more than three states.",
             ["table_cells_compared", "conflict_cells", "grammars_without_conflicts"]),
    "C05": p(48000, 60, f"{GRAMMARS}; the LALR table is walked in lockstep with a reference LALR(1) automaton "
             "(DeRemer/Pennello-style propagation, sampled against merged LR(1)).",
             ["table_cells_compared", "conflict_cells", "grammars_without_conflicts"]),
    "C06": p(320000, 60, f"{GRAMMARS}; the SLR table is walked in lockstep with a reference SLR(1) automaton.",
             ["table_cells_compared", "conflict_cells", "grammars_without_conflicts"]),
    "C07": p(1200000, 60, f"{GRAMMARS}, also untrimmed ones with unproductive and unreachable rules; every FIRST set is "
             "compared with an independent fixpoint and with first tokens of drawn sentences.",
             ["sets_compared", "sentences_checked"]),
    "C08": p(1200000, 60, f"{GRAMMARS}, also untrimmed ones; every FOLLOW set is compared with an independent fixpoint.",
             ["sets_compared"]),
    "C09": p(320000, 60, f"{GRAMMARS} whose table has conflicts; {WORDS}. Non-trivial: distinct (grammar, word).",
             ["conflict_errors", "accepted_without_meeting_a_conflict", "rejected_without_meeting_a_conflict"]),
    "C10": p(28000, 60, f"{GRAMMARS}; {WORDS}. Every reductor call is logged with unique value ids; the log is replayed "
             "offline as a rightmost derivation in reverse. Non-trivial: inputs with at least one reduction.",
             ["accepted_inputs", "reductions"]),
    "C11": p(28000, 60, f"{GRAMMARS} without conflicts; {WORDS}, plus unknown symbols and embedded end markers. The place of "
             "the error and the expected tokens are compared with Earley prefix sets.",
             ["errors_at_end", "errors_inside", "incomplete_errors"]),
    "C12": p(60000, 60, f"{GRAMMARS}, untrimmed ones included; inputs over every symbol there is: terminals, rule names, the "
             "end marker, unknown symbols. A budget of symbol operations bounds each case.",
             ["inputs_with_non_terminals", "tables_built", "accepted", "rejected"]),
    "C13": p(32000, 60, f"{GRAMMARS}, conflicting ones included; {WORDS}. An observer checks the stack invariants before "
             "every step. Non-trivial: runs of more than two steps.",
             ["steps_observed", "steps_by_hand", "failed_steps_by_hand"]),
    "C14": p(36000, 60, f"{GRAMMARS}; histories of up to 15 parses, resets, interrupted runs and runs that a panicking reduction or source breaks off on one machine, each compared "
             "with a fresh machine.", ["reuses", "accepted", "rejected", "runs_broken_off"]),
    "C15": p(18000, 60, f"{GRAMMARS}; tables with up to five states doubled at random are reduced until nothing changes and "
             "walked against the reference; outcomes are compared before and after.",
             ["runs_compared", "states_removed", "shrinking_calls"]),
    "C16": p(3000, 60, f"{GRAMMARS}; the same grammar over String, &str, integer, char, recursive enum, a type whose values are all shown alike and the monitored "
             "symbol type, each in another symbol order, has to give the same outcomes.",
             ["outcomes_compared", "symbol_types_compared"]),
    "C17": p(1600000, 60, f"{GRAMMARS}, untrimmed ones included; classification of every symbol, positions, spans and the "
             "grammar macro compared with the grammar as written.", ["symbols_classified", "productions_compared", "positions_compared"]),
    "C18": p(28000, 60, f"{GRAMMARS}; snapshots of a running machine continue with different inputs, interleaved step by step, "
             "and are compared with fresh runs. Non-trivial: snapshots after at least one step.",
             ["copies_compared", "copies_of_finished", "copies_of_failed"]),
    "C19": p(18000, 60, f"{GRAMMARS}; each state's items, kernel look-ups and actions compared with one another.",
             ["states_checked", "transitions_checked", "complete_items_checked"]),
    "C20": p(110000, 60, f"{GRAMMARS}; closures, advances and merges of random item sets against their definitions.",
             ["item_sets", "items_in_closures"]),
    "C21": p(6000, 60, "up to 40 lines per run of the lrp command: nested brackets, mutations of them, known and unknown symbols, "
             "blanks, bytes that are no text, with and without a last line end. Non-trivial: distinct lines of several symbols.",
             ["lines_accepted", "lines_rejected", "lines_with_unknown_symbols", "lines_of_no_text", "words_through_the_printed_table",
              "transitions_compared", "states_compared", "tool_runs"]),
    "C22": p(4000000, 60, TEXTS + " Non-trivial: distinct texts with a token.",
             ["tokens_compared", "texts_with_errors", "texts_without_errors", "comments_skipped"], crate="wopmon"),
    "C23": p(600000, 60, TEXTS + " Non-trivial: distinct texts with several tokens.",
             ["programs_accepted", "errors_at_end", "errors_inside", "errors_at_what_is_no_token", "expected_lists_read",
              "programs_built", "unsound_programs_refused"], crate="wopmon"),
    "C24": p(600000, 60, "random programs of the grammar language, each laid out in two ways with blanks and comments between "
             "tokens, and the tool's own grammar. Non-trivial: distinct texts of several declarations.",
             ["items_compared", "groups_compared", "spans_compared", "read_twice"], crate="wopmon"),
    "C25": p(180000, 60, "random sound programs of the grammar language with nested groups, optional items, aliases and imports, "
             "and the tool's own grammar. Non-trivial: distinct programs of several productions.",
             ["productions_compared", "rules_compared", "aliases_compared", "imports_compared", "imports_written", "dumps_read"], crate="wopmon"),
    "C26": p(160, 60, "random grammars whose code blocks list every name bound, 24 per generated program, compiled with rustc and "
             "run on marked tokens. Non-trivial: distinct grammars with a rule of several productions.",
             ["programs_compiled", "reductors_run", "absent_items", "absent_groups", "items", "cloned_items", "groups",
              "cloned_groups"], crate="wopmon"),
    "C27": p(120, 60, "random grammars of C01-C06 written in the language with groups and optional items folded in, 24 per "
             "generated program, compiled with rustc and run on sentences and mutations. Non-trivial: distinct sentences.",
             ["sentences_evaluated", "words_rejected", "programs_compiled", "grammars_lr1", "grammars_lalr", "grammars_slr"], crate="wopmon"),
    "C28": p(480, 60, "the tool's grammar in random order and layout; 401 texts per parser it writes, as C22. Non-trivial: distinct "
             "texts.", ["parsers_generated", "texts_accepted_by_both", "texts_rejected_by_both"], crate="wopmon"),
    "C29": p(24000, 30, TEXTS + " Each in a directory of its own, with and without an older out.rs, or missing. Non-trivial: distinct "
             "texts of several tokens.", ["files_written", "files_refused", "files_compared", "files_replaced", "missing_files",
             "files_of_no_text", "files_of_the_same_length", "faults_of_the_disk", "files_elsewhere", "files_of_other_names",
             "files_written_over", "files_through_a_pipe"], crate="wopmon"),
    "C30": p(10_000_000, 75, f"the workloads of C01-C20, C22-C25 and C31-C33, with four threads (two interpreted) at once on the same grammar "
             "or text, and machines whose reductions panic; built with AddressSanitizer, with ThreadSanitizer, interpreted by Miri, and "
             "plainly. Non-trivial: distinct grammars and texts run in several threads.",
             ["workload_evaluations", "threads_compared", "runs_unwound", "odd_machines_run"],
             fleet=[("mon", "asan"), ("mon", "tsan"), ("mon", "miri"), ("wopmon", "asan"), ("wopmon", "tsan"), ("wopmon", "miri"),
                    ("mon", "asan"), ("mon", "checked")]),
    "C31": p(4000, 40, f"{GRAMMARS}; {WORDS}. Values count themselves; before every step of a machine, after runs, copies, resets and "
             "drops there are as many as have a place. An allocator counts what a thread holds over histories of the same work. Texts of "
             "the grammar language are read, built and written again and again. Non-trivial: distinct inputs of several steps, texts.",
             ["values_made", "results_held", "failed_parses", "histories", "parsers_dropped", "texts_read_again", "programs_built",
              "runs_broken_off"],
             fleet=[("mon", "checked"), ("mon", "checked"), ("mon", "checked"), ("mon", "checked"), ("mon", "release"), ("mon", "release"),
                    ("wopmon", "checked"), ("wopmon", "release")]),
    "C32": p(18000, 60, f"{GRAMMARS}, untrimmed ones included; every item with the dot in every place; stacks before every step; the error "
             "of every rejected word. Non-trivial: distinct (grammar, word).",
             ["items_shown", "stacks_shown", "errors_shown"]),
    "C33": p(12000, 60, f"{GRAMMARS}; {WORDS}. Three ways to build a parser and eight to run one, compared. Non-trivial: distinct (grammar, "
             "word) of several tokens.", ["parsers_compared", "runs_compared", "accepted", "rejected"]),
    "C34": p(60000, 60, TEXTS + " What the wop command prints is compared with the reference lexer's tokens and the reference parser's tree. "
             "Non-trivial: distinct texts of several tokens.",
             ["tokens_printed", "stacks_printed", "errors_printed", "trees_printed", "trees_indented", "literals_without_alias",
              "literals_with_alias"], crate="wopmon"),
    "C35": p(6000, 60, f"{GRAMMARS}, conflicting ones included; {WORDS}, also with rule names, end markers and unknown symbols. Sources "
             "count what is taken from them; where an input is rejected the source goes on without end. Texts of the grammar language "
             "through a lexer that counts; lines given to the lrp command one after the other. Non-trivial: distinct inputs of several "
             "steps, texts of several tokens.",
             ["steps_observed", "runs_compared", "sources_without_end", "accepted", "rejected", "lines_answered_at_once", "tokens_taken",
              "texts_not_read_to_the_end"],
             fleet=[("mon", "checked")] * 4 + [("mon", "release")] * 2 + [("wopmon", "checked"), ("wopmon", "release")]),
    "C36": p(16000, 60, f"{GRAMMARS} without conflicts; sentences of 60 to 20000 tokens, whole, damaged and cut. Symbol operations, copies of "
             "values and bytes asked for are counted over start, parse and a machine's parse, on a stack of 1 MB. Non-trivial: distinct "
             "(grammar, long word).",
             ["runs_measured", "tokens_consumed", "reductions", "accepted", "rejected"],
             fleet=[("mon", "checked")] * 3 + [("mon", "plain")] * 3 + [("mon", "release")] * 2),
    "C37": p(26000, 60, f"{GRAMMARS}, also untrimmed ones; the stages of table making called one by one, again and on random sets, item sets, "
             "renamings and lookaheads. Non-trivial: distinct (grammar, construction) with more than two states.",
             ["steps", "moves", "rows_decided", "actions_renamed", "updates_with_news", "updates_passed_on", "updates_without_news"],
             fleet=[("mon", "checked")] * 6 + [("mon", "release")] * 2),
}

#!/usr/bin/env python3
"""The properties and how each is decided; writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOMAIN = ("Grammars are finite, without empty productions, with one production for the entry rule, which "
          "appears in no right-hand side (the augmented form the library asks for).")
PROPS = []


def prop(id, title, statement, over, text, tests, files, mech, tech, note, observe, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                      mech=mech, tech=tech, note=note, observe=observe, state=state or []))


TESTS6 = ("The unit tests run six fixed grammars on a few listed sentences; the claim is about all grammars and "
          "all inputs, non-sentences included")
BASE = ("Held on the seeded executions of this run only. Trusts the reference in mon/src/refm.rs (its LALR "
        "lookaheads, LR(1) automaton and Earley recogniser are checked against one another on samples) and the "
        "generator's reach.")
TABLE_NOTE = ("Held on the grammars of this run; every cell of every reachable state of these is compared. Trusts the "
              "reference automata in mon/src/refm.rs.")
CON = [("item sets, their transitions and the actions of their items", "src/clr.rs proc_closures, proc_actions, decision"),
       ("FIRST sets for lookaheads", "src/tabler.rs first_of, proc_first")]
LAL = [("states with one core share a state, lookaheads propagate until nothing changes",
        "src/lalr.rs proc_closures, update_closures, update_state"),
       ("actions of the items", "src/lalr.rs proc_actions, decision")]
SLR = [("item sets without lookaheads", "src/slr.rs proc_closures"),
       ("reductions on FOLLOW", "src/slr.rs decision; src/tabler.rs proc_follow")]
RUN = ("the machine driven by the table", "src/dfa.rs trace, travel, shift, reduce, goto, accept")

for id, kind, cls, files, mech in (
        ("C01", "CLR", "LR(1)", ["src/clr.rs"], CON),
        ("C02", "LALR", "LALR(1)", ["src/lalr.rs", "src/parser.rs"], LAL),
        ("C03", "SLR", "SLR(1)", ["src/slr.rs"], SLR)):
    prop(id, f"The {kind} parser accepts exactly the language of its grammar",
         f"For every {cls} grammar and every finite sequence of its terminals, validating and parsing with the {kind} "
         f"parser succeed if the sequence is a sentence of the grammar and fail if it is not; the parser reports no "
         f"conflict. {DOMAIN} Grammars in which a symbol derives itself are not {cls}.",
         ["inputs", "programs"],
         f"every {cls} grammar, every input over its terminals",
         f"{TESTS6}; no test rejects anything that the grammar does not generate.",
         files + ["src/tabler.rs", "src/dfa.rs", "src/parser.rs"], mech + [RUN],
         "online monitor against an Earley recogniser and a reference automaton on generated grammars and inputs",
         BASE, ["Parser::validate", "Parser::parse"])

for id, kind, files, mech, extra in (
        ("C04", "CLR", ["src/clr.rs"], CON, "canonical LR(1) construction"),
        ("C05", "LALR", ["src/lalr.rs", "src/parser.rs"], LAL,
         "LALR(1) construction, with one state per distinct item-set core"),
        ("C06", "SLR", ["src/slr.rs"], SLR, "SLR(1) construction, with one state per LR(0) item set")):
    prop(id, f"The {kind} table is exactly the textbook table",
         f"For every grammar, ambiguous ones included, the action table of the {kind} parser is that of the {extra}, up to "
         f"numbering: the same shifts, gotos, reductions and acceptances in corresponding states, and no other entries. A "
         f"cell reports a conflict exactly if the construction puts several actions there, and the conflict names these "
         f"actions; the number of conflicts reported is the number of such cells. {DOMAIN}",
         ["programs"], "every grammar in the domain",
         "Tests count conflicts of six grammars and compare no table; a missing or superfluous lookahead shows only "
         "on grammars and inputs that need it.",
         files + ["src/tabler.rs"], mech,
         "lockstep comparison of the built table with a reference automaton, cell by cell, on generated grammars",
         TABLE_NOTE, ["Tabler::actions", "Tabler::conflicts"])

prop("C07", "FIRST sets are exact",
     "For every grammar, the FIRST set the library computes for a rule holds exactly the terminals that begin something "
     "the rule's productions can begin with, that is the least solution of the defining equations, whatever the order of "
     "the symbols. First-token queries for a set of symbols give the union over its members, a terminal standing for "
     f"itself. {DOMAIN}",
     ["programs"], "every grammar, with unreachable and unproductive rules too; every set of symbols",
     "Six fixed grammars are compared; wrong iteration to the fixed point shows on chains and cycles of rules in unlucky order.",
     ["src/tabler.rs", "src/lib.rs"],
     [("first iteration and closure", "src/tabler.rs gen_first, first_step, proc_first"), ("fixed point", "src/lib.rs transitive")],
     "monitor comparing each set with an independent fixpoint and with first tokens of drawn sentences",
     "Held on the grammars of this run. Trusts the fixpoint in refm.rs, which drawn sentences witness from below.",
     ["Tabler::first", "Tabler::first_of"])
prop("C08", "FOLLOW sets are exact",
     "For every grammar, the FOLLOW set the library computes for a rule is the least solution of the defining equations: "
     "the end marker for the entry rule, the first tokens of what stands behind the rule in a production, and what "
     "follows a rule at whose end it stands; terminals only. "
     f"{DOMAIN}",
     ["programs"], "every grammar, with unreachable and unproductive rules too",
     "Six fixed grammars are compared; right-recursive rings and chains in unlucky symbol order are not among them.",
     ["src/tabler.rs", "src/lib.rs"],
     [("first iteration and closure", "src/tabler.rs gen_follow, follow_step, proc_follow"), ("fixed point", "src/lib.rs transitive")],
     "monitor comparing each set with an independent fixpoint on generated grammars",
     "Held on the grammars of this run. Trusts the fixpoint in refm.rs.", ["Tabler::follow"])
prop("C09", "Conflicts surface exactly when a parse meets one",
     "A parser for a grammar with conflicts never picks a side silently: a parse that needs a conflicting action ends with "
     "a conflict error that names the competing actions, at that token, with everything after it unread. A parse that meets "
     "no conflict is accepted only if the input is a sentence and rejected only if it is not. "
     "Grammars in which a symbol derives itself are left out for LALR and SLR parsers.",
     ["inputs", "programs"], "every grammar with conflicts under one of the constructions, every input",
     "One test grammar has conflicts; only their number and the verdict on ten inputs are looked at.",
     ["src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs"],
     [("conflicting decisions are kept as such", "src/{clr,lalr,slr}.rs proc_actions"), ("conflicts end the run", "src/dfa.rs travel")],
     "monitor comparing each run's outcome with the run prescribed by the reference automaton",
     BASE, ["Dfa::start", "Error::Conflict"])
prop("C10", "Reductions replay the derivation; values are built from the right parts",
     "On every accepted input, the reduction functions called, in order, are the rightmost derivation of the input in "
     "reverse, each called once per step with exactly the values and symbol types of its production's symbols, left to "
     "right; for a grammar without conflicts it is the derivation. What parsing returns is the value of the entry "
     "production's last symbol, and on a rejected input the calls made are such a derivation of the part read.",
     ["inputs", "programs"], "every grammar of the domain, every input, every choice of reduction functions",
     "Tests use reduction functions that return nothing and look at success only.",
     ["src/dfa.rs", "src/parser.rs", "src/grammar.rs"],
     [("pop, call, push, goto", "src/dfa.rs reduce"), ("function chosen by rule and production index", "src/dfa.rs reduce; src/grammar.rs Rule::new"),
      ("value returned", "src/parser.rs parse; src/dfa.rs parse")],
     "event log of every reduction with unique value ids, replayed offline as a derivation",
     BASE, ["calls of the reductors", "value returned by Parser::parse"])
prop("C11", "Syntax errors are reported at the right token with the right expectations",
     "When a parser without conflicts rejects an input, exactly the longest prefix that can be continued to a sentence has "
     "been consumed and the error names the first token after it, or the end marker. The expected tokens it lists include "
     "all terminals that can continue that prefix and not the offending one; for a CLR parser the terminals listed are "
     "exactly those. Input remaining after a complete sentence behind an embedded end marker is reported as left over.",
     ["inputs", "programs"], "every grammar without conflicts under the construction used, every input that is not a sentence",
     "No test looks at an error.", ["src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs"],
     [("missing entry is an error listing the row", "src/dfa.rs travel, trace"), ("leftover input", "src/dfa.rs accept")],
     "monitor comparing place and contents of each error with Earley prefix sets",
     BASE, ["Error::UnexpectedToken", "Error::IncompleteExec", "Dfa::buffer"])
prop("C12", "Building and parsing always end, with a result, never a panic",
     "For every grammar of the domain, ambiguous or with useless rules, building each of the three tables ends, and for "
     "every finite sequence of tokens, of whatever symbol (rule names, the end marker, symbols the grammar does not know), "
     "parsing ends with a value or an error, without panicking and within steps bounded in the input. Only an input that "
     "is made of terminals is accepted; grammars in which a symbol derives itself are left out for parsing with LALR and SLR tables.",
     ["inputs", "programs"], "every grammar of the domain, every token sequence",
     "Tests feed only listed sentences over the grammar's own terminals.",
     ["src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs"],
     [("fixed points", "src/lib.rs transitive; src/*.rs proc_closures"), ("errors instead of panics", "src/dfa.rs travel, trace")],
     "watchdog on counted symbol operations plus panic monitor over hostile grammars and inputs",
     "Bounded progress: each case has to end within 4e9 comparisons and copies of symbols, 20 times the largest seen. "
     "Debug assertions and overflow checks are on in three of four workers.",
     ["Parser::new", "Parser::parse", "Dfa::start"])
prop("C13", "The machine's stack is always consistent and every step is observable",
     "Before every step of a traced run, one more state than symbols is stacked, the states are the path of the table over "
     "those symbols, and the symbols' derived tokens are exactly the input read so far. The observer is called once before "
     "every step, a step consumes at most one token or makes one reduction, an erroneous step leaves the stack and input as they "
     "were (so that stepping on from an error gives the same error again), and an accepted run has read everything. Stepping by hand with the same lookaheads gives the same run.",
     ["inputs", "programs", "histories"], "every grammar, every input, every step of the run",
     "No test traces a run or looks at the stack.", ["src/dfa.rs"],
     [("stack discipline", "src/dfa.rs shift, reduce, goto"), ("observer before each step", "src/dfa.rs trace")],
     "invariant monitor at every step of traced and hand-stepped runs", BASE,
     ["Dfa::trace observer", "Dfa::states", "Dfa::items"])
prop("C14", "A machine can be reused: every parse is as on a fresh machine",
     "Whatever happened on a parsing machine before (accepted, rejected, conflicting or interrupted runs, runs "
     "that a panic in a reduction or in the source broke off, resets), the next parse on it gives the same outcome, value, reductions and error as a new machine of the same parser would.",
     ["histories", "inputs"], "every history of parses, resets and interrupted runs on one machine, every grammar and input",
     "No test runs a machine twice.", ["src/dfa.rs"], [("state cleared between runs", "src/dfa.rs parse, reset")],
     "differential monitor: each parse of a history against a fresh machine", BASE, ["Dfa::parse", "Dfa::reset"],
     [dict(name="machine", meaning="state stack, symbol stack, top state, finished flag, input", where="src/dfa.rs Dfa")])
prop("C15", "Merging equal states never changes what a parser does",
     "Merging equal states of a parser's table, any number of times, leaves the outcome of every input, its reductions and "
     "their order as they were, never adds states, and ends, when repeated, with no two equal states.",
     ["inputs", "programs", "histories"], "every grammar, each construction, tables with and without equal states, every input",
     "No test merges states.", ["src/tabler.rs", "src/parser.rs"],
     [("equal rows share an index, targets are renumbered", "src/tabler.rs reduced_actions, update_entry")],
     "differential monitor before and after, plus lockstep walk of the merged table against the reference", BASE,
     ["Parser::reduce_equals", "Tabler::actions"])
prop("C16", "Outcomes do not depend on the symbol type, names or order",
     "The outcome of a parse (acceptance, error kind and place, the reductions made) and the presence of conflicts depend "
     "only on the grammar's structure: renaming the symbols, using another symbol type or ordering, or building the parser "
     "again changes nothing.",
     ["programs", "inputs", "configurations"], "every grammar and input, every injective renaming of symbols into an ordered type",
     "Tests use one string type and one order per grammar.",
     ["src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs", "src/lib.rs"],
     [("everything is keyed by symbols in ordered maps", "src/tabler.rs; src/lalr.rs raws, kernels")],
     "metamorphic monitor over six symbol types in shuffled orders", BASE, ["Parser::new", "Dfa::start"])
prop("C17", "Grammars, positions, spans and the grammar macro are faithful",
     "A grammar's terminals are exactly the symbols of its productions that are not rules, with the end marker; its symbols are "
     "rules and terminals; rules keep their productions in order, numbered from zero. A position inside a production shows the "
     "symbols at and after it and advances one symbol at a time to the end. A span selects exactly its half-open range, and the "
     "grammar macro builds the same rules as writing them out.",
     ["programs", "inputs"], "every rule map, every production and index, every span of a text",
     "A doc test covers one span; classification is exercised only through six grammars.",
     ["src/grammar.rs", "src/pos.rs", "src/lib.rs"],
     [("classification", "src/grammar.rs Grammar::new, is_terminal"), ("cursor", "src/pos.rs peek, adv, clone_next"),
      ("span", "src/lib.rs Span::from_source"), ("macro", "src/lib.rs grammar_map")],
     "monitor comparing each answer with the grammar as generated", "Held on the grammars, productions and spans of this run.",
     ["Grammar::terminals", "Grammar::symbols", "Position::top", "Span::from_source"])
prop("C18", "Copies of a running machine are independent",
     "A copy of a machine taken at any point of a run continues as the original would: fed the same or another rest of the "
     "input, it ends as a fresh run on the read prefix and that rest would, with the same reductions. Running a copy never "
     "changes the original or other copies, in whatever order their steps interleave.",
     ["histories", "schedules", "inputs"], "every grammar, input and point of the run, every interleaving of the copies' steps",
     "No test copies a machine.", ["src/dfa.rs"], [("value semantics of the machine", "src/dfa.rs Dfa (Clone)")],
     "differential monitor over interleaved copies", BASE, ["Dfa::clone", "Dfa::travel"])
prop("C19", "A parser's item sets, kernels and actions agree",
     "For each parser built, there is one item set per row of actions; looking up the kernel reached from a state over a symbol "
     "gives the state the shift or goto of that row leads to, and that state holds every item of the kernel; the actions of a "
     "row are exactly those its items call for, with an acceptance only for the entry production.",
     ["programs"], "every grammar, each construction, every state and symbol",
     "No test inspects states or kernels; the command-line tool prints them.",
     ["src/parser.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs"],
     [("kernel index", "src/parser.rs state_from_kernel, final_kernel; src/lalr.rs raws")],
     "structural invariant monitor over every state of every built parser", BASE,
     ["Tabler::states", "Parser::state_from_kernel", "Parser::final_kernel"])
prop("C20", "Item-set operations match their definitions",
     "Closing an item set under a construction adds exactly the items of the rules expected next, with the lookaheads the "
     "construction defines, keeps what was there and is idempotent; advancing a set over a symbol keeps exactly the items that "
     "expect it, advanced by one; merging joins the lookaheads of items with the same body and drops none; dropping lookaheads "
     "keeps the bodies.",
     ["inputs", "programs"], "every grammar, every set of items of it, every symbol",
     "No test calls them on a set of its own.", ["src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/parser.rs", "src/tabler.rs"],
     [("closure", "src/{clr,lalr,slr}.rs closure, prop_closure"), ("advance", "src/tabler.rs sym_filter"),
      ("merge", "src/parser.rs merged"), ("drop lookaheads", "src/lalr.rs without_look")],
     "monitor comparing each operation on random item sets with its definition", BASE,
     ["Clr::prop_closure", "Tabler::sym_filter", "Parser::merged"])

prop("C21", "The lrp tool prints a true table and a true verdict for every line",
     "For every input, the lrp command ends successfully with its input. It prints FIRST and FOLLOW, the states and the action "
     "table of its grammar of nested brackets: each cell stands under the symbol it is for, the printed moves are those of the "
     "printed states, and following the printed cells accepts exactly the nested brackets. Each line is answered in order: a "
     "symbol it does not know is named as unknown, bytes that are no text included; otherwise every step is shown with the input left before it and the "
     "verdict is ok for a sentence and the first unexpected token for any other line.",
     ["inputs", "histories"], "every sequence of lines, empty, malformed and unterminated ones and bytes that are no text included",
     "No test runs the command.", ["src/main.rs"],
     [("reading lines", "src/main.rs main"), ("printing tables", "src/main.rs print_tokens_table, print_states_table, print_actions_table"),
      ("printing a run", "src/main.rs print_proc_dfa")],
     "offline monitor over the recorded output of the command run as a process",
     "Held on the lines of this run; the tool's only grammar is built in. Reads the tables as the tool prints them now.",
     ["stdout of the lrp binary"])

WOPNOTE = "Held on the texts of this run. Trusts the hand-written {} in wopmon/src/{}."
prop("C22", "The grammar language's lexer gives the longest tokens with exact spans",
     "For every text, the lexer of the grammar language skips blanks and comments (// to the end of the line, /* to the first "
     "*/) and gives, at each place, the longest token that starts there, literals before keywords before identifiers, with its "
     "exact byte span: identifiers (letters, digits and _, in any script), string literals with escapes, paths' ::, the keywords "
     "use and alias, the signs of the language, and code blocks from -> { to the first }%. Where no token starts it gives an error "
     "token that starts there, and goes on with later parts of the text in order. It always ends.",
     ["inputs"], "every text",
     "No test of the tool runs its lexer.", ["wop/src/lib.rs"],
     [("token patterns", "wop/src/lib.rs Sym (logos)"), ("spans", "wop/src/lib.rs lexer")],
     "differential monitor against a hand-written lexer", WOPNOTE.format("lexer", "lex.rs") + " A keyword directly followed by a "
     "character outside ASCII that no token has may be read as an identifier.", ["wop::lexer"])
prop("C23", "Exactly the programs of the grammar language are accepted",
     "For every text, the tool's parser accepts exactly the token sequences that wop.grammar generates. Otherwise it stops at the "
     "first token that no program has after the tokens before it, names this token, and lists others as expected. Building from a "
     "text returns an error for what is no program, succeeds for a sound program, and refuses a program that gives a rule or an "
     "alias twice, leaves out a code block, or has one inside a group.",
     ["inputs", "programs"], "every text", "No test of the tool parses anything.",
     ["wop/src/lib.rs", "wop/src/out.rs", "wop/src/builder.rs"],
     [("the parser written by the tool itself", "wop/src/out.rs grammar; wop/src/lib.rs build_parser"),
      ("refusals", "wop/src/builder.rs rule_decl, token_decl, from_str")],
     "differential monitor against a hand-written recursive-descent parser", WOPNOTE.format("parser", "par.rs"),
     ["Dfa::start of wop::build_parser", "Builder::from_str"])
prop("C24", "The tree of a program says what is written and where",
     "For every program of the grammar language, in any layout and with any comments, the tree has one node per declaration, "
     "alternative and item, in order, at any depth of groups: names, types, imports, aliases, code blocks, optional and clone marks "
     "and names given to items are those written, and the span of every node is exactly the text from its first to its last token. "
     "Reading it again gives the same tree.",
     ["programs"], "every program that the call stack can hold the tree of (not thousands of nested groups), every layout of it", "No test of the tool reads a program.",
     ["wop/src/out.rs", "wop/src/lib.rs", "wop/src/wop.grammar"],
     [("reductors", "wop/src/out.rs reduct_map"), ("spans of values", "wop/src/builder.rs write_rule_reduction, as in out.rs")],
     "differential monitor against a hand-written parser", WOPNOTE.format("parser", "par.rs"), ["Dfa::items of wop::build_parser"])
prop("C25", "Rules are expanded to exactly the productions they stand for",
     "For every sound program, each rule is built and written out as exactly the productions its alternatives stand for: an "
     "optional item or group is present or absent, a group is one of its alternatives, independently of the others and at any depth; "
     "an alias declared before is replaced by what it says; each production has the code block and type of its alternative. Imports "
     "and aliases are those declared, imports in order.",
     ["programs"], "every sound program that the call stack can hold the tree of and memory the productions of", "No test of the tool builds a program.", ["wop/src/builder.rs"],
     [("expansion", "wop/src/builder.rs get_production, get_from_single_production"), ("writing", "wop/src/builder.rs write_rule, dump_grammar")],
     "monitor comparing Builder::rules and the written grammar with an independent expansion",
     WOPNOTE.format("expansion", "expand.rs"), ["Builder::from_str", "Builder::dump_grammar"])
prop("C26", "Names in code blocks are bound to the parts they are given to",
     "For every sound program whose code is valid, the generated code compiles, and the reductor of each production runs the code "
     "block with every name of its alternative bound: to a reference to the item's token or the slice of the group's tokens, to a "
     "copy (a token or a vector) if the name is marked with &, wrapped in Some if the item or a group around it can be absent, and "
     "to None of the same type in productions where it is absent. The result spans the production's first to last token. Reductors "
     "stand in the order of the written productions.",
     ["programs", "inputs"], "every sound program with valid code blocks, every production of it, any tokens",
     "No test of the tool generates or runs code.", ["wop/src/builder.rs"],
     [("bindings", "wop/src/builder.rs ItemAlias::write, set_sub_aliases, push_alias"),
      ("functions", "wop/src/builder.rs write_rule_reduction, dump_reductor")],
     "generated code compiled and run on marked tokens, its log compared with an independent evaluation",
     WOPNOTE.format("expansion", "expand.rs") + " Code blocks list the names bound.", ["ReductMap of the generated code"])
prop("C27", "Generated parsers read their language and compute its values",
     "For every grammar written in the grammar language, in any mixture of groups, optional items, aliases and literals, the generated "
     "grammar and reductors used with this library give a parser that accepts exactly the sentences of the grammar, leaves for "
     "each the values and spans of the entry production's symbols that the code blocks determine, bottom up and left to right, and "
     "stops at the first wrong token of any other input; for each construction that has no conflict.",
     ["programs", "inputs"], "every grammar in the domain, written in every way, every input",
     "No test of the tool runs a generated parser.",
     ["wop/src/builder.rs", "src/dfa.rs", "src/tabler.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs"],
     [("generation", "wop/src/builder.rs dump_grammar, dump_reductor"), ("parsing", "src/dfa.rs")],
     "generated parsers compiled and run on drawn inputs, results compared with an independent evaluator",
     WOPNOTE.format("expansion", "expand.rs") + " Trusts mon/src/refm.rs for the tables.", ["Dfa::start, Dfa::items"])
prop("C28", "The tool reproduces its own parser",
     "Run on its own grammar file, as shipped or with its declarations in another order and layout, the wop command writes a module "
     "that compiles, has the productions of the parser the tool is made of, and on every text gives the same tree or the same "
     "error as that one.",
     ["inputs", "programs"], "every ordering and layout of the grammar file, every text",
     "No test generates the tool's parser or compares it with the shipped one.",
     ["wop/src/wop.grammar", "wop/src/out.rs", "wop/src/builder.rs", "wop/src/main.rs"],
     [("the grammar of the language", "wop/src/wop.grammar"), ("the parser generated from it", "wop/src/out.rs")],
     "differential monitor: shipped against regenerated parser on texts", "Held on the texts and layouts of this run.",
     ["Dfa::start, Dfa::items of both parsers"])
prop("C29", "The wop command writes a parser for grammars and nothing else",
     "For every file, whatever its name, the wop command succeeds and replaces out.rs in the working directory by the whole parser of the grammar if the file holds a sound "
     "program; it fails and leaves out.rs as it was (or absent) if the file is missing, no text, or holds anything else; and it fails "
     "whenever not all of out.rs could be written.",
     ["inputs", "fault_sequences"], "every content, name and place of the input file (short of groups nested by the thousand and files memory cannot hold), out.rs existing or not, every number of bytes after which writing fails",
     "No test runs the command.", ["wop/src/main.rs"], [("reading, building, writing", "wop/src/main.rs main")],
     "offline monitor over exit status and directory contents of the command run as a process",
     "Held on the files of this run. Faults of writing are a limit of the file's size, a full device and a directory in its place.", ["exit status and out.rs of the wop binary"])

prop("C30", "No input makes the library or the tool touch memory it must not",
     "Building parsers, parsing, reading and building programs of the grammar language, for every grammar, input, text and history "
     "of uses, also when a reduction panics half-way, never accesses memory that is freed, out of bounds, uninitialised or aliased "
     "against the rules; several threads doing so at once do not race and each get the results they get alone.",
     ["inputs", "schedules", "histories"], "every grammar, input, text, history of uses, and schedule of threads",
     "Tests run in builds that do not notice such accesses, and no test uses several threads on purpose.",
     ["src/dfa.rs", "src/parser.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/grammar.rs", "src/pos.rs", "wop/src/lib.rs",
      "wop/src/builder.rs", "wop/src/out.rs"],
     [("stacks of states and values", "src/dfa.rs Dfa"), ("shared productions and reference counts", "src/pos.rs Position::seq"),
      ("lexer and parser of the language", "wop/src/lib.rs")],
     "AddressSanitizer, ThreadSanitizer and Miri over the workloads of the other properties, threads compared with one another",
     "No report on the executions of this run. Miri only sees small grammars and the lexer; the standard library is instrumented "
     "for ThreadSanitizer only; leaks are C31's. Where a sanitizer cannot start, the evidence says so.",
     ["process exit and sanitizer reports", "results per thread"])
prop("C31", "Values live exactly as long as something holds them",
     "At every step of every run the values alive are those on the stack and those of tokens not yet consumed, each once; a copy, a "
     "reset, a run finished, failed or broken off by a panic, and a dropped machine or parser keep none beyond what they give back; and repeating any work on "
     "one machine, or building, running and dropping parsers, reading and building programs, leaves no memory behind.",
     ["inputs", "histories"], "every grammar, input, text and history of uses",
     "No test counts values or memory.",
     ["src/dfa.rs", "src/parser.rs", "src/grammar.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "wop/src/builder.rs", "wop/src/lib.rs"],
     [("taking the values of a production off the stack", "src/dfa.rs Dfa::trace"), ("emptying a machine", "src/dfa.rs Dfa::reset"),
      ("shared productions", "src/pos.rs Position::seq")],
     "online monitor of live values before every step, allocator accounting over repeated histories",
     "Held on the executions of this run. Memory is compared between repetitions of the same work on one thread.",
     ["Dfa::items, drops of the values, allocator"])
prop("C32", "What is printed is what is there",
     "The text of an item shows its rule, its symbols in order with the dot where it stands, and its lookaheads; stack_fmt and "
     "stack_debug show states and symbols from bottom to top, alternating; the text of an error names the unexpected token and then "
     "every expected one, or both actions of a conflict; errors of different kinds read differently.",
     ["inputs"], "every grammar, item, input and step of a run",
     "No test looks at any of these texts.",
     ["src/pos.rs", "src/dfa.rs"],
     [("item", "src/pos.rs Display and Debug for Position"), ("stack", "src/dfa.rs Dfa::stack_fmt, stack_debug"),
      ("error", "src/dfa.rs Error")],
     "online monitor: texts against the state they are made of",
     "Held on the executions of this run. Blanks and the words between the parts are left open.",
     ["Position Display/Debug", "Dfa::stack_fmt, stack_debug", "Error Display"])
prop("C33", "Every way to build and run a parser agrees",
     "For every grammar and input: a parser built by new, by with_table, copied or built again is the same and keeps the grammar's "
     "sets; validate, parse, a machine's start and parse, a machine made by hand, and simple_dfa over tokens or to_tokens end with the "
     "same outcome; parse gives the value on top of the stack that start leaves; the ready-made reductors have one entry per "
     "production and do not change the outcome.",
     ["inputs", "programs"], "every grammar, method and input",
     "Tests use one way per test and compare none.",
     ["src/parser.rs", "src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs"],
     [("ways to build", "src/clr.rs, lalr.rs, slr.rs Parser::new, with_table, uninit"), ("ways to run", "src/parser.rs Parser"),
      ("ready-made reductors", "src/parser.rs Parser::empty, cloned; src/dfa.rs Dfa::transparent")],
     "differential monitor: outcomes and values of every entry point against a traced run",
     "Held on the executions of this run. Whether the common answer is right is C01-C11's.",
     ["Parser equality", "results of validate, parse, start, parse of Dfa"])
prop("C34", "The wop command shows the tokens and the tree of what it reads",
     "For every file, the wop command prints each token it reads in order, with its text, kind and place, and between tokens nothing "
     "but the parser's stack; then, for a program, its tree: every declaration, alternative, item, group, code block and alias with "
     "the very text it was read from, nested as written; and for anything else an error that names the first wrong token. Of a sound "
     "program, it names on its error stream each literal that has no alias, and none that has one.",
     ["inputs", "programs"], "every content of the input file short of groups nested by the thousand",
     "No test runs the command.", ["wop/src/main.rs", "wop/src/lib.rs", "wop/src/out.rs"],
     [("token lines, stack lines, tree", "wop/src/main.rs main, print_nested"), ("spans", "wop/src/out.rs reductors")],
     "offline monitor over the command's output against a reference lexer and parser",
     "Held on the files of this run. Colours, blanks and timings are left open; trusts wopmon/src/lex.rs and par.rs.",
     ["standard output of the wop binary", "standard error of the wop binary"])

prop("C35", "Tokens are taken one at a time, only as they are needed",
     "For every grammar and input: building a machine and resetting it take nothing from the source of tokens; before every step of a "
     "run at most one token is taken beyond those shifted; the outcome of start, trace, parse, validate and a machine's parse depends "
     "on nothing behind the first wrong token, so a source may be endless; an ended source is asked once. The grammar language's parser reads "
     "a text to its first wrong token. The lrp command answers each line before it is given the next.",
     ["inputs", "histories"], "every grammar, input, source of tokens and way to run",
     "Every test gives a whole vector of tokens, whose reading nobody sees.",
     ["src/dfa.rs", "src/parser.rs", "src/main.rs", "wop/src/lib.rs"],
     [("look at one token, take it when shifted", "src/dfa.rs Dfa::trace, shift, accept, reset, parse"),
      ("sources passed on as they are", "src/parser.rs dfa, simple_dfa, parse, validate; wop/src/lib.rs build_parser")],
     "online monitor in the source of tokens, compared with what is shifted before every step",
     "Held on the sources of this run. The command's answers are waited for up to a minute.",
     ["source of tokens", "Dfa::items before every step", "standard output of the lrp command"])
prop("C36", "The work and the call stack of a run stay within its length",
     "On a conflict-free table, whatever the input, the comparisons and copies of symbols, the copies of values and the bytes "
     "asked for by start, parse and a machine's parse are at most a constant, times the size of a table row, for each token consumed and "
     "each reduction made; the call stack does not grow with the input.",
     ["inputs"], "every grammar without conflicts and every input, however long",
     "The longest input of a test has a few dozen tokens, and nothing is measured.",
     ["src/dfa.rs", "src/parser.rs"],
     [("steps", "src/dfa.rs Dfa::trace, travel, shift, goto, reduce"), ("one run", "src/parser.rs Parser::parse")],
     "online monitor: counting symbols, values and allocator; a bounded stack",
     "Held on the inputs of this run; the bounds are some ten times what the unchanged tree needs.",
     ["symbol operations", "copies of values", "bytes asked of the allocator", "machines run on a stack of 1 MB"])
prop("C37", "Every stage of table making, run by itself or again, agrees with the parser",
     "For every grammar: FIRST and FOLLOW begun with gen_first and gen_follow and stepped to the end, leaving the terminals, are the parser's; a step "
     "keeps every symbol and adds what the rules in a set hold and nothing that does not follow; finished sets stay as they are when stepped or "
     "finished again. On a parser not begun with, a move of an item set is the items reached and their closure, and none over a symbol no item "
     "expects; a closing step adds at least what the items expect next and nothing beyond the closure. The first row, the item sets and the actions "
     "made one after another are those of the finished parser, on which no move leads to a set that is not a state, and the items of a state decide "
     "on exactly the cells of its row. Looking for equal states changes nothing, leads each state to a row equal to its own, keeps the start and "
     "leaves no two rows equal; renaming changes the states an action names and nothing else; merging is both. "
     "Telling a LALR state lookaheads it has, or news of no state, changes nothing; a new lookahead is united with the state's (update_state) and "
     "with those of every state it leads to (update_closures), and the states are found as before. "
     f"{DOMAIN}",
     ["programs", "histories"], "every grammar, each construction, every item set, symbol, renaming and lookahead",
     "The stages are public; no test calls one but through a whole build.",
     ["src/tabler.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/lib.rs"],
     [("sets", "src/tabler.rs gen_first, gen_follow, first_step, follow_step, proc_first, proc_follow; src/lib.rs transitive"),
      ("rows", "src/{clr,slr}.rs goto, closure, proc_closures, decision, proc_actions"),
      ("merging", "src/tabler.rs reduced_actions, update_entry"), ("lookaheads learnt", "src/lalr.rs update_state, update_closures")],
     "monitor calling each stage on generated tables and item sets, against its definition and the finished parser",
     "Held on the grammars of this run; LALR's private stages are seen through the states they leave.",
     ["Tabler", "Clr, Slr and Lalr, finished, unfinished and built by stages"])

#MORE

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                           observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                anchors["state"] = p["state"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["tests"], anchors=anchors)) + "\n")
    m = dict(version=1, setup_cmd="python3 setup.py",
             checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                          thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}", evidence_file=f"evidence/{p['id']}.json",
                          technique=p["tech"], level="exploration", level_note=p["note"]) for p in PROPS
                     if p["id"] not in {n["property"] for n in NOT_APPLICABLE}],
             not_applicable=NOT_APPLICABLE,
             notes="No hooks in /repo: every field and function the monitors need is public. check.py builds what it needs "
                   "from /repo's working tree, VERIF_TIER picks the amounts in plan.py.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

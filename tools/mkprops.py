#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
CFG = "src/grammar/context_free_grammar.rs"
PRD = "src/grammar/context_free_grammar_production.rs"
FF = "src/grammar/first_follow_symbols.rs"
TR = "src/parser/recursive_descent_parser_transitions.rs"
RD = "src/parser/recursive_descent_parser.rs"
SV = "src/parser/syntax_error_solver.rs"
FP = "src/parser/failed_production.rs"
FS = "src/parser/failed_symbol.rs"
TK = "src/token/token.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Grammar construction accepts exactly the well-formed production lists",
 "Building a grammar succeeds if and only if no production has the empty-word symbol as its input, every production has at least one output symbol, and the empty-word symbol occurs in an output only when it is the whole output. In every other case building the grammar panics, whichever production of the list is the offending one.",
 ["inputs"], "Every list of productions, of any length and in any order, over any symbols.",
 "Three should_panic tests use a single-production list each; they cannot cover an offender hidden behind other productions, repeated inputs or longer outputs, nor that no valid list is refused.",
 [CFG, PRD], [("validation of the production map", CFG + ": new_check_productions_map"), ("grouping by input", CFG + ": new_process_productions_map")],
 ["ContextFreeGrammar::new returns or panics"])

prop("C02", "A grammar reports exactly the symbols and productions it was given",
 "The non-terminals of a grammar are exactly the inputs of its productions and its terminals are exactly the other symbols that occur in outputs (the empty-word symbol included when it is used), each listed once and consistent with the membership queries. Looking up a symbol returns precisely its productions, in declaration order with repetitions kept, and nothing for a symbol that is not a non-terminal; the initial and empty-word symbols are returned as given.",
 ["inputs"], "Every well-formed grammar and every queried symbol.",
 "The only construction test never looks at the built grammar; classification and order over arbitrary interleavings of productions are untested.",
 [CFG, PRD], [("grouping by input", CFG + ": new_process_productions_map"), ("terminal classification", CFG + ": build_terminal_symbols_set")],
 ["get_non_terminal_symbols, get_terminal_symbols, is_terminal, is_non_terminal, get_productions, get_initial_symbol, get_epsilon_symbol"])

prop("C03", "FIRST sets are exact for every grammar",
 "For every symbol of every well-formed grammar the FIRST set holds exactly the terminals that can begin a string derived from that symbol, plus the empty-word symbol exactly when the symbol derives the empty string; for a terminal it is that terminal alone. This includes left-recursive, cyclic, unreachable and unproductive symbols, and symbols unknown to the grammar have no FIRST set.",
 ["inputs", "schedules"], "All well-formed grammars, and every order in which the fixpoint visits the non-terminals (the order is a random hash order).",
 "Seven unit tests use grammars of one or two non-terminals; convergence over chains, mutual recursion and nullable prefixes depends on the grammar and on the hash order of the run.",
 [FF], [("fixpoint iteration until nothing changes", FF + ": inner_get_first_symbols / converge"), ("per production propagation", FF + ": inner_get_first_symbols_process_production")],
 ["FirstFollowSymbols::from(..).get_first_symbols"], [dict(name="first_symbols", meaning="FIRST set per symbol", where=FF)])

prop("C04", "FOLLOW sets are exact for every grammar",
 "For every non-terminal of every well-formed grammar the FOLLOW set holds exactly the terminals that can appear immediately after it in a string derived from some non-terminal of the grammar, and never the empty-word symbol. The end of the input is not a member unless the grammar itself spells an end marker, and terminals or unknown symbols have no FOLLOW set.",
 ["inputs", "schedules"], "All well-formed grammars, and every order in which the fixpoint visits the non-terminals.",
 "Five unit tests use hand-made grammars; they missed that two adjacent occurrences of the same non-terminal lose FIRST in FOLLOW, and cannot cover nullable tails of any length and recursion.",
 [FF], [("right-to-left scan with the FIRST sets of what follows", FF + ": get_follow_symbols_process_production"), ("propagation of FOLLOW through a nullable tail", FF + ": get_follow_symbols_process_production_last_epsilon_chain"), ("fixpoint", FF + ": converge")],
 ["FirstFollowSymbols::from(..).get_follow_symbols"], [dict(name="follow_symbols", meaning="FOLLOW set per non-terminal", where=FF)])

prop("C05", "Analysis always finishes and depends on nothing but the grammar",
 "Computing FIRST, FOLLOW and the prediction table finishes for every well-formed grammar and gives the same answer on every construction: it does not depend on hash iteration order, on the symbol type's hash values, on repeating a production, or on how the productions of different symbols are interleaved in the declaration. Parsing the same tokens with parsers built from such equal grammars gives the same result.",
 ["schedules", "inputs", "configurations"], "All hash orders (random per run and per map), all interleavings of the declaration that keep each symbol's own order, all symbol types, all well-formed grammars.",
 "A test run sees one random hash order per run, on tiny grammars in which nearly every order converges alike.",
 [CFG, FF, TR, RD], [("monotone fixpoints iterated to convergence", FF + ": converge"), ("productions pushed in declaration order", TR + ": inner_from_process_productions")],
 ["the results of repeated constructions and parses compared"])

prop("C06", "The prediction table holds exactly the predictable productions, in order",
 "For a non-terminal and a lookahead terminal the prediction table lists exactly the productions whose output can begin with that terminal, or whose output can derive the empty string when that terminal is in the FOLLOW set of the non-terminal, according to the FIRST and FOLLOW sets supplied. Each declared production is listed once per cell and the listed productions keep their declaration order; a cell without candidates is empty, and there is no cell for the empty-word symbol's lookahead to select a production or for unknown symbols.",
 ["inputs", "configurations"], "All well-formed grammars, all non-terminal/terminal pairs, and FIRST/FOLLOW sets supplied by the caller.",
 "Four unit tests look at one cell each of small grammars; they did not notice productions predicted for lookaheads they cannot start with.",
 [TR], [("FIRST of the production output, FOLLOW of the input when it is nullable", TR + ": inner_from_get_production_first_symbols"), ("table filling", TR + ": inner_from_process_productions")],
 ["RecursiveDescentParserTransitions::get_productions"], [dict(name="table", meaning="candidates per non-terminal and lookahead", where=TR)])

prop("C07", "A successful parse is a real derivation from the initial symbol",
 "Whenever parsing succeeds, the root of the returned tree is the initial symbol and the children of every inner node spell, in order, the output of one of that node's productions; leaves are terminals or the empty-word symbol. Consequently no input that does not begin with a sentence of the grammar is ever accepted, for ambiguous and backtracking grammars as well.",
 ["inputs"], "All non-left-recursive grammars and all token sequences.",
 "Tests compare a handful of trees; whether backtracking can ever leave a stale or misplaced child depends on the grammar and the input together.",
 [RD], [("production match with a state per symbol", RD + ": inner_parse_from_tokens_production"), ("node building", RD + ": inner_parse_from_tokens_production_build_node"), ("backtracking", RD + ": inner_parse_pop_states")],
 ["ParseResult::Ok tree"])

prop("C08", "The leaves of a tree are the input tokens themselves, in order",
 "In a returned tree the leaves other than empty-word leaves are, left to right, exactly the first tokens of the input, each with its own lexeme and type, none skipped, repeated or replaced. Inner nodes and empty-word leaves carry their symbol and no lexeme.",
 ["inputs"], "All non-left-recursive grammars, all token sequences and all lexemes (present or absent).",
 "The tests compare tokens by type only (token equality ignores the lexeme), so no test sees which token a leaf came from.",
 [RD, TK], [("token cloned at the matched position", RD + ": inner_parse_non_epsilon_terminal_symbol"), ("position bookkeeping across backtracking", RD + ": inner_parse_from_tokens_production")],
 ["ParseResult::Ok tree: token.lex, token.t_type of every node"])

prop("C09", "For LL(1) grammars with an end marker, accepted means sentence",
 "If the grammar is LL(1) and every production of the initial symbol ends with an end marker terminal that is used nowhere else, then parsing succeeds exactly when the input, up to its first end marker, is a sentence of the grammar. The returned tree is then the unique parse tree of that sentence.",
 ["inputs"], "All such grammars (any nesting of nullable symbols) and all token sequences.",
 "Tests parse three or four sentences; completeness over the language is a statement about all sentences, and sentences of LL(1) grammars were in fact refused.",
 [RD, TR, FF], [("table driven choice", RD + ": inner_get_token_productions"), ("FIRST/FOLLOW and prediction table", FF + ", " + TR)],
 ["ParseResult::Ok versus ParseResult::Err"])

prop("C10", "Parsing any non-empty input ends with a result, never a panic or a hang",
 "For every grammar without left recursion and every non-empty token sequence parsing terminates and returns a result without panicking, whether the input is truncated anywhere, has extra tokens, or has tokens that the grammar does not know, and however long or deeply nested it is within the available stack; the stack needed grows with the nesting of the parse, not with the number of tokens. An empty token sequence is refused with a panic.",
 ["inputs"], "All grammars without (hidden) left recursion, all token sequences, with or without a solver whose fixes move forward.",
 "No test ends the input in the middle of a production; a panic there depended on which symbol comes next.",
 [RD], [("end of input handled as no candidates / failed terminal", RD + ": inner_parse_from_tokens_production_non_terminal, inner_parse_non_epsilon_terminal_symbol"), ("bounded retries over remaining candidates", RD + ": inner_parse_pop_states")],
 ["parse_from_tokens returns / panics / does not return"])

prop("C11", "Ordered choice with backtracking over the symbols of a production",
 "Candidates of a symbol are tried in declaration order and the first that matches is used; when a later symbol of the same production fails, the nearest earlier non-terminal of that production is re-derived with its next untried candidates and matching resumes after it, until the production matches or every such choice is exhausted. The outcome, success or failure and the tree, is exactly the one this order gives.",
 ["inputs"], "All non-left-recursive grammars, with any number of candidates sharing a lookahead, and all token sequences.",
 "Two tests exercise one backtrack each; several interacting retries, exhausted candidates and empty matches are untested.",
 [RD], [("remaining candidates kept per matched symbol", RD + ": ParsingState.prod_iter_option"), ("retry of the nearest earlier symbol", RD + ": inner_parse_pop_states")],
 ["ParseResult of parses over grammars with conflicts"])

prop("C12", "A failure report accounts for every candidate and every symbol",
 "A parse failure names the symbol that could not be derived and has one entry per candidate production that the prediction table gives for it at that token, in that order (none if there is no candidate or the symbol is a terminal). Each entry splits its candidate's output exactly: the symbols parsed, then the failed symbol, itself reported the same way, then the pending symbols; it describes the last way of matching that candidate which was attempted.",
 ["inputs"], "All non-left-recursive grammars and all rejected token sequences.",
 "The tests only fail inside productions made of terminals; entries lost parsed non-terminals and repeated the failed symbol among the pending ones.",
 [RD, FP, FS], [("entry building", RD + ": inner_parse_from_tokens_production_build_failed_symbol"), ("states kept while backtracking", RD + ": inner_parse_pop_states")],
 ["ParseResult::Err: failed_productions, parsed_symbols, failed_symbol, pending_symbols"])

prop("C13", "What a failure report shows as parsed was really parsed there",
 "In every entry of a failure report the parsed symbols are valid derivations whose leaves are consecutive input tokens, with their lexemes, starting where the reported symbol starts, and nested entries continue where the parsed symbols end. A terminal reported as failed does not match the token at that position, or the input ends there, and a symbol reported without candidates has none for that token.",
 ["inputs"], "All non-left-recursive grammars and all rejected token sequences.",
 "Tests compare reports of two-token inputs by token type only; positions after backtracking are never checked.",
 [RD, FP, FS], [("position bookkeeping", RD + ": inner_parse_from_tokens_production"), ("kept nodes", RD + ": inner_parse_pop_states")],
 ["ParseResult::Err report, with lexemes"])

prop("C14", "For LL(1) grammars the failure is located at the first impossible token",
 "If the grammar is LL(1) and every symbol can derive some string, then in a failure report the number of tokens consumed by the parsed symbols along the chain of entries is exactly the length of the longest prefix of the input that some sentence of the grammar starts with. The report therefore points at the first token that cannot be right, or at the end of the input if it is merely incomplete.",
 ["inputs"], "All LL(1) grammars with an end marker and only productive symbols, and all rejected token sequences.",
 "No test relates a report to the language of the grammar.",
 [RD, TR, FF], [("no token consumed on a wrong prediction", TR + " and " + RD + ": inner_parse_from_tokens_production")],
 ["ParseResult::Err report"])

prop("C15", "Fixing is the last resort: a parsable input is unaffected by the solver",
 "With a solver attached, whatever it would answer, an input that parses without a solver gives the same tree and the solver is not consulted at all. More generally a symbol that can be parsed at its position without a fix is never handed to the solver, and a result is a success only if it is the success obtained without a solver.",
 ["inputs", "configurations"], "All non-left-recursive grammars, token sequences and solver behaviours.",
 "Every solver in the tests declines and none of them is ever attached to the parser.",
 [RD, SV], [("parse without fixes before the solver is consulted", RD + ": inner_parse_from_tokens"), ("no fixes while backtracking", RD + ": inner_parse_pop_states")],
 ["ParseResult with and without solver, calls received by the solver"])

prop("C16", "The solver is consulted exactly as its contract promises",
 "The solver is consulted only for a symbol all of whose enclosing symbols had a single candidate, only after all its candidates failed, with the full token list, the position where that symbol starts and its failure entries; a symbol with one candidate is presented as a single failed production and any other as the list of all of them, in candidate order. When a fix is declined the failure is passed outwards and the enclosing production is offered next, unless its earlier symbols can still be matched differently, so that consultations go from the innermost failing symbol to the initial symbol.",
 ["inputs", "histories"], "All non-left-recursive grammars, token sequences and sequences of solver answers.",
 "No test attaches a solver.",
 [RD, SV], [("single path flag", RD + ": is_child_single_path, inner_parse_from_tokens_try_fix_productions")],
 ["arguments of every call the solver receives, in order"])

prop("C17", "A fix offered by the solver is used exactly as offered",
 "When the solver answers with a fix, the offered production becomes the fixed symbol for the symbol it was asked about and matching resumes at the token position the solver gave. Every symbol enclosing a used fix is reported as fixed, with the parts of its production in order (parsed parts as trees, fixed parts as fixed symbols), and a fixed result is returned if and only if a fix was used.",
 ["inputs", "histories"], "All non-left-recursive grammars, token sequences and solver answers (any resume position that makes progress, any offered production).",
 "No test attaches a solver, so the fixed result is never produced by any test.",
 [RD, SV, "src/parser/fix_result.rs", "src/parser/fixed_symbol.rs", "src/parser/fixed_production.rs"], [("wrapping of the offered production", RD + ": inner_parse_from_tokens_fix_option_to_parse_symbol_result"), ("resume position", RD + ": inner_parse_from_tokens_production"), ("fixed parts", RD + ": inner_parse_from_tokens_production_build_node")],
 ["ParseResult::Fix and the calls received by the solver"])

prop("C18", "Parses are independent of history and of how the parser was made",
 "A parser can be reused: the result of a parse depends only on the grammar, the tokens and the solver's answers, not on earlier parses (successful, failed, fixed, refused or cut short by a panic of the token iterator or the solver) with that parser or others on the same grammar, however many, nor on the kind of iterator that delivers the tokens. Parsers made from the grammar alone, from the grammar and its own FIRST/FOLLOW sets, or with a solver that declines every fix give equal results, failure reports included.",
 ["histories", "configurations"], "All sequences of parses on shared parsers and grammars, all three ways of making a parser, all iterators.",
 "Tests make a new parser for nearly every parse, always in the same way and with a vector iterator.",
 [RD], [("immutable parser state", RD + ": RecursiveDescentParser"), ("tokens collected before parsing", RD + ": iterator_to_vec"), ("constructors", RD + ": from_grammar, from_grammar_and_first_follow_symbols, from_grammar_and_solver")],
 ["results of sequences of parses"])

prop("C19", "A parser given FIRST and FOLLOW sets predicts with exactly those sets",
 "A parser made from a grammar and FIRST/FOLLOW sets chosen by the caller tries, for a symbol at a token, exactly the productions those sets predict there, even if the sets differ from the ones the grammar itself has. Success or failure, the tree and the failure report are those of ordered choice with backtracking over these candidates.",
 ["inputs", "configurations"], "All non-left-recursive grammars, all assignments of token sets (and, in FIRST, the empty-word symbol) to the non-terminals, all token sequences.",
 "No test makes a parser from sets other than the grammar's own, so ignoring or amending the supplied sets is invisible to them.",
 [RD, TR, FF], [("constructor", RD + ": from_grammar_and_first_follow_symbols"), ("table filled from the supplied sets", TR + ": from")],
 ["ParseResult of parsers made from supplied sets"])

prop("C20", "LL(1) inputs are parsed without trial and error",
 "For an LL(1) grammar the number of symbol operations (comparisons, hashes and clones) that parsing an input takes is at most proportional to the number of tokens plus the size of the tree or failure report returned, so it never grows quadratically or exponentially with the length or nesting of the input. With a solver attached this holds for every input that parses.",
 ["inputs"], "All LL(1) grammars and all token sequences; the factor depends on the grammar only.",
 "Tests use inputs of a few tokens and do not measure work; a retry that doubles the work at every level of nesting returns the same result.",
 [RD, TR], [("one candidate per lookahead, no retries left", RD + ": inner_parse_from_tokens, inner_parse_pop_states"), ("parse without fixes first, with fixes only after a failure", RD + ": inner_parse_from_tokens")],
 ["operations on the caller's symbol type during parse_from_tokens"])

prop("C21", "Grammars and parsers can be shared by parses going on at the same time",
 "A grammar, its FIRST/FOLLOW sets and a parser can be used from several threads at once, and a parse can take place in the middle of another one, started by that one's token iterator or by its solver. Every such parse ends with the result it has alone, and an empty input refused by one parse does not disturb the others.",
 ["schedules", "histories"], "All grammars without left recursion, all sets of token sequences and all interleavings of the parses.",
 "Every test parses alone, in one thread, with a parser of its own.",
 [RD, CFG, TR], [("no interior mutability in grammar, table and parser", RD + ": RecursiveDescentParser"), ("parse state on the stack of the call", RD + ": parse_from_tokens")],
 ["results of concurrent and nested parses; sharing compiles"])

prop("C22", "Parsing does no more work than the search it stands for",
 "The number of symbol operations (comparisons, hashes and clones) of a parse is at most proportional to the number of attempts that ordered choice with nearest-first re-derivation makes on the input, by a factor that depends only on the grammar. With a solver that declines everything, a symbol that fails while fixes are allowed is attempted once without and once with fixes, and nothing else is attempted twice, so that nesting never multiplies the work.",
 ["inputs", "configurations"], "All grammars without left recursion, all token sequences, without a solver and with one that declines.",
 "Tests do not measure work; attempts repeated at every level of nesting give the same result and are invisible to them.",
 [RD], [("attempts without fixes, and with fixes only on the single path", RD + ": inner_parse_from_tokens"), ("retry of the remaining candidates only", RD + ": inner_parse_pop_states")],
 ["operations on the caller's symbol type during parse_from_tokens"])

prop("C23", "Analysing a grammar takes polynomial work",
 "Making a grammar, its FIRST and FOLLOW sets and its prediction table takes a number of symbol operations (comparisons, hashes and clones) that is at most proportional to the size of the grammar times its number of non-terminals times its number of terminals, whatever the order in which the non-terminals are visited. It is never exponential, however symbols share, nest and recurse through each other.",
 ["inputs", "schedules"], "All well-formed grammars, left-recursive ones included, and every order in which the fixpoints visit the non-terminals.",
 "The tests analyse grammars of two or three symbols, where a blow-up cannot show, and measure no work.",
 [CFG, FF, TR], [("rounds until nothing changes", FF + ": converge"), ("table filling", TR + ": inner_from_process_productions")],
 ["operations on the caller's symbol type during ContextFreeGrammar::new, FirstFollowSymbols::from and RecursiveDescentParserTransitions::from"])

prop("C24", "A parse keeps nothing of its input but what it returns",
 "When a parse ends, whether it succeeds, fails, is fixed, is refused or is cut short by a panic of the token iterator or of the solver, the only lexemes still in existence because of it are those in the returned tree, failure report or fixed symbol, each once per occurrence, and dropping the result frees them. Repeating a parse with the same parser does not take up more memory, and dropping grammars, sets, tables and parsers frees all that they took.",
 ["histories", "inputs"], "All well-formed grammars without left recursion, all token sequences, all solver answers and any number of parses with one parser; construction of any grammar, refused ones included.",
 "Tests use a parser once and look at returned values only; what stays behind in the parser or is never freed is invisible to them.",
 [RD, TR, CFG, FF], [("tokens owned by the call", RD + ": parse_from_tokens, iterator_to_vec"), ("abandoned derivations and failures dropped", RD + ": inner_parse_pop_states, inner_parse_from_tokens_try_parse_productions")],
 ["lexemes and symbols in existence and bytes allocated before and after parses and constructions"])

prop("C25", "Tokens, productions and sets are faithful values",
 "Two tokens are equal exactly when their types are equal according to the caller's type, whatever their lexemes, and different exactly otherwise, so that token equality is an equivalence relation even for lexemes that cannot be compared. A copy of a token or of a production is independent of its original and has the same type and lexeme, or the same symbols in the same order. FIRST and FOLLOW sets made by the caller answer for every symbol exactly with what the caller put in, and with nothing for other symbols.",
 ["inputs", "configurations"], "All tokens with and without lexemes, all symbol types (also ones whose equality is coarser than identity), all productions and all FIRST/FOLLOW sets.",
 "Tests compare only a few tokens without lexemes and hand over no sets of their own to look them up again.",
 ["src/token/token.rs", "src/grammar/context_free_grammar_production.rs", FF], [("equality and copies of tokens", "src/token/token.rs: PartialEq, Clone"), ("copies of productions", "src/grammar/context_free_grammar_production.rs: Clone"), ("look-up in the sets", FF + ": new, get_first_symbols, get_follow_symbols")],
 ["==, != and clone of tokens, clone of productions, look-ups in FirstFollowSymbols"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
HK="src/lib.rs: under cfg(parsegen_verif) the macro entry point is an ordinary function over proc_macro2 token streams"
p("C01","The recognised language is exactly the grammar's",
"For every conflict-free (LR(1)) grammar, every public non-terminal and every finite error-free token sequence, the generated parser returns success if and only if the sequence is derivable from that non-terminal under the declared productions. This holds wherever empty productions, nullable non-terminals, left, right, middle or mutual recursion occur, in whatever order things are declared, and whatever the size of the grammar (productions, symbols per production, terminals, automaton states) or of the input.",
["programs","inputs"],"all LR(1) grammars, all their public non-terminals, all finite token sequences",
"The tests parse a few dozen hand-picked sentences of about ten grammars, nearly all of them valid; nothing is checked for rejection and no grammar combines nullable non-terminals in sequence.",
["src/first.rs","src/lr1.rs","src/lr_common.rs","src/lr_codegen.rs","src/lower.rs","src/grammar.rs"],
[("first sets","src/first.rs:generate_first_table"),("closure and goto","src/lr1.rs:compute_lr1_closure, compute_lr1_goto, generate_lr1_automaton"),("table construction","src/lr1.rs:build_lr1_table"),("emitted tables and driver","src/lr_codegen.rs:generate_lr1_parser")],
["result of NonTerminal::parse"],[("ACTION/GOTO","emitted LR tables","src/lr_codegen.rs")],HK)
p("C02","The result is the value of the input's unique derivation",
"When a conflict-free grammar's parser succeeds, the returned value is the one obtained by evaluating the semantic actions over the input's unique parse tree: the action of each tree node runs exactly once, after those of its children and in left-to-right order, and every binder (plain or `mut`) names the value of its own symbol. Symbols without a binder are consumed without disturbing the others, and it makes no difference which non-terminals share a result type.",
["programs","inputs"],"all LR(1) grammars with any assignment of binders and result types, all their sentences",
"Tests compare a handful of computed values; most productions have at most two bound symbols and one or two result types.",
["src/codegen.rs","src/lr_codegen.rs","src/lower.rs"],
[("semantic action functions pop and bind values","src/codegen.rs:generate_semantic_action_table"),("result variants shared by type","src/codegen.rs:semantic_action_result_type"),("reduce step","src/lr_codegen.rs:parse_generic")],
["value returned by parse","order of side effects of actions"],[("value_stack","values of the symbols on the LR stack","src/lr_codegen.rs:parse_generic")],None)
p("C03","Syntax errors are reported at the first impossible token",
"For a conflict-free grammar whose non-terminals all derive something, when the input is not a sentence the parser returns a syntax error exactly at the first token (or at end of input) with which the tokens before it cannot be continued to a sentence. The error's `found` is the declared name of that token's terminal, or `end-of-input`; once that token has been pulled no semantic action runs and no further token is pulled.",
["programs","inputs"],"all reduced LR(1) grammars, all non-sentences",
"No existing test parses an invalid input.",
["src/lr1.rs","src/first.rs","src/lr_codegen.rs","src/codegen.rs"],
[("canonical LR(1) lookaheads (no state merging)","src/lr1.rs:generate_lr1_automaton"),("error exit of the driver","src/lr_codegen.rs:parse_generic"),("terminal names","src/codegen.rs:generate_token_to_text")],
["ParseError::ParserError.found","number of items pulled","actions run"],(),None)
p("C04","The expected list names exactly the terminals that could come next",
"For a conflict-free grammar whose non-terminals all derive something, the `expected` text of a syntax error lists exactly the terminals that could have followed the tokens consumed so far in some sentence of the entry point. They are listed under their declared names, each once, in the order of the token declaration, separated by comma and space; end of input is never listed, so the list is empty when only end of input was possible.",
["programs","inputs"],"all reduced LR(1) grammars, all non-sentences",
"No existing test looks at an error message.",
["src/codegen.rs","src/lr1.rs","src/first.rs"],
[("expected terminals per state","src/codegen.rs:generate_expected_state_tokens"),("canonical lookaheads","src/lr1.rs")],
["ParseError::ParserError.expected"],(),None)
p("C05","Errors from the token source are returned, at their place",
"If the token source yields an error before any syntax error has been detected, parsing stops and returns that very error value as the lexer error: no semantic action runs and nothing is pulled after it, even if the tokens so far already form a sentence or reductions are pending. If a syntax error comes earlier in the stream, that is what is returned and the source's error is never reached.",
["programs","inputs","fault_sequences"],"all LR(1) grammars, all token streams with an error item at any position",
"No existing test feeds an Err item to a parser.",
["src/lr_codegen.rs"],[("driver checks the lookahead before consulting the table","src/lr_codegen.rs:parse_generic")],
["ParseError::LexerError","items pulled"],(),None)
p("C06","Tokens are pulled lazily, one lookahead, and never past the end",
"The parser pulls one item before doing anything, then exactly one more each time a token is accepted, so a semantic action runs when precisely the tokens of the already parsed part plus one lookahead item have been pulled. It never pulls again after the source has returned end of input or an error, nor after it has decided to fail, and when it succeeds the source has been drained up to and including end of input.",
["programs","inputs","histories"],"all LR(1) grammars, all token streams (including non-fused iterators)",
"Tests only use well-behaved iterators and look at the final value.",
["src/lr_codegen.rs"],[("token lookahead handling","src/lr_codegen.rs:parse_generic")],
["interleaving of iterator next() calls and semantic actions"],[("token","current lookahead","src/lr_codegen.rs:parse_generic")],None)
p("C07","Entry points are independent of each other",
"Each public non-terminal offers its own parse entry point, returning that non-terminal's declared type. Parsing from it gives the same outcome as if it were the only public one, whatever the number and position of the other public non-terminals and also when it is itself used inside other productions; conversely, marking a non-terminal public never changes what the other entry points accept, compute or report.",
["programs","configurations","inputs"],"all subsets of non-terminals made public, all grammars LR(1) from each entry, all token sequences",
"One test has more than one usable entry point and parses one sentence with each of the others.",
["src/lower.rs","src/lr1.rs","src/lr_codegen.rs"],
[("entry point wrapping","src/lower.rs:lower"),("one initial state per entry","src/lr1.rs:generate_lr1_automaton"),("accept rule","src/lr1.rs:build_lr1_table"),("entry structs","src/lr_codegen.rs:generate_lr1_parser")],
["outcome of each entry's parse"],[("nt_state_indices","entry point -> initial state","src/lr_codegen.rs")],HK)
p("C08","Every LR(1) grammar is accepted",
"Every grammar that is LR(1) from each of its public non-terminals expands without failure, and the emitted code compiles, whatever the order of its declarations and productions. This includes grammars that are not LALR(1) or SLR(1), and grammars with empty productions, unused, unreachable or unproductive non-terminals, no productions at all for some non-terminal, and several entry points. Up to 65,535 productions, non-terminals and symbols in a production are supported (the tables count them in 16 bits); larger grammars fail to expand rather than being miscompiled.",
["programs"],"all LR(1) grammars",
"Tests expand about fifteen fixed grammars.",
["src/lr1.rs","src/lr_common.rs","src/first.rs","src/lower.rs","src/lr_codegen.rs"],
[("conflict panics","src/lr_common.rs:LRTableBuilder"),("state sharing by full LR(1) item set","src/lr1.rs:generate_lr1_automaton")],
["macro expansion result"],(),HK)
p("C09","Conflicts are never silently resolved except in favour of shift",
"If an LR(1) conflict is reachable from a public non-terminal, either expansion fails with an error, or every conflict is shift/reduce and the parser behaves as the canonical LR(1) machine in which shifting always wins. Two reductions applicable on the same lookahead, or a reduction competing with acceptance of the whole input, always make expansion fail, at every lookahead including end of input and in whatever order the productions are declared.",
["programs","inputs"],"all grammars that are not LR(1)",
"No test expands a conflicting grammar.",
["src/lr_common.rs","src/lr1.rs"],
[("conflict detection","src/lr_common.rs:add_shift, add_reduce, add_accept")],
["macro expansion result","parser behaviour on conflicted inputs"],(),HK)
p("C10","Tokens are classified by the first matching pattern and keep payloads",
"Every token is treated as the terminal of the first declared pattern that matches it, whatever the pattern form (path, literal, wildcard, rest, tuple, tuple-variant, struct-variant, nested) and however patterns overlap. The value bound for such a terminal consists of the parts marked `<T>` in that pattern, in the order they are written (the part itself if there is one, a tuple if several, `()` if none), moved unchanged out of the token.",
["programs","inputs"],"all lists of token patterns over a token type, all tokens",
"Tests use single-field variants and one pair of overlapping patterns.",
["src/codegen.rs","src/ast.rs"],
[("classification function","src/codegen.rs:token_terminal_idx_fn, pattern_ignore"),("value extraction","src/codegen.rs:token_value_fn, generate_pattern_syn_with_idents_, pattern_types_"),("pattern syntax","src/ast.rs:Pattern")],
["values bound to terminals"],(),None)
p("C11","Order and names of declarations carry no meaning",
"For a conflict-free grammar, reordering non-terminal declarations, reordering the productions of a non-terminal, moving the token declaration among the other items, or consistently renaming non-terminals, terminals and binders changes neither whether the grammar is accepted, nor which inputs parse, nor the values computed, nor where errors are reported. Reordering the token list changes nothing but the order inside the expected list (patterns being disjoint).",
["programs","configurations"],"all LR(1) grammars, all permutations of their declarations and all renamings (avoiding names the generated code itself defines)",
"Every test declares its grammar in one order with one set of names.",
["src/first.rs","src/lower.rs","src/lr1.rs","src/grammar.rs","src/lib.rs"],
[("fixpoint over non-terminals","src/first.rs:generate_first_table"),("name resolution","src/lower.rs"),("item order","src/lr1.rs")],
["behaviour of the generated parsers"],(),HK)
p("C12","Expansion is a pure function of the macro input",
"Expanding the same macro input always yields the same output tokens (or the same failure), regardless of what was expanded earlier in the same compiler process (including failed expansions), on which thread, in which process, and how often.",
["histories","schedules"],"all sequences of expansions in one compiler process, all processes and threads",
"Tests never expand a grammar twice and compare.",
["src/lib.rs","src/collections.rs","src/lr1.rs","src/codegen.rs"],
[("fixed hashing, ordered item sets, no global state","src/collections.rs, src/lr1.rs")],
["emitted token stream"],(),HK)
p("C13","Parse calls are isolated from one another",
"The outcome of a parse call depends only on the tokens it is given: it is the same when other parse calls (of the same or another entry point) ran before it and ended in success, syntax error, lexer error or a panic in user code, when they run interleaved on other threads, and when they run nested inside its token source or inside its semantic actions.",
["schedules","histories","fault_sequences"],"all interleavings and histories of parse calls",
"Tests run parsers one at a time to completion.",
["src/lr_codegen.rs","src/codegen.rs"],
[("all parse state is local to the call","src/lr_codegen.rs:parse_generic")],
["outcome and side-effect order of each parse call"],[("state_stack, value_stack","per-call stacks","src/lr_codegen.rs:parse_generic")],None)
p("C14","Every token and value is handed over or dropped exactly once",
"Every token pulled from the source and every value returned by a semantic action is either moved into exactly one later action or into the result, or dropped exactly once. By the time parse returns or unwinds (success, syntax error, lexer error, or a panic in the source or in an action) nothing but the result is still alive, and values reach actions by move, never by copy.",
["programs","inputs","fault_sequences"],"all LR(1) grammars, all inputs, a panic at any point of user code",
"No test counts drops.",
["src/lr_codegen.rs","src/codegen.rs"],
[("values moved through the value stack","src/lr_codegen.rs:parse_generic; src/codegen.rs:generate_semantic_action_table")],
["drop and move counts of payloads"],[("value_stack","owned values","src/lr_codegen.rs")],None)
p("C15","Equivalent notations mean the same",
"A non-terminal with one production may be written with or without braces; commas after productions in braces and after the last token pattern are optional; a State type declaration, whitespace and comments have no effect; actions may be written as expressions or blocks; binders may be marked `mut`; literals may be written in any way that has the same value (raw, escaped, continued on the next line); parts of the grammar (types, actions, literals, names) may be written in place or be fragments of a `macro_rules!` macro; the macro may be invoked wherever items may stand. None of these choices changes whether the grammar is accepted or how the parser behaves.",
["programs"],"all grammars, all combinations of notation choices",
"Tests use the notations in a few fixed combinations.",
["src/ast.rs","src/lib.rs"],
[("grammar syntax","src/ast.rs: Parse impls")],
["macro expansion result","behaviour of the generated parsers"],(),HK)
p("C16","Ill-formed grammars are rejected at compile time",
"A macro input that refers to an undefined non-terminal or terminal (anywhere, even in an unused production), declares a terminal, a non-terminal, the token enum or the State type twice, has no token enum, declares an unknown type, uses a repetition operator (`*`, `+`, `?`) or a fallible action (`=>?`), or is syntactically malformed, fails to expand. It never yields a parser.",
["programs"],"all grammars with at least one such fault",
"No test feeds an ill-formed grammar.",
["src/lib.rs","src/lower.rs","src/ast.rs"],
[("checks during lowering","src/lower.rs:lower, add_symbol"),("duplicate checks","src/lib.rs:parser")],
["macro expansion result"],(),HK)
p("C17","Generated parsers always terminate and never panic",
"For every grammar that is accepted (even if shift/reduce conflicts were resolved, or some non-terminals are unproductive or unreachable), every entry point and every finite token stream, parse returns after finitely many steps without panicking, provided the token source and the semantic actions do. Its use of the call stack does not grow with the input.",
["programs","inputs"],"all accepted grammars, all finite token streams",
"Tests parse short valid inputs of conflict-free grammars only.",
["src/lr_codegen.rs","src/codegen.rs","src/lr1.rs"],
[("driver loop","src/lr_codegen.rs:parse_generic"),("value extraction by variant","src/codegen.rs:semantic_action_result_type")],
["termination of parse","absence of panics"],(),None)
p("C18","Any result and token types compile and flow through unchanged",
"Whatever Debug types the non-terminals return (equal, different, unit, references borrowed with the token type's lifetimes, nested generics, tuples, function pointers, the token type itself), whatever lifetimes the token enum declares (none, one or several, used in payloads or not), and whichever symbols are bound, an accepted grammar's expansion compiles. The value of the entry point's declared type, including borrowed data with the input's lifetime, is returned unchanged.",
["programs","configurations"],"all combinations of token lifetimes, payload types, result types and binders",
"Tests use one borrowed token type and simple result types.",
["src/codegen.rs","src/lr_codegen.rs"],
[("value enum and extraction functions","src/codegen.rs:semantic_action_result_type"),("lifetimes threaded through emitted functions","src/codegen.rs, src/lr_codegen.rs")],
["compilation of the expansion","type and lifetime of parse results"],(),None)
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))

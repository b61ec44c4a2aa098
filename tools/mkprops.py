#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SC, PA, RE, AST, ENV, ERR, TOK, LOC, MAIN, WASM, LIB = ["src/%s.rs" % x for x in "scanner parser resolver ast environment error token source_loc main wasm lib".split()]

p("C01", "Every source text gets an answer, never a crash",
  "For every source text, every way of handing it to the library (scanning it, parsing it as a program, as a REPL line or as an expression, and resolving the result) returns either a result or a list of errors. It never panics, overflows an integer, or aborts the process.",
  ["inputs"], "All UTF-8 strings, including empty, truncated, binary-like, and adversarially nested or long ones.",
  "Tests run about forty short, mostly well-formed snippets; a panic hides in the input nobody wrote, and the resolver is not tested at all.",
  [SC, PA, RE], [("total scanning, errors collected rather than thrown", "Scanner::scan_tokens"), ("lookahead helpers bounded by the token vector", "Parser::peek/previous/check_next"), ("error recovery that always makes progress", "Parser::synchronize"), ("scope limit errors", "Resolver::ensure_scope_index_limit")],
  ["return value or unwinding of Scanner::scan_tokens, parser::parse, parse_repl_line, parse_expression, resolver::resolve", "exit status of a process that runs them"])

p("C02", "Work is bounded by a linear function of the source length",
  "Scanning, parsing and resolving a source text of n bytes finishes within a number of steps bounded by a constant times n (for a bounded nesting depth), and the tokens, syntax tree nodes and errors it produces are also at most proportional to n. In particular no source text makes it run forever.",
  ["inputs"], "All UTF-8 strings, including ill-formed layouts and long repetitive inputs of every token kind.",
  "No finite list of passing inputs shows that another one does not loop or blow up; the tests contain no inconsistent indentation and no input longer than a few lines.",
  [SC, PA, RE], [("every loop iteration consumes a grapheme, a token or an indentation level", "Scanner::bol_indentation_tokens, Parser::parse, Parser::finish_block"), ("single pass, no backtracking", "Parser")],
  ["executed control-flow edges (compiler coverage instrumentation used as a step clock)", "lengths of the token and error lists", "syntax tree size"])

p("C03", "The tokens cover the source exactly",
  "When a source text scans successfully, the texts of the tokens (other than the block-opening and block-closing markers) are exact substrings that occur in the source in order and without overlap, and everything between them is only blanks, newlines, comments and backslash-newline continuations. Nothing else the user wrote is dropped, altered or duplicated.",
  ["inputs"], "All source texts that scan without error.",
  "Tests compare the token list of about twenty literal snippets; they say nothing about other combinations of tokens, Unicode text or comments.",
  [SC, TOK], [("lexeme slices taken from the source between start and the next grapheme", "Scanner::add_token"), ("comment and whitespace skipping", "Scanner::scan_token, advance_to_eol")],
  ["token lexemes (address and length within the source) returned by Scanner::scan_tokens"])

p("C04", "Every token carries its true line and column",
  "Every token reports the line and column (both counted from 1, columns in user-perceived characters) at which its text starts in the source. The block-opening and block-closing tokens carry the position of the token they precede, and the end-of-file token (and blocks closed there) the position just past the last character.",
  ["inputs"], "All source texts that scan without error, with multi-line strings, CRLF line ends, combining characters, continuations and comments (columns up to 65,534).",
  "Tests check positions on one- to four-line ASCII snippets; position bookkeeping is spread over every scanning path and is wrong only for particular combinations of them.",
  [SC, TOK, LOC], [("line/column counters advanced per grapheme", "Scanner::advance, reset_line, scan_string"), ("token start column", "Scanner::scan_token start_column, close_all_blocks")],
  ["line and column of the tokens returned by Scanner::scan_tokens"],
  [("line, column, start_column", "current position and start of the current token", "Scanner")])

p("C05", "Indentation opens and closes blocks exactly",
  "A line that starts a statement deeper than the enclosing block opens exactly one block, one that starts shallower closes exactly the blocks deeper than it, and one at the same depth does neither; blocks still open at the end of the source are all closed there. Only relative depth matters, not the number of spaces, and a line that returns to a non-zero depth no open block has (or a tab used as whitespace) is an error.",
  ["inputs"], "All sources: any nesting of blocks, any indentation widths, any dedent pattern.",
  "One test has a single two-space block; nested dedents, mixed widths and mismatched dedents are not tested.",
  [SC], [("indentation stack", "Scanner::bol_indentation_tokens"), ("closing at the end of the source", "Scanner::close_all_blocks"), ("indentation blocks in the grammar", "Parser::consume_begin_block, consume_end_block")],
  ["Indent/Outdent tokens of Scanner::scan_tokens", "scan errors", "block structure of parsed programs re-indented with other widths"],
  [("indentation", "stack of the depths of the open blocks", "Scanner")])

p("C06", "Each logical line ends exactly once",
  "A statement terminator is produced at the end of every line that has a token on it, except when the line ends with one of the tokens '(' '{' '[' ':' ',' '.' '-' '+' '*' '/' '<' '<=' '>' '>=' or with a backslash: then the next non-blank line continues it and, if deeper, opens no block. Blank lines and comment-only lines never end or start a logical line, and nothing is terminated at the end of a source without a final newline.",
  ["inputs"], "All sources: each token kind in last position, with and without trailing blanks, comments, blank lines, CRLF.",
  "Tests cover one operator ('+') and the backslash; the other 13 continuation tokens, and the tokens that must not continue, are not sampled.",
  [SC], [("following_line_continuation flag", "Scanner::scan_token"), ("per-line reset", "Scanner::reset_line"), ("backslash handling", "Scanner::scan_token")],
  ["Terminator and Indent tokens of Scanner::scan_tokens"],
  [("following_line_continuation / is_line_continuation", "whether the next / this line continues the previous one", "Scanner")])

p("C07", "Each lexeme is classified and valued exactly",
  "Every maximal run of identifier characters is one token, a keyword exactly when it equals one of the 18 reserved words and an identifier otherwise; operators are matched longest-first; an open parenthesis is marked as abutting exactly when no whitespace separates it from the text before it. Number tokens carry the IEEE double nearest to their decimal text and string tokens the verbatim text between the quotes, and so do the literals of the syntax tree.",
  ["inputs"], "All source texts that scan without error: any identifier, number or string spelling, in any context.",
  "Tests enumerate each keyword once and three numbers; prefixes/extensions of keywords, Unicode, long or fractional numbers, strings with quotes' neighbours, newlines, comment markers or backslashes are not sampled.",
  [SC, TOK, PA], [("keyword table", "scanner KEYWORDS"), ("number scanning and parsing", "Scanner::scan_number"), ("string slicing", "Scanner::scan_string"), ("two-character operators", "Scanner::matches"), ("is_abutting", "Scanner::scan_token")],
  ["type and literal values of tokens", "literal nodes of parsed expressions"])

p("C08", "Comments, blank lines, trailing blanks and CRLF change nothing",
  "Inserting or removing line comments, comment-only or blank lines of any indentation, blanks at line ends, extra spaces between already separated tokens, or switching between LF and CRLF line ends outside string literals never changes the syntax tree of a program other than source positions, nor whether it is accepted.",
  ["inputs", "programs"], "All accepted programs and all places in them where such layout can be inserted.",
  "Two tests have comments, none has CRLF, and trailing blanks occur once; the property relates two executions for every program and every insertion point.",
  [SC], [("comment skipping before layout tokens are produced", "Scanner::scan_token '/'"), ("carriage return and CRLF handling", "Scanner::scan_token, is_newline"), ("blank-line handling", "Scanner::reset_line")],
  ["syntax trees of parser::parse for both variants, positions erased"])

p("C09", "Operators bind by precedence and associativity",
  "In every expression operators group as: assignment (right-associative, lowest), 'or', 'and', equality, comparison, additive, multiplicative (all left-associative), then the prefix operators '!' and '-', then postfix forms (highest); parentheses override this and appear as grouping nodes. Each operator symbol yields its own operator in the tree with its operands in source order.",
  ["inputs", "programs"], "All expressions over all operators and operands, at any size.",
  "Two tests parse one binary expression each; ten binary, two logical and two unary operators have over a hundred ordered pairs of relative bindings, and longer mixes.",
  [PA, AST], [("one function per precedence level", "Parser::assignment, or, and, equality, comparison, addition, multiplication, unary, call")],
  ["expression trees of parser::parse and parse_expression compared with the tree the text was generated from"])

p("C10", "Calls, member accesses and indexing chain correctly",
  "Postfix forms apply left to right to everything on their left within the operand: '.name' yields a property access, '[...]' an index, an abutting '(...)' a call with the comma-separated arguments in order. An expression directly followed by something that can start an argument (literal, name, 'fun', '(' after whitespace, '{', 'super') is a call without parentheses whose arguments, separated by commas, are full expressions extending as far as possible; calls with up to 255 arguments are accepted and with more are rejected.",
  ["inputs", "programs"], "All chains of postfix forms and calls of both styles, nested in each other, with 0 to 300 arguments.",
  "Tests parse five flat calls; chains, nesting of the two styles and the limit are not sampled.",
  [PA], [("postfix loop", "Parser::call"), ("argument lists", "Parser::finish_call, finish_call_without_parens"), ("argument starters", "CALL_PRIMARY_TOKENS"), ("abutting parenthesis token", "Scanner is_abutting")],
  ["expression trees of parser::parse"])

p("C11", "Control-flow bodies attach to the right statement",
  "For every program, an if, else, while or for owns exactly the statements of its own body, an else belongs to the nearest if at its level, and statements after a closed block belong to the enclosing block, in source order. A for loop is represented as its initializer followed by a while loop with its condition (true when omitted) and increment, and each of its three parts may be omitted independently.",
  ["programs"], "All nestings of if/else/while/for/print/return/break/continue/blocks, with indented, braced and single-statement bodies.",
  "Tests nest at most an if in a loop; else is never tested, nor are for loops with an expression initializer or siblings after nested blocks.",
  [PA], [("statement parsing", "Parser::statement, finish_if_statement, finish_for_statement, finish_while_statement, loop_body_statement"), ("block parsing", "Parser::finish_block, consume_begin_block")],
  ["statement trees of parser::parse compared with the tree the text was generated from"])

p("C12", "Declarations keep names, parameters, bodies and kinds",
  "Variable, function and class declarations appear in the tree with their own name, their parameters in order, their initializer or body, and the superclass if any. In a class, a method marked 'class' is a class method, one named 'init' otherwise is the initializer, any other is a plain method; functions outside a class body are plain functions, and up to 255 parameters are accepted while more are rejected.",
  ["programs"], "All programs with any nesting of declarations, 0 to 300 parameters.",
  "One test parses one function without parameters; classes, superclasses, methods, parameters and anonymous functions are not tested.",
  [PA, AST], [("declarations", "Parser::finish_class_declaration, finish_fun_declaration, function_definition, finish_var_declaration"), ("function kinds", "ast::FunctionType")],
  ["declaration nodes of parser::parse"])

p("C13", "Array and map literals keep their entries in order",
  "An array literal has exactly its elements in source order, whether or not it ends with a comma. A map literal written in braces, bare on one line, continued after commas, or indented after 'var x =' (with or without commas) is the same single map whose keys (bare or quoted) and values are in source order; a key repeated in one literal is an error, and equal keys in different literals are not.",
  ["inputs", "programs"], "All array and map literals, in every notation, nested in each other and in other expressions.",
  "Tests use two-entry maps and two-element arrays of numbers; longer, nested and duplicate-key literals are not sampled.",
  [PA, AST], [("map parsing", "Parser::literal_map"), ("ordered map", "ast::Map"), ("arrays", "Parser::primary LeftBracket")],
  ["literal nodes of parser::parse and parse_expression", "errors of parser::parse"])

p("C14", "The tree contains all of the program and nothing else",
  "Whenever a source text is accepted, reading the names, literals and operators off its syntax tree in source order gives exactly the names, literals and operators of the source text, none lost, duplicated, invented or reordered, apart from the documented defaults (nil for a missing initializer or return value, true for a missing for-condition). This also holds for accepted texts that no one would write.",
  ["inputs"], "All accepted source texts, including accidental ones obtained by mutation.",
  "Tests compare trees of inputs someone thought of; a parser that silently skips tokens passes all of them.",
  [PA, AST], [("every consumed token ends up in a node", "Parser"), ("no token skipped outside error recovery", "Parser::advance, synchronize")],
  ["token list of the source and syntax tree of parser::parse on the same input"])

p("C15", "Exactly the programs of the grammar are accepted",
  "A source text is accepted as a program exactly when its tokens derive from the language's grammar: a program obtained from a valid one by removing, adding, replacing or swapping tokens or lines is rejected if it is outside the grammar, and accepted with the tree the grammar assigns to it if it is inside. The same holds for expressions and REPL lines.",
  ["inputs", "programs"], "All token sequences near valid programs and random ones; all three entry points.",
  "Six inputs in the tests are expected to be rejected; the boundary of the language has as many sides as the grammar has rules.",
  [PA, SC], [("consume() with an error for each expected token", "Parser::consume, consume_any_of, consume_identifier"), ("assignment target check", "Parser::assignment"), ("end-of-file check", "Parser::parse")],
  ["acceptance and tree of parser::parse, parse_repl_line, parse_expression versus an independently written grammar"])

p("C16", "Only loops can be broken or continued",
  "In every accepted program each break and continue is inside the body of a loop of the same function, and a program with one elsewhere (top level, function or method body not inside a loop of that function, after the loop) is rejected with an error at that statement. Misplacement is reported even when other errors precede it.",
  ["programs"], "All nestings of loops, functions, anonymous functions, classes and blocks, with break/continue at any position.",
  "Eight one-line tests; none has a function or class between the loop and the break.",
  [PA], [("loop depth counter, saved and restored around function bodies", "Parser::in_loops, loop_body_statement, function_definition")],
  ["break/continue nodes of accepted trees", "errors of rejected programs"],
  [("in_loops", "number of loops around the current statement within the function", "Parser")])

p("C17", "Syntax tree nodes point at their own source text",
  "Every position stored in a syntax tree is the position of the token that names the node: operators for unary, binary and assignment nodes, the dot, bracket or opening parenthesis (or first argument) for accesses and calls, the identifier for variables, parameters and named declarations, the keyword for anonymous functions, super, return, break and continue. It is independent of everything that follows in the file and shifts exactly with what precedes it.",
  ["inputs", "programs"], "All accepted programs in any layout.",
  "Tests pin positions for about twenty nodes in one- to three-line programs.",
  [PA, AST, LOC], [("locations taken from the matched token", "Parser::matches, consume_identifier, peek_source_loc")],
  ["SourceLoc fields of all nodes of parser::parse"])

p("C18", "Errors name the offending place",
  "A rejected source always yields at least one error; each error's position lies in the source or just past its end, an error that quotes a token quotes the text actually found at its position (for a duplicate map key, or an assignment that needs one variable too many, the name concerned), errors are in source order, and the first one is where a left-to-right reading by the grammar first fails (the token that does not fit, or the construct that breaks a rule). The printed form shows line, column, quoted token and message of every error.",
  ["inputs"], "All rejected source texts: lexical, grammatical, limit and static-rule errors.",
  "Five error positions are pinned by tests; the error path has over sixty call sites.",
  [ERR, PA, SC, RE], [("error construction from the current or previous token", "Parser::error_from_peek, error_from_last"), ("scan error locations", "Scanner::error call sites"), ("rendering", "Display for ParseError and ParseErrorCause")],
  ["ParseError::causes and its Display output"])

p("C19", "Every lexical mistake is reported once, where it is",
  "Each illegal character, tab used as whitespace, misplaced backslash, unmatched dedent and unterminated string in a source is reported exactly once, in source order, at its own line and column, regardless of what surrounds it; a source with none of these never gets a lexical error. None of these characters is an error inside a string or comment.",
  ["inputs"], "All source texts with any number of lexical mistakes at any positions.",
  "One test has one misplaced backslash.",
  [SC, ERR], [("errors collected while scanning continues", "Scanner::error, scan_tokens")],
  ["causes of the error returned by Scanner::scan_tokens and parser::parse"])

p("C20", "One syntax error does not hide or fake others",
  "After a malformed top-level line (one where the error is found before its last token and no statement keyword follows it), parsing resumes at the next statement keyword: a well-formed remainder starting with one yields no further error, and a malformed remainder yields exactly the errors it yields on its own, shifted to its place.",
  ["inputs", "programs"], "All pairs of a malformed line and a remainder that starts with class, fun, var, for, if, while, print or return.",
  "One test has an error that is not the last thing in its input, and it expects a single error.",
  [PA], [("error recovery", "Parser::synchronize, Parser::parse")],
  ["ParseError::causes of the combined source versus the remainder alone"])

p("C21", "Names resolve to the innermost visible declaration",
  "In every resolved program each use of a variable, parameter, function, class, this or super refers, by scope distance and slot, to the declaration of that name in the innermost enclosing scope that has declared it at that point, where functions, blocks, class bodies (this, and super with a superclass) and the program each form a scope and for loops with an initializer one more. A name declared in no enclosing scope refers to the global scope.",
  ["programs"], "All programs: any nesting of scopes, shadowing, closures, forward references to globals, recursion.",
  "The resolver has no tests at all.",
  [RE, ENV], [("scope chain walk", "Resolver::resolve_local_variable"), ("scopes opened and closed per construct", "Resolver::begin_scope, end_scope, resolve_function, resolve_class"), ("forward reservation of globals", "Resolver::forward_reserve_global_var")],
  ["VarLoc and SlotIndex cells of the resolved tree versus an independent scope model"],
  [("scopes", "stack of name tables", "Resolver")])

p("C22", "Distinct variables never share a slot",
  "Within one scope, distinct names have distinct slots, numbered from 0 in order of first appearance (an assignment's value before its target, a for loop's increment after its body), and all uses and the declaration of one variable have the same slot; a global keeps its slot for the whole session. A scope can hold 255 variables, and a program that needs more in one scope is rejected instead of reusing a slot.",
  ["programs", "histories"], "All programs and REPL sessions, with 1 to 400 variables per scope of every kind (var, function, class, parameter, forward-referenced global).",
  "The resolver has no tests; slots are 8-bit numbers, and aliasing needs hundreds of variables.",
  [RE, ENV], [("slot allocation", "Resolver::declare, define, forward_reserve_global_var"), ("slot limit", "ensure_scope_index_limit"), ("slot width", "environment SlotIndex, VarLoc")],
  ["VarLoc and SlotIndex cells of resolved trees"])

p("C23", "Static rules are enforced exactly",
  "A parsed program is rejected by resolution exactly when it returns at top level, returns a value other than nil from an initializer, uses this outside a class, uses super outside a class or in one without superclass, lets a class inherit from itself, declares a name twice in one local scope, reads a local (or not yet defined global) variable in its own initializer (other than inside a function there), or exceeds 255 variables in one scope. Each such error is reported at the offending place, at most one per top-level statement, and every offending top-level statement is reported.",
  ["programs"], "All parsed programs, with violations at any nesting depth and combination of classes, methods, functions and scopes.",
  "The resolver has no tests.",
  [RE], [("function and class context", "Resolver::function_type, class_type"), ("declaration states", "VarResolveDefinedState"), ("error collection", "Resolver::resolve")],
  ["result of resolver::resolve versus an independent rule checker"],
  [("function_type, class_type", "kind of the enclosing function and class", "Resolver")])

p("C24", "Resolution only fills in bindings",
  "The tree returned by resolution is the parsed tree with nothing but its binding information (scope distances and slots) filled in: no statement, expression, literal, name, kind or position is added, removed, changed or reordered. Binding information is set for every variable use, assignment, super use and variable declaration.",
  ["programs"], "All programs that resolve.",
  "The resolver has no tests.",
  [RE, AST], [("in-place resolution through cells", "Resolver::resolve_statement, resolve_expression")],
  ["parsed tree and resolved tree of the same source, bindings erased"])

p("C25", "A failed line does not disturb the session",
  "In a session that resolves a sequence of sources one after another, each source is accepted or rejected, with the same tree and bindings, as if the rejected ones before it had never been entered; names defined by accepted sources remain visible to later ones with unchanged bindings. This holds whatever error interrupts a source and however deeply nested it is.",
  ["histories", "fault_sequences"], "All sequences of accepted and rejected sources fed to one resolver (within the 255-globals limit).",
  "No test feeds two sources to one resolver, and no test makes resolution fail.",
  [RE, MAIN], [("state restored on error paths", "Resolver::resolve_statement, resolve_class, resolve_function, undeclare")],
  ["results of one long-lived Resolver versus one fed only the accepted sources"],
  [("scopes, function_type, class_type", "session state that must survive errors", "Resolver")])

p("C26", "Concatenated programs parse to concatenated trees",
  "If two sources each parse as complete programs ending in a newline, their concatenation parses to the statements of the first followed by the statements of the second with line numbers shifted, provided the first does not end in a backslash continuation and the second does not begin with a map entry, an else, a backslash or an indented line. Likewise nesting the lines of a program (without multi-line strings) one level deeper under an if, loop, function or method header gives exactly its statements as the body.",
  ["programs"], "All pairs of valid programs; all valid programs as bodies (return/break/continue allowed only where legal).",
  "Tests parse single statements; no test relates the parse of a whole to the parses of its parts.",
  [PA, SC], [("no parser or scanner state carried between statements", "Parser::parse, Scanner::reset_line")],
  ["trees of parser::parse for parts and wholes"])

p("C27", "Entry points agree with each other",
  "A source accepted as a program is accepted as a REPL line with the same tree; a REPL line additionally accepts a final single-line expression statement (not indented, not ending with ',') without its newline and gives it the tree it has with the newline; every single-line expression (not beginning with '{' or ending with ',') has on its own the same tree as in an expression statement. Parsing is exactly scanning followed by parsing the tokens: a source with lexical errors fails with exactly those errors.",
  ["inputs"], "All source texts, valid or not.",
  "No test calls the REPL entry point, and none compares two entry points.",
  [PA, LIB], [("entry points", "parser::parse, parse_repl_line, parse_expression"), ("trailing-expression mode", "Parser::with_trailing_expression, expression_statement")],
  ["results of the entry points on the same input"])

p("C28", "Results depend on the source alone, in any thread",
  "Scanning, parsing and resolving the same source always gives the same result (tokens, trees, bindings, errors and their order), whatever was processed before, however often, and whatever other threads process at the same time. Concurrent use from many threads, including the very first use, has no data race or undefined behaviour.",
  ["schedules", "histories", "inputs"], "All histories of earlier calls, all interleavings of concurrent calls, all process-level hash seeds.",
  "Each test makes one call on one thread's behalf and compares with a constant; no schedule or history is explored.",
  [SC, PA, RE], [("lazily initialised keyword table is the only shared state", "scanner KEYWORDS"), ("hash maps used only for lookup, never iterated", "Resolver::scopes"), ("insertion-ordered maps in the tree", "ast::Map")],
  ["results recorded per call in multi-threaded and repeated runs; data-race and UB reports of Miri / ThreadSanitizer"])

p("C29", "The command line reports faithfully",
  "Run on a file, the program prints the resolved tree of its contents to standard output, nothing to standard error, and exits 0 if it is valid; otherwise it prints nothing to standard output, one diagnostic with line, column, quoted token and message per error to standard error in order, and exits 65. A file that cannot be read or is not UTF-8 never yields exit status 0 or any output on standard output.",
  ["inputs", "fault_sequences"], "All file contents and file faults (missing, directory, unreadable, empty, invalid UTF-8).",
  "No test runs the program.",
  [MAIN], [("file mode", "main, run_file, run, print_result, print_parse_error")],
  ["exit status, standard output and standard error of the built program versus the library's result for the same text"])

p("C30", "The REPL answers every line and stops at end of input",
  "For every sequence of input lines the REPL prints a prompt and then, for each line in order, the resolved tree (standard output) or the diagnostics (standard error) that line has in the session so far, keeps going after erroneous lines, and exits with status 0 when its input ends, also in the middle of a line or when input is empty. Definitions made by earlier lines stay in effect for later ones.",
  ["histories", "fault_sequences"], "All sequences of lines, valid or not, ending at any byte.",
  "No test runs the program.",
  [MAIN, RE], [("REPL loop", "run_repl"), ("one resolver per session", "run_repl")],
  ["standard output, standard error and exit status of the built program fed through a pipe"])

p("C31", "The WebAssembly module returns the same tree",
  "For every source text, parseString in the WebAssembly build returns a JavaScript value with the same structure as the native resolved tree (same node types, arguments in the same order, names, numbers, strings, positions, map entries in order, bindings), (for nesting that fits the module's stack) or throws an error whose message is the printed form of exactly the native errors. Earlier calls on the same instance do not influence it.",
  ["inputs", "histories"], "All source texts, and sequences of calls on one instance.",
  "The WebAssembly code is compiled but never executed by any test.",
  [WASM, AST, ENV, LOC], [("exported function", "wasm_parse_string"), ("serialisation", "serde attributes in ast.rs, environment.rs, source_loc.rs and Map's Serialize"), ("error conversion", "JsError::from(ParseError)")],
  ["value returned or error thrown by the wasm module run under node, versus the native result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

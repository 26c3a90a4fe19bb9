CLAIMS = {
    "C01": ("path-sensitive abstract interpretation over SSA of the evaluator and parser, compared with a table of the language's operators; constant-table analysis of binding powers",
            "Every path of the evaluator functions for expressions is enumerated symbolically (no solver) and its result term compared with the operator table for every pair of operand kinds; the parser's operator loop, operand levels and node construction are compared with the grammar."),
    "C02": ("path-sensitive abstract interpretation over SSA; each path's event trace and result term compared with the specification of the construct",
            "Every path of the evaluation of the conditional forms, for an arbitrary list of branches (loops are abstracted to one arbitrary pass), and the truth table over all object kinds."),
    "C03": ("path-sensitive abstract interpretation over SSA; per-pass trace specification of the loops",
            "Every path of the evaluation of @each, @for, blocks and control statements with loops abstracted to one arbitrary pass."),
    "C04": ("path-sensitive abstract interpretation over SSA of the scope operations and their uses",
            "Every path of the scope operations and of every construct that creates or writes a scope."),
    "C05": ("path-sensitive abstract interpretation over SSA of the lexer (abstract cursor), regular-language inclusion for the parser's statements, path enumeration of evaluation, printing and the entry points",
            "Every path of the lexer's text, comment and directive scanning; every path of ParseProgram, of block parsing and of each statement parser against the grammar of the statement; every path of the evaluation and printing of text, programs and blocks, and of the rendering entry points."),
    "C06": ("regular-language inclusion for the parser's statements; path-sensitive abstract interpretation over SSA of the linking functions, of loading and of the evaluation of layouts",
            "Every path of the parsing of @use, @reserve and @insert (with the duplicate check), of layout linking for an arbitrary layout and page (loops abstracted to one arbitrary pass), of program registration, and of the evaluation and printing of layouts, reserves and blocks."),
    "C07": ("regular-language inclusion for the parser's statements; path-sensitive abstract interpretation over SSA of component linking and evaluation",
            "Every path of the parsing of @component and @slot, of component loading and slot filling for an arbitrary component and use, and of the evaluation of components, their arguments, scope and slots."),
    "C08": ("path-sensitive abstract interpretation over SSA of lexer and parser: progress of every loop pass, counted recursion (call graph components), unproven panicking operations, rejecting paths",
            "Every loop of the lexer and parser: each pass moves the cursor or takes a token and is impossible when only the end of the input is left; every cycle of the call graph of the parser, through registered functions, is limited by a counted depth that ends with an error; every token but the end consumes input; every index, slice, map write, dereference and dynamic call; every unclosed construct, illegal character and unclosed comment ends in a recorded error, which stops the entry points."),
    "C09": ("null model of the syntax tree derived from the parser's error-free paths, and path-sensitive abstract interpretation over SSA of the evaluation: every operation that can panic is an obligation (nilness, assertions by kind sets, positions and counts by a linear prover)",
            "Every path of the evaluation of every node kind, of every built-in, of the value methods, of the data conversion for every reflect kind and of the render entry points: dereferences, assertions, indexes, slices, divisions, map writes, dynamic calls, comparisons of contents, reflect calls, counts of library calls; every value is non-nil, every error of a part ends in an error, and every error has the line of its construct."),
    "C10": ("path-sensitive abstract interpretation over SSA; the escape of a literal as a composition of byte maps, decided by constant folding of the library operations; forward data flow of the literal's text",
            "Every path of the evaluation of a string literal as a map of all 256 bytes (loops by the image of each byte); every read of a literal's text in the evaluator; the string lexer; the raw built-in and call dispatch; every construct that passes a value on (printing, concatenation, assignment, inserts, components, arrays, objects, lookups)."),
    "C11": ("path-sensitive abstract interpretation over SSA of each built-in against its contract, with slice-content segments, points-to purity and UTF-8 cut analysis",
            "Every path of every registered built-in: the result term for each receiver/argument kind is compared with the function's contract; loops by loop contracts and element segments; no write reaches the receiver or arguments; every string cut falls on a character boundary; the dispatcher looks at the built-in table before the custom ones."),
    "C12": ("path-sensitive abstract interpretation over SSA of the value conversion, of scope construction and of lookups; points-to effect analysis for the caller's data",
            "Every path of the conversion for every kind of package reflect, with the contents of the objects it builds; the binding of every entry of the data; property access and indexing for every pair of object kinds; the printed form of the scalars; every write reachable from a render."),
    "C13": ("path-sensitive abstract interpretation over SSA: lexer position invariant, provenance of the line and path of every error value",
            "Every error the parser records, the evaluator makes and the loader returns: its line term must be the end line of the token or node it is about and its path that of the file; the Line method and the token of every node; the lexer's line counting for every token kind; the error value and the entry points that pass it on."),
    "C14": ("order-taint dataflow over SSA (map iteration order and other nondeterministic sources) with a points-to analysis",
            "Every map iteration, reflection over map keys, select, goroutine, clock or random read reachable from the entry points, and every value it taints: each must be sorted by a total order, be order-insensitive, or not reach a result."),
    "C15": ("inclusion-based points-to and effect analysis over SSA",
            "Every store, map update and mutating library call reachable from the rendering entry points: none may target state shared between calls without a common lock."),
    "C16": ("inclusion-based points-to and effect analysis over SSA",
            "Every write reachable from the rendering entry points: none may target state that outlives the call (globals, loaded templates, configuration, caller's data)."),
    "C18": ("path-sensitive abstract interpretation over SSA of configuration, directory walk, program loading and linking, and of the entry points",
            "Every path of NewTemplate, Configure, the directory walk and its callback (for an arbitrary entry), program loading for an arbitrary set of files, layout and component linking with the guard against cycles, Template.String and EvaluateFile."),
    "C19": ("path-sensitive abstract interpretation over SSA of the lexer with an abstract cursor (position invariant, loop summaries, per-byte lexeme table)",
            "Every path of the lexer's NextToken and its helpers: positions of every token against the cursor invariant, the bytes every token consumes for each first byte, and every scanning loop (identifiers, numbers, strings, text, comments, directives)."),
    "C20": ("path-sensitive abstract interpretation over SSA of registration, call dispatch and value conversion",
            "Every path of the registration functions, of the call dispatcher and of the conversions from template values to Go values and back."),
    "C17": ("path-sensitive abstract interpretation over SSA of the response writer, data-flow of error details into the error pages, syntax-directed check of the built-in page template",
            "Every path of Response with its helpers, the data given to both error pages, every expression of the embedded error page, and the configuration of debug mode."),
}
NOT = {}

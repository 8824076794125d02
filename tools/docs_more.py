# Continued from docs.py (executed by it).

prop("C02", "On regular patterns parsing agrees with regular-expression matching",
     "Patterns made of exact text, character classes, concatenation, groups, alternation and `? * +` mean what the same regular expression (leftmost alternative first, greedy, anchored at both ends) means: the same inputs are accepted, and each part of a concatenation matches the same piece of the input that the corresponding group of the regular expression captures.",
     ["programs", "inputs"], "all patterns of the regular fragment, with any nesting of repetition and choice, and all input texts",
     "Tests only ever compare against literal expected results for a few patterns; agreement with an independent engine over all regular patterns is a statement about infinitely many patterns and texts.",
     [P+"repeat.rs", P+"sequence.rs", P+"either.rs", P+"empty.rs", P+"exact.rs", P+"chars.rs", P+"string.rs", S+"macros.rs"],
     [("greedy repetition with give-back", P+"repeat.rs: RepeatParseIter"), ("choice order", P+"either.rs: EitherParseIter"), ("concatenation advance/backtrack", P+"sequence.rs: SequenceParseIter")],
     "differential property testing: random regular patterns translated to the regex crate, acceptance and captured spans compared",
     "Trusts the regex crate (with its alternation-factoring defect kept out by empty groups); independent of the reference model used elsewhere.",
     observe=["Ok/Err; text matched by each part (through string())"])

prop("C10", "A ParseError renders the right line, column and message and owns its source",
     "For every source text and location, ParseError's Display gives the 1-based line number (lines end at newline characters), the 1-based column counted in characters from the start of that line, and the message of what was expected there; Debug and Error agree, it never panics, and the error keeps the complete source that was passed in together with a location that lies within it on a character boundary.",
     ["inputs"], "all sources (any Unicode, any newline arrangement, empty, very large), all locations and kinds of error",
     "Tests check a few ASCII sources; first/last column, locations at and after newlines, at the end, in multi-byte text and in huge files are unsampled.",
     [S+"error.rs", S+"context.rs"],
     [("line and column from location", S+"error.rs: Display for ParseError"), ("reason text", S+"error.rs: ParseErrorReason"), ("source captured on report", S+"context.rs: report, into_reported_error")],
     "property testing of rendered errors against a separate computation of line, column and message over generated sources, locations and failing parses",
     "Oracle is a few lines that count newlines and characters.",
     observe=["Display, Debug, source, location of ParseError"])

prop("C12", "Rule sets recognise and evaluate recursive grammars correctly",
     "A rule set in parser! defines mutually recursive rules, usable before or after their definition, by name, in any number and of any types; a rule name in a pattern means exactly the pattern it stands for, with its alternatives, backtracking, values and errors, at every depth of recursion. Rule sets can be parts of other patterns and of other rule sets, be used many times, moved, cloned and dropped, without affecting each other.",
     ["programs", "inputs", "histories"], "all rule sets (any number of rules, any reference graph), all inputs and nesting depths, all orders of creating, moving, cloning, using and dropping",
     "Tests contain a handful of one- to four-rule grammars and shallow inputs; wiring of rules by index and lifetime of the shared rule storage over histories cannot be sampled by hand.",
     [P+"rule_set.rs", S+"macros.rs"],
     [("RuleSetBuilder/assign_rule/build and shared rule storage", P+"rule_set.rs"), ("rule name resolution and conversion to the rule's type", S+"macros.rs: rule parsing, @rule arms")],
     "property testing: JSON, arithmetic, palindromes, 32-rule and deeply nested grammars against recursive descent; generated rule sets and create/move/drop histories against the reference model",
     MODEL + " Nesting depth limited to 2000 (quick) or 4000.",
     observe=["Ok/Err, values and errors of parse"])

prop("C15", "Collection parsers collect exactly what the same list pattern produces",
     "hash_set, btree_set, hash_map, btree_map and vec_deque of a pattern accept exactly the inputs that the pattern itself accepts, with the same errors, and their value holds exactly the items (or key-value pairs) that the pattern yields as a list, inserted in order: duplicates merge, the last value given for a key wins, a deque keeps order.",
     ["programs", "inputs"], "all list-valued patterns, all inputs, including repeated and conflicting keys",
     "Tests collect two or three distinct items; duplicates, conflicting values, empty lists and the choice of match under backtracking are unsampled.",
     [P+"collections.rs"],
     [("FromIterator over the parsed list", P+"collections.rs")],
     "metamorphic and model-based property testing: collection of the plain pattern's list, key conflicts included", MODEL,
     observe=["value, acceptance, errors"])

prop("C16", "string(p) matches what p matches and yields exactly the matched text",
     "string(p) has the same matches, in the same order, with the same ends and the same errors as p, from every position and in every context; its value is exactly the piece of the input that p matched, and no conversion inside p is run.",
     ["programs", "inputs"], "all patterns p, all inputs, all positions, all matches in backtracking order",
     "Tests use three patterns; text of later matches after backtracking, multi-byte text, matches inside lines and sections, and conversions inside p are unsampled.",
     [P+"string.rs"],
     [("start..match_end slice of the context source", P+"string.rs")],
     "metamorphic property testing: string(p) against p over all matches from any position", MODEL,
     observe=["matches, values, errors, calls of conversions"])

prop("C17", "Parsers are immutable values: every parse is independent of all others",
     "Parsing depends on the parser and the input only: using a parser any number of times, by value or by reference, cloned, moved, from several threads at once, from inside a conversion of another (or the same) parse, after failed, abandoned or panicked parses, always gives exactly what a fresh parser gives.",
     ["histories", "schedules"], "all patterns, all inputs, all histories and interleavings of uses",
     "Tests use each parser once or twice in sequence; hidden state shared between parses (in rule sets, lazily compiled regexes, contexts) only shows in particular histories.",
     [S+"traits.rs", P+"rule_set.rs", P+"regex.rs", P+"primitive.rs", P+"map.rs", S+"context.rs"],
     [("iterators own their state; context created per parse", S+"traits.rs, context.rs"), ("lazily initialised regexes", P+"regex.rs, primitive.rs"), ("shared rule storage", P+"rule_set.rs")],
     "stateful property testing: generated histories and multi-threaded runs against fresh parsers", "Searched, not proved; thread interleavings are whatever the scheduler gives (8 cores), not enumerated.",
     observe=["results of parse"])

prop("C18", "aoc_parse() parses the text as if it ended in a newline",
     "aoc_parse(text, p) equals p.parse of the text if it ends in a newline, and otherwise of the text with exactly one newline added, in value and in error, for every text, the empty one included; it changes nothing else of the text.",
     ["inputs", "programs"], "all texts (with or without final newlines, \\r\\n, empty), all patterns",
     "The utility is untested by the test suite apart from one example; empty text, several final newlines and other line ends are unsampled.",
     [S+"util.rs"],
     [("newline normalisation", S+"util.rs: aoc_parse")],
     "metamorphic property testing against parse on the normalised text", "Oracle is parse itself on the explicitly normalised text.",
     observe=["value and error"])

prop("C19", "parse_iter yields every match in order and keeps its protocol",
     "From any position, parse_iter yields all matches of the pattern in the documented order of preference, one per backtrack: match_end is the end of the current match (a character boundary, never before the start), stays the same until backtrack is called, convert gives the value of the current match, and when there are no more matches the error says what was expected. Several iterators alive at once do not disturb each other.",
     ["programs", "inputs", "histories"], "all patterns, inputs, start positions, all matches, all interleavings of several iterators",
     "Tests only ever look at the first match of a whole parse; later matches, their order and their values matter as soon as a pattern is embedded in another, and are unsampled.",
     [S+"traits.rs", P+"repeat.rs", P+"sequence.rs", P+"either.rs", P+"map.rs", P+"lines.rs", P+"string.rs", P+"rule_set.rs", P+"empty.rs", P+"exact.rs", P+"regex.rs"],
     [("match_end / backtrack / convert", S+"traits.rs: ParseIter and each parser's impl")],
     "model-based property testing: complete list of matches, ends and values from every offset against the reference matcher; interleaved iterators", MODEL,
     observe=["sequence of match_end, converted values, final error"])

prop("C20", "ParseContext keeps the furthest error, and of equals the first",
     "For every sequence of reports and parser runs on one context, the reported error is the one with the greatest location, the earliest reported among equals, with its own message unchanged; source() is always the text the context was made with.",
     ["histories"], "all sequences of reports of all kinds (expected, from_str failures, extra input, ready-made errors) at all locations; all sequences of parser runs",
     "Tests observe only the final error of ordinary parses; ties, reports in decreasing order, and several parsers on one context are unsampled.",
     [S+"context.rs", S+"error.rs"],
     [("foremost_error", S+"context.rs: ParseContext::report")],
     "stateful property testing: generated report histories against a max-by-location, first-wins fold", "Oracle is a two-line fold over the history.",
     state=[("foremost_error", "the best error so far", S+"context.rs")],
     observe=["into_reported_error after each history"])

prop("C13", "parser! gives every pattern the documented Rust type, value and errors",
     "A pattern written in parser! compiles for every documented form and nesting, in any layout (white space, comments, trailing commas, raw strings, any macro delimiter), and the parser it makes has the documented output type: unlabelled literals contribute nothing, concatenated values form a flat tuple, a single value stands alone, groups nest, `?` gives Option, `*` `+` and lists give Vec, an alternation has the type of its arms, `=>` gives the type of its expression and binds exactly the labelled terms, and names and function calls stand for what they are. At run time it yields that value, or the same error, as the pattern means.",
     ["programs", "inputs"], "all parser! invocations of the documented syntax, with values, up to 8 per concatenation",
     "The macro is a token-by-token state machine; tests (and doc-tests) cover a few dozen invocations, and a wrong arm only shows for particular neighbouring tokens, arities or nestings.",
     [S+"macros.rs", S+"types.rs", P+"sequence.rs", P+"map.rs", P+"rule_set.rs", S+"lib.rs"],
     [("token muncher @seq, @prim, @args, @list, @split_rules, @reverse_map, @reverse_pats", S+"macros.rs: aoc_parse_helper!"),
      ("raw tuple concatenation and user type", S+"types.rs: RawOutputConcat, ParserOutput")],
     "generative program testing: random typed patterns rendered as parser! source, compiled with their type asserted, run, output compared with the reference matcher; failing programs are shrunk",
     MODEL + " Also trusts rustc. Single-arm alternations of several values are left out (undocumented).",
     observe=["does it compile at the asserted type; stdout of the compiled program"])

prop("C14", "Malformed patterns are rejected at compile time, well-formed ones are not",
     "parser! refuses to compile a malformed pattern instead of giving it some other meaning: non-greedy or leading quantifiers, labels without a pattern or two labels in a row, rule sets without a final pattern or with a missing semicolon, empty alternations, a name followed by parentheses that is no function, arms or rules of conflicting types, unknown names and labels, wrong arguments and stray tokens, at any nesting. The same pattern with the mistake corrected compiles.",
     ["programs"], "all placements of each kind of mistake in all surrounding patterns",
     "Seven compile_fail doc-tests sample one spot each, and they pass for any compile error; which macro arm sees a token depends on everything around it.",
     [S+"macros.rs", P+"rule_set.rs", P+"either.rs", P+"collections.rs"],
     [("compile_error! arms", S+"macros.rs: @seq, @list, @split_rules"), ("trait bounds on combinators", P+"*.rs")],
     "generative program testing: mistakes from a table placed in generated surroundings, and one mistake at a random node of a generated typed pattern, each compiled next to the same program without it",
     "The kinds of mistake are fixed (a table of about 135 pairs, and 30 kinds that fit any pattern); patterns, surroundings and places are generated. Trusts rustc. Mistakes the macro documents as not detected (foo??, foo++) are left out.",
     observe=["whether rustc accepts the program"])

prop("C21", "Equivalent ways of writing a pattern are interchangeable",
     "Equations the documentation states or implies hold for all patterns and inputs, in value and, where the equation keeps the order of attempts, in error: lines(p) and sections(p) are line(p)* and section(p)*; p+ is p p*; p? is {p, \"\"}; repeat_sep(p, s) is p (s p)* or nothing; grouping, adding an empty text, repeating an alternative or adding an unused one, and splitting or joining exact text change nothing; concatenation and choice are associative and distribute over each other; string() is idempotent; a rule or a function means its definition; conversions compose.",
     ["programs", "inputs"], "all patterns p, q, r and separators, all inputs",
     "Each law quantifies over all patterns; it fails only for particular nestings and inputs where backtracking or error tracking is subtly different between two implementations of the same thing. No test compares two patterns.",
     [P+"repeat.rs", P+"sequence.rs", P+"either.rs", P+"empty.rs", P+"exact.rs", P+"lines.rs", P+"string.rs", P+"map.rs", P+"collections.rs", S+"macros.rs"],
     [("star, plus, opt, repeat_sep share RepeatParser", P+"repeat.rs"), ("lines/sections as star(line)", P+"lines.rs"), ("OrParser/Either nesting", P+"either.rs")],
     "metamorphic property testing: both sides of 26 equations built for random patterns and run on random inputs, outcomes compared",
     "No reference model: the real code is compared with itself, so a mistake on both sides of every law is not seen here.",
     observe=["acceptance, value, error"])

prop("C22", "Parsing makes no more attempts than backtracking search needs",
     "Parsing an input tries each part of the pattern at each place at most as often as a leftmost-first backtracking search does: a part is tried anew only when something before it has changed, nothing is tried again to find a match's text, end, value or error. In particular a pattern that never has to back up tries each part once per place, so that parsing a file of n simple lines takes n attempts of the line's pattern.",
     ["programs", "inputs"], "all patterns, all inputs, matching or not",
     "A repeated attempt changes no result, only multiplies the work, and does so exponentially when it is inside a recursion or a nested repetition; tests look at results on small inputs.",
     [P+"repeat.rs", P+"sequence.rs", P+"either.rs", P+"lines.rs", P+"string.rs", P+"map.rs", P+"rule_set.rs", S+"traits.rs"],
     [("iterators keep the matches of their parts instead of finding them again", P+"{repeat,sequence,either,lines,string}.rs"), ("one search, errors gathered on the way", S+"traits.rs: parse_raw; context.rs")],
     "model-based property testing: every part of a random pattern wrapped in a counting user-defined parser, attempts per part and place compared with those of the reference matcher; exact bounds for simple patterns on large inputs",
     MODEL + " Attempts are counted, not time: what a leaf parser does inside is not seen.",
     observe=["calls of parse_iter of user-defined parsers"])

prop("C23", "Combinators keep the iterator protocol towards user-written parsers",
     "A user-written parser inside any pattern is only ever started at a character boundary of the text; its iterators are backtracked with the text they were made for, are not used any more after backtracking has said that there are no more matches, and are converted only after the whole parse has succeeded: at most once each, with no further attempts or backtracking after the first conversion, and never when the parse fails.",
     ["programs", "inputs"], "all patterns with user-written parsers in any place, all inputs",
     "The built-in parsers mostly tolerate misuse (an exhausted one says no again), so that no test result depends on the documented protocol; a user's own parser may panic, hang or match again.",
     [P+"repeat.rs", P+"sequence.rs", P+"either.rs", P+"lines.rs", P+"string.rs", P+"map.rs", P+"rule_set.rs", P+"dynamic.rs", S+"traits.rs"],
     [("ParseIter contract", S+"traits.rs: ParseIter docs"), ("the exhausted iterator is dropped or replaced", P+"{repeat,sequence,either}.rs")],
     "runtime monitoring under property testing: every part of a random pattern wrapped in a user-defined parser that watches for calls out of order, on random and exhaustively enumerated small inputs",
     "Searched, not proved. What is watched is what the trait's documentation says.",
     observe=["calls of the methods of user-defined parsers and iterators"])

prop("C24", "Nothing stays allocated after parsing",
     "Once a parser, the results of its parses and their errors have been dropped, everything that was allocated for making the parser and for parsing has been released, whether the parse succeeded, failed or was abandoned half way. Parsing more and more texts with one parser, or making the same parser again and again, does not make memory grow without bound.",
     ["programs", "inputs", "histories"], "all patterns, all inputs, all numbers of repetitions",
     "No test looks at memory, and a leak changes no result. It depends on which matches are given up, which errors are replaced and which values are thrown away on the way, and a table that only ever grows shows only in long histories of different inputs.",
     [P+"rule_set.rs", P+"dynamic.rs", P+"repeat.rs", P+"lines.rs", P+"either.rs", S+"context.rs", S+"error.rs", S+"traits.rs"],
     [("rule sets own their rules, the context only borrows them", P+"rule_set.rs, "+S+"context.rs"), ("iterators own what they have matched, and are plain values", P+"*.rs"), ("one error is kept, as an owned value", S+"context.rs")],
     "property testing with a counting allocator: bytes in use around repeated construction, parsing and dropping for random patterns and inputs, and over histories of ever different inputs in processes of their own",
     "Allocations are those through Rust's global allocator. Growth that comes to an end is accepted (lazily built tables), so a leak that is bounded by a constant is not seen.",
     observe=["bytes allocated and released through the global allocator"])

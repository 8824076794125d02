#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they agree."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"; P = "src/parsers/"
PROPS = []

def prop(id, title, statement, over, quantifier, why, files, mechanism, technique, note,
         state=(), observe=(), level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier,
                      why=why, files=files, mechanism=mechanism, technique=technique, note=note,
                      state=state, observe=observe, level=level))

MODEL = ("Searched, not proved. Trusts the independent reference matcher in harness/src/model.rs "
         "(written from the documentation, continuation-passing style) and the leaf oracles in leaf.rs.")

prop("C01", "Ordered choice with full backtracking decides acceptance and value",
     "For every pattern and every input, parsing succeeds exactly when some way of matching the whole input exists, and the value returned is the one of the first such match in the documented order: alternatives left to right, `*`, `+`, `?` and separated lists greedy, every earlier choice reconsidered when something later fails. An ambiguous choice never makes a matching input fail, and a match is never returned that leaves input over.",
     ["programs", "inputs"], "all patterns built from exact text, leaf parsers, concatenation, groups, alternation, `? * +`, repeat_sep, lines/sections, string(), collections, conversions, rule sets, user functions and user-written parsers; all input texts",
     "The tests run a few dozen hand-picked pattern/input pairs, nearly all unambiguous; backtracking interactions (choice inside repetition inside concatenation, before something that fails later) are combinatorial and mostly unsampled.",
     [P+"repeat.rs", P+"sequence.rs", P+"either.rs", P+"empty.rs", P+"exact.rs", P+"map.rs", S+"traits.rs", S+"macros.rs"],
     [("backtracking iterators of each combinator", P+"{repeat,sequence,either,map,lines,rule_set}.rs: ParseIter impls"),
      ("whole-input match loop", S+"traits.rs: Parser::parse / context.rs")],
     "model-based property testing: random and exhaustively enumerated small patterns x inputs against a reference matcher", MODEL,
     observe=["Ok/Err and value of Parser::parse"])

prop("C03", "Integer parsers accept exactly the documented numerals in range",
     "Each integer parser matches exactly the longest run of digits of its base (with an optional sign for signed types), accepts it if and only if the value fits the type, and yields that value; big integers have no bound. A numeral that does not fit is an error at the numeral that says why, never a wrapped, truncated or shorter match, and never a panic.",
     ["inputs"], "all 42 integer parsers (u8..u128, usize, i8..i128, isize, big_uint, big_int; decimal, _bin, _hex), all texts, at every position of a larger input",
     "Tests check a handful of values per type; the limits, signs, leading zeros, overlong numerals, mixed digit case and what follows the numeral are unsampled for most of the 42 parsers.",
     [P+"primitive.rs", P+"regex.rs"],
     [("regex per type and from_str/from_str_radix conversion", P+"primitive.rs: macros and FromStrParser impls"),
      ("longest-run scan and error location", P+"regex.rs: RegexParser::parse_iter")],
     "differential property testing against arithmetic done digit by digit; exhaustive for 8/16-bit values, limits of every type and all short strings over a digit alphabet",
     "Oracle is independent big-number arithmetic on decimal digits. Exhaustive where stated in the evidence, random otherwise.",
     observe=["value, match end, error text and location"])

prop("C04", "Float and bool parsers agree with Rust's own conversions",
     "f32 and f64 match exactly the longest text of the documented float shape at their position and return bit for bit what Rust's own string-to-float conversion gives for it; formatting any finite float with `{}` or `{:?}` and parsing it gives the same float back. bool matches exactly `true` and `false`.",
     ["inputs"], "all texts and positions; all finite f32 and f64 values for the round trip",
     "Tests use a few literals; exponents, missing digits, signs, subnormals, infinities and texts that merely start like a float are a huge space.",
     [P+"primitive.rs", P+"regex.rs"],
     [("float regex and from_str", P+"primitive.rs: f32/f64/bool"), ("anchored longest match", P+"regex.rs")],
     "differential property testing against std's FromStr plus a hand-written shape recogniser; enumerated short strings; float round trips",
     "Trusts std's float conversion; the shape recogniser is hand-written from the documented grammar.",
     observe=["value bits, match end, errors"])

prop("C05", "Character parsers and exact text match precisely what they say",
     "alpha, alnum, upper, lower, digit, digit_bin, digit_hex and any_char each match exactly one Unicode character of their documented class and yield it (or its digit value); char_of yields the index of the first occurrence of the character in its string. Exact strings and characters match only themselves, byte for byte, with no case folding or normalisation, at any position, and produce no value.",
     ["inputs"], "every Unicode scalar value against every class parser; all exact texts, option strings and inputs",
     "Tests use a few ASCII characters; whether the classes hold for each of 1.1 million characters, multi-byte text and every position is a universally quantified claim.",
     [P+"chars.rs", P+"exact.rs"],
     [("CharParser / regex classes / char_of lookup", P+"chars.rs"), ("starts_with comparison", P+"exact.rs")],
     "exhaustive enumeration of Unicode for the class parsers, random exact-text and option strings, model comparison in larger patterns",
     "Class membership oracle is std's char methods; exhaustive over characters.",
     observe=["value, match end, acceptance"])

prop("C06", "line() and lines() see exactly the lines of the input",
     "line(p) matches from the current position through the end of the current line, final newline included, and only if p matches all of the text before the newline (the last line may lack the newline); lines(p) splits the rest of the input into its lines and yields one value per line in order. p can neither see nor consume anything outside its line, and a line that p does not match is an error inside that line.",
     ["inputs", "programs"], "all inner patterns (including ones that match newlines or nothing), all placements of newlines, all texts",
     "Tests cover simple well-formed lines; empty lines, missing final newlines, \\r\\n, newlines within p, lines inside repetitions with backtracking and several regions in a row are unsampled.",
     [P+"lines.rs", S+"context.rs"],
     [("region slicing and inner whole-region match", P+"lines.rs: RegionParser/RegionParseIter, find_line_end"),
      ("error location translation", S+"context.rs")],
     "property testing against a line splitter and the reference matcher; enumerated short texts over a newline alphabet x a family of line patterns", MODEL,
     observe=["values, match ends, errors"])

prop("C07", "section() and sections() see exactly the blank-line separated sections",
     "section(p) matches one or more lines up to and including the following blank line, or the end of input, and only if p matches all of the text of those lines; it starts only at the start of the input or after a blank line, and never matches a section that is empty. sections(p) yields one value per section in order.",
     ["inputs", "programs"], "all inner patterns, all arrangements of lines and blank lines, all texts",
     "Tests cover two or three well-formed sections; multiple blank lines, blank lines at the start or end, a missing final newline, and sections mixed with lines are unsampled.",
     [P+"lines.rs", S+"context.rs"],
     [("section boundaries", P+"lines.rs: find_section_end, Section region checks"), ("shared region matching", P+"lines.rs")],
     "property testing against a section splitter and the reference matcher; enumerated short texts over a newline alphabet x a family of section patterns", MODEL,
     observe=["values, match ends, errors"])

prop("C08", "Conversions run once each, for the final match only",
     "A `=>` conversion runs only after the whole input has been matched, exactly once for each place its subpattern occurs in the final match, and with the values of exactly the labelled terms; none runs for text matched by an abandoned alternative, or in a parse that fails.",
     ["programs", "inputs"], "all patterns with conversions anywhere, all inputs, including heavy backtracking",
     "Tests check the values conversions return, not how often or when they run; side effects, panics or cost in conversions for abandoned matches would go unnoticed.",
     [P+"map.rs", P+"repeat.rs", P+"sequence.rs", P+"either.rs", P+"lines.rs", P+"string.rs", S+"traits.rs"],
     [("convert() separated from matching", S+"traits.rs: ParseIter::convert; parse calls it after the end-of-input check"), ("mapper application", P+"map.rs")],
     "model-based property testing: multiset of conversion calls compared with the reference matcher's final match", MODEL,
     observe=["calls of conversion closures, recorded by id"])

prop("C09", "A failed parse reports the furthest point reached and what was expected",
     "When no match exists, the error's location is the furthest position at which anything was expected while trying (translated from lines and sections to the whole input), and its message is the first thing that was expected there, or that the end of input was expected if a match stopped there. Location, line, column and message describe that same point of the input that was passed in.",
     ["programs", "inputs"], "all patterns and all non-matching inputs",
     "Tests check error text for some 40 fixed cases; which of several failures wins after backtracking, and locations within nested lines and sections, depend on the whole exploration.",
     [S+"context.rs", S+"error.rs", P+"lines.rs", P+"regex.rs", P+"repeat.rs", P+"exact.rs"],
     [("keep the furthest, first error", S+"context.rs: ParseContext::report"), ("line/column computation", S+"error.rs"), ("inner errors re-reported with offset", P+"lines.rs")],
     "model-based property testing: error location and text compared with the reference matcher, random and enumerated small patterns", MODEL,
     observe=["ParseError location and Display text"])

prop("C11", "Parsing any input with any pattern terminates without panicking",
     "For every pattern that compiles and every input string, parsing returns a value or an error: it does not panic, loop forever, overflow the stack on long input, or use unbounded memory, whatever Unicode, newlines, numerals or nesting of empty matches occur.",
     ["programs", "inputs"], "all patterns, including ones whose parts match the empty string, and all input texts, including very long ones",
     "Tests never repeat a pattern that can match nothing, feed random Unicode or long input to most parsers; non-termination and slicing panics are exactly what samples miss.",
     [P+"repeat.rs", P+"lines.rs", P+"regex.rs", P+"exact.rs", S+"context.rs", S+"error.rs"],
     [("repetition stops after a round that consumed nothing", P+"repeat.rs"), ("char-boundary slicing", P+"exact.rs, chars.rs, lines.rs")],
     "fuzzing with structured generators (patterns and inputs), a deterministic step limit and memory budget derived from the reference matcher's own step count", MODEL + " Termination means: within 300 times the reference matcher's steps.",
     observe=["return, panic, step count, process status"])

EXTRA = os.path.join(ROOT, "tools", "docs_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                "observe_at": list(p["observe"]),
                "hook_needed": None,
            },
        }, ensure_ascii=False) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./check.sh build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed through the public API. Fixed defects are listed in known_findings.txt.",
    }, f, indent=1, ensure_ascii=False)
    f.write("\n")

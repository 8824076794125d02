//! C14: patterns that are not well-formed do not compile; the same pattern
//! with the mistake put right does.

use crate::props::progs::{self, in_parallel, shrink_tape, Prog, Spoil, SUPPORT};
use crate::runner::*;
use crate::rustc::Rustc;
use crate::tape::Tape;
use proptest::strategy::{Strategy, ValueTree};
use serde_json::json;

/// A mistake, what was meant, and what is wrong.
const MISTAKES: &[(&str, &str, &str)] = &[
    ("\"q\"*?", "\"q\"*", "non-greedy quantifier"),
    ("\"q\"+?", "\"q\"+", "non-greedy quantifier"),
    ("alpha*?", "alpha*", "non-greedy quantifier"),
    ("k:alpha+?", "k:alpha+", "non-greedy quantifier"),
    ("(\"p\" \"q\")* ?", "(\"p\" \"q\")*", "non-greedy quantifier"),
    ("{alpha, digit => 'x'}+ ? 'z'", "{alpha, digit => 'x'}+ 'z'", "non-greedy quantifier"),
    ("(* \"q\")", "(\"q\"*)", "leading quantifier"),
    ("(+ \"q\")", "(\"q\"+)", "leading quantifier"),
    ("(? \"q\")", "(\"q\"?)", "leading quantifier"),
    ("(*)", "()", "leading quantifier"),
    ("{\"p\", ? \"q\"}", "{\"p\", \"q\"}", "leading quantifier"),
    ("{+ \"p\", \"q\"}", "{\"p\", \"q\"}", "leading quantifier"),
    ("repeat_sep(* \"q\", \",\")", "repeat_sep(\"q\", \",\")", "leading quantifier"),
    ("repeat_sep(\"q\", + \",\")", "repeat_sep(\"q\", \",\"+)", "leading quantifier"),
    ("string(? alpha)", "string(alpha?)", "leading quantifier"),
    ("(k:)", "(k:\"q\")", "label without pattern"),
    ("(\"q\" k:)", "(\"q\" k:alpha)", "label without pattern"),
    ("(k: => 1)", "(k:\"q\" => 1)", "label without pattern"),
    ("(alpha j: => 1)", "(j:alpha => 1)", "label without pattern"),
    ("line(k:)", "line(k:\"q\")", "label without pattern"),
    ("{\"p\", k:}", "{\"p\", k:\"q\"}", "label without pattern"),
    ("(k:*)", "(k:\"q\"*)", "label without pattern"),
    ("k:j:\"q\"", "k:\"q\"", "two labels"),
    ("(k:j:alpha => k)", "(k:alpha => k)", "two labels"),
    ("(k:j:(alpha) => j)", "(j:(alpha) => j)", "two labels"),
    ("(k:j:string(alpha) => j)", "(j:string(alpha) => j)", "two labels"),
    ("(a:u8 \",\" k:j:u8+ => a)", "(a:u8 \",\" j:u8+ => a)", "two labels"),
    ("{}", "{\"q\"}", "alternation without arms"),
    ("{}*", "{\"q\"}*", "alternation without arms"),
    ("k:{}", "k:{\"q\"}", "alternation without arms"),
    ("string({})", "string({\"q\"})", "alternation without arms"),
    ("alpha (\"q\")", "alpha \"q\"", "call of something that is no function"),
    ("alpha (digit \"-\")*", "(alpha) (digit \"-\")*", "call of something that is no function"),
    ("k:u8 (\"q\")", "k:u8 \"q\"", "call of something that is no function"),
    ("no_such_name", "alpha", "unknown name"),
    ("no_such_name(\"q\")", "string(\"q\")", "unknown name"),
    ("k:no_such_name", "k:alpha", "unknown name"),
    ("{u8, no_such_name}", "{u8, u8_hex}", "unknown name"),
    ("(k:u8 => j)", "(k:u8 => k)", "conversion uses a name that is not a label"),
    ("(u8 => u8 + 1)", "(k:u8 => k as u32 + 1)", "conversion uses a name that is not a label"),
    ("((k:u8) \"q\" => k)", "(k:(u8) \"q\" => k)", "label in an inner group"),
    ("({k:u8} \"q\" => k)", "(k:{u8} \"q\" => k)", "label in an inner alternation"),
    ("(k:u8 k:u8 => 1)", "(k:u8 j:u8 => 1)", "same label twice"),
    ("(k:u8 \"q\" j:alpha k:u8 => j)", "(k:u8 \"q\" j:alpha l:u8 => j)", "same label twice"),
    ("(u8 => )", "(u8 => 1)", "conversion without expression"),
    ("{u8 =>, u16 => 1}", "{u8 => 2, u16 => 1}", "conversion without expression"),
    ("(k:u8 => k k)", "(k:u8 => k)", "something after the conversion"),
    ("(k:u8 => k => 1)", "(k:u8 => 1)", "something after the conversion"),
    ("(k:u8 => k)*?", "(k:u8 => k)*", "non-greedy quantifier"),
    ("7", "\"7\"", "not a string or character"),
    ("7.5", "\"7.5\"", "not a string or character"),
    ("true", "\"true\"", "not a string or character"),
    ("b\"q\"", "\"q\"", "not a string or character"),
    ("b'q'", "'q'", "not a string or character"),
    ("k:5", "k:\"5\"", "not a string or character"),
    ("line \"q\"", "line(\"q\")", "function without arguments"),
    ("{lines, \"q\"}", "{lines(\"p\") => 1, \"q\" => 2}", "function without arguments"),
    ("(string)", "(string(alpha))", "function without arguments"),
    ("(u8, u8)", "(u8 u8)", "stray token"),
    ("(k:u8 => k,)", "(k:u8 => k)", "stray token"),
    ("(k:u8,)", "(k:u8)", "stray token"),
    ("(\"q\",)", "(\"q\")", "stray token"),
    ("(,)", "()", "stray token"),
    ("repeat_sep(\"q\",, \",\")", "repeat_sep(\"q\", \",\")", "stray token"),
    ("repeat_sep(, \"q\", \",\")", "repeat_sep(\"q\", \",\")", "stray token"),
    ("repeat_sep(\"q\"; \",\")", "repeat_sep(\"q\", \",\")", "stray token"),
    ("string(\"q\",,)", "string(\"q\",)", "stray token"),
    ("line[\"q\"]", "line(\"q\")", "stray token"),
    ("line{\"q\"}", "line(\"q\")", "call of something that is no function"),
    ("(\"p\" | \"q\")", "{\"p\", \"q\"}", "stray token"),
    ("[\"q\"]", "(\"q\")", "stray token"),
    ("(\"p\"; \"q\")", "(\"p\" \"q\")", "stray token"),
    ("(\"p\" = \"q\")", "(\"p\" '=' \"q\")", "stray token"),
    ("(\"p\" - \"q\")", "(\"p\" '-' \"q\")", "stray token"),
    ("(\"p\" & \"q\")", "(\"p\" '&' \"q\")", "stray token"),
    ("(!\"q\")", "('!' \"q\")", "stray token"),
    ("(\"p\" .. \"q\")", "(\"p\" \"..\" \"q\")", "stray token"),
    ("(\"p\" -> \"q\")", "(\"p\" \"->\" \"q\")", "stray token"),
    ("(: \"q\")", "(k: \"q\")", "stray token"),
    ("(rule r: u8 = u8; r)", "(u8)", "rules in a group"),
    ("repeat_sep(\"q\")", "repeat_sep(\"q\", \",\")", "wrong number of arguments"),
    ("repeat_sep(\"q\", \",\", \";\")", "repeat_sep(\"q\", \",\")", "wrong number of arguments"),
    ("lines(\"p\", \"q\")", "lines(\"p\" \"q\")", "wrong number of arguments"),
    ("string()", "string(())", "wrong number of arguments"),
    ("{u8, \"q\"}", "{u8 => 1, \"q\" => 2}", "arms of different types"),
    ("{\"q\", u8}", "{\"q\" => 1, u8 => 2}", "arms of different types"),
    ("{u8, u16}", "{u8, u8_hex}", "arms of different types"),
    ("{\"a\" => 1, \"b\" => 2, \"c\"}", "{\"a\" => 1, \"b\" => 2, \"c\" => 3}", "arms of different types"),
    ("{alpha, digit, char_of(\"xy\")}", "{alpha, lower, any_char}", "arms of different types"),
    ("{u8*, u8}", "{u8*, u8_hex+}", "arms of different types"),
    ("{alpha digit, digit alpha}", "{alpha digit, upper digit_hex}", "arms of different types"),
    ("{(alpha), \"q\"?}", "{(alpha)?, upper?}", "arms of different types"),
    ("hash_map(u8*)", "hash_map((u8 '=' u8)*)", "not key-value pairs"),
    ("btree_map((alpha alpha alpha)*)", "btree_map((alpha alpha)*)", "not key-value pairs"),
    ("hash_set(u8)", "hash_set(u8*)", "not a list"),
    ("hash_set(f64*)", "hash_set(u64*)", "not hashable"),
    ("btree_set(f64*)", "btree_set(u64*)", "not ordered"),
    ("char_of(alpha)", "char_of(\"abc\")", "wrong type of argument"),
    ("string(7)", "string(\"7\")", "wrong type of argument"),
];

/// The same for rule sets: whole bodies.
const RULE_MISTAKES: &[(&str, &str, &str)] = &[
    ("rule r: u8 = @ u8;", "rule r: u8 = @ u8; r", "no final pattern"),
    ("rule r: u8 = @ u8; rule s: u8 = r;", "rule r: u8 = @ u8; rule s: u8 = r; s", "no final pattern"),
    ("rule r: u8 = @ u8", "rule r: u8 = @ u8; r", "no final pattern"),
    ("rule r: u8 = @ u8 rule s: u8 = r; s", "rule r: u8 = @ u8; rule s: u8 = r; s", "missing semicolon"),
    ("rule r: u8 = {u8, @ u8_hex} rule s: u8 = r; s", "rule r: u8 = {u8, @ u8_hex}; rule s: u8 = r; s", "missing semicolon"),
    ("rule r: u8 = u8; rule s: u8 = @ r rule q: u8 = s; q", "rule r: u8 = u8; rule s: u8 = @ r; rule q: u8 = s; q", "missing semicolon"),
    ("rule r: u8 = @ u8;; r", "rule r: u8 = @ u8; r", "stray token"),
    ("rule r: u8 = @ u8;; rule s: u8 = r; s", "rule r: u8 = @ u8; rule s: u8 = r; s", "stray token"),
    ("rule r: u8 = @ u8; rule s: u8 = r;; s", "rule r: u8 = @ u8; rule s: u8 = r; s", "stray token"),
    ("; rule r: u8 = @ u8; r", "rule r: u8 = @ u8; r", "stray token"),
    ("rule r: u8 = @ u8; r;", "rule r: u8 = @ u8; r", "stray token"),
    ("rule r: u8 = @ u8; r,", "rule r: u8 = @ u8; r", "stray token"),
    ("rule r: u8 = @ u8,; r", "rule r: u8 = @ u8; r", "stray token"),
    ("rule r: u8 = @ u8, r", "rule r: u8 = @ u8; r", "missing semicolon"),
    ("rule r: u8 = @ u8, rule s: u8 = r; s", "rule r: u8 = @ u8; rule s: u8 = r; s", "missing semicolon"),
    ("rule r: u8 = @ u8; x:r => x,", "rule r: u8 = @ u8; x:r => x", "stray token"),
    ("rule r: u8 = @ x:u8 => x,; r", "rule r: u8 = @ x:u8 => x; r", "stray token"),
    ("rule r: u8 = @ u8 r", "rule r: u8 = @ u8; r", "missing semicolon"),
    ("rule r: String = @ u8; r", "rule r: u8 = @ u8; r", "rule of another type"),
    ("rule r: u8 = @ x:u16 => x; r", "rule r: u16 = @ x:u16 => x; r", "rule of another type"),
    ("rule r: u16 = @ u8; r", "rule r: u8 = @ u8; r", "rule of another type"),
    ("rule r: Vec<u8> = @ u8; r", "rule r: Vec<u8> = @ u8*; r", "rule of another type"),
    ("rule r: (u8, u8) = @ u8; r", "rule r: (u8, u8) = @ u8 ',' u8; r", "rule of another type"),
    ("rule r: () = @ u8; r", "rule r: () = @ \"q\"; r", "rule of another type"),
    ("rule r = @ u8; r", "rule r: u8 = @ u8; r", "rule without a type"),
    ("rule r: = @ u8; r", "rule r: u8 = @ u8; r", "rule without a type"),
    ("rule r: u8 @ u8; r", "rule r: u8 = @ u8; r", "rule without an equals sign"),
    ("rule r: u8 = ; r", "rule r: u8 = u8; r", "rule without a pattern"),
    ("rule : u8 = @ u8; r", "rule r: u8 = @ u8; r", "rule without a name"),
    ("rule r: u8 = @ u8; s", "rule r: u8 = @ u8; r", "unknown rule"),
    ("rule r: u8 = @ s; r", "rule r: u8 = @ s; rule s: u8 = u8; r", "unknown rule"),
    ("rule r: u8 = {@ u8, * u8_hex}; r", "rule r: u8 = {@ u8, u8_hex}; r", "leading quantifier"),
    ("rule r: Vec<u8> = * u8; r", "rule r: Vec<u8> = u8*; r", "leading quantifier"),
    ("rule r: u8 = @ u8; * r", "rule r: u8 = @ u8; r*", "leading quantifier"),
    ("rule r: u8 = @ u8; r*?", "rule r: u8 = @ u8; r*", "non-greedy quantifier"),
    ("rule r: u8 = @ u8; x:", "rule r: u8 = @ u8; x:r", "label without pattern"),
    ("rule r: u8 = x: => x; r", "rule r: u8 = x:u8 => x; r", "label without pattern"),
];

/// Ways to put a pattern without labels of its own inside a bigger one;
/// the type does not matter in any of them.
const AROUND: &[&str] = &[
    "(@)",
    "\"a\" @",
    "@ \"b\"",
    "(@)*",
    "(@)?",
    "(\"a\" @)+",
    "{\"z\" => 0, @ \"y\" => 1}",
    "{@ => 0, \"y\" => 1,}",
    "{\"z\", \"w\" => (), @ => (),}",
    "repeat_sep(@, \",\")",
    "repeat_sep(\"a\", @)",
    "repeat_sep(@, \",\",)",
    "string(@)",
    "line(@)",
    "lines(\"a\" @)",
    "section(@)",
    "sections(line(@) lines(u8))",
    "(x:(u8) @ => x)",
    "(@ y:(alpha \"-\") => y.to_string())",
    "(v:string(alpha+) \": \" @)",
    "angle(@)",
    "twice(@, u8)",
    "u8 \",\" (@) alpha",
    "vec_deque((@)*)",
];

struct Both {
    bad: String,
    good: String,
    what: &'static str,
    tape: Vec<u32>,
}

fn make(tape: &[u32]) -> Both {
    let mut t = Tape::new(tape);
    let rules = t.chance(1, 5);
    let depth = *t.pick(&[0, 1, 1, 2, 2, 3, 4]);
    let (bad, good, what) = if rules {
        *t.pick(RULE_MISTAKES)
    } else {
        *t.pick(MISTAKES)
    };
    let (mut bad, mut good) = (bad.to_string(), good.to_string());
    if rules {
        // Something harmless in the rules.
        let filler = t.pick(&["", "\"a\"", "\"a\" 'b'", "\"x\"", "'é'"]);
        bad = bad.replace('@', filler);
        good = good.replace('@', filler);
    } else {
        for _ in 0..depth {
            let around = t.pick(AROUND);
            bad = around.replace('@', &bad);
            good = around.replace('@', &good);
        }
        if t.chance(1, 4) {
            let around = t.pick(&[
                "rule r: u8 = @ => 1; r",
                "rule r: u8 = {@ r => 1, \"w\" => 2}; r",
                "rule r: u8 = u8; rule s: u8 = @ => 3; s \"-\" r",
                "rule r: u8 = u8; @ r",
            ]);
            // Labels of the inside are not in the way of the conversion.
            bad = around.replace('@', &format!("({bad})"));
            good = around.replace('@', &format!("({good})"));
        }
    }
    Both { bad, good, what, tape: tape.to_vec() }
}

fn file(patterns: &[&str]) -> String {
    let mut s = SUPPORT.to_string();
    s += "fn run() {}\nfn use_it<P: Parser>(p: P) { let _ = p.parse(\"\"); }\n";
    for (i, p) in patterns.iter().enumerate() {
        s += &format!("pub fn f{i}() {{ use_it(parser!({p})); }}\n");
    }
    s
}

fn first_error(e: &str) -> String {
    e.lines().take(12).collect::<Vec<_>>().join("\n")
}

/// Is the well-formed one accepted, the malformed one rejected?
fn judge(rc: &Rustc, name: &str, b: &Both) -> Result<Option<String>, String> {
    if let Err(e) = rc.check(&format!("{name}g"), &file(&[&b.good]))? {
        return Ok(Some(format!("well-formed: parser!({})\ndoes not compile:\n{}", b.good, first_error(&e))));
    }
    if rc.check(&format!("{name}b"), &file(&[&b.bad]))?.is_ok() {
        return Ok(Some(format!("malformed ({}): parser!({})\ncompiles", b.what, b.bad)));
    }
    Ok(None)
}

fn mistakes(w: &mut Whole) {
    let rc = match Rustc::find() {
        Ok(rc) => rc,
        Err(e) => {
            w.broken = Some(e);
            return;
        }
    };
    if let Some(data) = &w.replay {
        let tape: Vec<u32> = data["tape"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
            .unwrap_or_default();
        match judge(&rc, "replay", &make(&tape)) {
            Ok(Some(m)) => w.fail(m, json!({})),
            Ok(None) => {}
            Err(e) => w.broken = Some(e),
        }
        return;
    }
    let total = if w.tier == Tier::Quick { 900 } else { 20_000 };
    let mut runner = proptest_runner(w.seed, w.check, w.sub, 0, total);
    let strategy = proptest::collection::vec(proptest::num::u32::ANY, 1..=14);
    let mut cases: Vec<Both> = vec![];
    // Each mistake once by itself, then in generated surroundings.
    for (i, table) in [MISTAKES, RULE_MISTAKES].into_iter().enumerate() {
        for j in 0..table.len() {
            let at = |j: usize, n: usize| (((j as u64) << 32).div_ceil(n as u64)) as u32;
            let tape = vec![if i == 1 { u32::MAX } else { 0 }, 0, at(j, table.len())];
            let b = make(&tape);
            debug_assert_eq!(b.what, table[j].2);
            cases.push(b);
        }
    }
    while cases.len() < total {
        let tape = strategy.new_tree(&mut runner).unwrap().current();
        cases.push(make(&tape));
    }
    for part in cases.chunks(400) {
        // All the well-formed ones together.
        let groups: Vec<&[Both]> = part.chunks(50).collect();
        let good = in_parallel(groups.len(), |i| {
            let ps: Vec<&str> = groups[i].iter().map(|b| b.good.as_str()).collect();
            rc.check(&format!("g{i}"), &file(&ps))
        });
        let bad = in_parallel(part.len(), |i| rc.check(&format!("b{i}"), &file(&[&part[i].bad])));
        let mut suspects: Vec<&Both> = vec![];
        for (g, r) in groups.iter().zip(good) {
            match r {
                Ok(Ok(())) => {}
                Ok(Err(_)) => suspects.extend(g.iter()),
                Err(e) => {
                    w.broken = Some(e);
                    return;
                }
            }
        }
        for (b, r) in part.iter().zip(bad) {
            match r {
                Ok(Err(_)) => {
                    w.count(Status::NonTrivial, &b.bad, || format!("{}: parser!({})", b.what, b.bad));
                    w.class(b.what);
                }
                Ok(Ok(())) => suspects.push(b),
                Err(e) => {
                    w.broken = Some(e);
                    return;
                }
            }
        }
        // The shortest counterexample will do.
        suspects.sort_by_key(|b| b.bad.len());
        for b in suspects {
            match judge(&rc, "s", b) {
                Ok(Some(m)) => {
                    w.fail(m, json!({ "tape": b.tape, "malformed": b.bad, "well_formed": b.good }));
                    return;
                }
                Ok(None) => {}
                Err(e) => {
                    w.broken = Some(e);
                    return;
                }
            }
        }
    }
}

/// A generated pattern, and the same with a mistake in it.
struct Pair {
    good: Prog,
    bad: Prog,
    what: &'static str,
    tape: Vec<u32>,
}

fn pair(tape: &[u32]) -> Option<Pair> {
    let (&place, rest) = tape.split_first()?;
    let (&pick, rest) = rest.split_first()?;
    let mut sp = Some(Spoil::new(usize::MAX, 0));
    let good = progs::make_with(rest, &mut sp)?;
    let n = sp?.places();
    // Often in what the whole is made of.
    let at = match place % 4 {
        0 => 0,
        _ => ((place as u64 * n as u64) >> 32) as usize,
    };
    let mut sp = Some(Spoil::new(at, pick as u64));
    let bad = progs::make_with(rest, &mut sp)?;
    let what = sp?.what;
    assert!(!what.is_empty() && bad.source != good.source, "no mistake made in {}", good.source);
    Some(Pair { good, bad, what, tape: tape.to_vec() })
}

fn judge_pair(rc: &Rustc, name: &str, p: &Pair) -> Result<Option<String>, String> {
    if let Err(e) = rc.check(&format!("{name}g"), &progs::file(&[&p.good]))? {
        return Ok(Some(format!("the well-formed program\n{}does not compile:\n{}", p.good.source, first_error(&e))));
    }
    if rc.check(&format!("{name}b"), &progs::file(&[&p.bad]))?.is_ok() {
        return Ok(Some(format!(
            "the malformed program ({})\n{}compiles; meant was\n{}",
            p.what, p.bad.source, p.good.source
        )));
    }
    Ok(None)
}

fn generated(w: &mut Whole) {
    let rc = match Rustc::find() {
        Ok(rc) => rc,
        Err(e) => {
            w.broken = Some(e);
            return;
        }
    };
    if let Some(data) = &w.replay {
        let tape: Vec<u32> = data["tape"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
            .unwrap_or_default();
        if let Some(p) = pair(&tape) {
            match judge_pair(&rc, "replay", &p) {
                Ok(Some(m)) => w.fail(m, json!({})),
                Ok(None) => {}
                Err(e) => w.broken = Some(e),
            }
        }
        return;
    }
    let total = if w.tier == Tier::Quick { 2_500 } else { 30_000 };
    let mut runner = proptest_runner(w.seed, w.check, w.sub, 0, total);
    let strategy = proptest::collection::vec(proptest::num::u32::ANY, 2..=262);
    let mut done = 0;
    while done < total {
        let mut part: Vec<Pair> = vec![];
        while part.len() < 400.min(total - done) {
            let tape = strategy.new_tree(&mut runner).unwrap().current();
            match pair(&tape) {
                Some(p) => part.push(p),
                None => w.count(Status::Discard, &0, String::new),
            }
        }
        done += part.len();
        part.sort_by_key(|p| p.good.edition());
        let groups: Vec<&[Pair]> = part
            .chunk_by(|p, q| p.good.edition() == q.good.edition())
            .flat_map(|c| c.chunks(20))
            .collect();
        let good = in_parallel(groups.len(), |i| {
            let ps: Vec<&Prog> = groups[i].iter().map(|p| &p.good).collect();
            rc.check(&format!("g{i}"), &progs::file(&ps))
        });
        let bad = in_parallel(part.len(), |i| rc.check(&format!("b{i}"), &progs::file(&[&part[i].bad])));
        let mut suspects: Vec<&Pair> = vec![];
        for (g, r) in groups.iter().zip(good) {
            match r {
                Ok(Ok(())) => {}
                Ok(Err(_)) => suspects.extend(g.iter()),
                Err(e) => {
                    w.broken = Some(e);
                    return;
                }
            }
        }
        for (p, r) in part.iter().zip(bad) {
            match r {
                Ok(Err(_)) => {
                    w.count(Status::NonTrivial, &p.bad.source, || format!("{}:\n{}", p.what, p.bad.source));
                    w.class(p.what);
                }
                Ok(Ok(())) => suspects.insert(0, p),
                Err(e) => {
                    w.broken = Some(e);
                    return;
                }
            }
        }
        for p in suspects {
            match judge_pair(&rc, "s", p) {
                Ok(Some(_)) => {
                    let tape = shrink_tape(p.tape.clone(), |tape, name| match pair(tape) {
                        Some(q) => q.what == p.what && matches!(judge_pair(&rc, name, &q), Ok(Some(_))),
                        None => false,
                    });
                    let q = pair(&tape).expect("the shrunk tape makes a program");
                    let m = judge_pair(&rc, "final", &q).ok().flatten().unwrap_or("did not fail again".into());
                    w.fail(m, json!({ "tape": q.tape, "malformed": progs::file(&[&q.bad]) }));
                    return;
                }
                Ok(None) => {}
                Err(e) => {
                    w.broken = Some(e);
                    return;
                }
            }
        }
    }
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "a mistake from a table (every documented one among them), placed in generated surroundings, or a mistake of some kind at some place of a generated pattern, must not compile, and the same without the mistake must; each case is both programs and counts as non-trivial",
        assumptions: &["the kinds of mistake are fixed; the surroundings, patterns and places are generated"],
        subs: vec![
            Sub { name: "mistakes", body: Body::Whole(mistakes) },
            Sub { name: "generated", body: Body::Whole(generated) },
        ],
    }
}

//! C17: parsers are pure values. C19: the iterator protocol.

use crate::erase::{build_user, guard, push_trace, run, set_fuel, take_trace, DynP, Seen};
use crate::model;
use crate::pat::*;
use crate::props::core::{describe, real_fuel, MODEL_FUEL};
use crate::runner::*;
use crate::tape::Tape;
use crate::value::V;
use aoc_parse::prelude::*;
use aoc_parse::{parser, ParseContext, ParseIter, Reported};

// --- C19

fn at_boundary(t: &mut Tape, s: &str) -> usize {
    let mut i = t.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn match_list(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 12);
    let mut p = Gen::any_theme(t, budget).pattern(t);
    if t.chance(1, 8) {
        p = stretched(&p, t);
    }
    all_matches(p, t, case)
}

/// The matches of `p` from some offset of some input, against the model.
pub fn all_matches(p: Pat, t: &mut Tape, case: &mut Case) -> Verdict {
    let tail = input_for(&p, t);
    // Somewhere inside a larger input, or at its start.
    let (s, start) = match t.below(3) {
        0 => (tail, 0),
        1 => {
            let n = if t.chance(1, 6) { t.range(2, 60) } else { 1 };
            let before = t.pick(&["a", "\n", "é\n", "x\n\n", "ab", "\n\n"]).repeat(n);
            (format!("{before}{tail}"), before.len())
        }
        _ => {
            let at = at_boundary(t, &tail);
            (tail, at)
        }
    };
    case.key(&(&p, &s, start));
    case.show(|| format!("{}\nfrom byte {start}", describe(&p, &s)));
    const MAX: usize = 60;
    let Some(want) = model::matches(&p, &s, start, MAX, MODEL_FUEL) else {
        return Ok(Status::Discard);
    };
    let dp = build_user(&p);
    let fail = |what: String| {
        let list: Vec<String> = want
            .list
            .iter()
            .map(|(e, v)| format!("..{e} {}", v.show()))
            .collect();
        Err(format!(
            "{}\nfrom byte {start}: {what}\nmatches it should find, in order: {list:?}",
            describe(&p, &s)
        ))
    };
    // How often to ask for the same thing.
    let converts = t.below(3);
    let mut n = 0;
    let r: Result<Result<(), String>, String> = guard(|| {
        set_fuel(real_fuel(MODEL_FUEL));
        let mut cx = ParseContext::new(&s);
        let mut it = match dp.parse_iter(&mut cx, start) {
            Err(Reported) => {
                if !want.list.is_empty() {
                    return Err("finds no match".into());
                }
                let e = cx.into_reported_error();
                return same_problem(&want.problem, e, &s);
            }
            Ok(it) => it,
        };
        loop {
            let end = it.match_end();
            if end < start || end > s.len() || !s.is_char_boundary(end) {
                return Err(format!("match number {n} ends at byte {end}"));
            }
            let Some((e, v)) = want.list.get(n) else {
                return if want.complete {
                    Err(format!("finds match number {n}, ending at {end}"))
                } else {
                    Ok(())
                };
            };
            if end != *e {
                return Err(format!("match number {n} ends at byte {end}"));
            }
            for _ in 0..converts {
                let (got,) = it.convert();
                if got != *v {
                    return Err(format!("match number {n} has the value {}", got.show()));
                }
                if it.match_end() != end {
                    return Err(format!("match number {n} moved when converted"));
                }
            }
            n += 1;
            if n == MAX {
                return Ok(());
            }
            if let Err(Reported) = it.backtrack(&mut cx) {
                break;
            }
        }
        if n != want.list.len() {
            return Err(format!("stops after {n} matches"));
        }
        drop(it);
        match want.problem {
            // Nothing was ever reported: all of it matched, in every way.
            None => Ok(()),
            Some(_) => same_problem(&want.problem, cx.into_reported_error(), &s),
        }
    });
    match r {
        Err(m) => return fail(format!("panic: {m}")),
        Ok(Err(what)) => return fail(what),
        Ok(Ok(())) => {}
    }
    case.class_if(want.list.len() > 1, "several matches");
    case.class_if(want.list.is_empty(), "no match");
    case.class_if(start > 0, "not from the start");
    nontrivial(want.list.len() > 1 || (want.list.len() == 1 && want.list[0].0 > start))
}

fn same_problem(
    want: &Option<(usize, String)>,
    e: aoc_parse::ParseError,
    s: &str,
) -> Result<(), String> {
    let Some((at, reason)) = want else {
        return Err(format!("reports: {e}"));
    };
    let text = format!("{reason} {}", model::describe_location(s, *at));
    if e.location != *at || e.to_string() != text || e.source != s {
        return Err(format!(
            "reports at byte {}: {e}\nshould report at byte {at}: {text}",
            e.location
        ));
    }
    Ok(())
}

/// Several iterators alive at once, advanced in some interleaving.
fn interleaved(t: &mut Tape, case: &mut Case) -> Verdict {
    let n = t.range(2, 3);
    let mut g = Gen::any_theme(t, 6);
    let ps: Vec<Pat> = (0..n)
        .map(|_| {
            g.budget = 6;
            g.pattern(t)
        })
        .collect();
    let s = input_for(&ps[0], t);
    let starts: Vec<usize> = ps.iter().map(|_| at_boundary(t, &s)).collect();
    let steps: Vec<usize> = (0..24).map(|_| t.below(n)).collect();
    case.key(&(&ps, &s, &starts, &steps));
    let text = || {
        let list: Vec<String> = ps
            .iter()
            .zip(&starts)
            .map(|(p, at)| format!("{} from {at}", p.text()))
            .collect();
        format!("{} on {s:?}, in the order {steps:?}", list.join(" | "))
    };
    case.show(text);
    const MAX: usize = 30;
    let mut wants = vec![];
    for (p, at) in ps.iter().zip(&starts) {
        match model::matches(p, &s, *at, MAX, MODEL_FUEL) {
            Some(m) => wants.push(m),
            None => return Ok(Status::Discard),
        }
    }
    let dps: Vec<DynP> = ps.iter().map(build_user).collect();
    let mut switched = 0;
    let r: Result<Result<(), String>, String> = guard(|| {
        set_fuel(real_fuel(MODEL_FUEL));
        let mut cx = ParseContext::new(&s);
        let mut its: Vec<_> = dps
            .iter()
            .zip(&starts)
            .map(|(dp, at)| dp.parse_iter(&mut cx, *at).ok().map(|it| (it, 0)))
            .collect();
        let mut last = n;
        for &k in &steps {
            let want = &wants[k];
            let Some((it, i)) = &mut its[k] else { continue };
            if last != k {
                switched += 1;
                last = k;
            }
            match want.list.get(*i) {
                Some((e, v)) => {
                    let got = (it.match_end(), it.convert().0);
                    if got != (*e, v.clone()) {
                        return Err(format!(
                            "number {k}, match {i}: ..{} {} instead of ..{e} {}",
                            got.0,
                            got.1.show(),
                            v.show()
                        ));
                    }
                }
                None if want.complete => return Err(format!("number {k} has a match {i}")),
                None => continue,
            }
            *i += 1;
            if it.backtrack(&mut cx).is_err() {
                if want.list.len() > *i {
                    return Err(format!("number {k} stops after {i} matches"));
                }
                its[k] = None;
            }
        }
        Ok(())
    });
    match r {
        Err(m) => Err(format!("{}\npanic: {m}", text())),
        Ok(Err(m)) => Err(format!("{}\n{m}", text())),
        Ok(Ok(())) => nontrivial(switched > 3),
    }
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        rule: "a generated pattern is run through parse_iter from some offset and its matches, in order, with ends, values and final error, are compared with the reference model's list; non-trivial when there are several matches or one that is not empty ('interleaved': when several iterators really alternate)",
        assumptions: &["match lists longer than 60 are compared up to there"],
        subs: vec![
            Sub { name: "match_list", body: Body::Random(400_000, 8_000_000, 180, match_list) },
            Sub { name: "interleaved", body: Body::Random(200_000, 4_000_000, 220, interleaved) },
        ],
    }
}

// --- C17

/// A history of uses of a few parsers on a few inputs. Every use gives what
/// the first, fresh one did.
fn histories(t: &mut Tape, case: &mut Case) -> Verdict {
    let n = t.range(1, 3);
    let mut g = Gen::any_theme(t, 8);
    let ps: Vec<Pat> = (0..n)
        .map(|_| {
            g.budget = 8;
            g.pattern(t)
        })
        .collect();
    let inputs: Vec<Vec<String>> = ps
        .iter()
        .map(|p| (0..3).map(|_| input_for(p, t)).collect())
        .collect();
    let ops: Vec<(usize, usize, usize)> = (0..t.range(4, 20))
        .map(|_| (t.below(8), t.below(n), t.below(3)))
        .collect();
    case.key(&(&ps, &inputs, &ops));
    let text = || {
        let list: Vec<String> = ps
            .iter()
            .zip(&inputs)
            .map(|(p, i)| format!("{} with {i:?}", p.text()))
            .collect();
        format!("{}\nhistory: {ops:?}", list.join("\n"))
    };
    case.show(text);
    const FUEL: u64 = 200_000;
    // Fresh parsers, one for each input.
    let mut want = vec![];
    for (p, inputs) in ps.iter().zip(&inputs) {
        let mut row = vec![];
        for s in inputs {
            take_trace();
            let seen = run(&build_user(p), s, FUEL);
            if matches!(&seen, Seen::Panic(_)) {
                return Ok(Status::Discard);
            }
            let mut trace = take_trace();
            trace.sort();
            row.push((seen, trace));
        }
        want.push(row);
    }
    let mut live: Vec<DynP> = ps.iter().map(build_user).collect();
    for (step, &(op, k, i)) in ops.iter().enumerate() {
        let s = &inputs[k][i];
        take_trace();
        let got = match op {
            0 | 1 => Some(run(&live[k], s, FUEL)),
            2 => {
                // By reference, through two levels of it.
                let p = &live[k];
                let r = guard(|| {
                    set_fuel(FUEL);
                    (&p).parse(s)
                });
                Some(r.map_or_else(Seen::Panic, Seen::from_result))
            }
            3 => {
                let copy = live[k].clone();
                Some(run(&copy, s, FUEL))
            }
            4 => {
                // The parser moves.
                let p = live.swap_remove(k);
                let r = run(&p, s, FUEL);
                live.push(p);
                let last = live.len() - 1;
                live.swap(k, last);
                Some(r)
            }
            5 => {
                // Replaced by a new one for the same pattern.
                live[k] = build_user(&ps[k]);
                Some(run(&live[k], s, FUEL))
            }
            6 => {
                // A parse that is abandoned half way.
                let p = &live[k];
                let _ = guard(|| {
                    set_fuel(FUEL);
                    let mut cx = ParseContext::new(s);
                    if let Ok(mut it) = p.parse_iter(&mut cx, 0) {
                        let _ = it.backtrack(&mut cx);
                    }
                });
                None
            }
            _ => {
                // A parse that dies in a conversion, or by running out.
                let _ = run(&live[k], s, 3);
                let q = live[k].clone();
                let bomb = parser!(x:q => { let _: V = x; if true { panic!("bomb") } });
                let _ = guard(|| {
                    set_fuel(FUEL);
                    bomb.parse(s).is_ok()
                });
                None
            }
        };
        if let Some(got) = got {
            let mut trace = take_trace();
            trace.sort();
            let (seen, tr) = &want[k][i];
            if got != *seen || (trace != *tr && op != 7) {
                return Err(format!(
                    "{}\nstep {step}: {} on {s:?}\nfresh: {} with conversions {tr:?}\nnow:   {} with conversions {trace:?}",
                    text(),
                    ps[k].text(),
                    seen.text(),
                    got.text()
                ));
            }
        }
    }
    case.class_if(ops.iter().any(|o| o.0 == 7), "after a panic");
    case.class_if(ops.iter().any(|o| o.0 == 6), "after an abandoned parse");
    nontrivial(want.iter().flatten().any(|(s, _)| s.is_ok()))
}

/// Inputs that come one after the other in the same memory, mostly of the same
/// length: none is taken for another. The reference model has no memory.
fn same_buffer(t: &mut Tape, case: &mut Case) -> Verdict {
    let n = t.range(1, 2);
    let mut g = Gen::any_theme(t, 8);
    let ps: Vec<Pat> = (0..n)
        .map(|_| {
            g.budget = 8;
            g.pattern(t)
        })
        .collect();
    let mut text = input_for(&ps[0], t);
    let mut uses: Vec<(usize, String)> = vec![];
    for _ in 0..t.range(3, 8) {
        uses.push((t.below(n), text.clone()));
        text = match t.below(8) {
            0 => input_for(&ps[t.below(n)], t),
            1 => text[..at_boundary(t, &text)].to_string(),
            _ => same_length(t, &text),
        };
    }
    case.key(&(&ps, &uses));
    let show = || {
        let list: Vec<String> = ps.iter().map(Pat::text).collect();
        format!("patterns: {list:?}\ninputs, all in one buffer: {uses:?}")
    };
    case.show(show);
    let dps: Vec<DynP> = ps.iter().map(build_user).collect();
    let mut buffer = String::with_capacity(1 << 12);
    let mut oks = 0;
    let mut errs = 0;
    for (k, s) in &uses {
        let Some(m) = model::parse(&ps[*k], s, MODEL_FUEL) else {
            continue;
        };
        buffer.clear();
        buffer.push_str(s);
        let got = run(&dps[*k], &buffer, real_fuel(m.steps));
        let same = match (&m.expect, &got) {
            (model::Expect::Ok { value, .. }, Seen::Ok(v)) => value == v,
            (model::Expect::Err { location, message }, Seen::Err { location: l, message: e }) => {
                location == l && message == e
            }
            _ => false,
        };
        if !same {
            return Err(format!(
                "{}\n{}\nexpected: {}\ngot:      {}",
                show(),
                describe(&ps[*k], s),
                m.expect.text(),
                got.text()
            ));
        }
        oks += usize::from(got.is_ok());
        errs += usize::from(!got.is_ok());
    }
    case.class_if(oks > 1, "several accepted");
    nontrivial(oks > 1 || (oks > 0 && errs > 0))
}

/// A text with a few characters replaced by others of the same kind.
fn same_length(t: &mut Tape, s: &str) -> String {
    let mut bytes = s.as_bytes().to_vec();
    if bytes.is_empty() {
        return String::new();
    }
    for _ in 0..t.range(1, 3) {
        let i = t.below(bytes.len());
        let c = bytes[i];
        if c.is_ascii() {
            bytes[i] = *match c {
                b'0'..=b'9' => t.pick(b"0123456789"),
                b'a'..=b'f' => t.pick(b"abcdefxz"),
                b'g'..=b'z' => t.pick(b"abxyz"),
                b'\n' => t.pick(b"\n\n "),
                _ => t.pick(b"-+ ,.AB("),
            };
        }
    }
    String::from_utf8(bytes).unwrap()
}

/// Parsers written out with `parser!`, usable from several threads.
mod shared {
    use super::*;
    use std::collections::{BTreeMap, HashSet};

    fn show<T: std::fmt::Debug>(r: Result<T, aoc_parse::ParseError>) -> String {
        match r {
            Ok(v) => format!("{v:?}"),
            Err(e) => format!("{}: {e}", e.location),
        }
    }

    type Run = Box<dyn Fn(&str) -> String + Send + Sync>;

    pub fn rules(s: &str) -> String {
        let p = parser!(
            rule list: u64 = a:item b:(sep c:item => c)* => a + b.into_iter().sum::<u64>();
            rule item: u64 = { u32 => 1, "-" i:item => i + 1, "x" l:list "\n" => l };
            rule sep: usize = char_of(" ,\n");
            list
        );
        show(p.parse(s))
    }

    pub fn zoo() -> Vec<(&'static str, Run)> {
        macro_rules! zoo {
            ( $( { $( $p:tt )* } )* ) => {
                vec![ $( (stringify!($( $p )*), {
                    let p = parser!( $( $p )* );
                    Box::new(move |s: &str| show(p.parse(s))) as Run
                }) ),* ]
            };
        }
        let mut v: Vec<(&'static str, Run)> = zoo![
            { lines(u32) }
            { (alpha+ " ")* i64 }
            { sections(lines(char_of(".#")+)) }
            { repeat_sep({"a" => 1, "b" => 2, "ab" => 3}, ",") }
            { string(any_char+) "x" digit_hex? }
            { a:f64 "," b:bool => (b, a) }
            { lines(x:u8 "-" y:u8_hex => x as u32 + y as u32) }
            { {"if" => 0, "iff" => 1, string(lower+) " " => 2}* }
            { big_uint " " big_int_hex }
            { lines({"x" => 'x', alpha} (":" usize)?) }
            { lines(f32 " " {"yes" => true, bool}) }
            { section(line(string(alnum+))) lines(digit+) }
            { string((lower upper?)+) (digit digit_bin)* }
            { u8_hex "-" (a:i8 => -(a as i32))? }
        ];
        let set = parser!(hash_set(u8+));
        v.push(("hash_set(u8+)", Box::new(move |s| show(set.parse(s).map(|s: HashSet<u8>| {
            let mut v: Vec<_> = s.into_iter().collect();
            v.sort();
            v
        })))));
        let map = parser!(btree_map(lines(alpha "=" u16)));
        v.push(("btree_map(lines(alpha = u16))", Box::new(move |s| {
            show(map.parse(s).map(|m: BTreeMap<char, u16>| m))
        })));
        v
    }
}

fn zoo_input(t: &mut Tape) -> String {
    let n = t.below(9);
    (0..n)
        .map(|_| {
            *t.pick(&[
                "1", "255", "a", "ab", "if", "iff ", " ", "\n", "\n", "\n\n", "-", ",", ".", "#",
                "true", "x", "ff", "=", "4294967296", "b", "1\n2\n", "é",
            ])
        })
        .collect()
}

/// The same parser used by several threads at once.
fn threads(t: &mut Tape, case: &mut Case) -> Verdict {
    let zoo = shared::zoo();
    let work: Vec<(usize, String)> = (0..t.range(8, 40))
        .map(|_| (t.below(zoo.len()), zoo_input(t)))
        .collect();
    case.key(&work);
    case.show(|| format!("{work:?}"));
    let want: Vec<String> = work.iter().map(|(k, s)| (zoo[*k].1)(s)).collect();
    let other = shared::zoo();
    let rules: Vec<String> = work.iter().map(|(_, s)| shared::rules(s)).collect();
    let bad = std::thread::scope(|scope| {
        let hs: Vec<_> = (0..4)
            .map(|j| {
                let (work, want, other, rules) = (&work, &want, &other, &rules);
                scope.spawn(move || {
                    for r in 0..2 {
                        for i in 0..work.len() {
                            // Each thread has its own order.
                            let i = (i * (2 * j + 1) + r) % work.len();
                            let (k, s) = &work[i];
                            let got = (other[*k].1)(s);
                            if got != want[i] {
                                return Some(format!(
                                    "{} on {s:?}\nalone: {}\nwith other threads: {got}",
                                    other[*k].0, want[i]
                                ));
                            }
                            // Rule sets stay in their thread.
                            let got = shared::rules(s);
                            if got != rules[i] {
                                return Some(format!(
                                    "a rule set on {s:?}\nalone: {}\nwith other threads: {got}",
                                    rules[i]
                                ));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into())))
            .find_map(|x| x)
    });
    if let Some(m) = bad {
        return Err(m);
    }
    case.weight = work.len() as u64 * 8;
    case.nontrivial_weight = case.weight;
    nontrivial(true)
}

/// A conversion that itself parses, with the same parser or another.
fn nested(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 8);
    let mut g = Gen::any_theme(t, budget);
    let inner = g.pattern(t);
    let s = input_for(&inner, t);
    let s2 = input_for(&inner, t);
    case.key(&(&inner, &s, &s2));
    case.show(|| format!("{} on {s:?}, within a conversion also on {s2:?}", inner.text()));
    const FUEL: u64 = 200_000;
    let alone = run(&build_user(&inner), &s, FUEL);
    let alone2 = run(&build_user(&inner), &s2, FUEL);
    if matches!(alone, Seen::Panic(_)) || matches!(alone2, Seen::Panic(_)) {
        return Ok(Status::Discard);
    }
    let p = build_user(&inner);
    let q = p.clone();
    let saw: std::cell::RefCell<Option<Seen>> = Default::default();
    let outer = parser!(x:p => {
        push_trace(0);
        *saw.borrow_mut() = Some(Seen::from_result(q.parse(&s2)));
        x
    });
    let got = guard(|| {
        set_fuel(FUEL * 3);
        outer.parse(&s)
    })
    .map_or_else(Seen::Panic, Seen::from_result);
    if got != alone {
        return Err(format!(
            "{} on {s:?}\nalone: {}\nparsing {s2:?} in a conversion: {}",
            inner.text(),
            alone.text(),
            got.text()
        ));
    }
    let saw = saw.into_inner();
    if alone.is_ok() && saw.as_ref() != Some(&alone2) {
        return Err(format!(
            "{} on {s2:?}\nalone: {}\nin a conversion: {:?}",
            inner.text(),
            alone2.text(),
            saw
        ));
    }
    nontrivial(alone.is_ok())
}

/// One parser, used thousands of times on a few inputs.
fn many_uses(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(1, 5);
    let p = Gen::any_theme(t, budget).pattern(t);
    let inputs: Vec<String> = (0..t.range(1, 3)).map(|_| input_for(&p, t)).collect();
    let times = *t.pick(&[300usize, 1_100, 5_000, 70_000]);
    case.key(&(&p, &inputs, times));
    case.show(|| format!("{} on {inputs:?} in turn, {times} times", p.text()));
    const FUEL: u64 = 2_000;
    let mut want = vec![];
    for s in &inputs {
        let seen = run(&build_user(&p), s, FUEL);
        if matches!(seen, Seen::Panic(_)) || s.len() > 60 {
            return Ok(Status::Discard);
        }
        want.push(seen);
    }
    let live = build_user(&p);
    for n in 0..times {
        let k = n % inputs.len();
        let got = run(&live, &inputs[k], FUEL);
        if got != want[k] {
            return Err(format!(
                "{} on {:?}\nat first: {}\nuse {n} of the parser: {}",
                p.text(),
                inputs[k],
                want[k].text(),
                got.text()
            ));
        }
        if n % 1024 == 0 {
            take_trace();
        }
    }
    take_trace();
    case.class_if(times > 65_536, "more than 65536 uses");
    case.weight = times as u64;
    case.nontrivial_weight = times as u64;
    nontrivial(want.iter().any(Seen::is_ok))
}

/// Conversions that parse, with the same parser, with conversions that
/// parse, and so on; and many iterators that are alive at the same time.
fn deep(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(1, 6);
    let p = Gen::any_theme(t, budget).pattern(t);
    let s = input_for(&p, t);
    let depth = if t.chance(1, 6) { t.range(30, 150) } else { t.range(2, 20) };
    let together = t.below(2) == 1;
    case.key(&(&p, &s, depth, together));
    let text = || {
        let how = if together { "iterators at once" } else { "parses within each other" };
        format!("{} on {s:?}, {depth} {how}", p.text())
    };
    case.show(text);
    const FUEL: u64 = 100_000;
    let alone = run(&build_user(&p), &s, FUEL);
    if matches!(alone, Seen::Panic(_)) {
        return Ok(Status::Discard);
    }
    let q = build_user(&p);
    if together {
        // Some from the same context, some each from their own.
        const MAX: usize = 20;
        let Some(want) = model::matches(&p, &s, 0, MAX, MODEL_FUEL) else {
            return Ok(Status::Discard);
        };
        let r: Result<Result<(), String>, String> = guard(|| {
            set_fuel(real_fuel(MODEL_FUEL).saturating_mul(depth as u64));
            let mut cx = ParseContext::new(&s);
            let mut its = vec![];
            for i in 0..depth {
                match q.parse_iter(&mut cx, 0) {
                    Ok(it) => its.push((it, i % want.list.len().max(1))),
                    Err(Reported) if want.list.is_empty() => {}
                    Err(Reported) => return Err(format!("iterator {i} finds no match")),
                }
            }
            // Advance each to a match of its own, then look at all of them.
            for (it, k) in &mut its {
                for _ in 0..*k {
                    if it.backtrack(&mut cx).is_err() {
                        return Err(format!("less than {k} further matches"));
                    }
                }
            }
            for (i, (it, k)) in its.iter().enumerate() {
                let got = (it.match_end(), it.convert().0);
                let Some(want) = want.list.get(*k) else {
                    return Err("finds a match".into());
                };
                if got != *want {
                    return Err(format!(
                        "iterator {i}, match {k}: ..{} {} instead of ..{} {}",
                        got.0,
                        got.1.show(),
                        want.0,
                        want.1.show()
                    ));
                }
            }
            Ok(())
        });
        return match r {
            Err(m) => Err(format!("{}\npanic: {m}", text())),
            Ok(Err(m)) => Err(format!("{}\n{m}", text())),
            Ok(Ok(())) => nontrivial(!want.list.is_empty()),
        };
    }
    let levels: std::cell::RefCell<Vec<Seen>> = Default::default();
    let left = std::cell::Cell::new(depth);
    struct Env<'a> {
        q: &'a DynP,
        s: &'a str,
        left: &'a std::cell::Cell<usize>,
        levels: &'a std::cell::RefCell<Vec<Seen>>,
    }
    fn go(env: &Env) -> Seen {
        let p = env.q.clone();
        let outer = parser!(x:p => {
            if env.left.get() > 0 {
                env.left.set(env.left.get() - 1);
                let seen = go(env);
                env.levels.borrow_mut().push(seen);
            }
            x
        });
        Seen::from_result(outer.parse(env.s))
    }
    let env = Env { q: &q, s: &s, left: &left, levels: &levels };
    let got = guard(|| {
        set_fuel(FUEL * (depth as u64 + 2));
        go(&env)
    })
    .unwrap_or_else(Seen::Panic);
    let mut seen = levels.into_inner();
    seen.push(got);
    for (i, got) in seen.iter().enumerate() {
        if *got != alone {
            return Err(format!(
                "{}\nalone: {}\nwith {} parses around it: {}",
                text(),
                alone.text(),
                seen.len() - 1 - i,
                got.text()
            ));
        }
    }
    case.class_if(seen.len() > 20, "more than twenty parses within each other");
    nontrivial(alone.is_ok())
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        rule: "a generated history of uses of the same parsers (by value, by reference, cloned, moved, rebuilt, after abandoned and panicking parses, thousands of times, from several threads, from within conversions of each other, many iterators at once) against fresh parsers, and inputs one after the other in the same memory against the reference model; non-trivial when some parse in it succeeds ('same_buffer': when two do, or one does and one does not)",
        assumptions: &["thread schedules are whatever the machine does; only results are compared"],
        subs: vec![
            Sub { name: "histories", body: Body::Random(100_000, 2_000_000, 260, histories) },
            Sub { name: "same_buffer", body: Body::Random(100_000, 2_000_000, 260, same_buffer) },
            Sub { name: "nested", body: Body::Random(100_000, 2_000_000, 140, nested) },
            Sub { name: "deep", body: Body::Random(30_000, 600_000, 140, deep) },
            Sub { name: "many_uses", body: Body::Random(150, 3_000, 140, many_uses) },
            Sub { name: "threads", body: Body::Random(2_000, 40_000, 420, threads) },
        ],
    }
}

//! C24: nothing stays allocated. The allocator of the harness counts the bytes
//! each thread allocates and frees.

use crate::erase::{build_user, guard, set_fuel, take_trace, DynP};
use crate::model;
use crate::pat::*;
use crate::props::core::{describe, pattern_and_inputs, real_fuel, stretched_and_inputs, MODEL_FUEL};
use crate::props::large;
use crate::runner::*;
use crate::tape::Tape;
use aoc_parse::{ParseContext, ParseIter, Parser};

/// Rounds after which memory that grew in each of them is taken to grow for
/// ever. Some growth is fine (lazily built tables, caches of the regex crate,
/// which threads may even hand to each other), but it comes to an end.
const ROUNDS: usize = 200;
const WARM_UP: usize = 2;

/// How many bytes more are in use after each of many rounds of `f`, if any.
fn grows(mut f: impl FnMut()) -> Option<isize> {
    for _ in 0..WARM_UP {
        f();
    }
    let mut least = isize::MAX;
    for _ in 0..ROUNDS {
        let before = memory_in_use();
        f();
        let grown = memory_in_use() - before;
        if grown <= 0 {
            return None;
        }
        least = least.min(grown);
    }
    Some(least)
}

/// What somebody may do with a parser and a text.
fn use_it(dp: &DynP, s: &str, how: usize) {
    let _ = guard(|| {
        set_fuel(real_fuel(MODEL_FUEL));
        match how {
            // Parse, and look at the outcome.
            0 => match dp.parse(s) {
                Ok(v) => drop(v.show()),
                Err(e) => drop((e.to_string(), e.clone())),
            },
            // Begin, and give up half way.
            1 => {
                let mut cx = ParseContext::new(s);
                if let Ok(mut it) = dp.parse_iter(&mut cx, 0) {
                    let _ = it.backtrack(&mut cx);
                }
            }
            // Take a few matches.
            _ => {
                let mut cx = ParseContext::new(s);
                if let Ok(mut it) = dp.parse_iter(&mut cx, 0) {
                    for _ in 0..3 {
                        drop(it.convert());
                        if it.backtrack(&mut cx).is_err() {
                            break;
                        }
                    }
                }
            }
        }
    });
    drop(take_trace());
}

fn judge(p: Pat, inputs: Vec<String>, how: usize, case: &mut Case) -> Verdict {
    case.key(&(&p, &inputs, how));
    case.show(|| format!("pattern: {}\ninputs: {inputs:?}", p.text()));
    let inputs: Vec<(String, model::Run)> =
        inputs.into_iter().filter_map(|s| model::parse(&p, &s, MODEL_FUEL).map(|run| (s, run))).collect();
    if inputs.is_empty() {
        return Ok(Status::Discard);
    }
    let mut status = Status::Trivial;
    let doing = ["parsing", "abandoning a parse", "taking some matches"][how];
    for (s, run) in &inputs {
        if let Some(n) = grows(|| use_it(&build_user(&p), s, how)) {
            return Err(format!(
                "{}\nmaking the parser, {doing} and dropping everything leaves {n} bytes allocated, each time",
                describe(&p, s)
            ));
        }
        case.class_if(run.expect.is_ok(), "accepted");
        case.class_if(!run.expect.is_ok(), "rejected");
        case.class_if(run.backtracks > 0, "backtracks");
        if run.backtracks > 0 || run.partial > 0 || run.expect.is_ok() {
            status = Status::NonTrivial;
        }
    }
    let dp = build_user(&p);
    let all = || inputs.iter().for_each(|(s, _)| use_it(&dp, s, how));
    if let Some(n) = grows(all) {
        return Err(format!(
            "{}\n{doing} with the same parser again leaves {n} more bytes allocated, each time",
            describe(&p, &inputs[0].0)
        ));
    }
    case.class(doing);
    Ok(status)
}

fn random(t: &mut Tape, case: &mut Case) -> Verdict {
    let how = t.weighted(&[4, 1, 1]);
    let (p, inputs) = pattern_and_inputs(t, |_| ());
    judge(p, inputs, how, case)
}

fn stretched(t: &mut Tape, case: &mut Case) -> Verdict {
    let how = t.weighted(&[4, 1, 1]);
    let (p, inputs) = stretched_and_inputs(t);
    judge(p, inputs, how, case)
}

/// All kinds of large input. Only the memory counts.
fn large(i: usize, case: &mut Case) -> Verdict {
    let (name, n, f) = large::kind(i);
    case.show(|| format!("{name}, size {n}"));
    match grows(|| drop(f(n))) {
        Some(b) => Err(format!("{name}, size {n}: leaves {b} bytes allocated, each time")),
        None => nontrivial(n > 0),
    }
}

fn large_count(tier: Tier) -> usize {
    large::kinds_up_to(if tier == Tier::Quick { 1025 } else { 10001 })
}

/// Histories: many parses by the same parsers and by new ones, of texts that all
/// differ, in a process of its own, so that what is kept for ever (also by all
/// parsers together, also in a table that only now and then grows) shows.
const WINDOWS: u32 = 6;

fn history_count(tier: Tier) -> usize {
    if tier == Tier::Quick {
        100
    } else {
        1500
    }
}

fn history(i: usize, case: &mut Case) -> Verdict {
    case.key(&i);
    case.show(|| format!("history {i}"));
    let out = runner_output(&["history", &i.to_string()], std::time::Duration::from_secs(300));
    match out {
        Some((0, _)) => nontrivial(true),
        Some((_, text)) if text.contains("allocated") => Err(format!("history {i}: {text}")),
        Some((code, text)) => Err(format!("history {i}: ends with {code}: {text}")),
        None => Err(format!("history {i}: does not end within 300 s")),
    }
}

fn variants(s: &str, round: usize) -> [String; 3] {
    let at = round % (s.len() + 1);
    let (a, b) = s.split_at((0..=at).rev().find(|i| s.is_char_boundary(*i)).unwrap());
    [s.to_string(), format!("{s}{round}"), format!("{a}{round}{b}")]
}

/// What the process of its own does.
pub fn history_main(i: usize) -> i32 {
    let mut x = 0x9e3779b97f4a7c15u64.wrapping_mul(i as u64 + 1);
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 24) as u32
    };
    let mut cases = vec![];
    while cases.len() < 12 {
        let tape: Vec<u32> = (0..200).map(|_| next()).collect();
        let mut t = Tape::new(&tape);
        let (p, inputs) = if cases.len() % 4 == 3 {
            stretched_and_inputs(&mut t)
        } else {
            pattern_and_inputs(&mut t, |_| ())
        };
        let s = inputs[0].clone();
        // Nothing that takes long.
        let quick = |s: &String| model::parse(&p, s, 2_000).is_some();
        if p.size() > 2 && (0..s.len() + 8).all(|round| variants(&s, 100 + round).iter().all(quick)) {
            let dp = build_user(&p);
            cases.push((p, dp, s));
        }
    }
    let mut grown = vec![];
    let mut before = 0;
    for round in 0..(8usize << WINDOWS) {
        if round >= 8 && round.is_power_of_two() || round == 0 {
            let now = memory_in_use();
            if round > 8 {
                grown.push(now - before);
            }
            before = now;
        }
        for (p, dp, s) in &cases {
            for (how, s) in variants(s, round).iter().enumerate() {
                let how = if round % 7 == 3 { how } else { 0 };
                use_it(dp, s, how);
                use_it(&build_user(p), s, how);
            }
        }
    }
    grown.push(memory_in_use() - before);
    if grown[1..].iter().all(|n| *n > 0) {
        let texts: Vec<String> = cases.iter().map(|(p, _, s)| format!("{}  on  {s:?}", p.text())).collect();
        println!(
            "memory grows for ever: bytes allocated and not released between rounds 8, 16, 32, ... of parsing: {grown:?}\n{}",
            texts.join("\n")
        );
        return 1;
    }
    0
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        rule: "an input is accepted, or the search has to back up or finds matches of only a part",
        assumptions: &[
            "allocations are those through the global allocator; growth that comes to an end within 200 repetitions (lazily built tables, caches of the regex crate) is no leak",
        ],
        subs: vec![
            Sub { name: "random", body: Body::Random(60_000, 3_000_000, 160, random) },
            Sub { name: "stretched", body: Body::Random(15_000, 800_000, 200, stretched) },
            Sub { name: "large", body: Body::Each(large_count, large) },
            Sub { name: "histories", body: Body::Each(history_count, history) },
        ],
    }
}

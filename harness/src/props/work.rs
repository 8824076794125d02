//! C22: how much work a parse does, counted in attempts. C23: how the combinators
//! treat the parsers in them. Every part of the pattern is wrapped in a
//! user-defined parser that counts how often it is tried and looks at how it is used.

use crate::erase::{self, build_counted, run, settled, take_attempts, take_broken};
use crate::model::Attempts as Counts;
use crate::model;
use crate::pat::*;
use crate::props::core::{describe, pattern_and_inputs, real_fuel, small, stretched_and_inputs, MODEL_FUEL};
use crate::props::large;
use crate::runner::*;
use crate::tape::Tape;

/// No part may be tried anywhere more often than by the model, which is to say
/// by trying things in order of preference until one fits.
fn judge(p: &Pat, s: &str, want: &Counts, got: &Counts) -> Result<(), String> {
    let mut worse: Vec<_> = got
        .iter()
        .map(|(place, n)| (place, *n, want.get(place).copied().unwrap_or(0)))
        .filter(|(_, n, m)| n > m)
        .map(|((part, len, start), n, m)| {
            let mut text = String::new();
            p.any(&mut |q| {
                if q as *const Pat as usize == *part {
                    text = q.text();
                }
                false
            });
            (*start, *len, text, n, m)
        })
        .collect();
    if worse.is_empty() {
        return Ok(());
    }
    worse.sort();
    let (start, len, text, n, m) = &worse[0];
    Err(format!(
        "{}\nthe part {text} is tried {n} times at byte {start} of {} bytes, backtracking needs {m}\n{} attempts in all, backtracking needs {}",
        describe(p, s),
        len,
        got.values().map(|n| *n as u64).sum::<u64>(),
        want.values().map(|n| *n as u64).sum::<u64>(),
    ))
}

#[derive(Clone, Copy, PartialEq)]
enum Aspect {
    Attempts,
    Protocol,
}
use Aspect::*;

fn inputs_counted(p: &Pat, inputs: &[String], aspect: Aspect, case: &mut Case) -> Verdict {
    case.key(&(p, inputs));
    case.show(|| format!("pattern: {}\ninputs: {inputs:?}", p.text()));
    Ok(match counted(p, inputs, aspect, case)? {
        (0, _) => Status::Discard,
        (_, 0) => Status::Trivial,
        _ => Status::NonTrivial,
    })
}

/// How many inputs could be judged, and how many of them were non-trivial.
fn counted(p: &Pat, inputs: &[String], aspect: Aspect, case: &mut Case) -> Result<(u64, u64), String> {
    let dp = build_counted(p);
    let (mut n, mut nt) = (0, 0);
    for s in inputs {
        let Some((model, want)) = model::parse_counting(p, s, MODEL_FUEL) else {
            case.class("too big");
            continue;
        };
        n += 1;
        take_attempts();
        take_broken();
        let seen = run(&dp, s, real_fuel(model.steps));
        let got = take_attempts();
        if let erase::Seen::Panic(m) = &seen {
            if m.contains(erase::OUT_OF_FUEL) {
                return Err(format!("{}\n{m}", describe(p, s)));
            }
            // Some other property's business.
            continue;
        }
        let converted = settled();
        let broken = take_broken();
        if aspect == Protocol {
            if let Some(how) = broken {
                return Err(format!("{}\n{how}", describe(p, s)));
            }
            if converted && !seen.is_ok() {
                return Err(format!("{}\nconvert is called, but the parse fails", describe(p, s)));
            }
        } else {
            if seen.is_ok() != model.expect.is_ok() {
                // Some other property's business.
                continue;
            }
            judge(p, s, &want, &got)?;
            case.class_if(want != got, "fewer attempts than the model");
        }
        case.class_if(want.values().any(|n| *n > 1), "a part tried again in one place");
        case.class_if(model.expect.is_ok(), "accepted");
        case.class_if(model.backtracks > 0, "backtracks");
        if model.backtracks > 0 || model.partial > 0 {
            nt += 1;
        }
    }
    Ok((n, nt))
}

fn random(t: &mut Tape, case: &mut Case) -> Verdict {
    let (p, inputs) = pattern_and_inputs(t, |_| ());
    inputs_counted(&p, &inputs, Attempts, case)
}

fn stretched(t: &mut Tape, case: &mut Case) -> Verdict {
    let (p, inputs) = stretched_and_inputs(t);
    inputs_counted(&p, &inputs, Attempts, case)
}

fn random_protocol(t: &mut Tape, case: &mut Case) -> Verdict {
    let (p, inputs) = pattern_and_inputs(t, |_| ());
    inputs_counted(&p, &inputs, Protocol, case)
}

fn stretched_protocol(t: &mut Tape, case: &mut Case) -> Verdict {
    let (p, inputs) = stretched_and_inputs(t);
    inputs_counted(&p, &inputs, Protocol, case)
}

const CHUNK: usize = 16;

fn pairs_count(tier: Tier) -> usize {
    let all = small::LEVEL2.div_ceil(CHUNK);
    if tier == Tier::Quick {
        all / 2
    } else {
        all
    }
}

/// Small patterns with every short input.
fn pairs(i: usize, case: &mut Case) -> Verdict {
    each_pair(i, Attempts, case)
}

fn pairs_protocol(i: usize, case: &mut Case) -> Verdict {
    each_pair(i, Protocol, case)
}

fn each_pair(i: usize, aspect: Aspect, case: &mut Case) -> Verdict {
    let inputs = small::strings(4);
    let (mut n, mut nt) = (0, 0);
    for j in 0..CHUNK {
        // Spread what the quick tier looks at over all of them.
        let p = small::pattern(2, (i * CHUNK + j) * 7919 % small::LEVEL2);
        let (a, b) = counted(&p, &inputs, aspect, case)?;
        (n, nt) = (n + a, nt + b);
        if j == 0 {
            case.show(|| format!("pattern {} and {} others, with every input over {{a, b}} up to length 4", p.text(), CHUNK - 1));
        }
    }
    case.weight = n;
    case.nontrivial_weight = nt;
    nontrivial(nt > 0)
}

fn large_attempts(i: usize, case: &mut Case) -> Verdict {
    match large::c22(i, case) {
        Err(m) if !m.contains(large::TOO_MANY) => Ok(Status::Trivial),
        r => r,
    }
}

fn large_protocol(i: usize, case: &mut Case) -> Verdict {
    match large::c22(i, case) {
        Err(m) if !m.contains(" is called ") => Ok(Status::Trivial),
        r => r,
    }
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        rule: "the search for a match has to back up, or finds matches of only a part of the input",
        assumptions: &[
            "the number of attempts a backtracking search makes is that of the reference model, which tries parts in order of preference, goes on with what follows, and comes back only when that fails",
        ],
        subs: vec![
            Sub { name: "random", body: Body::Random(120_000, 5_000_000, 160, random) },
            Sub { name: "stretched", body: Body::Random(30_000, 1_500_000, 200, stretched) },
            Sub { name: "pairs", body: Body::Each(pairs_count, pairs) },
            Sub { name: "large", body: Body::Each(large::c22_count, large_attempts) },
        ],
    }
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        rule: "as C22",
        assumptions: &[],
        subs: vec![
            Sub { name: "random", body: Body::Random(120_000, 5_000_000, 160, random_protocol) },
            Sub { name: "stretched", body: Body::Random(30_000, 1_500_000, 200, stretched_protocol) },
            Sub { name: "pairs", body: Body::Each(pairs_count, pairs_protocol) },
            Sub { name: "large", body: Body::Each(large::c22_count, large_protocol) },
        ],
    }
}

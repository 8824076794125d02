//! Checks of the matching engine as a whole against the reference model.

use crate::erase::{self, build_user, run, take_trace, Seen};
use crate::model::{self, Expect};
pub use crate::model::MODEL_FUEL;
use crate::pat::*;
use crate::runner::*;
use crate::tape::Tape;

pub struct Both {
    pub model: model::Run,
    pub seen: Seen,
    pub trace: Vec<u32>,
}

pub const fn real_fuel(steps: u64) -> u64 {
    steps * 300 + 30_000
}

/// Parse `s` with the real thing and with the model.
pub fn both(p: &Pat, dp: &erase::DynP, s: &str) -> Option<Both> {
    let model = model::parse(p, s, MODEL_FUEL)?;
    take_trace();
    let seen = run(dp, s, real_fuel(model.steps));
    Some(Both {
        model,
        seen,
        trace: take_trace(),
    })
}

pub fn describe(p: &Pat, s: &str) -> String {
    format!("pattern: {}\ninput: {s:?}", p.text())
}

pub fn mismatch(p: &Pat, s: &str, want: &str, got: &str) -> String {
    format!("{}\nexpected: {want}\ngot:      {got}", describe(p, s))
}

/// A pattern and a few inputs for it.
pub fn pattern_and_inputs(t: &mut Tape, tweak: fn(&mut Gen)) -> (Pat, Vec<String>) {
    let budget = t.range(2, 14);
    let mut g = Gen::any_theme(t, budget);
    tweak(&mut g);
    let p = g.pattern(t);
    let n = t.range(1, 4);
    let inputs = (0..n).map(|_| input_for(&p, t)).collect();
    (p, inputs)
}

/// The same with longer exact text, and further into the input.
pub fn stretched_and_inputs(t: &mut Tape) -> (Pat, Vec<String>) {
    let budget = t.range(2, 10);
    let q = Gen::any_theme(t, budget).pattern(t);
    let p = stretched(&q, t);
    let n = t.range(1, 4);
    let inputs = (0..n).map(|_| input_for(&p, t)).collect();
    (p, inputs)
}

#[derive(Clone, Copy, PartialEq)]
enum Aspect {
    Value,
    Trace,
    Error,
    Total,
}

fn against_model(t: &mut Tape, case: &mut Case, aspect: Aspect, tweak: fn(&mut Gen)) -> Verdict {
    let (p, inputs) = pattern_and_inputs(t, tweak);
    inputs_against_model(p, inputs, case, aspect)
}

fn stretched_against_model(t: &mut Tape, case: &mut Case, aspect: Aspect) -> Verdict {
    let (p, inputs) = stretched_and_inputs(t);
    case.class_if(inputs.iter().any(|s| s.len() > 100), "over 100 bytes");
    inputs_against_model(p, inputs, case, aspect)
}

fn inputs_against_model(p: Pat, inputs: Vec<String>, case: &mut Case, aspect: Aspect) -> Verdict {
    let dp = build_user(&p);
    let mut status = Status::Discard;
    case.key(&(&p, &inputs));
    case.show(|| format!("pattern: {}\ninputs: {inputs:?}", p.text()));
    for s in &inputs {
        let Some(b) = both(&p, &dp, s) else {
            case.class("too big");
            continue;
        };
        if status == Status::Discard {
            status = Status::Trivial;
        }
        let interesting = judge(&p, s, &b, aspect, case)?;
        if interesting {
            status = Status::NonTrivial;
        }
    }
    Ok(status)
}

/// Random patterns from the given generator, value and acceptance.
pub fn pattern_vs_model(t: &mut Tape, case: &mut Case, mut g: Gen) -> Verdict {
    let p = g.pattern(t);
    let n = t.range(1, 4);
    let inputs: Vec<String> = (0..n).map(|_| input_for(&p, t)).collect();
    pattern_inputs_vs_model(&p, &inputs, case)
}

pub fn pattern_inputs_vs_model(p: &Pat, inputs: &[String], case: &mut Case) -> Verdict {
    let dp = build_user(p);
    let mut status = Status::Discard;
    case.key(&(p, inputs));
    case.show(|| format!("pattern: {}\ninputs: {inputs:?}", p.text()));
    for s in inputs {
        let Some(b) = both(p, &dp, s) else {
            case.class("too big");
            continue;
        };
        if status == Status::Discard {
            status = Status::Trivial;
        }
        if judge(p, s, &b, Aspect::Value, case)? || b.seen.is_ok() {
            status = Status::NonTrivial;
        }
    }
    Ok(status)
}

pub fn judge_value(p: &Pat, s: &str, b: &Both, case: &mut Case) -> Result<bool, String> {
    judge(p, s, b, Aspect::Value, case)
}

fn judge(p: &Pat, s: &str, b: &Both, aspect: Aspect, case: &mut Case) -> Result<bool, String> {
    let fail = || Err(mismatch(p, s, &b.model.expect.text(), &b.seen.text()));
    if let Seen::Panic(_) = b.seen {
        return fail();
    }
    let m = &b.model;
    case.class_if(m.expect.is_ok(), "accepted");
    case.class_if(!m.expect.is_ok(), "rejected");
    case.class_if(m.backtracks > 0, "backtracks");
    case.class_if(m.partial > 0, "partial matches first");
    case.class_if(m.regions_failed > 0, "failing region");
    match aspect {
        Aspect::Total => Ok(true),
        Aspect::Value => match (&m.expect, &b.seen) {
            (Expect::Ok { value, .. }, Seen::Ok(v)) if value == v => {
                Ok(m.backtracks > 0 || m.partial > 0)
            }
            (Expect::Err { .. }, Seen::Err { .. }) => Ok(m.backtracks > 0 || m.partial > 0),
            _ => fail(),
        },
        Aspect::Trace => {
            let mut want = match &m.expect {
                Expect::Ok { trace, .. } => trace.clone(),
                Expect::Err { .. } => vec![],
            };
            let mut got = b.trace.clone();
            if m.expect.is_ok() != b.seen.is_ok() {
                // Some other property's business.
                return Ok(false);
            }
            want.sort();
            got.sort();
            if want != got {
                return Err(format!(
                    "{}\noutcome: {}\nconversions that should run: {want:?}\nconversions that ran: {got:?}",
                    describe(p, s),
                    b.seen.text()
                ));
            }
            case.class_if(!want.is_empty(), "conversions run");
            // A conversion is in a part of the pattern that was tried.
            Ok(p.any(&mut |p| matches!(p, Pat::Map(..))) && (m.backtracks > 0 || !want.is_empty()))
        }
        Aspect::Error => match (&m.expect, &b.seen) {
            (
                Expect::Err { location, message },
                Seen::Err {
                    location: l2,
                    message: m2,
                },
            ) => {
                if location != l2 || message != m2 {
                    return fail();
                }
                case.class_if(*location == s.len(), "error at end of input");
                case.class_if(*location == 0, "error at start");
                Ok(m.partial > 0 || m.backtracks > 0 || *location > 0)
            }
            _ => Ok(false),
        },
    }
}

fn random_value(t: &mut Tape, case: &mut Case) -> Verdict {
    against_model(t, case, Aspect::Value, |_| ())
}

fn stretched_value(t: &mut Tape, case: &mut Case) -> Verdict {
    stretched_against_model(t, case, Aspect::Value)
}

fn random_trace(t: &mut Tape, case: &mut Case) -> Verdict {
    against_model(t, case, Aspect::Trace, |_| ())
}

fn stretched_trace(t: &mut Tape, case: &mut Case) -> Verdict {
    stretched_against_model(t, case, Aspect::Trace)
}

fn random_error(t: &mut Tape, case: &mut Case) -> Verdict {
    against_model(t, case, Aspect::Error, |_| ())
}

fn stretched_error(t: &mut Tape, case: &mut Case) -> Verdict {
    stretched_against_model(t, case, Aspect::Error)
}

/// Every small pattern over {a, b} with every short input.
pub mod small {
    use super::*;

    const ATOMS: usize = 6;

    fn atom(i: usize) -> Pat {
        match i {
            0 => Pat::lit("a"),
            1 => Pat::lit("b"),
            2 => Pat::class("any_char"),
            3 => Pat::lit("ab"),
            4 => Pat::lit(""),
            _ => Pat::class("alpha"),
        }
    }

    /// Unary forms.
    const UNARY: usize = 7;
    fn unary(k: usize, p: Pat) -> Pat {
        match k {
            0 => p,
            1 => Pat::Opt(b(p)),
            2 => Pat::Star(b(p)),
            3 => Pat::Plus(b(p)),
            4 => Pat::Str(b(p)),
            5 => Pat::Paren(b(p)),
            _ => Pat::Map(0, vec![(true, p)]),
        }
    }

    fn group(p: Pat) -> Pat {
        match p {
            Pat::Seq(_) | Pat::Map(..) => Pat::Paren(b(p)),
            p => p,
        }
    }

    const LEVEL1: usize = ATOMS * UNARY;
    fn level1(i: usize) -> Pat {
        unary(i / ATOMS, atom(i % ATOMS))
    }

    /// Two level-1 patterns combined, with another unary on top.
    pub const LEVEL2: usize = LEVEL1 * LEVEL1 * 3 * UNARY;
    fn level2(mut i: usize) -> Pat {
        let u = i % UNARY;
        i /= UNARY;
        let how = i % 3;
        i /= 3;
        let (x, y) = (group(level1(i % LEVEL1)), group(level1(i / LEVEL1)));
        let p = match how {
            0 => Pat::Seq(vec![x, y]),
            1 => Pat::Alt(vec![x, y]),
            _ => Pat::RepSep(b(x), b(y)),
        };
        if u == 0 {
            p
        } else {
            unary(u, group(p))
        }
    }

    /// Three level-1 patterns, combined in two ways.
    pub const LEVEL3: usize = LEVEL1 * LEVEL1 * LEVEL1 * 6;
    fn level3(mut i: usize) -> Pat {
        let how = i % 6;
        i /= 6;
        let x = group(level1(i % LEVEL1));
        i /= LEVEL1;
        let y = group(level1(i % LEVEL1));
        i /= LEVEL1;
        let z = group(level1(i));
        match how {
            0 => Pat::Seq(vec![x, y, z]),
            1 => Pat::Seq(vec![Pat::Alt(vec![x, y]), z]),
            2 => Pat::Star(b(Pat::Paren(b(Pat::Seq(vec![x, Pat::Opt(b(y)), z]))))),
            3 => Pat::Seq(vec![Pat::Star(b(Pat::Alt(vec![x, y]))), z]),
            4 => Pat::Alt(vec![x, y, z]),
            _ => Pat::Seq(vec![x, Pat::RepSep(b(y), b(z))]),
        }
    }

    pub fn pattern(level: usize, i: usize) -> Pat {
        match level {
            2 => level2(i),
            _ => level3(i),
        }
    }

    pub fn strings(max: usize) -> Vec<String> {
        let mut out = vec![String::new()];
        let mut from = 0;
        for _ in 0..max {
            let to = out.len();
            for i in from..to {
                for c in ['a', 'b'] {
                    out.push(format!("{}{c}", out[i]));
                }
            }
            from = to;
        }
        out
    }
}

/// Patterns number `i * CHUNK ..` of a level, all inputs up to a length.
fn small_chunk(
    level: usize,
    i: usize,
    total: usize,
    stride: usize,
    maxlen: usize,
    aspect: Aspect,
    case: &mut Case,
) -> Verdict {
    const CHUNK: usize = 16;
    let inputs = small::strings(maxlen);
    let mut n = 0;
    let mut nt = 0;
    for j in 0..CHUNK {
        let index = (i * CHUNK + j) * stride;
        if index >= total {
            break;
        }
        let p = small::pattern(level, index);
        let dp = build_user(&p);
        for s in &inputs {
            if let Some(b) = both(&p, &dp, s) {
                n += 1;
                if judge(&p, s, &b, aspect, case)? {
                    nt += 1;
                }
            }
        }
        if j == 0 {
            case.show(|| format!("pattern {index} of level {level}: {}\nwith every input over {{a, b}} up to length {maxlen}", p.text()));
        }
    }
    case.weight = n;
    case.nontrivial_weight = nt;
    nontrivial(nt > 0)
}

fn chunks(total: usize, stride: usize) -> usize {
    total.div_ceil(stride).div_ceil(16)
}

// Strides are coprime to the sizes of the levels, so that sampled runs see all
// shapes.
fn level2_count(_: Tier) -> usize {
    chunks(small::LEVEL2, 1)
}
fn level2_value(i: usize, case: &mut Case) -> Verdict {
    let len = if case.tier == Tier::Quick { 4 } else { 6 };
    small_chunk(2, i, small::LEVEL2, 1, len, Aspect::Value, case)
}
fn level3_stride(tier: Tier) -> usize {
    if tier == Tier::Quick {
        23
    } else {
        1
    }
}
fn level3_count(tier: Tier) -> usize {
    chunks(small::LEVEL3, level3_stride(tier))
}
fn level3_value(i: usize, case: &mut Case) -> Verdict {
    let stride = level3_stride(case.tier);
    small_chunk(3, i, small::LEVEL3, stride, 5, Aspect::Value, case)
}
fn level3_error(i: usize, case: &mut Case) -> Verdict {
    let stride = level3_stride(case.tier);
    small_chunk(3, i, small::LEVEL3, stride, 4, Aspect::Error, case)
}
fn level2_error(i: usize, case: &mut Case) -> Verdict {
    small_chunk(2, i, small::LEVEL2, 1, 4, Aspect::Error, case)
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "a generated pattern and input parsed with the real engine and with the reference model (continuation passing, ordered choice); non-trivial when the model had to give up at least one alternative or partial match",
        assumptions: &["the reference model in model.rs says what the documentation means"],
        subs: vec![
            Sub { name: "random", body: Body::Random(160_000, 6_000_000, 160, random_value) },
            Sub { name: "stretched", body: Body::Random(40_000, 2_000_000, 200, stretched_value) },
            Sub { name: "pairs", body: Body::Each(level2_count, level2_value) },
            Sub { name: "triples", body: Body::Each(level3_count, level3_value) },
            Sub { name: "large", body: Body::Each(crate::props::large::c01_count, crate::props::large::c01) },
        ],
    }
}

pub fn c08() -> Check {
    Check {
        id: "C08",
        rule: "as C01, but the conversions that run are compared with those of the model; non-trivial when the pattern has a conversion and either it runs or alternatives were given up",
        assumptions: &[],
        subs: vec![
            Sub { name: "random", body: Body::Random(160_000, 6_000_000, 160, random_trace) },
            Sub { name: "stretched", body: Body::Random(40_000, 2_000_000, 200, stretched_trace) },
            Sub { name: "large", body: Body::Each(crate::props::large::c08_count, crate::props::large::c08) },
        ],
    }
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "as C01, but the location and text of errors are compared; non-trivial when the error is not simply the first thing tried",
        assumptions: &[],
        subs: vec![
            Sub { name: "random", body: Body::Random(160_000, 6_000_000, 160, random_error) },
            Sub { name: "stretched", body: Body::Random(40_000, 2_000_000, 200, stretched_error) },
            Sub { name: "pairs", body: Body::Each(level2_count, level2_error) },
            Sub { name: "triples", body: Body::Each(level3_count, level3_error) },
            Sub { name: "large", body: Body::Each(crate::props::large::c09_count, crate::props::large::c09) },
        ],
    }
}

fn random_total(t: &mut Tape, case: &mut Case) -> Verdict {
    against_model(t, case, Aspect::Total, |_| ())
}

fn stretched_total(t: &mut Tape, case: &mut Case) -> Verdict {
    stretched_against_model(t, case, Aspect::Total)
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "as C01, but only termination without a panic is asked for",
        assumptions: &[],
        subs: vec![
            Sub { name: "random", body: Body::Random(160_000, 6_000_000, 160, random_total) },
            Sub { name: "stretched", body: Body::Random(40_000, 2_000_000, 200, stretched_total) },
            Sub { name: "large", body: Body::Each(crate::props::large::c11_count, crate::props::large::c11) },
        ],
    }
}

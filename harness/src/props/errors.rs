//! C10: what an error says. C20: which error a context keeps.

use crate::erase::{build_user, guard, run, set_fuel};
use crate::model;
use crate::pat::*;
use crate::props::core::{describe, real_fuel, MODEL_FUEL};
use crate::runner::*;
use crate::tape::Tape;
use aoc_parse::{ParseContext, ParseError, Parser, Reported};

/// An error one can ask a context for.
#[derive(Clone, Debug, Hash)]
enum Report {
    Expected(usize, String),
    FromStr(usize, usize, &'static str, String),
    Extra(usize),
}

impl Report {
    fn location(&self) -> usize {
        match self {
            Report::Expected(at, _) | Report::FromStr(at, ..) | Report::Extra(at) => *at,
        }
    }
    fn reason(&self, source: &str) -> String {
        match self {
            Report::Expected(_, what) => format!("expected {what}"),
            Report::FromStr(a, b, ty, m) => {
                format!("failed to parse {:?} as type {ty}: {m}", &source[*a..*b])
            }
            Report::Extra(_) => "extra unparsed text after match".into(),
        }
    }
    fn make(&self, cx: &mut ParseContext) -> Reported {
        match self {
            Report::Expected(at, what) => cx.error_expected(*at, what),
            Report::FromStr(a, b, ty, m) => cx.error_from_str_failed(*a, *b, ty, m.clone()),
            Report::Extra(at) => cx.error_extra(*at),
        }
    }
}

fn boundary(t: &mut Tape, s: &str, from: usize) -> usize {
    if t.chance(1, 5) {
        return s.len();
    }
    let mut i = from + t.below(s.len() - from + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i.max(from)
}

fn report(t: &mut Tape, s: &str) -> Report {
    match t.below(3) {
        0 => Report::Expected(boundary(t, s, 0), any_text(t, 6)),
        1 => {
            let a = boundary(t, s, 0);
            let b = boundary(t, s, a);
            Report::FromStr(a, b, t.pick(&["u8", "a::B<c>"]), any_text(t, 5))
        }
        _ => Report::Extra(boundary(t, s, 0)),
    }
}

fn check_error(e: &ParseError, source: &str, at: usize, reason: &str) -> Result<(), String> {
    let got = (e.source.as_str(), e.location);
    if got != (source, at) {
        return Err(format!(
            "an error at byte {at} of {source:?} says it is at byte {} of {:?}",
            got.1, got.0
        ));
    }
    let want = format!("{reason} {}", model::describe_location(source, at));
    let shown = guard(|| e.to_string()).map_err(|m| {
        format!("displaying an error at byte {at} of {source:?} panics: {m}")
    })?;
    if shown != want {
        return Err(format!(
            "an error at byte {at} of {source:?}\nshould read: {want:?}\nreads:       {shown:?}"
        ));
    }
    for debug in [format!("{e:?}"), format!("{e:#?}")] {
        for part in [format!("{want:?}"), format!("{source:?}"), at.to_string()] {
            if !debug.contains(&part) {
                return Err(format!("debug output {debug:?} does not have {part}"));
            }
        }
    }
    Ok(())
}

fn text(t: &mut Tape) -> String {
    let max = t.range(0, 24);
    let mut s = any_text(t, max);
    match t.below(8) {
        0 => s = s.replace(|c: char| c.is_ascii_punctuation(), "\n"),
        1 => s = s.repeat(t.range(1, 40)),
        2 => s.push('\n'),
        _ => {}
    }
    s
}

fn rendering(t: &mut Tape, case: &mut Case) -> Verdict {
    let s = text(t);
    let r = report(t, &s);
    case.key(&(&s, &r));
    case.show(|| format!("{r:?} in {s:?}"));
    let mut cx = ParseContext::new(&s);
    if cx.source() != s {
        return Err(format!("context for {s:?} has source {:?}", cx.source()));
    }
    r.make(&mut cx);
    let mut e = cx.into_reported_error();
    let reason = r.reason(&s);
    check_error(&e, &s, r.location(), &reason)?;
    check_error(&e.clone(), &s, r.location(), &reason)?;
    let boxed: Box<dyn std::error::Error> = Box::new(e.clone());
    if boxed.to_string() != e.to_string() {
        return Err("boxed error reads differently".into());
    }
    // The fields are public; what is displayed goes with them.
    let at = boundary(t, &s, 0);
    e.location = at;
    check_error(&e, &s, at, &reason)?;
    let s2 = text(t);
    e.location = boundary(t, &s2, 0);
    e.source = s2.clone();
    check_error(&e, &s2, e.location, &reason)?;
    case.class_if(r.location() == s.len(), "end of input");
    case.class_if(s[..r.location()].contains('\n'), "not on line 1");
    case.class_if(!s[..r.location()].is_ascii(), "after non-ASCII text");
    nontrivial(r.location() > 0 && r.location() < s.len())
}

/// Errors far down or far to the right.
fn big_count(tier: Tier) -> usize {
    if tier == Tier::Quick {
        60
    } else {
        600
    }
}
fn big(i: usize, case: &mut Case) -> Verdict {
    const SIZES: [usize; 12] = [
        1, 9, 10, 99, 100, 255, 256, 257, 4096, 65_535, 65_536, 100_003,
    ];
    let lines = SIZES[i % 12];
    let columns = SIZES[(i / 12) * 5 % 12];
    let fill = ["x", "é", "😂", "\r", "\t"][(i / 60) % 5];
    let s = format!("{}{}tail\nmore\n", "ab\n".repeat(lines - 1), fill.repeat(columns - 1));
    let at = (lines - 1) * 3 + (columns - 1) * fill.len();
    case.show(|| format!("error at line {lines} column {columns}, filled with {fill:?}"));
    let mut cx = ParseContext::new(&s);
    cx.error_expected(at, "x");
    let e = cx.into_reported_error();
    let want = format!("expected x at line {lines} column {columns}");
    if e.to_string() != want || e.source != s || e.location != at {
        return Err(format!("should read {want:?}, reads {:?}", e.to_string()));
    }
    nontrivial(true)
}

/// A number between 0 and `1 << bits`, all magnitudes alike.
fn magnitude(t: &mut Tape, bits: usize) -> usize {
    let k = t.below(bits + 1);
    match t.below(4) {
        0 => (1 << k) - 1,
        1 => 1 << k,
        _ => t.below(1 << k),
    }
}

/// A source with some long lines, or many lines, or both.
fn large_text(t: &mut Tape) -> String {
    const FILL: &[&str] = &["x", "é", "\n", "京", "ab\n", "😂", " ", "\r\n", "\n\n", "\u{feff}", "\t", "e\u{301}", "\0", "long line of text\n", "\u{2028}", "\u{b}"];
    let mut s = any_text(t, 4);
    for _ in 0..t.range(1, 5) {
        let n = magnitude(t, 18);
        let f = *t.pick(FILL);
        s.push_str(&f.repeat(n / f.len()));
        s.push_str(&any_text(t, 3));
    }
    s
}

fn large_place(t: &mut Tape, s: &str) -> usize {
    let mut i = match t.below(4) {
        0 => s.len() - magnitude(t, 18).min(s.len()),
        1 => magnitude(t, 18).min(s.len()),
        _ => t.below(s.len() + 1),
    };
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Line and column of a byte, counted byte by byte.
fn place(s: &str, at: usize) -> String {
    if at == s.len() {
        return "at end of input".into();
    }
    let (mut line, mut column) = (1usize, 1usize);
    for b in &s.as_bytes()[..at] {
        if *b == b'\n' {
            line += 1;
            column = 1;
        } else if *b & 0xc0 != 0x80 {
            column += 1;
        }
    }
    format!("at line {line} column {column}")
}

fn sketch(s: &str) -> String {
    let head: String = s.chars().take(20).collect();
    format!("{head:?}... ({} bytes, {} lines)", s.len(), s.matches('\n').count() + 1)
}

/// Errors anywhere in large sources; the furthest of them is kept.
fn far(t: &mut Tape, case: &mut Case) -> Verdict {
    let s = large_text(t);
    let places: Vec<usize> = (0..t.range(1, 5)).map(|_| large_place(t, &s)).collect();
    case.key(&(&s, &places));
    case.show(|| format!("errors at {places:?} of {}", sketch(&s)));
    let mut cx = ParseContext::new(&s);
    for (i, at) in places.iter().enumerate() {
        if i % 2 == 0 {
            cx.error_expected(*at, &format!("number {i}"));
        } else {
            cx.error_from_str_failed(*at, (*at..=s.len()).skip(1).find(|k| s.is_char_boundary(*k)).unwrap_or(*at), "T", format!("bad {i}"));
        }
    }
    let max = *places.iter().max().unwrap();
    let i = places.iter().position(|at| *at == max).unwrap();
    let reason = if i % 2 == 0 {
        format!("expected number {i}")
    } else {
        let c: String = s[max..].chars().take(1).collect();
        format!("failed to parse {c:?} as type T: bad {i}")
    };
    let want = format!("{reason} {}", place(&s, max));
    let e = cx.into_reported_error();
    let got = guard(|| e.to_string()).unwrap_or_else(|m| format!("panic: {m}"));
    if e.location != max || got != want {
        return Err(format!(
            "errors at {places:?} of {}\nkept: byte {max}, {want}\ngot:  byte {}, {got}",
            sketch(&s),
            e.location
        ));
    }
    if e.source != s {
        return Err(format!("an error at byte {max} of {} has another source: {}", sketch(&s), sketch(&e.source)));
    }
    case.class_if(max > 65536, "beyond byte 65536");
    case.class_if(i + 1 < places.len(), "an earlier report wins");
    nontrivial(max > 0)
}

/// Errors from real parses describe the input that was passed in.
fn parses(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 12);
    let p = Gen::any_theme(t, budget).pattern(t);
    let s = if t.chance(1, 2) { input_for(&p, t) } else { any_text(t, 12) };
    case.key(&(&p, &s));
    case.show(|| describe(&p, &s));
    let Some(m) = model::parse(&p, &s, MODEL_FUEL) else {
        return Ok(Status::Discard);
    };
    let dp = build_user(&p);
    let r = guard(|| {
        set_fuel(real_fuel(m.steps));
        dp.parse(&s)
    });
    let Ok(Err(e)) = r else {
        return Ok(Status::Trivial);
    };
    let at = e.location;
    if at > s.len() || !s.is_char_boundary(at) {
        return Err(format!("{}\nerror location {at}", describe(&p, &s)));
    }
    let shown = e.to_string();
    let place = model::describe_location(&s, at);
    let Some(reason) = shown.strip_suffix(&format!(" {place}")) else {
        return Err(format!(
            "{}\nthe error is at byte {at}, which is {place}, but it reads {shown:?}",
            describe(&p, &s)
        ));
    };
    if reason.trim().is_empty() {
        return Err(format!("{}\nerror without a reason: {shown:?}", describe(&p, &s)));
    }
    check_error(&e, &s, at, reason).map_err(|m| format!("{}\n{m}", describe(&p, &s)))?;
    // The same again.
    if run(&dp, &s, real_fuel(m.steps)).text() != format!("Err at byte {at}: {shown}") {
        return Err(format!("{}\nanother error the second time", describe(&p, &s)));
    }
    case.class_if(p.has_region(), "with lines or sections");
    nontrivial(at > 0)
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        rule: "an error is made, through a context or by a failing parse, and everything it says about itself is compared with a separate computation of line and column, in small, random large, and computed large sources; non-trivial when it is not at the very start (and, for made errors, not at the end)",
        assumptions: &[],
        subs: vec![
            Sub { name: "rendering", body: Body::Random(300_000, 5_000_000, 120, rendering) },
            Sub { name: "big", body: Body::Each(big_count, big) },
            Sub { name: "far", body: Body::Random(4_000, 400_000, 60, far) },
            Sub { name: "large", body: Body::Each(crate::props::large::c10_count, crate::props::large::c10) },
            Sub { name: "parses", body: Body::Random(200_000, 4_000_000, 160, parses) },
        ],
    }
}

/// Histories of reports on one context.
fn reports(t: &mut Tape, case: &mut Case) -> Verdict {
    let s = text(t);
    let n = t.range(1, 9);
    let rs: Vec<Report> = (0..n).map(|_| report(t, &s)).collect();
    let direct: Vec<bool> = (0..n).map(|_| t.chance(1, 4)).collect();
    case.key(&(&s, &rs, &direct));
    case.show(|| format!("source {s:?}, reports {rs:?}"));
    let mut cx = ParseContext::new(&s);
    for (r, d) in rs.iter().zip(&direct) {
        if *d {
            // An error made elsewhere.
            let mut other = ParseContext::new(&s);
            r.make(&mut other);
            let e = other.into_reported_error();
            let Reported = cx.report(e);
        } else {
            let Reported = r.make(&mut cx);
        }
    }
    let max = rs.iter().map(|r| r.location()).max().unwrap();
    let winner = rs.iter().find(|r| r.location() == max).unwrap();
    let e = guard(|| cx.into_reported_error())
        .map_err(|m| format!("after {rs:?} on {s:?}: {m}"))?;
    check_error(&e, &s, max, &winner.reason(&s))
        .map_err(|m| format!("after {rs:?} on {s:?}\n{m}"))?;
    let ties = rs.iter().filter(|r| r.location() == max).count() > 1;
    case.class_if(ties, "ties");
    case.class_if(rs.last().unwrap().location() < max, "an earlier report wins");
    nontrivial(ties || rs.last().unwrap().location() < max)
}

/// Several parsers, one after the other, on one context: the best error of
/// all of them is kept.
fn parsers(t: &mut Tape, case: &mut Case) -> Verdict {
    let n = t.range(2, 4);
    let mut g = Gen::any_theme(t, 6);
    let ps: Vec<Pat> = (0..n)
        .map(|_| {
            g.budget = 5;
            g.pattern(t)
        })
        .collect();
    let s = input_for(&ps[0], t);
    let starts: Vec<usize> = ps.iter().map(|_| boundary(t, &s, 0)).collect();
    case.key(&(&ps, &s, &starts));
    let text = || {
        let list: Vec<String> = ps
            .iter()
            .zip(&starts)
            .map(|(p, at)| format!("{} at {at}", p.text()))
            .collect();
        format!("patterns {}\non {s:?}", list.join(" | "))
    };
    case.show(text);
    let mut want: Option<(usize, String)> = None;
    for (p, at) in ps.iter().zip(&starts) {
        let Some(m) = model::matches(p, &s, *at, usize::MAX, MODEL_FUEL) else {
            return Ok(Status::Discard);
        };
        if let Some((l, r)) = m.problem {
            if want.as_ref().is_none_or(|(l0, _)| l > *l0) {
                want = Some((l, r));
            }
        }
    }
    let dps: Vec<_> = ps.iter().map(build_user).collect();
    let got = guard(|| {
        set_fuel(real_fuel(MODEL_FUEL));
        let mut cx = ParseContext::new(&s);
        for (dp, at) in dps.iter().zip(&starts) {
            if let Ok(mut it) = dp.parse_iter(&mut cx, *at) {
                use aoc_parse::ParseIter;
                while it.backtrack(&mut cx).is_ok() {}
            }
        }
        want.is_some().then(|| cx.into_reported_error())
    })
    .map_err(|m| format!("{}\npanic: {m}", text()))?;
    if let (Some((at, reason)), Some(e)) = (&want, &got) {
        check_error(e, &s, *at, reason).map_err(|m| format!("{}\n{m}", text()))?;
    }
    nontrivial(want.is_some_and(|w| w.0 > 0))
}

pub fn c20() -> Check {
    Check {
        id: "C20",
        rule: "a generated history of reports (or of parsers run to exhaustion) on one context, against 'the furthest, and of those the first'; non-trivial when the last report is not the one kept or there are ties, or for parsers when the error is not at the very start",
        assumptions: &[],
        subs: vec![
            Sub { name: "reports", body: Body::Random(300_000, 5_000_000, 160, reports) },
            Sub { name: "far", body: Body::Random(4_000, 400_000, 60, far) },
            Sub { name: "parsers", body: Body::Random(150_000, 3_000_000, 200, parsers) },
        ],
    }
}

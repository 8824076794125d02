//! C06 (lines) and C07 (sections).

use super::core::*;
use crate::erase::{build_user, run, Seen};
use crate::pat::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::value::V;
use aoc_parse::prelude as ap;
use aoc_parse::prelude::{any_char, lower};
use aoc_parse::{parser, Parser};

/// The lines of a text, the way the documentation has it.
pub fn split_lines(s: &str) -> Vec<&str> {
    let mut out: Vec<&str> = s.split('\n').collect();
    if out.last() == Some(&"") {
        // After the last newline, or an empty text.
        out.pop();
    }
    out
}

/// The sections of a text: a blank line, or the end, ends a section.
pub fn split_sections(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut open = false;
    let n = s.matches('\n').count();
    for (i, l) in s.split('\n').enumerate() {
        if i == n {
            // No newline follows this one.
            if !l.is_empty() {
                cur.push_str(l);
                open = true;
            }
        } else if l.is_empty() {
            out.push(std::mem::take(&mut cur));
            open = false;
        } else {
            cur.push_str(l);
            cur.push('\n');
            open = true;
        }
    }
    if open {
        out.push(cur);
    }
    out
}

fn line_text(t: &mut Tape) -> String {
    let n = *t.pick(&[0, 1, 2, 3, 5]);
    (0..n)
        .map(|_| {
            *t.pick(&[
                'a', 'b', '\r', ' ', 'é', '京', '1', '\t', '\u{2028}', '\u{85}', '\u{b}', '\u{c}',
            ])
        })
        .collect()
}

/// Any text, with lots of newlines.
fn newline_text(t: &mut Tape) -> String {
    let n = if t.chance(1, 50) {
        t.range(200, 400)
    } else {
        t.below(9)
    };
    let mut s = String::new();
    for _ in 0..n {
        s += &line_text(t);
        s.push('\n');
        if t.chance(1, 3) {
            s.push('\n');
        }
    }
    if t.chance(1, 3) {
        s += &line_text(t);
    }
    s
}

fn check_split_lines(s: &str) -> Result<usize, String> {
    let want = split_lines(s);
    let got = ap::lines(ap::string(parser!(any_char*))).parse(s);
    match &got {
        Ok(v) if v.iter().eq(want.iter()) => {}
        _ => {
            return Err(format!(
                "lines(string(any_char*)) on {s:?}\nexpected: {want:?}\ngot:      {got:?}"
            ))
        }
    }
    let one = ap::line(ap::string(parser!(any_char*))).parse(s);
    let ok = match &one {
        Ok(v) => want.len() == 1 && v == want[0],
        Err(_) => want.len() != 1,
    };
    if !ok {
        return Err(format!(
            "line(string(any_char*)) on {s:?}\nthere are {} lines\ngot:      {one:?}",
            want.len()
        ));
    }
    Ok(want.len())
}

fn lines_split(t: &mut Tape, case: &mut Case) -> Verdict {
    let s = newline_text(t);
    case.key(&s);
    case.show(|| format!("lines of {s:?}"));
    let n = check_split_lines(&s)?;
    case.class_if(n > 100, "over 100 lines");
    nontrivial(n > 1)
}

/// `lines(p)` accepts a text when `p` accepts each of its lines, and then the
/// values are the same.
fn lines_each(t: &mut Tape, case: &mut Case) -> Verdict {
    let theme = *t.pick(&[Theme::Tiny, Theme::Mixed, Theme::Values]);
    let budget = t.range(1, 8);
    let mut g = Gen::new(theme, budget);
    g.regions = false;
    let p = g.pattern(t);
    let n = t.below(5);
    let mut texts: Vec<String> = vec![];
    for _ in 0..n {
        let s = input_for(&p, t);
        texts.extend(s.split('\n').map(|s| s.to_string()));
    }
    let dp = build_user(&p);
    let mut want: Option<Vec<V>> = Some(vec![]);
    let mut fuel = 0;
    for l in &texts {
        match crate::model::parse(&p, l, MODEL_FUEL) {
            None => return Ok(Status::Discard),
            Some(m) => fuel += m.steps + 10,
        }
        match run(&dp, l, real_fuel(MODEL_FUEL)) {
            Seen::Ok(v) => {
                if let Some(w) = &mut want {
                    w.push(v);
                }
            }
            Seen::Err { .. } => want = None,
            Seen::Panic(m) => return Err(mismatch(&p, l, "no panic", &m)),
        }
    }
    let mut all = texts.join("\n");
    // A text that ends in an empty line needs its newline.
    if texts.last().map_or(false, |l| l.is_empty()) || t.chance(3, 4) {
        all.push('\n');
    }
    if texts.is_empty() {
        all.clear();
    }
    let whole = Pat::Lines(b(p.clone()));
    case.key(&(&p, &all));
    case.show(|| describe(&whole, &all));
    let got = run(&build_user(&whole), &all, real_fuel(fuel));
    let good = match (&want, &got) {
        (Some(vs), Seen::Ok(V::List(got))) => vs == got,
        (None, Seen::Err { .. }) => true,
        _ => false,
    };
    if !good {
        let want = want.map_or("an error".to_string(), |v| V::List(v).show());
        return Err(mismatch(&whole, &all, &want, &got.text()));
    }
    case.class(if want.is_some() {
        "accepted"
    } else {
        "rejected"
    });
    nontrivial(texts.len() > 1)
}

/// `sections(p)` and `p` on each section.
fn sections_each(t: &mut Tape, case: &mut Case) -> Verdict {
    let theme = *t.pick(&[Theme::Tiny, Theme::Mixed, Theme::Regions]);
    let budget = t.range(1, 8);
    let mut g = Gen::new(theme, budget);
    let inner = g.pattern(t);
    let p = if t.chance(1, 2) {
        Pat::Lines(b(inner))
    } else {
        inner
    };
    let n = t.below(5);
    let mut all = String::new();
    for i in 0..n {
        let s = input_for(&p, t);
        all += &s;
        if i + 1 < n || t.chance(1, 2) {
            if !all.ends_with('\n') {
                all.push('\n');
            }
            all.push('\n');
        }
    }
    let texts = split_sections(&all);
    let dp = build_user(&p);
    let mut want: Option<Vec<V>> = Some(vec![]);
    let mut fuel = 0;
    for s in &texts {
        match crate::model::parse(&p, s, MODEL_FUEL) {
            None => return Ok(Status::Discard),
            Some(m) => fuel += m.steps + 10,
        }
        match run(&dp, s, real_fuel(MODEL_FUEL)) {
            Seen::Ok(v) => {
                if let Some(w) = &mut want {
                    w.push(v);
                }
            }
            Seen::Err { .. } => want = None,
            Seen::Panic(m) => return Err(mismatch(&p, s, "no panic", &m)),
        }
    }
    let whole = Pat::Sections(b(p.clone()));
    case.key(&(&p, &all));
    case.show(|| describe(&whole, &all));
    let got = run(&build_user(&whole), &all, real_fuel(fuel));
    let good = match (&want, &got) {
        (Some(vs), Seen::Ok(V::List(got))) => vs == got,
        (None, Seen::Err { .. }) => true,
        _ => false,
    };
    if !good {
        let want = want.map_or("an error".to_string(), |v| V::List(v).show());
        return Err(format!(
            "{}\n(sections: {texts:?})",
            mismatch(&whole, &all, &want, &got.text())
        ));
    }
    case.class(if want.is_some() {
        "accepted"
    } else {
        "rejected"
    });
    nontrivial(texts.len() > 1)
}

fn check_split_sections(s: &str) -> Result<usize, String> {
    let want = split_sections(s);
    let got = ap::sections(ap::string(parser!(any_char*))).parse(s);
    match &got {
        Ok(v) if *v == want => {}
        _ => {
            return Err(format!(
                "sections(string(any_char*)) on {s:?}\nexpected: {want:?}\ngot:      {got:?}"
            ))
        }
    }
    let nested = ap::sections(ap::lines(ap::string(parser!(any_char*)))).parse(s);
    let want2: Vec<Vec<&str>> = want.iter().map(|s| split_lines(s)).collect();
    match &nested {
        Ok(v) if v.iter().map(|x| x.iter().map(|s| s.as_str()).collect::<Vec<_>>()).eq(want2.iter().cloned()) => {}
        _ => {
            return Err(format!(
                "sections(lines(string(any_char*))) on {s:?}\nexpected: {want2:?}\ngot:      {nested:?}"
            ))
        }
    }
    let one = ap::section(ap::string(parser!(any_char*))).parse(s);
    let ok = match &one {
        Ok(v) => want.len() == 1 && *v == want[0],
        Err(_) => want.len() != 1,
    };
    if !ok {
        return Err(format!(
            "section(string(any_char*)) on {s:?}\nthere are {} sections\ngot:      {one:?}",
            want.len()
        ));
    }
    Ok(want.len())
}

fn sections_split(t: &mut Tape, case: &mut Case) -> Verdict {
    let s = newline_text(t);
    case.key(&s);
    case.show(|| format!("sections of {s:?}"));
    let n = check_split_sections(&s)?;
    nontrivial(n > 1)
}

/// All texts over a few characters up to a length, by number.
fn text_number(mut i: usize, alphabet: &[&str]) -> String {
    let mut parts = vec![];
    while i > 0 {
        i -= 1;
        parts.push(alphabet[i % alphabet.len()]);
        i /= alphabet.len();
    }
    parts.concat()
}

fn texts_up_to(len: usize, letters: usize) -> usize {
    (0..=len).map(|n| letters.pow(n as u32)).sum()
}

const ALPHABET: &[&str] = &["\n", "a", "b"];

fn short_count(tier: Tier) -> usize {
    texts_up_to(if tier == Tier::Quick { 10 } else { 13 }, 3)
}

fn short_lines(i: usize, case: &mut Case) -> Verdict {
    let s = text_number(i, ALPHABET);
    case.show(|| format!("lines of {s:?}"));
    let n = check_split_lines(&s)?;
    nontrivial(n > 1)
}

fn short_sections(i: usize, case: &mut Case) -> Verdict {
    let s = text_number(i, ALPHABET);
    case.show(|| format!("sections of {s:?}"));
    let n = check_split_sections(&s)?;
    nontrivial(n > 1)
}

/// A family of patterns with regions in interesting places.
fn family() -> Vec<Pat> {
    let a = || Pat::lit("a");
    let nl = || Pat::lit("\n");
    let any = || Pat::class("any_char");
    let any_s = || Pat::Str(b(Pat::Star(b(Pat::class("any_char")))));
    let line = |p| Pat::Line(b(p));
    let lines = |p| Pat::Lines(b(p));
    let section = |p| Pat::Section(b(p));
    let sections = |p| Pat::Sections(b(p));
    let seq = Pat::Seq;
    let alt = Pat::Alt;
    let star = |p| Pat::Star(b(p));
    let opt = |p| Pat::Opt(b(p));
    let plus = |p| Pat::Plus(b(p));
    let s = |p| Pat::Str(b(p));
    let v = Pat::Paren;
    vec![
        line(a()),
        seq(vec![line(s(a())), line(any_s())]),
        seq(vec![any(), line(any_s())]),
        seq(vec![any_s(), line(any_s())]),
        seq(vec![line(any_s()), any_s()]),
        lines(a()),
        seq(vec![lines(a()), lines(Pat::lit("b"))]),
        seq(vec![lines(s(alt(vec![a(), Pat::lit("b")]))), any_s()]),
        plus(line(any())),
        seq(vec![opt(line(a())), any_s()]),
        line(line(a())),
        line(lines(any_s())),
        line(seq(vec![opt(a()), star(any())])),
        lines(seq(vec![star(any()), any()])),
        lines(Pat::lit("")),
        line(Pat::lit("")),
        lines(s(alt(vec![a(), Pat::lit("a\n"), Pat::lit("ab")]))),
        Pat::RepSep(b(lines(any())), b(nl())),
        Pat::RepSep(b(plus(line(any()))), b(nl())),
        Pat::RepSep(b(line(any())), b(line(Pat::lit("")))),
        alt(vec![line(s(a())), seq(vec![any_s()])]),
        alt(vec![
            v(b(seq(vec![line(any()), any()]))),
            v(b(seq(vec![any(), line(any())]))),
        ]),
        section(any_s()),
        section(lines(any_s())),
        section(line(any_s())),
        section(a()),
        section(Pat::lit("a\n")),
        sections(lines(any())),
        sections(seq(vec![line(a()), lines(any())])),
        sections(any_s()),
        seq(vec![section(any_s()), section(any_s())]),
        seq(vec![section(lines(a())), sections(lines(any()))]),
        seq(vec![section(lines(any())), lines(any())]),
        seq(vec![line(any()), section(any_s())]),
        seq(vec![line(any()), line(Pat::lit("")), section(any_s())]),
        seq(vec![lines(any()), section(any_s())]),
        seq(vec![any_s(), section(any_s())]),
        seq(vec![section(any_s()), any_s()]),
        section(section(any_s())),
        sections(sections(any_s())),
        section(sections(lines(any()))),
        line(section(any_s())),
        lines(section(any_s())),
        seq(vec![opt(section(lines(any()))), any_s()]),
        alt(vec![sections(lines(a())), v(b(any_s()))]),
        Pat::RepSep(b(section(any_s())), b(Pat::lit(""))),
        seq(vec![nl(), section(any_s())]),
        seq(vec![nl(), line(any_s())]),
        seq(vec![star(nl()), sections(lines(any_s()))]),
        lines(seq(vec![a(), line(Pat::lit("b"))])),
        seq(vec![line(opt(a())), opt(nl()), star(line(any()))]),
    ]
}

fn family_inputs(tier: Tier) -> usize {
    texts_up_to(if tier == Tier::Quick { 8 } else { 11 }, 3)
}

const FAMILY: usize = 51;

fn family_count(_: Tier) -> usize {
    FAMILY * 64
}

fn family_case(i: usize, case: &mut Case, sections: bool) -> Verdict {
    let fam = family();
    assert_eq!(fam.len(), FAMILY);
    let p = &fam[i % FAMILY];
    let has = p.any(&mut |p| matches!(p, Pat::Section(_) | Pat::Sections(_)));
    if has != sections {
        return Ok(Status::Discard);
    }
    let dp = build_user(p);
    let part = i / FAMILY;
    let total = family_inputs(case.tier);
    let (mut n, mut nt) = (0, 0);
    let mut j = part;
    while j < total {
        let s = text_number(j, ALPHABET);
        if let Some(bo) = both(p, &dp, &s) {
            n += 1;
            if judge_value(p, &s, &bo, case)? || bo.seen.is_ok() {
                nt += 1;
            }
        }
        j += 64;
    }
    case.show(|| {
        format!(
            "pattern {} with a 64th of all texts over newline, a, b",
            p.text()
        )
    });
    case.weight = n;
    case.nontrivial_weight = nt;
    nontrivial(nt > 0)
}

fn family_lines(i: usize, case: &mut Case) -> Verdict {
    family_case(i, case, false)
}

fn family_sections(i: usize, case: &mut Case) -> Verdict {
    family_case(i, case, true)
}

fn random_regions(t: &mut Tape, case: &mut Case, sections: bool) -> Verdict {
    let budget = t.range(2, 12);
    let g = {
        let mut g = Gen::new(Theme::Regions, budget);
        g.sections = sections;
        g
    };
    pattern_vs_model(t, case, g)
}

fn random_lines(t: &mut Tape, case: &mut Case) -> Verdict {
    random_regions(t, case, false)
}

fn random_sections(t: &mut Tape, case: &mut Case) -> Verdict {
    random_regions(t, case, true)
}

// Long inputs.
const LONG: &[usize] = &[255, 256, 257, 1000, 4097, 65_537];

fn long_count(_: Tier) -> usize {
    LONG.len() * 2
}

fn long_lines(i: usize, case: &mut Case) -> Verdict {
    let n = LONG[i / 2];
    let last = i % 2 == 0;
    let mut s: String = (0..n).map(|k| format!("{k}\n")).collect();
    if last {
        s.pop();
    }
    case.show(|| format!("{n} lines"));
    let want: Vec<usize> = (0..n).collect();
    if ap::lines(ap::usize).parse(&s).ok() != Some(want.clone()) {
        return Err(format!("lines(usize) on {n} lines of numbers"));
    }
    let long_line = "x".repeat(n);
    let text = format!("{long_line}\n{long_line}");
    if ap::lines(ap::string(parser!(lower+))).parse(&text).ok()
        != Some(vec![long_line.clone(); 2])
    {
        return Err(format!("two lines of {n} letters"));
    }
    nontrivial(true)
}

fn long_sections(i: usize, case: &mut Case) -> Verdict {
    let n = LONG[i / 2];
    let last = i % 2 == 0;
    let mut s: String = (0..n).map(|k| format!("{k}\n{k}\n\n")).collect();
    if last {
        s.pop();
    }
    case.show(|| format!("{n} sections"));
    let want: Vec<Vec<usize>> = (0..n).map(|k| vec![k, k]).collect();
    if ap::sections(ap::lines(ap::usize)).parse(&s).ok() != Some(want) {
        return Err(format!(
            "sections(lines(usize)) on {n} sections of two numbers"
        ));
    }
    let s: String = (0..n).map(|k| format!("{k}\n")).collect();
    let text = format!("{s}\n{s}");
    let want: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).collect()];
    if ap::sections(ap::lines(ap::usize)).parse(&text).ok() != Some(want) {
        return Err(format!("two sections of {n} numbers"));
    }
    nontrivial(true)
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "texts with newlines: lines() against splitting at newlines, lines(p) against p on each line, and patterns with line()/lines() against the reference model; non-trivial with at least two lines, or (model) a match or backtracking",
        assumptions: &["the reference model in model.rs says what the documentation means"],
        subs: vec![
            Sub { name: "split", body: Body::Random(400_000, 8_000_000, 60, lines_split) },
            Sub { name: "split_short", body: Body::Each(short_count, short_lines) },
            Sub { name: "each_line", body: Body::Random(300_000, 6_000_000, 120, lines_each) },
            Sub { name: "family", body: Body::Each(family_count, family_lines) },
            Sub { name: "patterns", body: Body::Random(500_000, 8_000_000, 120, random_lines) },
            Sub { name: "long", body: Body::Each(long_count, long_lines) },
            Sub { name: "large", body: Body::Each(crate::props::large::c06_count, crate::props::large::c06) },
        ],
    }
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        rule: "texts with blank lines: sections() against splitting at blank lines, sections(p) against p on each section, and patterns with section()/sections() against the reference model; non-trivial with at least two sections, or (model) a match or backtracking",
        assumptions: &["the reference model in model.rs says what the documentation means"],
        subs: vec![
            Sub { name: "split", body: Body::Random(400_000, 8_000_000, 60, sections_split) },
            Sub { name: "split_short", body: Body::Each(short_count, short_sections) },
            Sub { name: "each_section", body: Body::Random(300_000, 6_000_000, 120, sections_each) },
            Sub { name: "family", body: Body::Each(family_count, family_sections) },
            Sub { name: "patterns", body: Body::Random(500_000, 8_000_000, 120, random_sections) },
            Sub { name: "long", body: Body::Each(long_count, long_sections) },
            Sub { name: "large", body: Body::Each(crate::props::large::c07_count, crate::props::large::c07) },
        ],
    }
}

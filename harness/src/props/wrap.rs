//! C15: collections. C16: string(). C18: aoc_parse().

use crate::erase::{build_user, guard, run, set_fuel, take_trace, DynP, Seen};
use crate::model;
use crate::pat::*;
use crate::props::core::{describe, judge_value, real_fuel, MODEL_FUEL};
use crate::runner::*;
use crate::tape::Tape;
use crate::value::V;
use aoc_parse::prelude::*;
use aoc_parse::{parser, ParseContext, ParseError, ParseIter};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

const FUEL: u64 = real_fuel(MODEL_FUEL);

// --- C15

/// Typed collections of what a list pattern produces, against the same list.
fn typed(t: &mut Tape, case: &mut Case) -> Verdict {
    let shape = t.below(11);
    let n = match t.below(12) {
        0 => t.range(50, 400),
        _ => t.below(14),
    };
    // Few distinct keys, so that they repeat.
    let distinct = t.range(1, 12);
    let keys: Vec<u16> = (0..n).map(|_| t.below(distinct) as u16).collect();
    let values: Vec<i32> = (0..n).map(|_| t.below(5) as i32 - 2).collect();
    let mut s = String::new();
    for (i, (k, v)) in keys.iter().zip(&values).enumerate() {
        match shape {
            // lines(u16 ":" i32)
            0 | 6 | 7 | 9 => s += &format!("{k}:{v}\n"),
            // repeat_sep(u16 ":" i32, ",")
            1 | 10 => s += &format!("{}{k}:{v}", if i > 0 { "," } else { "" }),
            // (u16 ":" i32 ";")*
            2 | 8 => s += &format!("{k}:{v};"),
            // (u16 ":" i32 ";")+
            3 => s += &format!("{k}:{v};"),
            // sections(line(u16) line(i32))
            4 => s += &format!("{}{k}\n{v}\n", if i > 0 { "\n" } else { "" }),
            _ => {
                if i == 0 {
                    s += &format!("{k}:{v}");
                }
            }
        }
    }
    if t.chance(1, 6) {
        s = mutate(&s, 1, t);
    }
    case.key(&(shape, &s));
    case.show(|| format!("shape {shape}: {s:?}"));
    fn compare<L, A, B, C, D, E>(
        s: &str,
        list: L,
        hm: A,
        bm: B,
        hs: C,
        bs: D,
        vd: E,
    ) -> Result<bool, String>
    where
        L: Parser,
        L::Output: IntoIterator<Item = (u16, i32)>,
        A: Parser<Output = HashMap<u16, i32>>,
        B: Parser<Output = BTreeMap<u16, i32>>,
        C: Parser<Output = HashSet<(u16, i32)>>,
        D: Parser<Output = BTreeSet<(u16, i32)>>,
        E: Parser<Output = VecDeque<(u16, i32)>>,
    {
        let base = list.parse(s).map(|l| l.into_iter().collect::<Vec<_>>());
        macro_rules! same {
            ($name:literal, $p:expr, $t:ty) => {{
                let got = $p.parse(s);
                match (&base, got) {
                    (Ok(list), Ok(c)) => {
                        let mut want = <$t>::default();
                        for x in list {
                            want.extend(std::iter::once(*x));
                        }
                        if c != want {
                            return Err(format!(
                                "{} of {list:?}: {c:?} instead of {want:?}",
                                $name
                            ));
                        }
                    }
                    (Err(e), Err(e2)) => {
                        if e.to_string() != e2.to_string() {
                            return Err(format!("{} of {s:?}: {e2} instead of {e}", $name));
                        }
                    }
                    (a, b) => return Err(format!("{} of {s:?}: {b:?}, the list: {a:?}", $name)),
                }
            }};
        }
        same!("hash_map", hm, HashMap<u16, i32>);
        same!("btree_map", bm, BTreeMap<u16, i32>);
        same!("hash_set", hs, HashSet<(u16, i32)>);
        same!("btree_set", bs, BTreeSet<(u16, i32)>);
        same!("vec_deque", vd, VecDeque<(u16, i32)>);
        Ok(base.is_ok())
    }
    macro_rules! all {
        ( $( $p:tt )* ) => {
            compare(
                &s,
                parser!( $( $p )* ),
                parser!(hash_map( $( $p )* )),
                parser!(btree_map( $( $p )* )),
                parser!(hash_set( $( $p )* )),
                parser!(btree_set( $( $p )* )),
                parser!(vec_deque( $( $p )* )),
            )
        };
    }
    let ok = match shape {
        0 => all!(lines(u16 ":" i32)),
        1 => all!(repeat_sep(u16 ":" i32, ",")),
        2 => all!((u16 ":" i32 ";")*),
        3 => all!((u16 ":" i32 ";")+),
        4 => all!(sections(line(u16) line(i32))),
        5 => all!((u16 ":" i32)?),
        // Values that are no Vec, of which some do not know their length.
        6 => all!(l:lines(u16 ":" i32) => l.into_iter().filter(|x| x.0 != 1)),
        7 => all!(l:lines(u16 ":" i32) => {
            let (a, b) = l.split_at(l.len() / 2);
            let (a, b) = (a.to_vec(), b.to_vec());
            a.into_iter().chain(b.into_iter().flat_map(|x| [x, (x.0, x.1 + 1)]))
        }),
        8 => all!(l:(u16 ":" i32 ";")* => {
            let mut l = l.into_iter();
            std::iter::from_fn(move || l.next())
        }),
        9 => all!(btree_map(lines(u16 ":" i32))),
        _ => all!({
            a:u16 ":" b:i32 "," c:u16 ":" d:i32 => vec![(a, b), (c, d)].into_boxed_slice().into_vec(),
            vec_deque(repeat_sep(u16 ":" i32, ",")) => vec![(0, 0)],
        }),
    }?;
    let mut seen = HashSet::new();
    let dup = keys.iter().any(|k| !seen.insert(k));
    case.class_if(ok && dup, "repeated keys");
    case.class_if(ok && n >= 50, "50 or more items");
    nontrivial(ok && dup)
}

/// Any pattern that produces a list: the collection parser matches the same
/// texts and collects the same items.
fn generated(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 9);
    let mut g = Gen::any_theme(t, budget);
    let kind = *t.pick(&CollKind::ALL);
    let item = Pat::Paren(b(g.expr(t, false)));
    let list = match t.below(6) {
        0 => Pat::Star(b(item)),
        1 => Pat::Plus(b(item)),
        2 => Pat::RepSep(b(item), b(g.literal(t))),
        3 => Pat::Lines(b(item)),
        4 => Pat::Opt(b(item)),
        _ => Pat::Sections(b(item)),
    };
    let coll = Pat::Coll(kind, b(list.clone()));
    // In some context that backtracks into it.
    let (plain, p) = if t.chance(1, 3) {
        let after = g.expr(t, false);
        (
            Pat::Seq(vec![list, after.clone()]),
            Pat::Seq(vec![coll, after]),
        )
    } else {
        (list, coll)
    };
    let s = input_for(&p, t);
    case.key(&(&p, &s));
    case.show(|| describe(&p, &s));
    let Some(m) = model::parse(&p, &s, MODEL_FUEL) else {
        return Ok(Status::Discard);
    };
    let dp = build_user(&p);
    take_trace();
    let seen = run(&dp, &s, real_fuel(m.steps));
    let trace = take_trace();
    let without = run(&build_user(&plain), &s, real_fuel(m.steps));
    if seen.is_ok() != without.is_ok()
        || (matches!(seen, Seen::Err { .. }) && seen != without)
    {
        return Err(format!(
            "{}\ngot: {}\nwithout {}(): {}",
            describe(&p, &s),
            seen.text(),
            kind.name(),
            without.text()
        ));
    }
    let b = crate::props::core::Both {
        model: m,
        seen,
        trace,
    };
    judge_value(&p, &s, &b, case)?;
    nontrivial(b.seen.is_ok())
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        rule: "typed: lists with repeated keys in eleven shapes (five of them with values other than the Vec of a pattern, some of unknown length), each collection against inserting the list's items one by one, non-trivial when it parses and keys repeat; generated: any pattern inside a collection against the same without it and the reference model, non-trivial when it parses",
        assumptions: &[],
        subs: vec![
            Sub { name: "typed", body: Body::Random(60_000, 1_500_000, 160, typed) },
            Sub { name: "generated", body: Body::Random(200_000, 5_000_000, 160, generated) },
            Sub { name: "large", body: Body::Each(crate::props::large::c15_count, crate::props::large::c15) },
        ],
    }
}

// --- C16

/// string(p) against p itself, from any position: same matches, same errors,
/// the text as value, and no conversion run.
fn strings(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 12);
    let p = Gen::any_theme(t, budget).pattern(t);
    let p = match p {
        Pat::Map(..) | Pat::RuleSet(..) => Pat::Paren(b(p)),
        p => p,
    };
    let mut s = input_for(&p, t);
    let mut start = 0;
    if t.chance(1, 2) {
        let before = *t.pick(&["a", "é", "\n", "x\n\n", "京都 "]);
        s = format!("{before}{s}");
        start = before.len();
    }
    case.key(&(&p, &s, start));
    case.show(|| format!("{} from byte {start}", describe(&p, &s)));
    let sp = Pat::Str(b(p.clone()));
    let (dp, dsp) = (build_user(&p), build_user(&sp));
    const MAX: usize = 50;
    if model::matches(&p, &s, start, MAX, MODEL_FUEL).is_none()
        || model::parse(&p, &s, MODEL_FUEL).is_none()
    {
        case.class("too big");
        return Ok(Status::Discard);
    }
    fn list(p: &DynP, s: &str, start: usize) -> Result<(Vec<(usize, V)>, Option<String>), String> {
        guard(|| {
            set_fuel(FUEL);
            let mut cx = ParseContext::new(s);
            let mut out = vec![];
            if let Ok(mut it) = p.parse_iter(&mut cx, start) {
                loop {
                    out.push((it.match_end(), it.convert().0));
                    if out.len() == MAX || it.backtrack(&mut cx).is_err() {
                        break;
                    }
                }
            }
            // A final error, to have one in any case.
            cx.error_expected(start, "something else");
            let e = cx.into_reported_error();
            (out, Some(format!("{} {e}", e.location)))
        })
    }
    let plain = list(&dp, &s, start);
    take_trace();
    let string = list(&dsp, &s, start);
    let trace = take_trace();
    let (plain, string) = match (plain, string) {
        (Err(m), Err(m2)) if m == m2 => {
            case.class("too big");
            return Ok(Status::Discard);
        }
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => {
            return Err(format!(
                "{} from byte {start}\nwithout string(): {a:?}\nwith string(): {b:?}",
                describe(&p, &s)
            ))
        }
    };
    let want: Vec<(usize, V)> = plain
        .0
        .iter()
        .map(|(e, _)| (*e, V::Str(s[start..*e].to_string())))
        .collect();
    if string.0 != want || string.1 != plain.1 {
        let show = |l: &[(usize, V)]| {
            l.iter()
                .map(|(e, v)| format!("..{e} {}", v.show()))
                .collect::<Vec<_>>()
        };
        return Err(format!(
            "string() of {} from byte {start}\nshould give: {:?}, error {:?}\ngives:       {:?}, error {:?}",
            describe(&p, &s),
            show(&want),
            plain.1,
            show(&string.0),
            string.1
        ));
    }
    if !trace.is_empty() {
        return Err(format!(
            "string() of {}: conversions {trace:?} ran",
            describe(&p, &s)
        ));
    }
    // And the whole thing.
    if start == 0 {
        let (a, b) = (run(&dp, &s, FUEL), run(&dsp, &s, FUEL));
        let want = match a {
            Seen::Ok(_) => Seen::Ok(V::Str(s.clone())),
            e => e,
        };
        if b != want {
            return Err(format!(
                "string() of {}\nshould give: {}\ngives:       {}",
                describe(&p, &s),
                want.text(),
                b.text()
            ));
        }
    }
    case.class_if(p.any(&mut |p| matches!(p, Pat::Map(..))), "has conversions");
    case.class_if(want.len() > 1, "several matches");
    case.class_if(start > 0, "not from the start");
    nontrivial(want.iter().any(|(e, _)| *e > start))
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        rule: "a generated pattern p against string(p), all matches from some position; non-trivial when there is a match that is not empty",
        assumptions: &["match lists longer than 50 are compared up to there"],
        subs: vec![
            Sub { name: "strings", body: Body::Random(300_000, 6_000_000, 180, strings) },
            Sub { name: "large", body: Body::Each(crate::props::large::c16_count, crate::props::large::c16) },
        ],
    }
}

// --- C18

#[derive(Debug)]
struct Wrapped(ParseError);
impl From<ParseError> for Wrapped {
    fn from(e: ParseError) -> Self {
        Wrapped(e)
    }
}

fn final_newline(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 10);
    let mut g = Gen::any_theme(t, budget);
    if t.chance(1, 2) {
        g = Gen::new(Theme::Regions, budget);
    }
    let mut p = g.pattern(t);
    // Often something that ends with a line.
    p = match t.below(5) {
        0 => Pat::Lines(b(p)),
        1 => Pat::Line(b(p)),
        2 => Pat::Seq(vec![Pat::Paren(b(p)), Pat::lit("\n")]),
        _ => p,
    };
    let mut s = input_for(&p, t);
    match t.below(4) {
        0 => s = s.trim_end_matches('\n').to_string(),
        1 => s.push('\n'),
        2 => s.push_str(t.pick(&["\r\n", "\r", "\n\n", "\u{2028}", " "])),
        _ => {}
    }
    let mut full = s.clone();
    if full.as_bytes().last() != Some(&b'\n') {
        full.push('\n');
    }
    case.key(&(&p, &s));
    case.show(|| describe(&p, &s));
    if model::parse(&p, &full, MODEL_FUEL).is_none() {
        return Ok(Status::Discard);
    }
    let dp = build_user(&p);
    take_trace();
    let want = run(&dp, &full, FUEL);
    let want_trace = take_trace();
    if matches!(want, Seen::Panic(_)) {
        return Ok(Status::Discard);
    }
    let got: Seen = guard(|| {
        set_fuel(FUEL);
        aoc_parse::<_, ParseError>(&s, dp.clone())
    })
    .map_or_else(Seen::Panic, Seen::from_result);
    let got_trace = take_trace();
    if got != want || got_trace != want_trace {
        return Err(format!(
            "aoc_parse of {}\nparsing {full:?}: {}\naoc_parse: {}",
            describe(&p, &s),
            want.text(),
            got.text()
        ));
    }
    // Borrowed parser, other error types.
    let wrapped: Result<V, Wrapped> = aoc_parse(&s, &dp);
    let boxed: Result<V, Box<dyn std::error::Error>> = aoc_parse(&s, dp);
    if let Err(Wrapped(e)) = &wrapped {
        if e.source != full {
            return Err(format!(
                "aoc_parse of {}\nthe error has the source {:?}",
                describe(&p, &s),
                e.source
            ));
        }
    }
    let wrapped = Seen::from_result(wrapped.map_err(|e| e.0));
    let boxed_text = boxed.map_err(|e| e.to_string());
    if wrapped != want {
        return Err(format!(
            "aoc_parse of {}\nparsing {full:?}: {}\naoc_parse, with its own error type: {}",
            describe(&p, &s),
            want.text(),
            wrapped.text()
        ));
    }
    let want_text = match &want {
        Seen::Ok(v) => Ok(v.clone()),
        Seen::Err { message, .. } => Err(message.clone()),
        Seen::Panic(_) => unreachable!(),
    };
    if boxed_text != want_text {
        return Err(format!("aoc_parse of {}: {boxed_text:?} boxed", describe(&p, &s)));
    }
    case.class_if(want.is_ok(), "accepted");
    case.class_if(!want.is_ok(), "rejected");
    case.class_if(full != s, "newline added");
    nontrivial(full != s)
}

/// Any text at all.
fn whole_text(t: &mut Tape, case: &mut Case) -> Verdict {
    let mut s = String::new();
    for _ in 0..t.range(0, 5) {
        let piece = any_text(t, 6);
        let times = match t.below(12) {
            0 => 1 << t.below(13),
            1 => t.below(300),
            _ => 1,
        };
        s.extend(std::iter::repeat(piece.as_str()).take(times));
    }
    s.push_str(t.pick(&["", "", "\r", "\n", "\n\n", "\n ", "\u{85}", "\u{2028}", "\0", "\u{feff}", "\t", "\n\r", "\u{b}"]));
    if t.chance(1, 4) {
        s.insert_str(0, t.pick(&["\u{feff}", "\n", " ", "\r\n"]));
    }
    case.key(&s);
    case.show(|| {
        let short: String = s.chars().take(60).collect();
        format!("{short:?}, {} bytes", s.len())
    });
    let mut full = s.clone();
    if full.as_bytes().last() != Some(&b'\n') {
        full.push('\n');
    }
    let all = parser!(string(any_char*));
    let got = aoc_parse::<_, ParseError>(&s, all);
    if got.as_ref().ok() != Some(&full) {
        return Err(format!("aoc_parse of {s:?}, any characters: {got:?}"));
    }
    let nothing = char_of("");
    // Rejected: at the start, in the middle, at the end.
    let cut = full.char_indices().map(|(i, _)| i).nth(full.chars().count() / 2).unwrap_or(0);
    for at in [0, cut, full.len()] {
        let before = &full[..at];
        let q = parser!(before nothing);
        let got = aoc_parse::<_, ParseError>(&s, &q);
        match got {
            Err(e) if e.location == at && e.source == full => {}
            Err(e) => {
                return Err(format!(
                    "aoc_parse of {s:?} fails at byte {} of {:?}; it should fail at byte {at} of {full:?}",
                    e.location, e.source
                ))
            }
            Ok(_) => return Err(format!("aoc_parse of {s:?} succeeds with a pattern that matches nothing")),
        }
    }
    case.class_if(s.len() > 1000, "over 1000 bytes");
    case.class_if(full == s, "has its newline");
    nontrivial(full != s)
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        rule: "a generated pattern and text; aoc_parse of the text against parse of the text with a final newline; non-trivial when the newline is missing",
        assumptions: &[],
        subs: vec![
            Sub { name: "final_newline", body: Body::Random(200_000, 4_000_000, 160, final_newline) },
            Sub { name: "whole_text", body: Body::Random(200_000, 4_000_000, 60, whole_text) },
            Sub { name: "large", body: Body::Each(crate::props::large::c18_count, crate::props::large::c18) },
        ],
    }
}

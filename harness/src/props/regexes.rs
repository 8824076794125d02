//! C02: on regular patterns aoc-parse agrees with the regex crate.

use crate::erase::{build_user, run, Seen};
use crate::leaf::{CHAR_OFS, CLASSES};
use crate::pat::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::value::V;

/// The same pattern as a regular expression, if it is one.
fn to_regex(p: &Pat) -> Option<String> {
    let all = |ps: &[Pat], sep: &str| {
        Some(
            ps.iter()
                .map(to_regex)
                .collect::<Option<Vec<_>>>()?
                .join(sep),
        )
    };
    Some(match p {
        Pat::Lit(s) => regex::escape(s),
        Pat::Chr(c) => regex::escape(&c.to_string()),
        Pat::Unit => String::new(),
        Pat::Class(i) => match CLASSES[*i].name {
            "alpha" => r"\p{Alphabetic}",
            "alnum" => r"[\p{Alphabetic}\p{N}]",
            "upper" => r"\p{Uppercase}",
            "lower" => r"\p{Lowercase}",
            "any_char" => r"(?s:.)",
            "digit" => "[0-9]",
            "digit_bin" => "[01]",
            "digit_hex" => "[0-9a-fA-F]",
            _ => return None,
        }
        .into(),
        Pat::CharOf(i) => {
            let cs: Vec<String> = CHAR_OFS[*i]
                .chars()
                .map(|c| regex::escape(&c.to_string()))
                .collect();
            if cs.is_empty() {
                return None;
            }
            format!("(?:{})", cs.join("|"))
        }
        Pat::Seq(ps) => format!("(?:{})", all(ps, "")?),
        // The empty groups keep the regex crate from taking common prefixes out
        // of the alternatives, which it does even where that changes which
        // match comes first (`\A([ab]?ba[ab]?|[ab]?a)(a?)\z` on "baa").
        Pat::Alt(ps) => format!("(?:(){})", all(ps, "|()")?),
        Pat::Paren(p) | Pat::Str(p) => format!("(?:{})", to_regex(p)?),
        Pat::Opt(p) => format!("(?:{})?", to_regex(p)?),
        Pat::Star(p) => format!("(?:{})*", to_regex(p)?),
        Pat::Plus(p) => format!("(?:{})+", to_regex(p)?),
        Pat::RepSep(p, s) => {
            let (p, s) = (to_regex(p)?, to_regex(s)?);
            format!("(?:(?:{p})(?:(?:{s})(?:{p}))*)?")
        }
        Pat::Map(_, ts) => {
            let ts: Vec<Pat> = ts.iter().map(|(_, p)| p.clone()).collect();
            format!("(?:{})", all(&ts, "")?)
        }
        _ => return None,
    })
}

fn generator(t: &mut Tape) -> Gen {
    let budget = t.range(2, 16);
    let theme = *t.pick(&[Theme::Tiny, Theme::Tiny, Theme::Mixed]);
    let mut g = Gen::new(theme, budget);
    g.rules = false;
    g.regions = false;
    g.custom = false;
    g.colls = false;
    g.numbers = false;
    g
}

fn compile(re: &str) -> Option<regex::Regex> {
    regex::Regex::new(re).ok()
}

fn accepts(t: &mut Tape, case: &mut Case) -> Verdict {
    let p = generator(t).pattern(t);
    let Some(re) = to_regex(&p) else {
        return Ok(Status::Discard);
    };
    let Some(whole) = compile(&format!(r"\A(?:{re})\z")) else {
        return Ok(Status::Discard);
    };
    let n = t.range(2, 6);
    let inputs: Vec<String> = (0..n).map(|_| input_for(&p, t)).collect();
    case.key(&(&p, &inputs));
    case.show(|| format!("pattern: {}\nregex: {re}\ninputs: {inputs:?}", p.text()));
    let dp = build_user(&p);
    let mut status = Status::Trivial;
    for s in &inputs {
        let want = whole.is_match(s);
        let got = run(&dp, s, 2_000_000);
        if matches!(&got, Seen::Panic(m) if m == crate::erase::OUT_OF_FUEL) {
            case.class("too big");
            continue;
        }
        if got.is_ok() != want || matches!(got, Seen::Panic(_)) {
            return Err(format!(
                "pattern: {}\ninput: {s:?}\nthe regex {re} {} it; got {}",
                p.text(),
                if want { "matches" } else { "does not match" },
                got.text()
            ));
        }
        case.class_if(want, "accepted");
        case.class_if(!want, "rejected");
        if !s.is_empty() {
            status = Status::NonTrivial;
        }
    }
    Ok(status)
}

/// The text that each part of a concatenation gets.
fn spans(t: &mut Tape, case: &mut Case) -> Verdict {
    let mut g = generator(t);
    g.nullable_reps = false;
    let n = t.range(2, 4);
    g.budget = g.budget.min(9);
    let parts: Vec<Pat> = (0..n)
        .map(|_| {
            g.budget += 2;
            let p = g.expr(t, false);
            match t.below(4) {
                0 if !p.nullable() => Pat::Star(b(Pat::Paren(b(p)))),
                1 => Pat::Opt(b(Pat::Paren(b(p)))),
                2 if !p.nullable() => Pat::RepSep(b(p), b(Pat::lit(","))),
                _ => p,
            }
        })
        .collect();
    let Some(res) = parts.iter().map(to_regex).collect::<Option<Vec<_>>>() else {
        return Ok(Status::Discard);
    };
    let groups: String = res
        .iter()
        .enumerate()
        .map(|(i, r)| format!("(?<part{i}>{r})"))
        .collect();
    let Some(whole) = compile(&format!(r"\A{groups}\z")) else {
        return Ok(Status::Discard);
    };
    let p = Pat::Seq(
        parts
            .iter()
            .map(|p| Pat::Str(b(Pat::Paren(b(p.clone())))))
            .collect(),
    );
    let n = t.range(2, 5);
    let inputs: Vec<String> = (0..n).map(|_| input_for(&p, t)).collect();
    case.key(&(&p, &inputs));
    case.show(|| {
        format!(
            "pattern: {}\nregex: {groups}\ninputs: {inputs:?}",
            p.text()
        )
    });
    let dp = build_user(&p);
    let mut status = Status::Trivial;
    for s in &inputs {
        let want = match whole.captures(s) {
            None => None,
            Some(c) => Some(V::Tuple(
                (0..res.len())
                    .map(|i| V::Str(c[&*format!("part{i}")].to_string()))
                    .collect(),
            )),
        };
        let got = run(&dp, s, 2_000_000);
        if matches!(&got, Seen::Panic(m) if m == crate::erase::OUT_OF_FUEL) {
            case.class("too big");
            continue;
        }
        let same = match (&want, &got) {
            (Some(w), Seen::Ok(v)) => w == v,
            (None, Seen::Err { .. }) => true,
            _ => false,
        };
        if !same {
            return Err(format!(
                "pattern: {}\ninput: {s:?}\ngroups of the regex {groups}: {}\ngot: {}",
                p.text(),
                want.map_or("no match".to_string(), |v| v.show()),
                got.text()
            ));
        }
        case.class_if(want.is_some(), "accepted");
        case.class_if(want.is_none(), "rejected");
        if want.is_some() && s.len() > 1 {
            status = Status::NonTrivial;
        }
    }
    Ok(status)
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "a generated regular pattern is translated to a regex and both are run on inputs derived from the pattern; 'accepts': non-trivial when an input is not empty; 'spans': the text of each part of a concatenation against the regex's groups, non-trivial when an input of more than one character matches",
        assumptions: &["the regex crate's leftmost-first semantics is the backtracking one"],
        subs: vec![
            Sub { name: "accepts", body: Body::Random(30_000, 3_000_000, 160, accepts) },
            Sub { name: "spans", body: Body::Random(30_000, 2_500_000, 160, spans) },
        ],
    }
}

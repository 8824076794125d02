//! C05: single characters and exact text.

use super::core::pattern_vs_model;
use crate::leaf::*;
use crate::pat::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::value::V;
use aoc_parse::prelude as ap;
use aoc_parse::{ParseContext, ParseIter, Parser};

fn class_result(i: usize, s: &str) -> Option<V> {
    match CLASSES[i].name {
        "alpha" => ap::alpha.parse(s).ok().map(V::Char),
        "alnum" => ap::alnum.parse(s).ok().map(V::Char),
        "upper" => ap::upper.parse(s).ok().map(V::Char),
        "lower" => ap::lower.parse(s).ok().map(V::Char),
        "any_char" => ap::any_char.parse(s).ok().map(V::Char),
        "digit" => ap::digit.parse(s).ok().map(V::int),
        "digit_bin" => ap::digit_bin.parse(s).ok().map(V::int),
        "digit_hex" => ap::digit_hex.parse(s).ok().map(V::int),
        other => unreachable!("{other}"),
    }
}

fn end_of<P: Parser>(p: P, s: &str, start: usize) -> Result<Option<(usize, P::RawOutput)>, String> {
    let mut cx = ParseContext::new(s);
    let r = match p.parse_iter(&mut cx, start) {
        Err(_) => Ok(None),
        Ok(mut it) => {
            let r = (it.match_end(), it.convert());
            if it.backtrack(&mut cx).is_ok() {
                return Err(format!("matches {s:?} at {start} in more than one way"));
            }
            Ok(Some(r))
        }
    };
    r
}

const BLOCK: u32 = 0x400;

fn unicode_count(_: Tier) -> usize {
    (0x110000 / BLOCK) as usize
}

/// Every Unicode scalar value with every class, and as exact text.
fn all_chars(i: usize, case: &mut Case) -> Verdict {
    let from = i as u32 * BLOCK;
    let mut n = 0;
    for u in from..from + BLOCK {
        let Some(c) = char::from_u32(u) else { continue };
        let s = c.to_string();
        for (k, spec) in CLASSES.iter().enumerate() {
            let want = (spec.pred)(c).then(|| spec.value(c));
            let got = class_result(k, &s);
            if want != got {
                return Err(format!(
                    "{} parsing {s:?} (U+{u:04X})\nexpected: {want:?}\ngot:      {got:?}",
                    spec.name
                ));
            }
        }
        // One character is exactly one character.
        for tail in ["x", "\u{301}", "7", "\n"] {
            let two = format!("{c}{tail}");
            for (name, ok) in [
                ("any_char", ap::any_char.parse(&two).is_ok()),
                ("alnum", ap::alnum.parse(&two).is_ok()),
                ("the character", c.parse(&two).is_ok()),
                ("the text", Parser::parse(s.as_str(), &two).is_ok()),
            ] {
                if ok {
                    return Err(format!("{name} for U+{u:04X} accepts {two:?}"));
                }
            }
            let got = end_of(ap::any_char, &two, 0)?;
            if got != Some((s.len(), (c,))) {
                return Err(format!("any_char in {two:?}: {got:?}"));
            }
        }
        // Exact text.
        if c.parse(&s).is_err() || Parser::parse(s.as_str(), &s).is_err() {
            return Err(format!("U+{u:04X} as exact text does not match itself"));
        }
        let other = char::from_u32(u ^ 1).unwrap_or('x').to_string();
        let cased: String = if c.is_uppercase() {
            c.to_lowercase().collect()
        } else {
            c.to_uppercase().collect()
        };
        for o in [
            &other,
            &cased,
            &format!("{c}{c}"),
            &String::new(),
            &format!(" {c}"),
        ] {
            if *o != s && (c.parse(o).is_ok() || Parser::parse(s.as_str(), o).is_ok()) {
                return Err(format!("{s:?} as exact text matches {o:?}"));
            }
        }
        n += 1;
    }
    case.show(|| format!("all characters U+{from:04X}..U+{:04X}", from + BLOCK));
    case.weight = n * 8;
    case.nontrivial_weight = n * 8;
    nontrivial(n > 0)
}

fn any_char(t: &mut Tape) -> char {
    match t.weighted(&[5, 3, 2]) {
        0 => char::from(t.range(0x20, 0x7e) as u8),
        1 => *t.pick(&[
            'é',
            'à',
            '京',
            '都',
            '😂',
            '\u{0}',
            '\n',
            '\r',
            '\u{301}',
            '\u{ffff}',
            'ß',
            'İ',
            '\u{10ffff}',
            'ǅ',
            '\u{7f}',
            '\u{80}',
        ]),
        _ => char::from_u32(t.below(0x110000) as u32).unwrap_or('\u{d7ff}'),
    }
}

fn text(t: &mut Tape, max: usize) -> String {
    let n = t.below(max + 1);
    (0..n).map(|_| any_char(t)).collect()
}

/// A text that looks like `s`, or means the same to a person.
fn lookalike(s: &str, t: &mut Tape) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() || t.chance(1, 5) {
        // Something invisible more.
        let i = t.below(cs.len() + 1);
        let more = t.pick(&["\u{feff}", "\u{200b}", "\u{ad}", "\u{fe0f}", "\u{301}", " ", "\0", "\r"]);
        let (a, b) = cs.split_at(i);
        return a.iter().collect::<String>() + more + &b.iter().collect::<String>();
    }
    let i = t.below(cs.len());
    let other: String = match cs[i] {
        ' ' => t.pick(&["\u{a0}", "\u{2003}", "\u{3000}", "\t", "  ", ""]).to_string(),
        '\n' => t.pick(&["\r\n", "\r", "\u{85}", "\u{2028}", "\u{b}", "\\n"]).to_string(),
        '\r' => "\n".into(),
        '-' => t.pick(&["–", "−", "‐", "_", "\u{ad}"]).to_string(),
        '\'' => t.pick(&["’", "`", "\""]).to_string(),
        '"' => t.pick(&["“", "''", "'"]).to_string(),
        '.' => t.pick(&["。", "…", "·", ","]).to_string(),
        'k' | 'K' => "\u{212a}".into(),
        's' | 'S' => "ſ".into(),
        'i' | 'I' => t.pick(&["ı", "İ", "l", "|"]).to_string(),
        'a' => t.pick(&["а", "ａ", "á", "A"]).to_string(),
        'é' => t.pick(&["e\u{301}", "e", "É", "è"]).to_string(),
        'à' => t.pick(&["a\u{300}", "a", "À"]).to_string(),
        'ß' => t.pick(&["ss", "ẞ"]).to_string(),
        'İ' => t.pick(&["i\u{307}", "I", "i"]).to_string(),
        'ǅ' => t.pick(&["ǆ", "Ǆ", "dž"]).to_string(),
        c @ '!'..='~' if t.chance(1, 2) => char::from_u32(c as u32 - 0x20 + 0xff00).unwrap().to_string(),
        c @ '0'..='9' => char::from_u32(c as u32 - 0x30 + 0x660).unwrap().to_string(),
        c if c.is_uppercase() => c.to_lowercase().collect(),
        c => c.to_uppercase().collect(),
    };
    cs.iter().enumerate().map(|(j, c)| if j == i { other.clone() } else { c.to_string() }).collect()
}

/// An exact string against texts related to it.
fn exact(t: &mut Tape, case: &mut Case) -> Verdict {
    let mut p = text(t, 8);
    if t.chance(1, 20) {
        p = p.repeat(t.range(1, 500));
    }
    if t.chance(1, 4) {
        // More of what people write.
        let words: Vec<&str> = (0..t.range(1, 4)).map(|_| *t.pick(&["ok", "Kiss", "a-b", "it's", "1.5", " ", "é", "\"x\"", "\n"])).collect();
        p = words.join(t.pick(&["", " ", "  "]));
    }
    let s = match t.below(8) {
        0 => p.clone(),
        6 => lookalike(&p, t),
        7 => {
            let s = lookalike(&p, t);
            std::mem::replace(&mut p, s)
        }
        1 => mutate(&p, 1, t),
        2 => format!("{p}{}", text(t, 3)),
        3 => p.to_uppercase(),
        4 => {
            let n = t.below(p.chars().count() + 1);
            p.chars().take(n).collect()
        }
        _ => text(t, 8),
    };
    case.key(&(&p, &s));
    case.show(|| format!("pattern {p:?}, input {s:?}"));
    let got = Parser::parse(p.as_str(), &s).is_ok();
    if got != (p == s) {
        return Err(format!("exact text {p:?} on {s:?}: accepted = {got}"));
    }
    // At any place.
    let before = text(t, 4);
    let all = format!("{before}{s}");
    let want = s
        .as_bytes()
        .starts_with(p.as_bytes())
        .then_some((before.len() + p.len(), ()));
    let got = end_of(p.as_str(), &all, before.len())?;
    if got != want {
        return Err(format!(
            "exact text {p:?} at byte {} of {all:?}: {got:?} instead of {want:?}",
            before.len()
        ));
    }
    if let Some(c) = p.chars().next() {
        let want = s.chars().next() == Some(c);
        let got = end_of(c, &all, before.len())?;
        if got != want.then_some((before.len() + c.len_utf8(), ())) {
            return Err(format!(
                "character {c:?} at byte {} of {all:?}: {got:?}",
                before.len()
            ));
        }
    }
    case.class(if p == s { "same" } else { "different" });
    nontrivial(!p.is_empty())
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// char_of with any options.
fn char_of(t: &mut Tape, case: &mut Case) -> Verdict {
    let options = match t.weighted(&[6, 2, 1, 2]) {
        3 => {
            // In order, or nearly, with repetitions.
            let from = *t.pick(&[' ' as u32, '0' as u32, 'a' as u32, 0xf0, 0x4e00, 0x1f600]);
            let span = t.range(1, 60);
            let mut cs: Vec<u32> = (0..t.range(2, 80)).map(|_| from + t.below(span) as u32).collect();
            cs.sort();
            if t.chance(1, 4) {
                cs.reverse();
            }
            if t.chance(1, 4) {
                let (i, j) = (t.below(cs.len()), t.below(cs.len()));
                cs.swap(i, j);
            }
            cs.into_iter().filter_map(char::from_u32).collect()
        }
        0 => text(t, 6),
        1 => {
            // With repetitions.
            let some = text(t, 4);
            let n = t.below(10);
            let cs: Vec<char> = some.chars().chain(['a']).collect();
            (0..n).map(|_| *t.pick(&cs)).collect()
        }
        _ => {
            // Many.
            let from = t.below(0x3000) as u32;
            let n = t.range(200, 1500) as u32;
            (from..from + n).filter_map(char::from_u32).collect()
        }
    };
    let cs: Vec<char> = options.chars().collect();
    let c = if !cs.is_empty() && t.chance(2, 3) {
        *t.pick(&cs)
    } else {
        any_char(t)
    };
    let options: &'static str = leak(options);
    case.key(&(options, c));
    case.show(|| format!("char_of({options:?}) on {c:?}"));
    let p = ap::char_of(options);
    let want = cs.iter().position(|x| *x == c);
    let s = c.to_string();
    let got = p.parse(&s).ok();
    if got != want {
        return Err(format!(
            "char_of({options:?}) on {s:?}: {got:?} instead of {want:?}"
        ));
    }
    let before = text(t, 3);
    let all = format!("{before}{c}{}", any_char(t));
    let got = end_of(p, &all, before.len())?;
    let want = want.map(|i| (before.len() + c.len_utf8(), (i,)));
    if got != want {
        return Err(format!(
            "char_of({options:?}) at byte {} of {all:?}: {got:?} instead of {want:?}",
            before.len()
        ));
    }
    if p.parse(&all[before.len()..]).is_ok() || p.parse("").is_ok() {
        return Err(format!(
            "char_of({options:?}) matches more or less than one character"
        ));
    }
    case.class_if(want.is_some(), "found");
    case.class_if(cs.len() > 256, "over 256 options");
    nontrivial(cs.len() > 1)
}

/// Lists that are parts of one another, used in turn.
fn char_of_parts(t: &mut Tape, case: &mut Case) -> Verdict {
    let whole = {
        let mut s = text(t, 8);
        s.push_str(&text(t, 4));
        s
    };
    let whole: &'static str = leak(whole);
    let mut bounds: Vec<usize> = whole.char_indices().map(|(i, _)| i).collect();
    bounds.push(whole.len());
    let mut parts = vec![];
    for _ in 0..t.range(2, 5) {
        let i = t.below(bounds.len());
        // Often with the same start as another.
        let i = if t.chance(1, 2) { 0 } else { i };
        let j = t.range(i, bounds.len() - 1);
        parts.push(&whole[bounds[i]..bounds[j]]);
    }
    case.key(&(whole, &parts));
    case.show(|| format!("char_of of each of {parts:?} in turn, parts of {whole:?}"));
    let parsers: Vec<_> = parts.iter().map(|o| ap::char_of(o)).collect();
    for _ in 0..t.range(2, 12) {
        let k = t.below(parts.len());
        let c = match whole.chars().nth(t.below(bounds.len())) {
            Some(c) => c,
            None => any_char(t),
        };
        let want = parts[k].chars().position(|x| x == c);
        let got = parsers[k].parse(&c.to_string()).ok();
        if got != want {
            return Err(format!(
                "char_of({:?}) on {c:?}, after other uses of {parts:?}: {got:?} instead of {want:?}",
                parts[k]
            ));
        }
    }
    nontrivial(bounds.len() > 3)
}

fn char_of_each_count(_: Tier) -> usize {
    3
}

/// Every option of long lists.
fn char_of_each(i: usize, case: &mut Case) -> Verdict {
    let options: String = match i {
        0 => (0x20u32..0x2020).filter_map(char::from_u32).collect(),
        1 => (0x1f300u32..0x1f700).filter_map(char::from_u32).collect(),
        _ => "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/=!?".to_string(),
    };
    let options = leak(options);
    let p = ap::char_of(options);
    let mut n = 0;
    for (j, c) in options.chars().enumerate() {
        n += 1;
        let got = p.parse(&c.to_string()).ok();
        if got != Some(j) {
            return Err(format!(
                "char_of({} options) on {c:?}: {got:?} instead of {j}",
                options.chars().count()
            ));
        }
    }
    case.show(|| format!("every option of {} options", options.chars().count()));
    case.weight = n;
    case.nontrivial_weight = n;
    nontrivial(true)
}

fn patterns(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 10);
    let mut g = Gen::new(Theme::Mixed, budget);
    g.numbers = false;
    pattern_vs_model(t, case, g)
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "a character, exact text, class or char_of list and a text, against the definition; all Unicode scalar values are enumerated for the classes; non-trivial when the pattern is not empty",
        assumptions: &["char::is_alphabetic and the like in the standard library"],
        subs: vec![
            Sub { name: "unicode", body: Body::Each(unicode_count, all_chars) },
            Sub { name: "exact", body: Body::Random(1_000_000, 30_000_000, 40, exact) },
            Sub { name: "char_of", body: Body::Random(500_000, 5_000_000, 100, char_of) },
            Sub { name: "char_of_parts", body: Body::Random(300_000, 4_000_000, 60, char_of_parts) },
            Sub { name: "char_of_each", body: Body::Each(char_of_each_count, char_of_each) },
            Sub { name: "patterns", body: Body::Random(200_000, 6_000_000, 100, patterns) },
            Sub { name: "large", body: Body::Each(crate::props::large::c05_count, crate::props::large::c05) },
        ],
    }
}

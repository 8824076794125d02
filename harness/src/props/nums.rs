//! C03 (integers) and C04 (floats and bool).

use super::core::pattern_vs_model;
use crate::erase::Seen;
use crate::leaf::*;
use crate::model::describe_location;
use crate::pat::{mutate, sample_num, to_radix, Gen, Theme};
use crate::runner::*;
use crate::tape::Tape;
use crate::value::V;
use aoc_parse::prelude as ap;
use aoc_parse::{ParseContext, ParseIter, Parser};
use num_bigint::BigInt;

/// Where a parser's only match at `start` ends, if it matches there, and what
/// it converts to.
fn probe<P: Parser>(p: P, s: &str, start: usize) -> Result<Option<(usize, P::RawOutput)>, String> {
    let mut cx = ParseContext::new(s);
    let r = match p.parse_iter(&mut cx, start) {
        Err(_) => Ok(None),
        Ok(mut it) => {
            let end = it.match_end();
            let v = it.convert();
            if it.backtrack(&mut cx).is_ok() {
                return Err(format!("matches {s:?} at {start} in more than one way"));
            }
            Ok(Some((end, v)))
        }
    };
    r
}

pub struct NumRun {
    pub parse: fn(&str) -> Seen,
    pub probe: fn(&str, usize) -> Result<Option<(usize, V)>, String>,
}

macro_rules! num_runs {
    ( $( $name:ident )* ) => {
        /// In the order of `NUMS`.
        pub fn num_run(i: usize) -> NumRun {
            match NUMS[i].name {
                $( stringify!($name) => NumRun {
                    parse: |s| Seen::from_result(ap::$name.parse(s).map(|x| V::int(x))),
                    probe: |s, start| Ok(probe(ap::$name, s, start)?.map(|(e, (x,))| (e, V::int(x)))),
                }, )*
                other => unreachable!("{other}"),
            }
        }
    };
}
num_runs!(
    u8 u8_bin u8_hex u16 u16_bin u16_hex u32 u32_bin u32_hex u64 u64_bin u64_hex
    u128 u128_bin u128_hex usize usize_bin usize_hex
    i8 i8_bin i8_hex i16 i16_bin i16_hex i32 i32_bin i32_hex i64 i64_bin i64_hex
    i128 i128_bin i128_hex isize isize_bin isize_hex
    big_uint big_uint_bin big_uint_hex big_int big_int_bin big_int_hex
);

fn expected(m: LeafMatch, s: &str) -> Seen {
    let (location, reason) = match m {
        LeafMatch::Yes(n, v) if n == s.len() => return Seen::Ok(v),
        LeafMatch::Yes(n, _) => (n, "extra unparsed text after match".to_string()),
        LeafMatch::No(reason) => (0, reason),
    };
    Seen::Err {
        location,
        message: format!("{reason} {}", describe_location(s, location)),
    }
}

fn clip(s: &str) -> String {
    if s.len() > 300 {
        let head: String = s.chars().take(140).collect();
        format!("{head:?}... ({} bytes)", s.len())
    } else {
        format!("{s:?}")
    }
}

fn judge(name: &str, s: &str, want: Seen, got: Seen) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!(
            "{name} parsing {}\nexpected: {}\ngot:      {}",
            clip(s),
            want.text(),
            got.text()
        ))
    }
}

/// Acceptance and value; what errors say is for C09.
fn same_result(want: &Seen, got: &Seen) -> bool {
    match (want, got) {
        (Seen::Ok(a), Seen::Ok(b)) => a == b,
        (Seen::Err { location: a, .. }, Seen::Err { location: b, .. }) => a == b,
        _ => false,
    }
}

fn check_num(i: usize, run: &NumRun, s: &str) -> Result<bool, String> {
    let spec = &NUMS[i];
    let want = expected(spec.match_at(s), s);
    let got = (run.parse)(s);
    if !same_result(&want, &got) {
        return judge(spec.name, s, want, got).map(|_| true);
    }
    Ok(want.is_ok())
}

fn check_num_at(i: usize, run: &NumRun, s: &str, start: usize) -> Result<(), String> {
    let spec = &NUMS[i];
    let want = match spec.match_at(&s[start..]) {
        LeafMatch::Yes(n, v) => Some((start + n, v)),
        LeafMatch::No(_) => None,
    };
    let got = (run.probe)(s, start)?;
    if want != got {
        let show = |x: &Option<(usize, V)>| match x {
            None => "no match".to_string(),
            Some((e, v)) => format!("match up to {e}: {}", v.show()),
        };
        return Err(format!(
            "{} at byte {start} of {}\nexpected: {}\ngot:      {}",
            spec.name,
            clip(s),
            show(&want),
            show(&got)
        ));
    }
    Ok(())
}

fn random_number(t: &mut Tape, case: &mut Case) -> Verdict {
    let i = t.below(NUMS.len());
    let spec = &NUMS[i];
    let run = num_run(i);
    let mut s = match t.weighted(&[8, 2, 1]) {
        0 => sample_num(spec, t),
        1 => {
            let j = t.below(NUMS.len());
            sample_num(&NUMS[j], t)
        }
        _ => crate::pat::any_text(t, 8),
    };
    if t.chance(1, 3) {
        let n = t.range(1, 2);
        s = mutate(&s, n, t);
    }
    case.key(&(i, &s));
    case.show(|| format!("{} parsing {s:?}", spec.name));
    let ok = check_num(i, &run, &s)?;
    case.class(if ok { "accepted" } else { "rejected" });
    // In the middle of a text.
    let before = *t.pick(&["", "a", "1", "-", "é", "\n", "12,", "+ ", "😂"]);
    let after = *t.pick(&[
        "", "a", "g", ",", "-3", "+", "é", "_1", ".5", "\n7", " ", "٣", "e5",
    ]);
    let text = format!("{before}{s}{after}");
    check_num_at(i, &run, &text, before.len())?;
    let oob = matches!(spec.match_at(&s), LeafMatch::No(m) if m.starts_with("failed"));
    case.class_if(oob, "out of range");
    nontrivial(ok || oob || s.len() > 1)
}

const SHORT: &[&str] = &[
    "+", "-", "0", "1", "2", "9", "a", "f", "F", "g", "_", " ", ".", "é", "٣",
];

fn short_count(tier: Tier) -> usize {
    let n: usize = SHORT.len();
    // All strings of up to 3 (or 4) of those, in blocks by the first two.
    let _ = tier;
    n * n * NUMS.len()
}

fn short_strings(i: usize, case: &mut Case) -> Verdict {
    let n = SHORT.len();
    let which = i % NUMS.len();
    let ab = i / NUMS.len();
    let run = num_run(which);
    let head = format!("{}{}", SHORT[ab / n], SHORT[ab % n]);
    let mut count = 0;
    let mut nt = 0;
    let mut visit = |s: &str| -> Result<(), String> {
        count += 1;
        if check_num(which, &run, s)? {
            nt += 1;
        }
        Ok(())
    };
    if ab == 0 {
        visit("")?;
        for a in SHORT {
            visit(a)?;
        }
    }
    visit(&head)?;
    for c in SHORT {
        let s = format!("{head}{c}");
        visit(&s)?;
        for d in SHORT {
            let s = format!("{s}{d}");
            visit(&s)?;
            if case.tier == Tier::Thorough {
                for e in SHORT {
                    visit(&format!("{s}{e}"))?;
                }
            }
        }
    }
    case.show(|| {
        format!(
            "{} with every string over {SHORT:?} of 3 or 4 that starts {head:?}",
            NUMS[which].name
        )
    });
    case.weight = count;
    case.nontrivial_weight = nt;
    nontrivial(nt > 0)
}

// Every value near the range of each 8- and 16-bit type, in several spellings.
const SPAN: i64 = 70_000;
const BLOCK: i64 = 1000;
fn values_count(_: Tier) -> usize {
    (2 * SPAN / BLOCK) as usize * NUMS.len()
}

fn all_values(i: usize, case: &mut Case) -> Verdict {
    let which = i % NUMS.len();
    let from = (i / NUMS.len()) as i64 * BLOCK - SPAN;
    let spec = &NUMS[which];
    let run = num_run(which);
    let mut nt = 0;
    for x in from..from + BLOCK {
        let digits = to_radix(&BigInt::from(x.abs()), spec.radix);
        let sign = if x < 0 {
            "-"
        } else if x % 3 == 0 {
            "+"
        } else {
            ""
        };
        let zeros = ["", "0", "00000000", "0000000000000000000000"][(x.rem_euclid(7) as usize) % 4];
        let digits = if x % 2 == 0 {
            digits.to_uppercase()
        } else {
            digits
        };
        let s = format!("{sign}{zeros}{digits}");
        if check_num(which, &run, &s)? {
            nt += 1;
        }
    }
    case.show(|| {
        format!(
            "{} with {from}..{}, in base {}",
            spec.name,
            from + BLOCK,
            spec.radix
        )
    });
    case.weight = BLOCK as u64;
    case.nontrivial_weight = nt;
    nontrivial(nt > 0)
}

// Around every power of two, ten and sixteen; lots of digits.
fn limits_count(_: Tier) -> usize {
    NUMS.len() * 300
}

fn limits(i: usize, case: &mut Case) -> Verdict {
    let which = i % NUMS.len();
    let k = i / NUMS.len();
    let spec = &NUMS[which];
    let run = num_run(which);
    let mut count = 0;
    let mut nt = 0;
    let base: BigInt = match k % 3 {
        0 => BigInt::from(1) << (k / 3 * 2),
        1 => BigInt::from(10).pow((k / 3) as u32),
        _ => (BigInt::from(1) << (k / 3 * 2 + 1)) - 1,
    };
    for d in -12i32..=12 {
        for neg in [false, true] {
            let x = base.clone() + d;
            if x < BigInt::from(0) {
                continue;
            }
            let digits = to_radix(&x, spec.radix);
            for zeros in [0, 1, 40] {
                let s = format!(
                    "{}{}{digits}",
                    if neg { "-" } else { "" },
                    "0".repeat(zeros)
                );
                count += 1;
                if check_num(which, &run, &s)? {
                    nt += 1;
                }
            }
        }
    }
    case.show(|| format!("{} within 12 of {base}", spec.name));
    case.weight = count;
    case.nontrivial_weight = nt;
    nontrivial(nt > 0)
}

fn long_count(_: Tier) -> usize {
    NUMS.len() * 6
}

fn long_digits(i: usize, case: &mut Case) -> Verdict {
    let which = i % NUMS.len();
    let spec = &NUMS[which];
    let run = num_run(which);
    let n = [100, 255, 256, 257, 1024, 70_000][i / NUMS.len()];
    // All zeros and then something; and for big integers, real digits.
    let mut s = "0".repeat(n);
    s.push('1');
    check_num(which, &run, &s)?;
    let s = format!("{}{s}", if spec.signed { "-" } else { "" });
    check_num(which, &run, &s)?;
    check_num_at(which, &run, &format!("x{s},"), 1)?;
    if n <= 1024 {
        let s: String = (0..n)
            .map(|j| char::from(b'0' + ((j * 7 + 1) % spec.radix.min(10) as usize) as u8))
            .collect();
        check_num(which, &run, &s)?;
        check_num(which, &run, &format!("-{s}"))?;
    }
    case.show(|| format!("{} with {n} digits", spec.name));
    nontrivial(true)
}

/// Numbers of any length, big integers mostly.
fn many_digits(t: &mut Tape, case: &mut Case) -> Verdict {
    let bigs: Vec<usize> = (0..NUMS.len()).filter(|i| NUMS[*i].name.starts_with("big")).collect();
    let i = if t.chance(3, 4) { *t.pick(&bigs) } else { t.below(NUMS.len()) };
    let spec = &NUMS[i];
    let bits = t.range(3, 12);
    let n = t.range(1 << bits, (2 << bits) - 1);
    let mut s = String::from(*t.pick(&["", "", "-", "+"]));
    let mut x = (t.raw() as u64) << 32 | t.raw() as u64 | 1;
    let style = t.below(4);
    let run = t.range(1, 50) as u64;
    let mut d = 0;
    for _ in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        d = match style {
            0 => x % spec.radix as u64,
            // Mostly zeros, mostly the highest digit, and runs.
            1 => if x % run == 0 { x / run % spec.radix as u64 } else { 0 },
            2 => if x % run == 0 { x / run % spec.radix as u64 } else { spec.radix as u64 - 1 },
            _ => if x % run == 0 { x / run % spec.radix as u64 } else { d },
        };
        s.push(char::from_digit(d as u32, 16).unwrap());
    }
    if t.chance(1, 3) {
        s = s.to_uppercase();
    }
    case.key(&(i, &s));
    case.show(|| format!("{} parsing {}", spec.name, clip(&s)));
    let run = num_run(i);
    let ok = check_num(i, &run, &s)?;
    let before = *t.pick(&["", "a", "1", "-", "é", "\n"]);
    let after = *t.pick(&["", "g", ",", "-3", "_1", ".5", "\n7", " ", "٣"]);
    check_num_at(i, &run, &format!("{before}{s}{after}"), before.len())?;
    case.class(if ok { "accepted" } else { "rejected" });
    case.class_if(ok && n > 1000, "accepted, over 1000 digits");
    nontrivial(true)
}

fn number_patterns(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 10);
    let theme = *t.pick(&[Theme::Mixed, Theme::Values]);
    let mut g = Gen::new(theme, budget);
    g.only_numbers = true;
    pattern_vs_model(t, case, g)
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "an integer parser and a text, against integers computed digit by digit with big-integer arithmetic: match, extent, value and whether it is in range; non-trivial when the text is a number, out of range, or longer than one character",
        assumptions: &["num-bigint arithmetic is right"],
        subs: vec![
            Sub { name: "random", body: Body::Random(1_500_000, 40_000_000, 24, random_number) },
            Sub { name: "short", body: Body::Each(short_count, short_strings) },
            Sub { name: "many_digits", body: Body::Random(8_000, 400_000, 20, many_digits) },
            Sub { name: "values", body: Body::Each(values_count, all_values) },
            Sub { name: "limits", body: Body::Each(limits_count, limits) },
            Sub { name: "long", body: Body::Each(long_count, long_digits) },
            Sub { name: "patterns", body: Body::Random(200_000, 6_000_000, 100, number_patterns) },
            Sub { name: "large", body: Body::Each(crate::props::large::c03_count, crate::props::large::c03) },
        ],
    }
}

// --- C04

fn word_name(w: Word) -> &'static str {
    match w {
        Word::F32 => "f32",
        Word::F64 => "f64",
        Word::Bool => "bool",
    }
}

fn parse_word(w: Word, s: &str) -> Seen {
    match w {
        Word::F32 => Seen::from_result(ap::f32.parse(s).map(|x| V::F32(x.to_bits()))),
        Word::F64 => Seen::from_result(ap::f64.parse(s).map(|x| V::F64(x.to_bits()))),
        Word::Bool => Seen::from_result(ap::bool.parse(s).map(V::Bool)),
    }
}

fn probe_word(w: Word, s: &str, start: usize) -> Result<Option<(usize, V)>, String> {
    Ok(match w {
        Word::F32 => probe(ap::f32, s, start)?.map(|(e, (x,))| (e, V::F32(x.to_bits()))),
        Word::F64 => probe(ap::f64, s, start)?.map(|(e, (x,))| (e, V::F64(x.to_bits()))),
        Word::Bool => probe(ap::bool, s, start)?.map(|(e, (x,))| (e, V::Bool(x))),
    })
}

fn check_word(w: Word, s: &str) -> Result<bool, String> {
    // The documented format is that of `FromStr`, so the standard library says
    // which complete texts are right, and what they mean.
    let std = match w {
        Word::F32 => s.parse::<f32>().ok().map(|x| V::F32(x.to_bits())),
        Word::F64 => s.parse::<f64>().ok().map(|x| V::F64(x.to_bits())),
        Word::Bool => s.parse::<bool>().ok().map(V::Bool),
    };
    let got = parse_word(w, s);
    match (&std, &got) {
        (Some(v), Seen::Ok(g)) if v == g => {}
        (None, Seen::Err { .. }) => {}
        _ => {
            return Err(format!(
                "{} parsing {}\nexpected: {}\ngot:      {}",
                word_name(w),
                clip(s),
                std.map_or("an error".into(), |v| v.show()),
                got.text()
            ))
        }
    }
    let want = expected(match_word(w, s), s);
    if !same_result(&want, &got) {
        judge(word_name(w), s, want, got)?;
    }
    Ok(std.is_some())
}

fn check_word_at(w: Word, s: &str, start: usize) -> Result<(), String> {
    let want = match match_word(w, &s[start..]) {
        LeafMatch::Yes(n, v) => Some((start + n, v)),
        LeafMatch::No(_) => None,
    };
    let got = probe_word(w, s, start)?;
    if want != got {
        return Err(format!(
            "{} at byte {start} of {}\nexpected: {want:?}\ngot:      {got:?}",
            word_name(w),
            clip(s)
        ));
    }
    Ok(())
}

fn random_float_text(t: &mut Tape) -> String {
    let digits = |t: &mut Tape, max: usize| -> String {
        let n = t.range(0, max);
        (0..n)
            .map(|_| char::from(b'0' + t.below(10) as u8))
            .collect()
    };
    match t.weighted(&[6, 3, 3, 2, 2]) {
        0 => {
            let sign = *t.pick(&["", "-", "+"]);
            let a = digits(t, 6);
            let mut s = format!("{sign}{a}");
            if t.chance(1, 2) {
                s.push('.');
                s += &digits(t, 6);
            }
            if t.chance(1, 3) {
                s.push(*t.pick(&['e', 'E']));
                s += *t.pick(&["", "-", "+"]);
                s += &digits(t, 3);
            }
            s
        }
        1 => {
            let x = f64::from_bits((t.raw() as u64) << 32 | t.raw() as u64);
            match t.below(3) {
                0 => format!("{x}"),
                1 => format!("{x:e}"),
                _ => format!("{x:?}"),
            }
        }
        2 => {
            // Exactly half way between two f32s, give or take a digit.
            let x = f32::from_bits(t.raw() & 0x7fff_ffff);
            let y = f32::from_bits(x.to_bits() + 1);
            if !y.is_finite() {
                return "3.4028235677973366e38".to_string();
            }
            let mid = (x as f64 + y as f64) / 2.0;
            let mut s = format!("{mid:.60}");
            while s.ends_with('0') {
                s.pop();
            }
            if t.chance(1, 2) {
                s.push_str(t.pick(&["1", "0000000000000000000000000000000000001"]));
            }
            s
        }
        3 => {
            let w = *t.pick(&["inf", "infinity", "nan", "true", "false", "infin", "na"]);
            let w: String = w
                .chars()
                .map(|c| {
                    if t.chance(1, 3) {
                        c.to_ascii_uppercase()
                    } else {
                        c
                    }
                })
                .collect();
            format!("{}{w}", *t.pick(&["", "-", "+"]))
        }
        _ => {
            let a = digits(t, 40);
            let b = digits(t, 40);
            format!("{a}.{b}e{}", t.range(0, 400) as i32 - 340)
        }
    }
}

fn random_float(t: &mut Tape, case: &mut Case) -> Verdict {
    let w = *t.pick(&[Word::F64, Word::F32, Word::Bool]);
    let mut s = random_float_text(t);
    if t.chance(1, 4) {
        let n = t.range(1, 2);
        s = mutate(&s, n, t);
    }
    case.key(&(w, &s));
    case.show(|| format!("{} parsing {s:?}", word_name(w)));
    let ok = check_word(w, &s)?;
    case.class(if ok { "accepted" } else { "rejected" });
    let before = *t.pick(&["", "a", "1", "-", "é", "\n", "tru"]);
    let after = *t.pick(&[
        "", "e", "e+", ".", ".5", "inity", "x", "é", "E5", " ", "+1", "_", "ty",
    ]);
    let text = format!("{before}{s}{after}");
    check_word_at(w, &text, before.len())?;
    nontrivial(s.len() > 1)
}

const FSHORT: &[&str] = &[
    "+", "-", ".", "0", "1", "5", "e", "E", "i", "n", "N", "f", "a", " ",
];
const BSHORT: &[&str] = &["t", "r", "u", "e", "f", "a", "l", "s", "T"];

fn fshort_count(_: Tier) -> usize {
    FSHORT.len() * FSHORT.len() * 2 + BSHORT.len() * BSHORT.len()
}

fn short_floats(i: usize, case: &mut Case) -> Verdict {
    let nf = FSHORT.len() * FSHORT.len();
    let (w, alphabet, ab) = if i < nf {
        (Word::F64, FSHORT, i)
    } else if i < 2 * nf {
        (Word::F32, FSHORT, i - nf)
    } else {
        (Word::Bool, BSHORT, i - 2 * nf)
    };
    let n = alphabet.len();
    let head = format!("{}{}", alphabet[ab / n], alphabet[ab % n]);
    let deep = match (w, case.tier) {
        (Word::Bool, _) => 3,
        (_, Tier::Quick) => 3,
        _ => 4,
    };
    let mut count = 0;
    let mut nt = 0;
    fn walk(
        w: Word,
        s: &mut String,
        alphabet: &[&str],
        deep: usize,
        count: &mut u64,
        nt: &mut u64,
    ) -> Result<(), String> {
        *count += 1;
        if check_word(w, s)? {
            *nt += 1;
        }
        if deep > 0 {
            for a in alphabet {
                let n = s.len();
                s.push_str(a);
                walk(w, s, alphabet, deep - 1, count, nt)?;
                s.truncate(n);
            }
        }
        Ok(())
    }
    if ab == 0 {
        check_word(w, "")?;
        for a in alphabet {
            check_word(w, a)?;
        }
    }
    walk(w, &mut head.clone(), alphabet, deep, &mut count, &mut nt)?;
    case.show(|| {
        format!(
            "{} with every string over {alphabet:?} of 2 to {} that starts {head:?}",
            word_name(w),
            2 + deep
        )
    });
    case.weight = count;
    case.nontrivial_weight = nt;
    nontrivial(nt > 0)
}

/// f32 bit patterns, spread over the whole range, written out and read back.
fn f32_count(tier: Tier) -> usize {
    if tier == Tier::Quick {
        512
    } else {
        65536
    }
}

fn f32_round_trip(i: usize, case: &mut Case) -> Verdict {
    let per = 1 << 10;
    let step = if case.tier == Tier::Quick {
        (1u64 << 32) / (512 << 10)
    } else {
        (1u64 << 32) / (65536 << 10)
    };
    for j in 0..per {
        let bits = ((i as u64 * per + j) * step + (i as u64 % step)) as u32;
        let x = f32::from_bits(bits);
        if x.is_nan() {
            continue;
        }
        let s = if j % 2 == 0 {
            format!("{x}")
        } else {
            format!("{x:e}")
        };
        match ap::f32.parse(&s) {
            Ok(y) if y.to_bits() == bits => {}
            other => return Err(format!("f32 {x:?} written {s:?} is read back as {other:?}")),
        }
    }
    case.show(|| format!("f32 round trips, block {i}"));
    case.weight = per;
    case.nontrivial_weight = per;
    nontrivial(true)
}

fn word_patterns(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 8);
    let mut g = Gen::new(Theme::Mixed, budget);
    g.only_words = true;
    pattern_vs_model(t, case, g)
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "f32, f64 or bool and a text, against the standard library's FromStr (complete texts) and a scanner for its documented grammar (extent of a match); non-trivial when longer than one character (random) or accepted (enumerated)",
        assumptions: &["FromStr for f32, f64 and bool in the standard library"],
        subs: vec![
            Sub { name: "random", body: Body::Random(1_200_000, 30_000_000, 100, random_float) },
            Sub { name: "short", body: Body::Each(fshort_count, short_floats) },
            Sub { name: "round_trip", body: Body::Each(f32_count, f32_round_trip) },
            Sub { name: "patterns", body: Body::Random(150_000, 4_000_000, 80, word_patterns) },
        ],
    }
}

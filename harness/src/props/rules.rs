//! C12: rule sets.

use crate::erase::{build_user, run, DynP, Seen};
use crate::model;
use crate::pat::*;
use super::sizes;
use crate::props::core::{describe, judge_value, real_fuel, Both, MODEL_FUEL};
use crate::runner::*;
use crate::tape::Tape;
use aoc_parse::parser;
use aoc_parse::prelude::*;
use aoc_parse::{ParseContext, ParseIter, Reported};

// --- Grammars written out with parser!, against ordinary recursive descent.

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(i64),
    Text(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

fn json_parser() -> impl Parser<Output = J> {
    parser! {
        rule value: J = {
            "null" => J::Null,
            b:bool => J::Bool(b),
            n:i64 => J::Num(n),
            t:text => J::Text(t),
            "[" v:repeat_sep(value, ",") "]" => J::Arr(v),
            "{" m:members "}" => J::Obj(m),
        };
        rule members: Vec<(String, J)> = repeat_sep(member, ',');
        rule member: (String, J) = k:text ":" v:value => (k, v);
        rule text: String = '"' t:string({alnum => (), char_of(" _é") => ()}*) '"' => t;
        value
    }
}

struct Rd<'a> {
    s: &'a str,
    i: usize,
}

impl Rd<'_> {
    fn eat(&mut self, w: &str) -> Option<()> {
        self.s[self.i..].starts_with(w).then(|| self.i += w.len())
    }
    fn text(&mut self) -> Option<String> {
        self.eat("\"")?;
        let n: usize = self.s[self.i..]
            .chars()
            .take_while(|c| c.is_alphanumeric() || " _é".contains(*c))
            .map(|c| c.len_utf8())
            .sum();
        let t = self.s[self.i..self.i + n].to_string();
        self.i += n;
        self.eat("\"")?;
        Some(t)
    }
    fn number(&mut self) -> Option<i64> {
        let r = &self.s[self.i..];
        let sign = usize::from(r.starts_with(['+', '-']));
        let digits = r[sign..].bytes().take_while(u8::is_ascii_digit).count();
        if digits == 0 {
            return None;
        }
        self.i += sign + digits;
        r[..sign + digits].parse().ok()
    }
    fn value(&mut self) -> Option<J> {
        let r = &self.s[self.i..];
        if r.starts_with("null") {
            self.i += 4;
            Some(J::Null)
        } else if r.starts_with("true") {
            self.i += 4;
            Some(J::Bool(true))
        } else if r.starts_with("false") {
            self.i += 5;
            Some(J::Bool(false))
        } else if r.starts_with('"') {
            self.text().map(J::Text)
        } else if self.eat("[").is_some() {
            let mut v = vec![];
            if self.eat("]").is_none() {
                loop {
                    v.push(self.value()?);
                    if self.eat(",").is_none() {
                        break;
                    }
                }
                self.eat("]")?;
            }
            Some(J::Arr(v))
        } else if self.eat("{").is_some() {
            let mut v = vec![];
            if self.eat("}").is_none() {
                loop {
                    let k = self.text()?;
                    self.eat(":")?;
                    v.push((k, self.value()?));
                    if self.eat(",").is_none() {
                        break;
                    }
                }
                self.eat("}")?;
            }
            Some(J::Obj(v))
        } else {
            self.number().map(J::Num)
        }
    }
}

fn json_text(t: &mut Tape, depth: usize, out: &mut String) {
    let k = if depth > 5 { t.below(4) } else { t.below(7) };
    match k {
        0 => *out += "null",
        1 => *out += t.pick(&["true", "false"]),
        2 => {
            *out += t.pick(&["0", "1", "-7", "+12", "9223372036854775807", "-9223372036854775808"])
        }
        3 => *out += t.pick(&["\"\"", "\"a\"", "\"é b_1\"", "\"x\""]),
        4 | 5 => {
            out.push('[');
            for i in 0..t.count(5) {
                if i > 0 {
                    out.push(',');
                }
                json_text(t, depth + 1, out);
            }
            out.push(']');
        }
        _ => {
            out.push('{');
            for i in 0..t.count(4) {
                if i > 0 {
                    out.push(',');
                }
                *out += t.pick(&["\"k\":", "\"\":", "\"other key\":"]);
                json_text(t, depth + 1, out);
            }
            out.push('}');
        }
    }
}

fn json(t: &mut Tape, case: &mut Case) -> Verdict {
    let mut s = String::new();
    json_text(t, 0, &mut s);
    if t.chance(1, 3) {
        let n = t.range(1, 2);
        for _ in 0..n {
            let cs: Vec<char> = s.chars().collect();
            let at = t.below(cs.len() + 1);
            let c = *t.pick(&['[', ']', '{', '}', ',', ':', '"', '1', '-', 'n', ' ', '😂']);
            s = cs[..at].iter().collect::<String>();
            if t.chance(1, 2) {
                s.push(c);
                s.extend(&cs[at..]);
            } else if at < cs.len() {
                s.extend(&cs[at + 1..]);
            }
        }
    }
    case.key(&s);
    case.show(|| s.clone());
    let mut rd = Rd { s: &s, i: 0 };
    let want = rd.value().filter(|_| rd.i == s.len());
    let p = json_parser();
    let got = p.parse(&s);
    if got.as_ref().ok() != want.as_ref() {
        return Err(format!("input: {s:?}\nexpected: {want:?}\ngot: {got:?}"));
    }
    // As part of other patterns, and more than once.
    if let Some(j) = &want {
        let two = parser!(repeat_sep(p, ";")).parse(&format!("{s};{s};{s}"));
        if two.ok() != Some(vec![j.clone(); 3]) {
            return Err(format!("three of {s:?}, separated by semicolons, are not parsed"));
        }
        let json = json_parser();
        let other = json_parser();
        let both = parser!(lines("a:" (json)) lines("b:" (other)));
        let text = format!("a:{s}\nb:{s}\nb:{s}\n");
        match both.parse(&text) {
            Ok((a, b)) if a == vec![j.clone()] && b == vec![j.clone(); 2] => {}
            r => return Err(format!("in lines, with another rule set: {text:?} gives {r:?}")),
        }
    }
    case.class_if(want.is_some(), "accepted");
    case.class_if(want.is_none(), "rejected");
    nontrivial(s.contains(['[', '{']))
}

fn sum_parser() -> impl Parser<Output = i64> {
    parser! {
        rule sum: i64 = a:product rest:(char_of("+-") product)* => {
            rest.into_iter().fold(a, |a, (op, b)| {
                if op == 0 { a.wrapping_add(b) } else { a.wrapping_sub(b) }
            })
        };
        rule product: i64 = a:factor rest:('*' factor)* => {
            rest.into_iter().fold(a, |a, b| a.wrapping_mul(b))
        };
        rule factor: i64 = {
            n:u32 => n as i64,
            "(" s:sum ")" => s,
            "-" f:factor => f.wrapping_neg(),
        };
        sum
    }
}

fn eval_sum(r: &mut Rd) -> Option<i64> {
    let mut a = eval_product(r)?;
    loop {
        if r.eat("+").is_some() {
            a = a.wrapping_add(eval_product(r)?);
        } else if r.eat("-").is_some() {
            a = a.wrapping_sub(eval_product(r)?);
        } else {
            return Some(a);
        }
    }
}
fn eval_product(r: &mut Rd) -> Option<i64> {
    let mut a = eval_factor(r)?;
    while r.eat("*").is_some() {
        a = a.wrapping_mul(eval_factor(r)?);
    }
    Some(a)
}
fn eval_factor(r: &mut Rd) -> Option<i64> {
    if r.eat("(").is_some() {
        let x = eval_sum(r)?;
        r.eat(")")?;
        Some(x)
    } else if r.eat("-").is_some() {
        eval_factor(r).map(i64::wrapping_neg)
    } else {
        let digits = r.s[r.i..].bytes().take_while(u8::is_ascii_digit).count();
        let n: u32 = r.s[r.i..r.i + digits].parse().ok()?;
        r.i += digits;
        Some(n as i64)
    }
}

fn sum_text(t: &mut Tape, depth: usize, out: &mut String) {
    match if depth > 6 { 0 } else { t.below(6) } {
        0 | 1 => *out += t.pick(&["1", "2", "0", "10", "4294967295", "007"]),
        2 => {
            out.push('(');
            sum_text(t, depth + 1, out);
            out.push(')');
        }
        3 => {
            out.push('-');
            sum_text(t, depth + 1, out);
        }
        _ => {
            sum_text(t, depth + 1, out);
            for _ in 0..t.range(1, 3) {
                *out += t.pick(&["+", "-", "*", "--"]);
                sum_text(t, depth + 1, out);
            }
        }
    }
}

fn sums(t: &mut Tape, case: &mut Case) -> Verdict {
    let mut s = String::new();
    sum_text(t, 0, &mut s);
    if t.chance(1, 4) {
        let at = t.below(s.len() + 1);
        s.insert(at, *t.pick(&['(', ')', '+', '*', '1', 'x']));
    }
    case.key(&s);
    case.show(|| s.clone());
    let mut rd = Rd { s: &s, i: 0 };
    let want = eval_sum(&mut rd).filter(|_| rd.i == s.len());
    let got = sum_parser().parse(&s);
    if got.as_ref().ok() != want.as_ref() {
        return Err(format!("input: {s:?}\nexpected: {want:?}\ngot: {got:?}"));
    }
    case.class_if(want.is_some(), "accepted");
    case.class_if(want.is_none(), "rejected");
    nontrivial(s.contains(['(', '-']))
}

/// Rules that have to be backtracked into.
fn backtracking(t: &mut Tape, case: &mut Case) -> Verdict {
    let n = t.below(18);
    let mut s: String = (0..n).map(|_| *t.pick(&['a', 'b'])).collect();
    let kind = t.below(4);
    match t.below(3) {
        0 => {
            let back: String = s.chars().rev().collect();
            s += &back;
        }
        1 => s = format!("{}{}", "a".repeat(n), "b".repeat(n)),
        _ => {}
    }
    if t.chance(1, 6) {
        s = mutate(&s, 1, t);
    }
    case.key(&(kind, &s));
    case.show(|| format!("kind {kind}: {s:?}"));
    let (name, want, got) = match kind {
        0 => {
            let p = parser! {
                rule pal: usize = {
                    "a" n:pal "a" => n + 1,
                    "b" n:pal "b" => n + 1,
                    {"a", "b"}? => 0,
                };
                pal
            };
            let cs: Vec<char> = s.chars().collect();
            let ok = cs.iter().all(|c| *c == 'a' || *c == 'b') && cs.iter().eq(cs.iter().rev());
            ("palindrome", ok.then_some(cs.len() / 2), p.parse(&s).ok())
        }
        1 => {
            let p = parser! {
                rule nest: usize = { "a" n:nest "b" => n + 1, "" => 0 };
                nest
            };
            let h = s.len() / 2;
            let ok = s == format!("{}{}", "a".repeat(h), "b".repeat(h));
            ("a^n b^n", ok.then_some(h), p.parse(&s).ok())
        }
        2 => {
            // Even and odd numbers of "a"s, by mutual recursion, shortest first.
            let p = parser! {
                rule even: usize = { "" => 0, "a" n:odd => n + 1 };
                rule odd: usize = "a" n:even => n + 1;
                even
            };
            let ok = s.chars().all(|c| c == 'a') && s.len() % 2 == 0;
            ("even number of a's", ok.then_some(s.len()), p.parse(&s).ok())
        }
        _ => {
            // Equal numbers of "a" and "b", any order. The first match found
            // needs no particular split, so only count.
            let p = parser! {
                rule eq: usize = {
                    "a" n:eq "b" m:eq => n + m + 1,
                    "b" n:eq "a" m:eq => n + m + 1,
                    "" => 0,
                };
                eq
            };
            let s2: String = s.chars().take(10).collect();
            let a = s2.chars().filter(|c| *c == 'a').count();
            let bs = s2.chars().filter(|c| *c == 'b').count();
            let ok = a + bs == s2.chars().count() && a == bs;
            ("as many a's as b's (first 10)", ok.then_some(a), p.parse(&s2).ok())
        }
    };
    if want != got {
        return Err(format!("{name} on {s:?}\nexpected: {want:?}\ngot: {got:?}"));
    }
    case.class_if(want.is_some(), "accepted");
    nontrivial(s.len() > 3)
}

/// Deep nesting.
fn deep_count(tier: Tier) -> usize {
    if tier == Tier::Quick {
        24
    } else {
        48
    }
}
fn deep(i: usize, case: &mut Case) -> Verdict {
    const DEPTHS: [usize; 12] = [1, 2, 31, 64, 100, 127, 128, 129, 256, 500, 1000, 2000];
    let d = DEPTHS[i % 12] + (i / 24) * 2000;
    let broken = (i / 12) % 2 == 1;
    case.show(|| format!("nesting {d} deep{}", if broken { ", one bracket missing" } else { "" }));
    let p = parser! {
        rule list: usize = {
            "[" n:list "]" => n + 1,
            "<" n:other ">" => n + 1,
            "" => 0,
        };
        rule other: usize = n:list => n;
        list
    };
    let open: String = (0..d).map(|i| if i % 3 == 0 { '<' } else { '[' }).collect();
    let close: String = open
        .chars()
        .rev()
        .map(|c| if c == '<' { '>' } else { ']' })
        .collect();
    let s = if broken {
        format!("{open}{}", &close[1..])
    } else {
        format!("{open}{close}")
    };
    let want = (!broken).then_some(d);
    let got = p.parse(&s).ok();
    if got != want {
        return Err(format!("nesting {d} deep: {got:?} instead of {want:?}"));
    }
    nontrivial(true)
}

/// A rule set of many rules, each with a type of its own or a shared one.
fn many(t: &mut Tape, case: &mut Case) -> Verdict {
    macro_rules! chain {
        ( $( $name:ident $next:ident $text:literal $k:literal ; )* | $last:ident $flag:ident $first:ident ) => {
            parser! {
                $( rule $name: Vec<u32> = {
                    $text "." => vec![$k],
                    $text v:$next => { let mut v = v; v.push($k); v },
                    "!" v:$last => v,
                }; )*
                rule $last: Vec<u32> = { "z" => vec![30], "@" w:$flag => vec![w as u32 + 100] };
                rule $flag: bool = bool;
                $first
            }
        };
    }
    let p = chain! {
        r0 r1 "a" 0; r1 r2 "b" 1; r2 r3 "c" 2; r3 r4 "d" 3; r4 r5 "e" 4;
        r5 r6 "f" 5; r6 r7 "g" 6; r7 r8 "h" 7; r8 r9 "i" 8; r9 r10 "j" 9;
        r10 r11 "k" 10; r11 r12 "l" 11; r12 r13 "m" 12; r13 r14 "n" 13; r14 r15 "o" 14;
        r15 r16 "p" 15; r16 r17 "q" 16; r17 r18 "r" 17; r18 r19 "s" 18; r19 r20 "t" 19;
        r20 r21 "u" 20; r21 r22 "v" 21; r22 r23 "w" 22; r23 r24 "x" 23; r24 r25 "y" 24;
        r25 r26 "A" 25; r26 r27 "B" 26; r27 r28 "C" 27; r28 r29 "D" 28; r29 r30 "E" 29;
        | r30 flag r0
    };
    const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyABCDE";
    let n = t.below(31);
    let mut s: String = LETTERS[..n].iter().map(|b| *b as char).collect();
    let mut want: Vec<u32> = vec![];
    let ending = t.below(5);
    let ok = match ending {
        0 if n > 0 => {
            s.push('.');
            true
        }
        1 if n < 30 => {
            s += "!z";
            want.push(30);
            true
        }
        2 if n < 30 => {
            s += "!@true";
            want.push(101);
            true
        }
        3 if n == 30 => {
            s += "@false";
            want.push(100);
            true
        }
        4 if n == 30 => {
            s += "z";
            want.push(30);
            true
        }
        _ => {
            s += t.pick(&["", "!", "..", "!z.", "@true", "zz"]);
            (s.ends_with("@true") && n == 30) && {
                want.push(101);
                true
            }
        }
    };
    want.extend((0..n as u32).rev());
    let want = ok.then_some(want);
    case.key(&s);
    case.show(|| s.clone());
    let got = p.parse(&s).ok();
    if got != want {
        return Err(format!("32 rules on {s:?}\nexpected: {want:?}\ngot: {got:?}"));
    }
    nontrivial(n > 1)
}

/// A parser for one of the grammars of `sizes.rs`.
pub type Grammar = Box<dyn Fn(&str) -> Option<usize>>;

pub fn boxed<P: Parser<Output = usize> + 'static>(p: P) -> Grammar {
    Box::new(move |s| p.parse(s).ok())
}

/// Any parser with numbers for values.
#[derive(Clone)]
pub struct Boxed(std::rc::Rc<dyn Erased>);

trait Erased {
    fn iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Result<BoxedIter<'p>, Reported>;
}

pub struct BoxedIter<'p>(Box<dyn ParseIter<'p, RawOutput = (usize,)> + 'p>);

impl<P: Parser<Output = usize, RawOutput = (usize,)>> Erased for P {
    fn iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Result<BoxedIter<'p>, Reported> {
        Ok(BoxedIter(Box::new(self.parse_iter(cx, start)?)))
    }
}

impl Boxed {
    fn new<P: Parser<Output = usize, RawOutput = (usize,)> + 'static>(p: P) -> Boxed {
        Boxed(std::rc::Rc::new(p))
    }
}

impl Parser for Boxed {
    type Output = usize;
    type RawOutput = (usize,);
    type Iter<'p> = BoxedIter<'p>;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Result<BoxedIter<'p>, Reported> {
        self.0.iter(cx, start)
    }
}

impl<'p> ParseIter<'p> for BoxedIter<'p> {
    type RawOutput = (usize,);
    fn match_end(&self) -> usize {
        self.0.match_end()
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        self.0.backtrack(cx)
    }
    fn convert(&self) -> (usize,) {
        self.0.convert()
    }
}

/// The body of rule number `i`: `"(" p ")"`, `"[" q "]"` or its own word.
pub fn node<P, Q>(i: usize, p: P, q: Q) -> Boxed
where
    P: Parser<Output = usize, RawOutput = (usize,)> + 'static,
    Q: Parser<Output = usize, RawOutput = (usize,)> + 'static,
{
    let word: &'static str = word(i);
    let i = number(i);
    Boxed::new(parser!({
        "(" v:p ")" => v.wrapping_mul(31) + 1,
        "[" v:q "]" => v.wrapping_mul(31) + 2,
        word => *i,
    }))
}

// Conversions can only refer to what lives forever.
fn number(i: usize) -> &'static usize {
    static NUMBERS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    &NUMBERS.get_or_init(|| (0..2000).collect())[i]
}

fn word(i: usize) -> &'static str {
    static WORDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &WORDS.get_or_init(|| (0..2000).map(|i| format!("w{i};")).collect())[i]
}

/// Rule sets with any number of rules, each referring to two of them.
fn sizes_count(tier: Tier) -> usize {
    sizes::SIZES.len() * if tier == Tier::Quick { 40 } else { 1000 }
}
fn rule_counts(i: usize, case: &mut Case) -> Verdict {
    let n = sizes::SIZES[i % sizes::SIZES.len()];
    let seed = i / sizes::SIZES.len();
    // A path through the rules.
    let mut x = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut bits = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x >> 20
    };
    let len = if seed == 0 { n } else { bits() as usize % (2 * n + 2) };
    let mut at = sizes::start(n);
    let mut path = vec![];
    for _ in 0..len {
        let (a, b) = sizes::next(n, at);
        let square = seed > 0 && bits() % 2 == 0;
        path.push(square);
        at = if square { b } else { a };
    }
    // Sometimes the wrong word, or the wrong bracket.
    let (last, broken) = match if seed == 0 { 0 } else { bits() % 4 } {
        0 | 1 => (at, None),
        2 => (bits() as usize % (n + 1), None),
        _ => (at, (len > 0).then(|| bits() as usize % len.max(1))),
    };
    let open: String = path.iter().map(|q| if *q { '[' } else { '(' }).collect();
    let close: String = path
        .iter()
        .enumerate()
        .rev()
        .map(|(i, q)| if *q != (broken == Some(i)) { ']' } else { ')' })
        .collect();
    let s = format!("{open}{}{close}", word(last));
    case.show(|| format!("{n} rules: {s}"));
    let want = (last == at && broken.is_none()).then(|| {
        path.iter().rev().fold(at, |v: usize, q| v.wrapping_mul(31) + 1 + usize::from(*q))
    });
    let got = crate::erase::guard(|| sizes::grammar(n)(&s));
    if got.as_ref().ok() != Some(&want) {
        return Err(format!("{n} rules on {s:?}\nexpected: {want:?}\ngot: {got:?}"));
    }
    case.class_if(want.is_some(), "accepted");
    nontrivial(len > 0)
}

/// Many rule sets, one within the other.
fn nested_count(tier: Tier) -> usize {
    if tier == Tier::Quick {
        40
    } else {
        400
    }
}
fn many_sets(i: usize, case: &mut Case) -> Verdict {
    let n = [1, 2, 3, 7, 16, 33, 64, 100, 128, 200, 255, 256, 257, 300, 400, 513][i % 16] + i / 16;
    case.show(|| format!("{n} rule sets, each within the next"));
    let mut p = Boxed::new(parser!(
        rule leaf: usize = { "." => 7, "!" v:leaf => v + 1 };
        leaf
    ));
    let mut s = "!.".to_string();
    let mut want: usize = 8;
    for k in 0..n {
        let inner = p;
        let w = word(k);
        p = Boxed::new(parser!(
            rule outer: usize = {
                "(" v:inner ")" w:tail => v.wrapping_mul(31).wrapping_add(w),
            };
            rule tail: usize = {
                w => 0,
                "+" v:tail => v + 1,
            };
            outer
        ));
        let plus = k % 3;
        s = format!("({s}){}{w}", "+".repeat(plus));
        want = want.wrapping_mul(31).wrapping_add(plus);
    }
    let got = p.parse(&s);
    if got.as_ref().ok() != Some(&want) {
        return Err(format!("{n} rule sets, each within the next: {got:?} instead of {want}"));
    }
    // The word of another one, half way.
    let bad = s.replace(word(n / 2), word(n / 2 + 1));
    if let Ok(v) = p.parse(&bad) {
        return Err(format!("{n} rule sets, one of the words wrong, and the result is {v}"));
    }
    // And as many side by side.
    let sets: Vec<Boxed> = (0..n)
        .map(|k| {
            let w = word(k);
            let k = number(k);
            Boxed::new(parser!(
                rule list: usize = { v:item list_rest => v, "#" => 0 };
                rule list_rest: usize = { "," v:list => v + 1, "" => 0 };
                rule item: usize = { w => *k, "<" v:item ">" => v };
                list
            ))
        })
        .collect();
    let mut q = Boxed::new(parser!("" => 0usize));
    let mut s = String::new();
    let mut want = 0usize;
    for (k, set) in sets.into_iter().enumerate() {
        let before = q;
        q = Boxed::new(parser!(a:before b:set "/" => a.wrapping_mul(31).wrapping_add(b)));
        s += &format!("<{}>,#/", word(k));
        want = want.wrapping_mul(31).wrapping_add(k);
    }
    let got = q.parse(&s);
    if got.as_ref().ok() != Some(&want) {
        return Err(format!("{n} rule sets in a row: {got:?} instead of {want}"));
    }
    nontrivial(n > 1)
}

// --- Generated rule sets against the model.

fn rule_set(t: &mut Tape, budget: usize) -> Pat {
    let mut g = Gen::any_theme(t, budget);
    for _ in 0..8 {
        let p = g.pattern(t);
        if matches!(p, Pat::RuleSet(..)) {
            return p;
        }
        g.budget = budget;
    }
    Pat::RuleSet(
        vec![Pat::Alt(vec![
            Pat::Map(
                900,
                vec![
                    (false, Pat::lit("a")),
                    (true, Pat::Rule(0)),
                    (false, Pat::lit("b")),
                ],
            ),
            Pat::lit(t.pick(&["", "x", "ab"])),
        ])],
        b(Pat::Rule(0)),
    )
}

fn generated(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(3, 12);
    let r = rule_set(t, budget);
    let p = match t.below(8) {
        0 => Pat::Seq(vec![r.clone(), Pat::lit(","), r]),
        1 => {
            let r2 = rule_set(t, 6);
            Pat::Seq(vec![Pat::Paren(b(r)), Pat::Paren(b(r2))])
        }
        2 => {
            let r2 = rule_set(t, 6);
            Pat::Alt(vec![
                Pat::Seq(vec![Pat::Paren(b(r)), Pat::lit("b")]),
                Pat::Paren(b(r2)),
            ])
        }
        3 => Pat::Lines(b(Pat::Paren(b(r)))),
        4 => Pat::Plus(b(Pat::Paren(b(Pat::Seq(vec![r, Pat::lit(",")]))))),
        5 => {
            // A rule set as a part of a rule of another.
            let inner = Pat::Paren(b(r));
            Pat::RuleSet(
                vec![
                    Pat::Alt(vec![
                        Pat::Map(
                            901,
                            vec![
                                (false, Pat::lit("(")),
                                (true, Pat::Rule(1)),
                                (false, Pat::lit(")")),
                            ],
                        ),
                        inner.clone(),
                    ]),
                    Pat::RepSep(b(Pat::Rule(0)), b(Pat::lit(","))),
                ],
                b(Pat::Seq(vec![Pat::Rule(0), Pat::Opt(b(inner))])),
            )
        }
        _ => r,
    };
    let n = t.range(1, 3);
    let inputs: Vec<String> = (0..n).map(|_| input_for(&p, t)).collect();
    case.key(&(&p, &inputs));
    case.show(|| format!("pattern: {}\ninputs: {inputs:?}", p.text()));
    let dp = build_user(&p);
    let mut status = Status::Discard;
    for s in &inputs {
        let Some(model) = model::parse(&p, s, MODEL_FUEL) else {
            continue;
        };
        let seen = run(&dp, s, real_fuel(model.steps));
        let both = Both {
            model,
            seen,
            trace: vec![],
        };
        if status == Status::Discard {
            status = Status::Trivial;
        }
        if judge_value(&p, s, &both, case)? || both.seen.is_ok() {
            status = Status::NonTrivial;
        }
    }
    Ok(status)
}

/// All matches of a rule set, not only those of the whole input.
fn match_list(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 10);
    let p = rule_set(t, budget);
    crate::props::protocol::all_matches(p, t, case)
}

/// Histories of creating, moving, using and dropping rule sets: each keeps to
/// its own rules.
fn histories(t: &mut Tape, case: &mut Case) -> Verdict {
    struct Live {
        pat: Pat,
        dp: Box<DynP>,
    }
    let mut live: Vec<Live> = vec![];
    let mut log: Vec<String> = vec![];
    let mut parses = 0;
    let mut drops = 0;
    let steps = t.range(4, 24);
    let mut verdict = Ok(());
    for id in 0..steps {
        match t.weighted(&[3, 2, 2, 8]) {
            0 => {
                // Grammars that differ only a little.
                let word = *t.pick(&["a", "b", "ab", "x"]);
                let pat = match t.below(3) {
                    0 => Pat::RuleSet(
                        vec![Pat::Alt(vec![
                            Pat::Map(
                                id as u32,
                                vec![
                                    (false, Pat::lit("(")),
                                    (true, Pat::Rule(0)),
                                    (false, Pat::lit(")")),
                                ],
                            ),
                            Pat::Map(100 + id as u32, vec![(false, Pat::lit(word))]),
                        ])],
                        b(Pat::Rule(0)),
                    ),
                    1 => Pat::RuleSet(
                        vec![
                            Pat::Map(id as u32, vec![(true, Pat::Rule(1))]),
                            Pat::Plus(b(Pat::lit(word))),
                        ],
                        b(Pat::Rule(t.below(2))),
                    ),
                    _ => rule_set(t, 6),
                };
                log.push(format!("#{} = {}", live.len(), pat.text()));
                let dp = Box::new(build_user(&pat));
                live.push(Live { pat, dp });
            }
            1 if !live.is_empty() => {
                let k = t.below(live.len());
                log.push(format!("drop #{k}, the last one moves there"));
                live.swap_remove(k);
                drops += 1;
            }
            2 if live.len() > 1 => {
                // Both in one pattern.
                let (i, j) = (t.below(live.len()), t.below(live.len()));
                let a = *live[i].dp.clone();
                let c = *live[j].dp.clone();
                let pat = Pat::Alt(vec![
                    Pat::Seq(vec![
                        Pat::Paren(b(live[i].pat.clone())),
                        Pat::lit(","),
                        Pat::Paren(b(live[j].pat.clone())),
                    ]),
                    Pat::Seq(vec![
                        Pat::Paren(b(live[j].pat.clone())),
                        Pat::Paren(b(live[i].pat.clone())),
                    ]),
                ]);
                let (a2, c2) = (a.clone(), c.clone());
                let real = parser!({a "," c, c2 a2});
                let s = input_for(&pat, t);
                log.push(format!("#{i} and #{j} on {s:?}"));
                let Some(m) = model::parse(&pat, &s, MODEL_FUEL) else {
                    continue;
                };
                let got = crate::erase::guard(|| {
                    crate::erase::set_fuel(real_fuel(m.steps));
                    real.parse(&s)
                });
                let got = match got {
                    Ok(Ok((x, y))) => Seen::Ok(crate::value::V::Tuple(vec![x, y])),
                    Ok(Err(e)) => Seen::Err {
                        location: e.location,
                        message: e.to_string(),
                    },
                    Err(m) => Seen::Panic(m),
                };
                parses += 1;
                if let Err(m) = same(&m, &got) {
                    verdict = Err(m);
                    break;
                }
            }
            _ if !live.is_empty() => {
                let k = t.below(live.len());
                let other = t.below(live.len());
                let s = input_for(&live[other].pat, t);
                log.push(format!("#{k} on {s:?}"));
                let Some(m) = model::parse(&live[k].pat, &s, MODEL_FUEL) else {
                    continue;
                };
                let got = run(&live[k].dp, &s, real_fuel(m.steps));
                parses += 1;
                if let Err(m) = same(&m, &got) {
                    verdict = Err(m);
                    break;
                }
            }
            _ => {}
        }
    }
    case.key(&log);
    case.show(|| log.join("\n"));
    if let Err(m) = verdict {
        return Err(format!("{}\n{m}", log.join("\n")));
    }
    case.class_if(drops > 0 && parses > 2, "with drops in between");
    nontrivial(parses > 2)
}

fn same(m: &model::Run, got: &Seen) -> Result<(), String> {
    let ok = match (&m.expect, got) {
        (model::Expect::Ok { value, .. }, Seen::Ok(v)) => value == v,
        (model::Expect::Err { .. }, Seen::Err { .. }) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("expected: {}\ngot:      {}", m.expect.text(), got.text()))
    }
}

/// A rule that only names a pattern is that pattern, errors included.
fn naming(t: &mut Tape, case: &mut Case) -> Verdict {
    let budget = t.range(2, 10);
    let mut g = Gen::any_theme(t, budget);
    g.rules = false;
    let p = g.expr(t, false);
    let s = input_for(&p, t);
    case.key(&(&p, &s));
    case.show(|| describe(&p, &s));
    let Some(m) = model::parse(&p, &s, MODEL_FUEL) else {
        return Ok(Status::Discard);
    };
    let plain = run(&build_user(&Pat::Paren(b(p.clone()))), &s, real_fuel(m.steps));
    let forms = [
        Pat::RuleSet(vec![p.clone()], b(Pat::Rule(0))),
        Pat::RuleSet(vec![Pat::Rule(1), p.clone()], b(Pat::Rule(0))),
        Pat::RuleSet(vec![Pat::lit("unused")], b(p.clone())),
        Pat::RuleSet(vec![p.clone(), Pat::lit("z")], b(Pat::Alt(vec![Pat::Rule(0), Pat::Paren(b(Pat::Seq(vec![p.clone(), Pat::Rule(1)])))]))),
    ];
    for (i, f) in forms.iter().enumerate() {
        let got = run(&build_user(f), &s, real_fuel(m.steps) * 3);
        // The last one has more to try if the first arm does not fit.
        let same = if i == 3 { !plain.is_ok() || got == plain } else { got == plain };
        if !same {
            return Err(format!(
                "{}\nas it is: {}\nas {}: {}",
                describe(&p, &s),
                plain.text(),
                f.text(),
                got.text()
            ));
        }
    }
    nontrivial(plain.is_ok() || matches!(plain, Seen::Err { location, .. } if location > 0))
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "grammars with known answers (JSON, arithmetic, palindromes and the like, 32 rules, deep nesting) against recursive descent or arithmetic, non-trivial when nested; generated rule sets, alone, nested, combined and over histories of creating and dropping them, against the reference model, non-trivial when something parses or alternatives are given up",
        assumptions: &["nesting is limited by the stack: 256 MB here, depth up to 2000 (quick) or 4000"],
        subs: vec![
            Sub { name: "json", body: Body::Random(40_000, 1_000_000, 160, json) },
            Sub { name: "sums", body: Body::Random(40_000, 1_000_000, 160, sums) },
            Sub { name: "backtracking", body: Body::Random(40_000, 800_000, 40, backtracking) },
            Sub { name: "deep", body: Body::Each(deep_count, deep) },
            Sub { name: "many", body: Body::Random(4_000, 50_000, 10, many) },
            Sub { name: "rule_counts", body: Body::Each(sizes_count, rule_counts) },
            Sub { name: "many_sets", body: Body::Each(nested_count, many_sets) },
            Sub { name: "generated", body: Body::Random(150_000, 4_000_000, 220, generated) },
            Sub { name: "match_list", body: Body::Random(60_000, 2_000_000, 220, match_list) },
            Sub { name: "histories", body: Body::Random(60_000, 1_500_000, 400, histories) },
            Sub { name: "naming", body: Body::Random(80_000, 2_000_000, 160, naming) },
            Sub { name: "large", body: Body::Each(crate::props::large::c12_count, crate::props::large::c12) },
        ],
    }
}

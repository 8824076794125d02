//! C13: what `parser!` makes of a pattern written in Rust source.
//!
//! Patterns are generated together with the Rust type they are documented to
//! have, written out as programs in varying surface syntax, compiled against
//! the tree under test, run, and compared with the reference model.

use crate::model::{self, Expect, MODEL_FUEL};
use crate::pat::*;
use crate::rustc::{Rustc, Outcome};
use crate::runner::*;
use crate::tape::Tape;
use proptest::strategy::{Strategy, ValueTree};
use serde_json::json;

pub const SUPPORT: &str = r#"
#![recursion_limit = "2048"]
#![allow(unused, non_snake_case, clippy::all)]
use aoc_parse::{parser, prelude::*};
use std::collections::*;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct M(u32, Vec<String>);
impl M {
    pub fn new(id: u32, parts: Vec<String>) -> M { M(id, parts) }
}
pub trait Show { fn show(&self) -> String; }
macro_rules! show_int { ($($t:ty)*) => { $( impl Show for $t { fn show(&self) -> String { format!("i{self}") } } )* } }
show_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize num_bigint::BigInt num_bigint::BigUint);
impl Show for f32 { fn show(&self) -> String { format!("f{:08x}", self.to_bits()) } }
impl Show for f64 { fn show(&self) -> String { format!("d{:016x}", self.to_bits()) } }
impl Show for bool { fn show(&self) -> String { format!("{self}") } }
impl Show for char { fn show(&self) -> String { format!("{self:?}") } }
impl Show for String { fn show(&self) -> String { format!("{self:?}") } }
impl Show for () { fn show(&self) -> String { "()".into() } }
impl Show for M { fn show(&self) -> String { format!("M{}({})", self.0, self.1.join(",")) } }
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String { match self { None => "None".into(), Some(x) => format!("Some({})", x.show()) } }
}
fn all<'a, T: Show + 'a>(it: impl Iterator<Item = &'a T>) -> Vec<String> { it.map(|x| x.show()).collect() }
impl<T: Show> Show for Vec<T> { fn show(&self) -> String { format!("[{}]", all(self.iter()).join(",")) } }
impl<T: Show> Show for VecDeque<T> { fn show(&self) -> String { format!("deque[{}]", all(self.iter()).join(",")) } }
fn sorted(mut v: Vec<String>) -> String { v.sort(); v.join(",") }
impl<T: Show> Show for HashSet<T> { fn show(&self) -> String { format!("set{{{}}}", sorted(all(self.iter()))) } }
impl<T: Show> Show for BTreeSet<T> { fn show(&self) -> String { format!("set{{{}}}", sorted(all(self.iter()))) } }
impl<K: Show, T: Show> Show for HashMap<K, T> {
    fn show(&self) -> String { format!("map{{{}}}", sorted(self.iter().map(|(k, v)| format!("{}=>{}", k.show(), v.show())).collect())) }
}
impl<K: Show, T: Show> Show for BTreeMap<K, T> {
    fn show(&self) -> String { format!("map{{{}}}", sorted(self.iter().map(|(k, v)| format!("{}=>{}", k.show(), v.show())).collect())) }
}
macro_rules! show_tuple { ($($t:ident)*) => { impl<$($t: Show),*> Show for ($($t,)*) {
    #[allow(non_snake_case)]
    fn show(&self) -> String { let ($($t,)*) = self; format!("({})", vec![$($t.show()),*].join(",")) }
} } }
show_tuple!(A B); show_tuple!(A B C); show_tuple!(A B C D); show_tuple!(A B C D E);
show_tuple!(A B C D E F); show_tuple!(A B C D E F G); show_tuple!(A B C D E F G H);

pub fn twice<P: Parser, Q: Parser>(p: P, q: Q) -> impl Parser<Output = (P::Output, Q::Output), RawOutput = ((P::Output, Q::Output),)> {
    parser!(a:p b:q => (a, b))
}
pub fn angle<P: Parser>(p: P) -> impl Parser<Output = P::Output, RawOutput = (P::Output,)> {
    parser!('<' x:p '>' => x)
}
pub fn framed<P: Parser>(open: char, p: P, close: char) -> impl Parser<Output = P::Output, RawOutput = (P::Output,)> {
    parser!(open x:p close => x)
}
pub fn numbered<P: Parser>(n: i64, p: P, x: f64, yes: bool) -> impl Parser<Output = P::Output, RawOutput = (P::Output,)> {
    assert_eq!((n, x, yes), (-7, 2.5, true));
    angle(p)
}
pub fn same<T, U>(x: T) -> T { x }
macro_rules! made { ($($t:tt)*) => { parser!($($t)*) } }
pub fn word() -> impl Parser<Output = String, RawOutput = (String,)> {
    parser!(string(lower+))
}
fn go<T: Show>(id: usize, p: impl Parser<Output = T>, inputs: &[&str]) {
    for (i, s) in inputs.iter().enumerate() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse(s)));
        let text = match r {
            Err(_) => "panic".to_string(),
            Ok(Ok(v)) => format!("Ok {}", v.show()),
            Ok(Err(e)) => format!("Err {} {}", e.location, e),
        };
        println!("R {id} {i} {}", text.escape_default());
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
"#;

pub struct Prog {
    pub tape: Vec<u32>,
    pub pat: Pat,
    /// A function body, with `@ID@` for the number of the program.
    pub source: String,
    pub inputs: Vec<String>,
    pub expect: Vec<String>,
}

/// Writes a pattern in some surface form.
pub struct Surface<'t, 'd> {
    pub t: &'t mut Tape<'d>,
    /// Where in the lists of names to begin; 0 for plain ones.
    names: usize,
    /// Within a list of arms or arguments: a comma would end the arm.
    in_list: bool,
    /// Within a rule set, whose parsers cannot borrow local variables.
    in_rules: bool,
    /// Declarations of named texts: name, the text itself, declaration.
    named: Option<Vec<(String, String, String)>>,
    /// A conversion uses local variables.
    captures: Option<bool>,
    /// A mistake to make.
    spoil: Option<Spoil>,
    /// The mistake is to be made inside this node.
    here: bool,
}

/// One mistake, at one node of a pattern.
pub struct Spoil {
    at: usize,
    seen: usize,
    pick: u64,
    pub what: &'static str,
}

impl Spoil {
    pub fn new(at: usize, pick: u64) -> Spoil {
        Spoil { at, seen: 0, pick, what: "" }
    }
    fn below(&mut self, n: usize) -> usize {
        self.pick = self.pick.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(0x1405_7B7E_F767_814F);
        ((self.pick >> 33) % n as u64) as usize
    }
    fn of<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.below(xs.len())]
    }
}

const STRAY: &[&str] =
    &[";", "|", "=", "->", "%", "^", "~", "!", "&", "#", ".", "::", "<", ">", "/", "@", "==", "&&", "..", "_"];

const VARS: &[&str] = &["builder", "out", "top", "stack", "pats", "tail", "map", "alt", "args", "seq", "parser"];
const RULES: &[&str] = &["value", "list", "expr", "term", "builder", "item", "empty", "star", "opt", "rules", "phantom"];

const LABELS: &[&str] = &["x", "n", "line", "_a", "value", "string", "y", "lines", "map", "s"];

impl<'t, 'd> Surface<'t, 'd> {
    pub fn new(t: &'t mut Tape<'d>) -> Self {
        let names = if t.chance(1, 3) { 1 + t.below(VARS.len() * RULES.len()) } else { 0 };
        Surface { t, names, in_list: false, in_rules: false, named: None, captures: None, spoil: None, here: false }
    }
    fn var(&self, i: usize) -> String {
        match self.names {
            n if n > 0 && i < VARS.len() => VARS[(n + i) % VARS.len()].to_string(),
            _ => format!("v{i}"),
        }
    }
    fn rule(&self, i: usize) -> String {
        match self.names {
            n if n > 0 && i < RULES.len() => RULES[(n / VARS.len() + i) % RULES.len()].to_string(),
            _ => format!("r{i}"),
        }
    }

    /// White space that may be empty.
    fn gap(&mut self) -> &'static str {
        match self.t.below(16) {
            0..=11 => "",
            12 | 13 => " ",
            14 => "\n    ",
            _ => "/* , ; => { */",
        }
    }
    fn space(&mut self) -> &'static str {
        match self.t.below(16) {
            0..=11 => " ",
            12 | 13 => "\n    ",
            14 => "\t",
            _ => " // ;\n ",
        }
    }

    /// A constant or variable instead of a literal.
    fn name_for(&mut self, ty: &str, literal: String) -> String {
        let Some(named) = &mut self.named else {
            return literal;
        };
        if !self.t.chance(1, 8) {
            return literal;
        }
        let n = named.len();
        let (name, decl) = match self.t.below(5) {
            0 => (format!("K{n}"), format!("static K{n}: {ty} = {literal};")),
            1 => (format!("k{n}"), format!("let k{n} = {literal};")),
            2 if !self.in_rules && ty == "&str" => (format!("k{n}"), format!("let k{n} = String::from({literal}); let k{n} = k{n}.as_str();")),
            3 if !self.in_rules => (format!("k{n}"), format!("let k{n}: {ty} = {literal}; let k{n} = &k{n};")),
            _ => (format!("K{n}"), format!("const K{n}: {ty} = {literal};")),
        };
        named.push((name.clone(), literal, decl));
        name
    }

    fn string(&mut self, s: &str) -> String {
        let s = self.string_literal(s);
        self.name_for("&str", s)
    }

    fn string_literal(&mut self, s: &str) -> String {
        match self.t.below(8) {
            0 if s.chars().all(|c| c == '\n' || !c.is_control()) && !s.contains('"') => {
                format!("r\"{s}\"")
            }
            1 if s.chars().all(|c| c == '\n' || !c.is_control()) => format!("r##\"{s}\"##"),
            2 => format!("\"{}\"", s.escape_unicode()),
            _ => format!("{s:?}"),
        }
    }

    fn chr(&mut self, c: char) -> String {
        let s = match self.t.below(4) {
            0 => format!("'{}'", c.escape_unicode()),
            _ => format!("{c:?}"),
        };
        self.name_for("char", s)
    }

    fn call(&mut self, name: &str, args: &[String]) -> String {
        let mut s = format!("{name}{}(", self.gap());
        for (i, a) in args.iter().enumerate() {
            if i > 0 {
                s += &format!("{},{}", self.gap(), self.space());
            }
            s += self.gap();
            s += a;
        }
        if !args.is_empty() && self.t.chance(1, 6) {
            s += ",";
        }
        s += self.gap();
        s + ")"
    }

    fn terms(&mut self, mut ts: Vec<String>) -> String {
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
        for i in (0..ts.len().saturating_sub(1)).rev() {
            // An identifier before a parenthesis would be a function call.
            if ts[i + 1].starts_with('(') && ts[i].ends_with(word) {
                let s = &ts[i];
                let at = s.len() - s.chars().rev().take_while(|c| word(*c)).count();
                // A text in a group would have a value.
                let literal = self.named.iter().flatten().find(|n| n.0 == s[at..]).map(|n| n.1.clone());
                ts[i] = match literal {
                    Some(literal) => format!("{}{literal}", &s[..at]),
                    None => format!("{}({})", &s[..at], &s[at..]),
                };
            }
        }
        let mut out = String::new();
        for (i, s) in ts.iter().enumerate() {
            if i > 0 {
                out += self.space();
            }
            out += s;
        }
        out
    }

    pub fn pat(&mut self, p: &Pat) -> String {
        let outer = self.in_list;
        match p {
            Pat::Alt(_) | Pat::RepSep(..) | Pat::Line(_) | Pat::Lines(_) | Pat::Section(_) | Pat::Sections(_) | Pat::Str(_) | Pat::Coll(..)
            | Pat::Func(..) => self.in_list = true,
            Pat::Paren(_) => self.in_list = false,
            _ => {}
        }
        let here = match &mut self.spoil {
            Some(sp) => {
                sp.seen += 1;
                sp.seen - 1 == sp.at
            }
            None => false,
        };
        self.here = here;
        let mut s = self.pat_here(p);
        if here && self.spoil.as_ref().is_some_and(|sp| sp.what.is_empty()) {
            s = self.spoiled(p, s);
        }
        self.in_list = outer;
        s
    }

    /// Is the mistake to be made now, and inside this node?
    fn inside(&mut self) -> Option<&mut Spoil> {
        let here = std::mem::take(&mut self.here);
        let sp = self.spoil.as_mut().filter(|_| here)?;
        if sp.below(3) > 0 {
            Some(sp)
        } else {
            None
        }
    }

    /// A pattern that is not well-formed, or has no type, for one that is and has.
    fn spoiled(&mut self, p: &Pat, s: String) -> String {
        let sp = self.spoil.as_mut().unwrap();
        let whole = matches!(p, Pat::Seq(_) | Pat::Map(..) | Pat::RuleSet(..));
        let call = matches!(
            p,
            Pat::RepSep(..) | Pat::Line(_) | Pat::Lines(_) | Pat::Section(_) | Pat::Sections(_) | Pat::Str(_) | Pat::Coll(..) | Pat::Func(..)
        );
        let group = matches!(p, Pat::Paren(_) | Pat::Unit);
        let rules = matches!(p, Pat::RuleSet(..));
        let leaf = !whole && !call && !group && !matches!(p, Pat::Alt(_) | Pat::Opt(_) | Pat::Star(_) | Pat::Plus(_));
        loop {
            let (what, new) = match sp.below(24) {
                0 | 1 if !whole => ("non-greedy quantifier", s.clone() + sp.of(&["*?", "+?", "* ?", "+ ?"])),
                2 if !whole => ("stray token", format!("[{s}]")),
                3 if !whole => ("two labels", format!("{}: k: {s}", sp.of(&["j", "_j", "k"]))),
                4 | 5 => ("stray token", format!("{} {s}", sp.of(STRAY))),
                // What comes after an expression could be a part of it.
                6 | 7 if !matches!(p, Pat::Map(..)) && !rules => ("stray token", format!("{s} {}", sp.of(STRAY))),
                8 if leaf => ("unknown name", sp.of(&["no_such_name", "no_such_name(\"q\")", "k:no_such_name"]).into()),
                9 | 10 if leaf => ("not a string or character", sp.of(&["7", "true", "2.5", "b\"q\"", "b'q'", "0x10"]).into()),
                11 if leaf => {
                    ("call of something that is no function", sp.of(&["alpha (\"q\")", "u8 (alpha)", "digit ()"]).into())
                }
                12 if leaf => ("function without arguments", sp.of(&["lines", "string", "repeat_sep", "hash_map"]).into()),
                13 | 14 if group => ("stray token", format!("({},)", &s[1..s.len() - 1])),
                15 if group => ("stray token", format!("(, {}", &s[1..])),
                16 | 17 if group => ("leading quantifier", format!("({} {}", sp.of(&["*", "+", "?"]), &s[1..])),
                18 if group => ("label without pattern", format!("({} k:)", &s[1..s.len() - 1])),
                19 | 20 if call && s.contains('(') => {
                    let at = s.find('(').unwrap() + 1;
                    ("wrong number of arguments", format!("{}\"q\", {}", &s[..at], &s[at..]))
                }
                21 if call && !matches!(p, Pat::Func(2, _)) => {
                    let at = s.find('(').unwrap() + 1;
                    ("wrong number of arguments", format!("{})", &s[..at]))
                }
                22 if matches!(p, Pat::Alt(_)) => match sp.below(5) {
                    0 => ("alternation without arms", "{}".to_string()),
                    1 | 2 => ("arms of different types", format!("{{\"q\" => [7u8; 3], {}", &s[1..])),
                    3 => ("missing comma", format!("{{\"q\" => 1 {}", &s[1..])),
                    _ => ("leading quantifier", format!("{{{} {}", sp.of(&["*", "+", "?"]), &s[1..])),
                },
                23 if rules => ("stray token", format!("{s},")),
                _ => continue,
            };
            sp.what = what;
            return new;
        }
    }

    fn pat_here(&mut self, p: &Pat) -> String {
        match p {
            Pat::Lit(s) => self.string(s),
            Pat::Chr(c) => self.chr(*c),
            Pat::Unit => format!("({})", self.gap()),
            Pat::Seq(ps) => {
                let ts = ps.iter().map(|p| self.pat(p)).collect();
                self.terms(ts)
            }
            Pat::Paren(p) => {
                let s = self.pat(p);
                format!("({}{s}{})", self.gap(), self.gap())
            }
            Pat::Alt(ps) => {
                let mut s = format!("{{{}", self.gap());
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        s += &format!("{},{}", self.gap(), self.space());
                    }
                    s += &self.pat(p);
                }
                if self.t.chance(1, 3) {
                    s += ",";
                }
                s += self.gap();
                s + "}"
            }
            Pat::Opt(p) => {
                let s = self.pat(p);
                format!("{s}{}?", self.gap())
            }
            Pat::Star(p) => {
                let s = self.pat(p);
                format!("{s}{}*", self.gap())
            }
            Pat::Plus(p) => {
                let s = self.pat(p);
                format!("{s}{}+", self.gap())
            }
            Pat::RepSep(p, q) => {
                let args = [self.pat(p), self.pat(q)];
                self.call("repeat_sep", &args)
            }
            Pat::Line(p) => {
                let a = [self.pat(p)];
                self.call("line", &a)
            }
            Pat::Lines(p) => {
                let a = [self.pat(p)];
                self.call("lines", &a)
            }
            Pat::Section(p) => {
                let a = [self.pat(p)];
                self.call("section", &a)
            }
            Pat::Sections(p) => {
                let a = [self.pat(p)];
                self.call("sections", &a)
            }
            Pat::Str(p) => {
                let a = [self.pat(p)];
                self.call("string", &a)
            }
            Pat::Coll(k, p) => {
                let a = [self.pat(p)];
                self.call(k.name(), &a)
            }
            Pat::Map(id, ts) => {
                let here = self.here;
                let mut out = vec![];
                let mut names = vec![];
                for (i, (labeled, p)) in ts.iter().enumerate() {
                    let s = self.pat(p);
                    if *labeled {
                        let name = match self.t.below(3) {
                            0 => LABELS[i % LABELS.len()].to_string(),
                            _ => format!("x{i}"),
                        };
                        let (a, b) = (self.gap(), self.gap());
                        // A label and a literal or group: still one term.
                        out.push(format!("{name}{a}:{b}{s}"));
                        names.push(name);
                    } else {
                        out.push(s);
                    }
                }
                let shows: Vec<String> = names.iter().map(|n| format!("Show::show(&{n})")).collect();
                let shows = shows.join(", ");
                let expr = match self.t.below(9) {
                    8 if self.captures.is_some() && !self.in_rules => {
                        self.captures = Some(true);
                        format!("{{ count.set(count.get() + 1); M::new({id} + unit.len() as u32 - 3, vec![{shows}]) }}")
                    }
                    5 => format!("if 1 + 1 < 3 {{ M::new({id}, vec![{shows}]) }} else {{ M(0, vec![]) }}"),
                    6 if !self.in_list => format!("same::<M, u8>(M::new({id}, vec![{shows}]))"),
                    7 => format!("vec![{shows}].into_iter().fold(M::new({id}, Vec::<String>::new()), |mut m, s: String| {{ m.1.push(s); m }})"),
                    0 => format!("{{ let parts = vec![{shows}]; M::new({id}, parts) }}"),
                    1 => format!("match vec![{shows}] {{ v if v.len() > 1000 => M(0, vec![]), v => M::new({id}, v) }}"),
                    2 => format!("(|a, b| M::new(a, b))({id}, vec![{shows}])"),
                    _ => format!("M::new({id}, vec![{shows}])"),
                };
                let mut expr = expr;
                let mut arrow = "=>";
                self.here = here;
                if let Some(sp) = self.inside() {
                    let labels = !names.is_empty();
                    loop {
                        sp.what = match sp.below(8) {
                            0 => {
                                expr = String::new();
                                "conversion without expression"
                            }
                            1 => {
                                expr += sp.of(&[" => 1", " => M(0, vec![])"]);
                                "something after the conversion"
                            }
                            2 => {
                                expr += sp.of(&[" \"q\"", " u8", " 'q'"]);
                                "something after the conversion"
                            }
                            3 if labels => {
                                out.push(format!("{}: alpha", names[0]));
                                "same label twice"
                            }
                            4 | 5 if labels => {
                                let name = names[sp.below(names.len())].clone();
                                for s in &mut out {
                                    if s.starts_with(&name) && s[name.len()..].trim_start_matches(' ').starts_with([':', '\n', '/']) {
                                        let b = s.split_once(':').unwrap().1;
                                        *s = match sp.below(3) {
                                            0 => format!("zz:{b}"),
                                            1 => b.to_string(),
                                            _ => format!("({name}:{b})"),
                                        };
                                        break;
                                    }
                                }
                                "conversion uses a name that is not a label"
                            }
                            6 => {
                                expr = expr.replace("M::new", "{ no_such_name; M::new }").replace("M(", "no_such_name(");
                                "conversion uses a name that is not a label"
                            }
                            7 => {
                                arrow = sp.of(&["->", "=", "= >", ">="]);
                                "no arrow"
                            }
                            _ => continue,
                        };
                        break;
                    }
                }
                let terms = self.terms(out);
                format!("{terms}{}{arrow}{}{expr}", self.space(), self.space())
            }
            Pat::RuleSet(rs, e) => {
                let outer = self.in_rules;
                self.in_rules = true;
                let mistake = self.inside().map(|sp| (sp.below(rs.len()), sp.below(9), sp.below(3)));
                let mut s = String::new();
                for (i, r) in rs.iter().enumerate() {
                    let ty = user_ty(rule_ty(rs, i)).rust();
                    let mut body = self.pat(r);
                    let mut name = self.rule(i);
                    let (mut word, mut colon, mut eq, mut end) = ("rule", format!(": {ty}"), "=", ";");
                    if let Some((_, kind, sub)) = mistake.filter(|m| m.0 == i) {
                        let what = match kind {
                            0 | 1 => {
                                end = "";
                                "missing semicolon"
                            }
                            2 => {
                                colon = [":", "", ": [u8; 3]"][sub].to_string();
                                "rule without a type, or of another"
                            }
                            3 => {
                                colon = ": [u8; 3]".to_string();
                                "rule of another type"
                            }
                            4 => {
                                eq = ["", ":", "=>"][sub];
                                "rule without an equals sign"
                            }
                            5 if ty != "()" => {
                                body = String::new();
                                "rule without a pattern"
                            }
                            6 => {
                                word = ["rul", "", "pub rule"][sub];
                                "rule without its word"
                            }
                            7 => {
                                name = ["", "5", "a b"][sub].to_string();
                                "rule without a name"
                            }
                            _ => {
                                end = [";;", ",", "."][sub];
                                "stray token"
                            }
                        };
                        self.spoil.as_mut().unwrap().what = what;
                    }
                    s += &format!(
                        "{}{word} {name}{}{colon} {eq}{}{body}{}{end}",
                        self.gap(),
                        self.gap(),
                        self.space(),
                        self.gap()
                    );
                }
                s += self.space();
                s += &self.pat(e);
                self.in_rules = outer;
                s
            }
            Pat::Var(i, _) => self.var(*i),
            Pat::Rule(i) => self.rule(*i),
            Pat::Func(0, ps) => {
                let a = [self.pat(&ps[0]), self.pat(&ps[0])];
                self.call("twice", &a)
            }
            Pat::Func(1, ps) if self.t.chance(1, 3) => {
                if self.t.chance(1, 2) {
                    let a = ["'<'".to_string(), self.pat(&ps[0]), "'>'".to_string()];
                    self.call("framed", &a)
                } else {
                    let a = ["-7".to_string(), self.pat(&ps[0]), "2.5".to_string(), "true".to_string()];
                    self.call("numbered", &a)
                }
            }
            Pat::Func(i, ps) => {
                let a: Vec<String> = ps.iter().map(|p| self.pat(p)).collect();
                self.call(FUNCS[*i].0, &a)
            }
            leaf => leaf.render(&Rust::Yes),
        }
    }

    pub fn invoke(&mut self, p: &Pat) -> String {
        let s = self.pat(p);
        match self.t.below(8) {
            0 => format!("parser!{{ {s} }}"),
            1 => format!("parser![{s}]"),
            2 => format!("aoc_parse::parser!({s})"),
            3 => format!("made!({s})"),
            _ => format!("parser!({s})"),
        }
    }
}

fn too_wide(p: &Pat) -> bool {
    p.any(&mut |p| matches!(p, Pat::Seq(ps) if ps.len() > 8))
}

/// Patterns with much of what `parser!` itself takes apart: many arms, many
/// terms, many arguments, labels everywhere, over parsers that are easily taken
/// for each other, and with values that tell which one it was.
struct Dense {
    next_id: u32,
    depth: usize,
}

impl Dense {
    /// A literal: no value at all, rather than `()`.
    fn nothing(&mut self, t: &mut Tape) -> Pat {
        match t.below(3) {
            0 => Pat::Chr(*t.pick(&['a', 'b', 'c'])),
            _ => Pat::lit(t.pick(&["a", "b", "ab", "ba", "aa", "c", "abc", "bc", ""])),
        }
    }

    fn unit(&mut self, t: &mut Tape) -> Pat {
        match t.weighted(&[8, 4, 1, 2]) {
            0 => Pat::lit(t.pick(&["a", "b", "ab", "ba", "aa", "c", "abc", "bc", ""])),
            1 => Pat::Chr(*t.pick(&['a', 'b', 'c'])),
            2 => Pat::Unit,
            _ => {
                let n = t.range(2, 5);
                self.alt(t, 0, n)
            }
        }
    }

    fn value(&mut self, t: &mut Tape) -> Pat {
        match t.weighted(&[3, 2, 3, 1, 2]) {
            0 => Pat::class(t.pick(&["any_char", "alpha", "lower", "upper", "alnum"])),
            1 => Pat::CharOf(*t.pick(&[0, 1, 7])),
            2 => {
                let p = self.unit(t);
                Pat::Str(b(p))
            }
            3 => Pat::Func(2, vec![]),
            _ => {
                let n = t.range(2, 6);
                let k = t.range(1, 3);
                self.alt(t, k, n)
            }
        }
    }

    /// Arms without values (0), with one of the same type (1, 2) or with
    /// conversions (3).
    fn alt(&mut self, t: &mut Tape, kind: usize, n: usize) -> Pat {
        if self.depth > 2 {
            return Pat::lit(t.pick(&["a", "b", "ab"]));
        }
        self.depth += 1;
        let arms = (0..n)
            .map(|_| match kind {
                0 => {
                    let m = t.weighted(&[6, 2, 1]) + 1;
                    if m == 1 {
                        return self.unit(t);
                    }
                    let ps = (0..m).map(|_| self.nothing(t)).collect();
                    Pat::Seq(ps)
                }
                3 => self.map(t),
                k => {
                    let v = match k {
                        1 => Pat::class(t.pick(&["any_char", "alpha", "lower", "upper"])),
                        _ => {
                            let p = self.unit(t);
                            Pat::Str(b(p))
                        }
                    };
                    match t.below(4) {
                        0 => Pat::Seq(vec![self.nothing(t), v]),
                        1 => Pat::Seq(vec![v, self.nothing(t)]),
                        _ => v,
                    }
                }
            })
            .collect();
        self.depth -= 1;
        Pat::Alt(arms)
    }

    fn term(&mut self, t: &mut Tape) -> Pat {
        if self.depth > 2 {
            return Pat::lit(t.pick(&["a", "b", "ab"]));
        }
        self.depth += 1;
        let p = match t.weighted(&[4, 5, 2, 1, 1, 1, 1]) {
            0 => self.unit(t),
            1 => self.value(t),
            2 => Pat::Paren(b(self.seq(t, 3))),
            3 => Pat::RepSep(b(self.term(t)), b(self.unit(t))),
            4 => Pat::Func(1, vec![self.seq(t, 2)]),
            5 => Pat::Func(0, vec![self.leaf(t)]),
            _ => Pat::Paren(b(self.map(t))),
        };
        self.depth -= 1;
        match t.below(8) {
            0 => Pat::Opt(b(p)),
            1 => Pat::Star(b(p)),
            2 => Pat::Plus(b(p)),
            _ => p,
        }
    }

    fn leaf(&mut self, t: &mut Tape) -> Pat {
        match t.below(3) {
            0 => Pat::lit(t.pick(&["a", "b", "ab"])),
            1 => Pat::Chr(*t.pick(&['a', 'b'])),
            _ => Pat::class(t.pick(&["any_char", "alpha"])),
        }
    }

    fn seq(&mut self, t: &mut Tape, max: usize) -> Pat {
        let n = t.range(1, max);
        let mut ps: Vec<Pat> = (0..n).map(|_| self.term(t)).collect();
        if ps.len() == 1 {
            ps.pop().unwrap()
        } else {
            Pat::Seq(ps)
        }
    }

    fn map(&mut self, t: &mut Tape) -> Pat {
        let id = self.next_id;
        self.next_id += 1;
        let n = match self.depth {
            0 => t.range(1, 8),
            _ => t.weighted(&[3, 4, 2, 1]) + 1,
        };
        Pat::Map(id, (0..n).map(|_| (t.chance(2, 3), self.term(t))).collect())
    }

    fn pattern(t: &mut Tape) -> Pat {
        let mut d = Dense { next_id: 0, depth: 0 };
        let rest = Pat::Str(b(Pat::Star(b(Pat::class("any_char")))));
        match t.below(5) {
            0 => {
                let n = t.range(3, 8);
                Pat::Seq(vec![Pat::Str(b(d.alt(t, 0, n))), rest])
            }
            1 => {
                let n = t.range(2, 6);
                let k = t.range(1, 3);
                Pat::Seq(vec![d.alt(t, k, n), rest])
            }
            2 => d.map(t),
            3 => {
                let n = t.range(2, 5);
                let arms = d.alt(t, 3, n);
                match t.below(3) {
                    0 => Pat::Star(b(arms)),
                    1 => Pat::Seq(vec![arms, rest]),
                    _ => arms,
                }
            }
            _ => d.seq(t, 8),
        }
    }
}

fn make(tape: &[u32]) -> Option<Prog> {
    make_with(tape, &mut None)
}

/// The program, with a mistake if there is to be one.
pub fn make_with(tape: &[u32], spoil: &mut Option<Spoil>) -> Option<Prog> {
    let mut t = Tape::new(tape);
    let dense = t.chance(1, 2);
    let budget = t.range(2, 18);
    let mut g = Gen::any_theme(&mut t, budget);
    g.typed = true;
    g.custom = false;
    let pat = if dense { Dense::pattern(&mut t) } else { g.pattern(&mut t) };
    if too_wide(&pat) || pat.size() > 120 {
        return None;
    }
    let mut inputs = vec![];
    let mut expect = vec![];
    // The surface comes after the inputs: those use up little of the tape.
    let n = if dense { 16 } else { 6 };
    for i in 0..n {
        let s = if dense && i >= 4 {
            let mut x = (t.below(1 << 16) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
            let len = x % 8;
            x /= 8;
            (0..len)
                .map(|_| {
                    let c = char::from(b'a' + (x % 3) as u8);
                    x /= 3;
                    c
                })
                .collect()
        } else {
            input_for(&pat, &mut t)
        };
        if inputs.contains(&s) {
            continue;
        }
        let Some(m) = model::parse(&pat, &s, MODEL_FUEL) else {
            continue;
        };
        if m.steps > 2_000_000 {
            continue;
        }
        expect.push(match &m.expect {
            Expect::Ok { value, .. } => format!("Ok {}", value.clone().user().show()),
            Expect::Err { location, message } => format!("Err {location} {message}"),
        });
        inputs.push(s);
    }
    if inputs.is_empty() {
        return None;
    }
    let mut sf = Surface::new(&mut t);
    sf.named = Some(vec![]);
    sf.captures = Some(false);
    let mut src = String::new();
    for (i, v) in g.vars().iter().enumerate() {
        let mut uses = 0;
        for p in g.vars().iter().chain([&pat]) {
            p.any(&mut |p| {
                // Its first argument is written twice.
                uses += matches!(p, Pat::Func(0, _)) as usize * 2;
                uses += matches!(p, Pat::Var(j, _) if *j == i) as usize;
                false
            });
        }
        let by = if uses <= 1 && sf.t.chance(1, 2) { "" } else { "&" };
        src += &format!("let {} = {by}{};\n", sf.var(i), sf.invoke(v));
    }
    sf.spoil = spoil.take();
    let mut main = sf.invoke(&pat);
    *spoil = sf.spoil.take();
    if let Some(sp) = spoil {
        if sp.what.is_empty() && sp.at == sp.seen {
            // At the end of it all.
            let end = main.pop().unwrap();
            main = main.trim_end().to_string() + "," + &end.to_string();
            sp.what = "stray token";
        }
        sp.seen += 1;
    }
    let named: Vec<String> = sf.named.iter().flatten().map(|n| n.2.clone() + "\n").collect();
    let captures = sf.captures == Some(true);
    let ty = user_ty(raw_ty(&pat, &[])).rust();
    let alone = g.vars().is_empty() && named.is_empty() && !captures;
    src = named.concat() + &src;
    if captures {
        src = "let unit = String::from(\"abc\");\nlet count = std::cell::Cell::new(0usize);\n".to_string() + &src;
    }
    if alone && sf.t.chance(1, 4) {
        src += &format!("fn make() -> impl Parser<Output = {ty}> {{ {main} }}\nlet p = make();\n");
    } else {
        src += &format!("let p = {main};\n");
    }
    let by = if sf.t.chance(1, 4) { "&" } else { "" };
    src += &format!("go::<{ty}>(@ID@, {by}p, &{inputs:?});\n");
    if captures {
        src += "let _ = (unit.len(), count.get());\n";
    }
    Some(Prog {
        tape: tape.to_vec(),
        pat,
        source: src,
        inputs,
        expect,
    })
}

impl Spoil {
    /// How many places there are.
    pub fn places(&self) -> usize {
        self.seen
    }
}

impl Prog {
    /// The macro has to work in crates of any edition. Programs to be compiled
    /// together have to be of the same one.
    pub fn edition(&self) -> &'static str {
        match self.tape.first().map_or(0, |x| x >> 4 & 3) {
            2 => "2018",
            3 => "2024",
            _ => "2021",
        }
    }
}

pub fn file(progs: &[&Prog]) -> String {
    let edition = progs.first().map_or("2021", |p| p.edition());
    let mut s = format!("// edition {edition}\n{SUPPORT}");
    for (i, p) in progs.iter().enumerate() {
        s += &format!("fn f{i}() {{\n{}}}\n", p.source.replace("@ID@", &i.to_string()));
    }
    s += "fn run() {\n";
    for i in 0..progs.len() {
        s += &format!("f{i}();\n");
    }
    s + "}\n"
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Compile,
    Output,
    Crash,
}

/// What is wrong with each program, if anything.
fn judge_batch(rc: &Rustc, name: &str, progs: &[&Prog]) -> Result<Vec<Option<(Kind, String)>>, String> {
    let (kind, text) = match rc.build_and_run(name, &file(progs), 100)? {
        Outcome::Ran(out) => {
            let mut seen: Vec<Vec<Option<String>>> =
                progs.iter().map(|p| vec![None; p.inputs.len()]).collect();
            for l in out.lines() {
                let mut parts = l.splitn(4, ' ');
                if parts.next() != Some("R") {
                    continue;
                }
                let (a, b) = (parts.next().unwrap(), parts.next().unwrap());
                let (a, b): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
                seen[a][b] = Some(parts.next().unwrap_or("").to_string());
            }
            let mut r = vec![];
            for (p, got) in progs.iter().zip(seen) {
                let bad = (0..p.inputs.len()).find_map(|i| {
                    let want = p.expect[i].escape_default().to_string();
                    let got = got[i].as_deref().unwrap_or("nothing");
                    (want != got).then(|| {
                        format!("input: {:?}\nexpected: {want}\ngot:      {got}", p.inputs[i])
                    })
                });
                r.push(bad.map(|b| (Kind::Output, b)));
            }
            return Ok(r);
        }
        Outcome::DoesNotCompile(e) => (Kind::Compile, e),
        Outcome::Died(e) => (Kind::Crash, e),
    };
    if progs.len() == 1 {
        let text: String = text.chars().take(3000).collect();
        let what = if kind == Kind::Compile { "the program does not compile" } else { "the program dies" };
        return Ok(vec![Some((kind, format!("{what}:\n{text}")))]);
    }
    // Which one is it?
    let mut r = vec![];
    for (i, p) in progs.iter().enumerate() {
        let one = judge_batch(rc, &format!("{name}_{i}"), &[p])?;
        let bad = one[0].is_some();
        r.extend(one);
        if bad {
            r.resize_with(progs.len(), || None);
            return Ok(r);
        }
    }
    Err(format!("a batch fails ({kind:?}) although each program in it works alone: {text}"))
}

fn message(p: &Prog, m: &str) -> String {
    format!("pattern: {}\nprogram:\n{}{m}", p.pat.text(), p.source)
}

fn shrink(rc: &Rustc, tape: Vec<u32>, kind: Kind) -> Prog {
    let best = shrink_tape(tape, |tape, name| match make(tape) {
        Some(p) => matches!(judge_batch(rc, name, &[&p]), Ok(v) if matches!(&v[0], Some((k, _)) if *k == kind)),
        None => false,
    });
    make(&best).expect("the shrunk tape makes a program")
}

pub fn shrink_tape(tape: Vec<u32>, fails: impl Fn(&[u32], &str) -> bool + Sync) -> Vec<u32> {
    let mut best = tape;
    for _round in 0..14 {
        let n = best.len();
        let mut tries: Vec<Vec<u32>> = vec![];
        let mut size = n / 2;
        while size > 0 && tries.len() < 48 {
            tries.push(best[..n - size].to_vec());
            let mut at = 0;
            while at < n && tries.len() < 48 {
                let end = (at + size).min(n);
                let mut v = best.clone();
                v.drain(at..end);
                tries.push(v);
                let mut z = best.clone();
                if z[at..end].iter().any(|x| *x != 0) {
                    z[at..end].fill(0);
                    tries.push(z);
                }
                at = end;
            }
            size /= 2;
        }
        let ok: Vec<bool> = in_parallel(tries.len(), |i| fails(&tries[i], &format!("shrink{i}")));
        match ok.iter().position(|b| *b) {
            Some(i) => best = tries.swap_remove(i),
            None => break,
        }
    }
    best
}

pub fn in_parallel<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new((0..n).map(|_| None).collect::<Vec<Option<T>>>());
    std::thread::scope(|s| {
        for _ in 0..8.min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = f(i);
                    out.lock().unwrap()[i] = Some(r);
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

fn programs(w: &mut Whole) {
    let rc = match Rustc::find() {
        Ok(rc) => rc,
        Err(e) => {
            w.broken = Some(e);
            return;
        }
    };
    if let Some(data) = &w.replay {
        let tape: Vec<u32> = data["tape"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
            .unwrap_or_default();
        if let Some(p) = make(&tape) {
            match judge_batch(&rc, "replay", &[&p]) {
                Ok(v) => {
                    if let Some((_, m)) = &v[0] {
                        w.fail(message(&p, m), json!({}));
                    }
                }
                Err(e) => w.broken = Some(e),
            }
        }
        return;
    }
    let total = if w.tier == Tier::Quick { 4_000 } else { 60_000 };
    let per_batch = 20;
    let mut runner = proptest_runner(w.seed, w.check, w.sub, 0, total);
    let strategy = proptest::collection::vec(proptest::num::u32::ANY, 0..=260);
    let mut progs = vec![];
    while progs.len() < total {
        let tape = strategy.new_tree(&mut runner).unwrap().current();
        match make(&tape) {
            Some(p) => progs.push(p),
            None => w.count(Status::Discard, &0, String::new),
        }
    }
    // Those to be compiled together are neighbours: sort each part by edition.
    for part in progs.chunks_mut(per_batch * 16) {
        part.sort_by_key(|p| p.edition());
    }
    let mut done = 0;
    while done < progs.len() && !w.failed() {
        let part = &progs[done..(done + per_batch * 16).min(progs.len())];
        let batches: Vec<&[Prog]> =
            part.chunk_by(|p, q| p.edition() == q.edition()).flat_map(|c| c.chunks(per_batch)).collect();
        let results = in_parallel(batches.len(), |i| {
            let ps: Vec<&Prog> = batches[i].iter().collect();
            judge_batch(&rc, &format!("b{i}"), &ps)
        });
        let mut bad: Option<(Vec<u32>, Kind)> = None;
        for (batch, r) in batches.iter().zip(results) {
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    w.broken = Some(e);
                    return;
                }
            };
            for (p, verdict) in batch.iter().zip(r) {
                let accepted = p.expect.iter().any(|e| e.starts_with("Ok"));
                if verdict.is_none() {
                    let status = if accepted { Status::NonTrivial } else { Status::Trivial };
                    w.count(status, &p.source, || p.source.clone());
                    w.class(match p.edition() {
                        "2018" => "edition 2018",
                        "2024" => "edition 2024",
                        _ => "edition 2021",
                    });
                    if p.pat.any(&mut |p| matches!(p, Pat::RuleSet(..))) {
                        w.class("with rules");
                    }
                    if p.pat.any(&mut |p| matches!(p, Pat::Map(..))) {
                        w.class("with conversions");
                    }
                    if p.source.contains("unit.len() as") {
                        w.class("conversions use local variables");
                    }
                    if ["K0", "k0"].iter().any(|k| p.source.contains(k)) {
                        w.class("named texts");
                    }
                    if p.source.contains("made!") {
                        w.class("by another macro");
                    }
                    if p.pat.any(&mut |p| matches!(p, Pat::Var(..) | Pat::Func(..))) {
                        w.class("with names or functions");
                    }
                }
                if let (Some((k, _)), None) = (&verdict, &bad) {
                    bad = Some((p.tape.clone(), *k));
                }
            }
        }
        if let Some((tape, kind)) = bad {
            let p = shrink(&rc, tape, kind);
            match judge_batch(&rc, "final", &[&p]) {
                Ok(v) => {
                    let m = v[0].as_ref().map_or("did not fail again".into(), |x| x.1.clone());
                    w.fail(message(&p, &m), json!({ "tape": p.tape, "program": file(&[&p]) }));
                }
                Err(e) => w.broken = Some(e),
            }
        }
        done += part.len();
    }
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "a pattern is generated with the Rust type the documentation gives it, written as parser! source in varying surface syntax, compiled with that type asserted, and run on inputs derived from it; a case is a program; non-trivial when it accepts one of its inputs",
        assumptions: &["rustc is the one the tree under test is built with"],
        subs: vec![Sub { name: "programs", body: Body::Whole(programs) }],
    }
}

//! Build real aoc-parse parsers out of `Pat`s at run time.
//!
//! Every node becomes a small `parser!` pattern over the parsers of its parts,
//! with a type-erasing wrapper (`DynP`, a user-defined `Parser`) in between.
//! Values are `V::Raw` lists, to emulate the concatenation of raw tuples that
//! the type system does for `parser!` (the real thing is checked separately,
//! by compiling generated `parser!` programs).

use crate::leaf::{Word, CHAR_OFS, CLASSES, NUMS};
use crate::model::{custom_ends, list_items, pairs, Attempts, Place};
use crate::pat::{CollKind, Pat};
use crate::value::V;
use aoc_parse::prelude as ap;
use aoc_parse::{parser, ParseContext, ParseError, ParseIter, Parser, Reported};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub type Res<T> = std::result::Result<T, Reported>;

pub trait Erased {
    fn iter<'p>(
        &'p self,
        cx: &mut ParseContext<'p>,
        start: usize,
    ) -> Res<Box<dyn ParseIter<'p, RawOutput = (V,)> + 'p>>;
}

impl<P> Erased for P
where
    P: Parser<RawOutput = (V,), Output = V>,
{
    fn iter<'p>(
        &'p self,
        cx: &mut ParseContext<'p>,
        start: usize,
    ) -> Res<Box<dyn ParseIter<'p, RawOutput = (V,)> + 'p>> {
        Ok(Box::new(self.parse_iter(cx, start)?))
    }
}

#[derive(Clone)]
pub struct DynP(pub Rc<dyn Erased>);

impl DynP {
    pub fn new<P>(p: P) -> DynP
    where
        P: Parser<RawOutput = (V,), Output = V> + 'static,
    {
        DynP(Rc::new(p))
    }
}

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    /// Ids of the `=>` conversions called, in order.
    static TRACE: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

pub const OUT_OF_FUEL: &str = "parser keeps going without end";

fn burn() {
    FUEL.with(|f| {
        let n = f.get();
        if n == 0 {
            // Leave enough for unwinding; parsing stops here.
            f.set(u64::MAX);
            panic!("{OUT_OF_FUEL}");
        }
        f.set(n - 1);
    })
}

/// Panic once more than `n` parser steps have been taken.
pub fn set_fuel(n: u64) {
    FUEL.with(|f| f.set(n));
}

pub fn take_trace() -> Vec<u32> {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

pub fn push_trace(id: u32) {
    TRACE.with(|t| t.borrow_mut().push(id));
}

pub struct FuelIter<'p>(Box<dyn ParseIter<'p, RawOutput = (V,)> + 'p>);

impl<'p> ParseIter<'p> for FuelIter<'p> {
    type RawOutput = (V,);
    fn match_end(&self) -> usize {
        self.0.match_end()
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Res<()> {
        burn();
        self.0.backtrack(cx)
    }
    fn convert(&self) -> (V,) {
        self.0.convert()
    }
}

impl Parser for DynP {
    type Output = V;
    type RawOutput = (V,);
    type Iter<'p> = FuelIter<'p>;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Res<FuelIter<'p>> {
        burn();
        Ok(FuelIter(self.0.iter(cx, start)?))
    }
}

/// Hand-written parsers, the way a user would implement the traits.
///
/// 0: up to three characters, shortest match first.
/// 1: up to three characters, longest match first.
/// 2: never matches.
/// 3: one or two 'a's, but tries two before one, then "b".
#[derive(Clone, Copy)]
pub struct Custom(pub usize);

pub struct CustomIter<'p> {
    source: &'p str,
    start: usize,
    /// Remaining match ends, next one last.
    ends: Vec<usize>,
    kind: usize,
}

impl Parser for Custom {
    type Output = String;
    type RawOutput = (String,);
    type Iter<'p> = CustomIter<'p>;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Res<CustomIter<'p>> {
        let source = cx.source();
        let mut ends = custom_ends(self.0, source, start);
        if ends.is_empty() {
            return Err(cx.error_expected(start, "something custom"));
        }
        ends.reverse();
        Ok(CustomIter {
            source,
            start,
            ends,
            kind: self.0,
        })
    }
}

impl<'p> ParseIter<'p> for CustomIter<'p> {
    type RawOutput = (String,);
    fn match_end(&self) -> usize {
        *self.ends.last().unwrap()
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Res<()> {
        if self.ends.len() == 1 {
            if self.kind == 0 {
                // Reporting here is optional; do it in one of them.
                return Err(cx.error_expected(self.start, "nothing more"));
            }
            return Err(Reported);
        }
        self.ends.pop();
        Ok(())
    }
    fn convert(&self) -> (String,) {
        (self.source[self.start..self.match_end()].to_string(),)
    }
}

thread_local! {
    static COUNTING: Cell<bool> = const { Cell::new(false) };
    static ATTEMPTS: RefCell<Attempts> = RefCell::default();
}

thread_local! {
    static BROKEN: RefCell<Option<String>> = const { RefCell::new(None) };
    /// Whether values are being made.
    static SETTLED: Cell<bool> = const { Cell::new(false) };
}

/// What is wrong with how the parser traits were used since the last call.
pub fn take_broken() -> Option<String> {
    SETTLED.with(|s| s.set(false));
    BROKEN.with(|b| b.borrow_mut().take())
}

/// Whether any value was made since `take_broken`.
pub fn settled() -> bool {
    SETTLED.with(|s| s.get())
}

/// A user-defined parser that counts how often it is tried, and looks at how
/// it and its iterators are used.
#[derive(Clone, Copy)]
pub struct Watched<P> {
    pub part: usize,
    pub inner: P,
}

pub struct WatchedIter<'p, I> {
    source: &'p str,
    inner: I,
    start: usize,
    exhausted: bool,
    converted: Cell<bool>,
}

fn broken(source: &str, start: usize, what: &str) {
    BROKEN.with(|b| {
        b.borrow_mut()
            .get_or_insert_with(|| format!("{what}, at byte {start} of {} bytes", source.len()));
    })
}

impl<P: Parser> Parser for Watched<P> {
    type Output = P::Output;
    type RawOutput = P::RawOutput;
    type Iter<'p>
        = WatchedIter<'p, P::Iter<'p>>
    where
        P: 'p;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Res<Self::Iter<'p>> {
        let source = cx.source();
        ATTEMPTS.with(|a| {
            *a.borrow_mut().entry((self.part, source.len(), start)).or_default() += 1
        });
        if !source.is_char_boundary(start) {
            broken(source, start, "parse_iter is called at no character boundary");
            return Err(cx.error_expected(0, "a good start"));
        }
        if SETTLED.with(|s| s.get()) {
            broken(source, start, "parse_iter is called after the first convert");
        }
        Ok(WatchedIter {
            source,
            inner: self.inner.parse_iter(cx, start)?,
            start,
            exhausted: false,
            converted: Cell::new(false),
        })
    }
}

impl<'p, I: ParseIter<'p>> ParseIter<'p> for WatchedIter<'p, I> {
    type RawOutput = I::RawOutput;
    fn match_end(&self) -> usize {
        if self.exhausted {
            broken(self.source, self.start, "match_end is called after the last backtrack");
        }
        self.inner.match_end()
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Res<()> {
        if self.exhausted {
            broken(self.source, self.start, "backtrack is called after the last backtrack");
            return Err(Reported);
        }
        if SETTLED.with(|s| s.get()) {
            broken(self.source, self.start, "backtrack is called after the first convert");
        }
        if cx.source() != self.source {
            broken(self.source, self.start, "backtrack is called with another text");
        }
        self.inner.backtrack(cx).inspect_err(|Reported| {
            self.exhausted = true;
        })
    }
    fn convert(&self) -> I::RawOutput {
        if self.exhausted {
            broken(self.source, self.start, "convert is called after the last backtrack");
        }
        if self.converted.replace(true) {
            broken(self.source, self.start, "convert is called twice");
        }
        SETTLED.with(|s| s.set(true));
        self.inner.convert()
    }
}

/// As `build_user`, with a `Watched` around every part of the pattern.
pub fn build_counted(p: &Pat) -> DynP {
    COUNTING.with(|c| c.set(true));
    let dp = build_user(p);
    COUNTING.with(|c| c.set(false));
    dp
}

pub fn take_attempts() -> Attempts {
    ATTEMPTS.with(|a| std::mem::take(&mut *a.borrow_mut()))
}

/// `parser!(x:p => f(x))`, erased.
macro_rules! map {
    ($p:expr, $f:expr $(,)?) => {{
        let p = $p;
        DynP::new(parser!(x:p => ($f)(x)))
    }};
}

fn user(p: DynP) -> DynP {
    map!(p, |v: V| v.user())
}

fn one(v: V) -> V {
    V::Raw(vec![v])
}

fn num_parser(i: usize) -> DynP {
    macro_rules! table {
        ( $( $name:ident )* ) => {
            match NUMS[i].name {
                $( stringify!($name) => map!(ap::$name, |x| one(V::int(x))), )*
                other => unreachable!("{other}"),
            }
        };
    }
    table!(
        u8 u8_bin u8_hex u16 u16_bin u16_hex u32 u32_bin u32_hex u64 u64_bin u64_hex
        u128 u128_bin u128_hex usize usize_bin usize_hex
        i8 i8_bin i8_hex i16 i16_bin i16_hex i32 i32_bin i32_hex i64 i64_bin i64_hex
        i128 i128_bin i128_hex isize isize_bin isize_hex
        big_uint big_uint_bin big_uint_hex big_int big_int_bin big_int_hex
    )
}

fn class_parser(i: usize) -> DynP {
    match CLASSES[i].name {
        "alpha" => map!(ap::alpha, |c| one(V::Char(c))),
        "alnum" => map!(ap::alnum, |c| one(V::Char(c))),
        "upper" => map!(ap::upper, |c| one(V::Char(c))),
        "lower" => map!(ap::lower, |c| one(V::Char(c))),
        "any_char" => map!(ap::any_char, |c| one(V::Char(c))),
        "digit" => map!(ap::digit, |d| one(V::int(d))),
        "digit_bin" => map!(ap::digit_bin, |d| one(V::int(d))),
        "digit_hex" => map!(ap::digit_hex, |d| one(V::int(d))),
        other => unreachable!("{other}"),
    }
}

fn cat(vs: Vec<V>) -> V {
    let mut out = vec![];
    for v in vs {
        match v {
            V::Raw(items) => out.extend(items),
            v => out.push(v),
        }
    }
    V::Raw(out)
}

/// Concatenation.
pub fn seq(mut ps: Vec<DynP>) -> DynP {
    match ps.len() {
        0 => DynP::new(parser!(x:() => { let () = x; V::Raw(vec![]) })),
        1 => ps.pop().unwrap(),
        2 => {
            let [a, b]: [DynP; 2] = ps.try_into().ok().unwrap();
            map!(parser!(a b), |(a, b)| cat(vec![a, b]))
        }
        3 => {
            let [a, b, c]: [DynP; 3] = ps.try_into().ok().unwrap();
            map!(parser!(a b c), |(a, b, c)| cat(vec![a, b, c]))
        }
        4 => {
            let [a, b, c, d]: [DynP; 4] = ps.try_into().ok().unwrap();
            map!(parser!(a b c d), |(a, b, c, d)| cat(vec![a, b, c, d]))
        }
        5 => {
            let [a, b, c, d, e]: [DynP; 5] = ps.try_into().ok().unwrap();
            // In groups, for a change.
            map!(parser!(((a b) c) (d e)), |(((a, b), c), (d, e))| cat(vec![
                a, b, c, d, e
            ]))
        }
        _ => {
            let rest = ps.split_off(3);
            let (a, b) = (seq(ps), seq(rest));
            map!(parser!(a b), |(a, b)| cat(vec![a, b]))
        }
    }
}

fn alt(mut ps: Vec<DynP>) -> DynP {
    match ps.len() {
        1 => {
            let a = ps.pop().unwrap();
            DynP::new(parser!({ a }))
        }
        2 => {
            let [a, b]: [DynP; 2] = ps.try_into().ok().unwrap();
            DynP::new(parser!({a, b}))
        }
        3 => {
            let [a, b, c]: [DynP; 3] = ps.try_into().ok().unwrap();
            DynP::new(parser!({a, b, c}))
        }
        4 => {
            let [a, b, c, d]: [DynP; 4] = ps.try_into().ok().unwrap();
            DynP::new(parser!({a, b, c, d,}))
        }
        _ => {
            let rest = ps.split_off(3);
            let (a, b) = (alt(ps), alt(rest));
            DynP::new(parser!({a, b}))
        }
    }
}

pub fn build(p: &Pat) -> DynP {
    build_in(p, &[])
}

pub fn build_user(p: &Pat) -> DynP {
    user(build(p))
}

fn build_in(p: &Pat, rules: &[DynP]) -> DynP {
    let inner = build_part(p, rules);
    if COUNTING.with(|c| c.get()) {
        let part = p as *const Pat as usize;
        DynP::new(Watched { part, inner })
    } else {
        inner
    }
}

fn build_part(p: &Pat, rules: &[DynP]) -> DynP {
    let go = |p: &Pat| build_in(p, rules);
    let gou = |p: &Pat| user(build_in(p, rules));
    match p {
        Pat::Lit(s) => {
            let s: &'static str = intern(s);
            map!(s, |()| V::Raw(vec![]))
        }
        Pat::Chr(c) => map!(*c, |()| V::Raw(vec![])),
        Pat::Unit => DynP::new(parser!(x:() => { let () = x; one(V::Unit) })),
        Pat::Num(i) => num_parser(*i),
        Pat::Word(Word::F32) => map!(ap::f32, |x: f32| one(V::F32(x.to_bits()))),
        Pat::Word(Word::F64) => map!(ap::f64, |x: f64| one(V::F64(x.to_bits()))),
        Pat::Word(Word::Bool) => map!(ap::bool, |x| one(V::Bool(x))),
        Pat::Class(i) => class_parser(*i),
        Pat::CharOf(i) => {
            map!(ap::char_of(CHAR_OFS[*i]), |x| one(V::int(x)))
        }
        Pat::Seq(ps) => seq(ps.iter().map(go).collect()),
        Pat::Paren(p) => {
            let p = gou(p);
            map!(parser!((p)), one)
        }
        Pat::Alt(ps) => map!(alt(ps.iter().map(gou).collect()), one),
        Pat::Opt(p) => {
            let p = gou(p);
            map!(parser!(p?), |o: Option<V>| {
                one(match o {
                    None => V::None,
                    Some(v) => V::Some(Box::new(v)),
                })
            })
        }
        Pat::Star(p) => map!(
            {
                let p = gou(p);
                parser!(p*)
            },
            |vs| one(V::List(vs))
        ),
        Pat::Plus(p) => map!(
            {
                let p = gou(p);
                parser!(p+)
            },
            |vs| one(V::List(vs))
        ),
        Pat::RepSep(p, s) => {
            map!(ap::repeat_sep(gou(p), go(s)), |vs| one(V::List(vs)))
        }
        Pat::Line(p) => map!(ap::line(gou(p)), one),
        Pat::Lines(p) => map!(ap::lines(gou(p)), |vs| one(V::List(vs))),
        Pat::Section(p) => map!(ap::section(gou(p)), one),
        Pat::Sections(p) => map!(ap::sections(gou(p)), |vs| one(V::List(vs))),
        Pat::Str(p) => map!(ap::string(go(p)), |s| one(V::Str(s))),
        Pat::Coll(k, p) => {
            let inner = gou(p);
            match k {
                CollKind::HashSet => map!(
                    ap::hash_set(parser!(x:inner => list_items(x))),
                    |c: std::collections::HashSet<V>| one(V::Set(c.into_iter().collect())),
                ),
                CollKind::BTreeSet => map!(
                    ap::btree_set(parser!(x:inner => list_items(x))),
                    |c: std::collections::BTreeSet<V>| one(V::Set(c)),
                ),
                CollKind::HashMap => map!(
                    ap::hash_map(parser!(x:inner => pairs(x))),
                    |c: std::collections::HashMap<V, V>| one(V::Map(c.into_iter().collect())),
                ),
                CollKind::BTreeMap => map!(
                    ap::btree_map(parser!(x:inner => pairs(x))),
                    |c: std::collections::BTreeMap<V, V>| one(V::Map(c)),
                ),
                CollKind::Deque => map!(
                    ap::vec_deque(parser!(x:inner => list_items(x))),
                    |c: std::collections::VecDeque<V>| one(V::Deque(c.into_iter().collect())),
                ),
            }
        }
        Pat::Map(id, ts) => {
            let conv: &'static (u32, Vec<bool>) =
                intern_conv(*id, ts.iter().map(|(l, _)| *l).collect());
            // Nested pairs, which is also what parser! does.
            let mut ps: Vec<DynP> = ts.iter().map(|(_, p)| gou(p)).collect();
            let last = ps.pop().expect("Map needs a term");
            let mut acc = map!(last, |v: V| V::Tuple(vec![v]));
            while let Some(p) = ps.pop() {
                acc = DynP::new(parser!(a:p rest:acc => {
                    let V::Tuple(rest) = rest else { unreachable!() };
                    let mut vs = vec![a];
                    vs.extend(rest);
                    V::Tuple(vs)
                }));
            }
            map!(acc, |v: V| {
                push_trace(conv.0);
                let V::Tuple(vs) = v else { unreachable!() };
                let args = vs
                    .into_iter()
                    .zip(&conv.1)
                    .filter_map(|(v, l)| l.then_some(v))
                    .collect();
                one(V::M(conv.0, args))
            })
        }
        Pat::RuleSet(rs, e) => rule_set(rs, e),
        Pat::Rule(i) => map!(rules[*i].clone(), one),
        Pat::Var(_, p) => {
            let p = gou(p);
            map!(parser!((p)), one)
        }
        Pat::Func(0, ps) => {
            let p = gou(&ps[0]);
            let p2 = p.clone();
            DynP::new(parser!(a:p2 b:p => one(V::Tuple(vec![a, b]))))
        }
        Pat::Func(1, ps) => {
            let p = gou(&ps[0]);
            DynP::new(parser!('<' v:p '>' => one(v)))
        }
        Pat::Func(..) => map!(
            ap::string({
                let l = ap::lower;
                parser!(l+)
            }),
            |s| one(V::Str(s))
        ),
        Pat::Custom(k) => map!(Custom(*k), |s| one(V::Str(s))),
    }
}

fn intern_conv(id: u32, labels: Vec<bool>) -> &'static (u32, Vec<bool>) {
    thread_local! {
        static POOL: RefCell<std::collections::HashSet<&'static (u32, Vec<bool>)>> =
            Default::default();
    }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        let key = (id, labels);
        if let Some(x) = p.get(&key) {
            return *x;
        }
        let leaked: &'static (u32, Vec<bool>) = Box::leak(Box::new(key));
        p.insert(leaked);
        leaked
    })
}

/// A rule set. The number of rules is fixed when `parser!` is expanded, so
/// there is one expansion for each number up to four.
fn rule_set(rs: &[Pat], e: &Pat) -> DynP {
    /// Builds the body of a rule (or the entry pattern) from the rules.
    fn body<P: Parser<RawOutput = (V,), Output = V> + 'static>(p: &Pat, names: Vec<P>) -> DynP {
        let names: Vec<DynP> = names.into_iter().map(DynP::new).collect();
        user(build_in(p, &names))
    }
    macro_rules! rule_set {
        ( $( $name:ident $index:tt )+ ; $names:tt ) => {{
            $( let $name = |names| body(&rs[$index], names); )+
            let entry = |names| body(e, names);
            rule_set!(@go $( $name )+ ; entry ; $names)
        }};
        (@go $f0:ident ; $e:ident ; (a)) => {
            map!(parser! {
                rule a: V = $f0(list1(a));
                $e(list1(a))
            }, one)
        };
        (@go $f0:ident $f1:ident ; $e:ident ; (a b)) => {
            map!(parser! {
                rule a: V = $f0(list2(a, b));
                rule b: V = $f1(list2(a, b));
                $e(list2(a, b))
            }, one)
        };
        (@go $f0:ident $f1:ident $f2:ident ; $e:ident ; (a b c)) => {
            map!(parser! {
                rule a: V = $f0(list3(a, b, c));
                rule b: V = $f1(list3(a, b, c));
                rule c: V = $f2(list3(a, b, c));
                $e(list3(a, b, c))
            }, one)
        };
        (@go $f0:ident $f1:ident $f2:ident $f3:ident ; $e:ident ; (a b c d)) => {
            map!(parser! {
                rule a: V = $f0(list4(a, b, c, d));
                rule b: V = $f1(list4(a, b, c, d));
                rule c: V = $f2(list4(a, b, c, d));
                rule d: V = $f3(list4(a, b, c, d));
                $e(list4(a, b, c, d))
            }, one)
        };
    }
    fn list1<P>(a: P) -> Vec<P> {
        vec![a]
    }
    fn list2<P>(a: P, b: P) -> Vec<P> {
        vec![a, b]
    }
    fn list3<P>(a: P, b: P, c: P) -> Vec<P> {
        vec![a, b, c]
    }
    fn list4<P>(a: P, b: P, c: P, d: P) -> Vec<P> {
        vec![a, b, c, d]
    }
    match rs.len() {
        1 => rule_set!(f0 0 ; (a)),
        2 => rule_set!(f0 0 f1 1 ; (a b)),
        3 => rule_set!(f0 0 f1 1 f2 2 ; (a b c)),
        4 => rule_set!(f0 0 f1 1 f2 2 f3 3 ; (a b c d)),
        n => unreachable!("{n} rules"),
    }
}

/// `&'static str`s for literals. The generators draw from small fixed pools, so
/// this does not grow without bound.
pub fn intern(s: &str) -> &'static str {
    thread_local! {
        static POOL: RefCell<std::collections::HashMap<String, &'static str>> = Default::default();
    }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(x) = p.get(s) {
            return *x;
        }
        let leaked: &'static str = Box::leak(s.to_string().into_boxed_str());
        p.insert(s.to_string(), leaked);
        leaked
    })
}

/// What a user sees of a parse.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seen {
    Ok(V),
    Err { location: usize, message: String },
    Panic(String),
}

impl Seen {
    pub fn from_result(r: std::result::Result<V, ParseError>) -> Seen {
        match r {
            Ok(v) => Seen::Ok(v),
            Err(e) => Seen::Err {
                location: e.location,
                message: e.to_string(),
            },
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Seen::Ok(_))
    }
    pub fn text(&self) -> String {
        match self {
            Seen::Ok(v) => format!("Ok {}", v.show()),
            Seen::Err { location, message } => format!("Err at byte {location}: {message}"),
            Seen::Panic(m) => format!("panic: {m}"),
        }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// Run code under test, turning panics into values.
pub fn guard<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_fuel(u64::MAX);
    r.map_err(panic_text)
}

/// Parse with a step limit.
pub fn run(p: &DynP, s: &str, fuel: u64) -> Seen {
    let r = guard(|| {
        set_fuel(fuel);
        p.parse(s)
    });
    match r {
        Ok(r) => Seen::from_result(r),
        Err(m) => Seen::Panic(m),
    }
}

//! The reference model: what a pattern means, written as directly as possible.
//!
//! Matching is by continuation passing: `m(p, pos, k)` calls `k` with every
//! end of a match of `p` at `pos`, in order of preference, until `k` says
//! stop. That *is* the meaning of "try the alternatives in order, repeat
//! greedily, and back up when the rest does not match". Nothing is converted
//! until a match of the whole input has been found.

use crate::leaf::*;
use crate::pat::{CollKind, Pat};
use crate::value::V;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::OnceLock;

/// Steps the model may take before we call a case too big.
pub const MODEL_FUEL: u64 = 5000;

/// A match that has not been converted yet.
pub struct Tree<'a> {
    pat: &'a Pat,
    kind: Kind<'a>,
}

type Kids<'a> = Option<Rc<Cons<'a>>>;

pub struct Cons<'a> {
    tree: Rc<Tree<'a>>,
    rest: Kids<'a>,
}

// Long repetitions make long lists.
impl Drop for Cons<'_> {
    fn drop(&mut self) {
        let mut next = self.rest.take();
        while let Some(rc) = next {
            match Rc::try_unwrap(rc) {
                Ok(mut c) => next = c.rest.take(),
                Err(_) => break,
            }
        }
    }
}

enum Kind<'a> {
    Nothing,
    Leaf(V),
    /// Most recent first.
    Kids(Kids<'a>),
    /// The text of a `string()` or the like.
    Text(String),
}

fn push<'a>(tree: Rc<Tree<'a>>, rest: &Kids<'a>) -> Kids<'a> {
    Some(Rc::new(Cons {
        tree,
        rest: rest.clone(),
    }))
}

fn in_order<'a, 'b>(kids: &'b Kids<'a>) -> Vec<&'b Rc<Tree<'a>>> {
    let mut out = vec![];
    let mut k = kids;
    while let Some(c) = k {
        out.push(&c.tree);
        k = &c.rest;
    }
    out.reverse();
    out
}

/// The text being matched (all of the input, or one line or section of it) and
/// the most advanced problem so far.
pub struct Cx<'s> {
    src: &'s str,
    best: RefCell<Option<(usize, String)>>,
}

impl<'s> Cx<'s> {
    pub fn new(src: &'s str) -> Self {
        Cx {
            src,
            best: RefCell::new(None),
        }
    }

    fn report(&self, at: usize, reason: impl FnOnce() -> String) {
        let mut best = self.best.borrow_mut();
        if best.as_ref().map_or(true, |(b, _)| at > *b) {
            *best = Some((at, reason()));
        }
    }

    pub fn into_best(self) -> Option<(usize, String)> {
        self.best.into_inner()
    }
}

type K<'k, 'a> = &'k mut dyn FnMut(usize, Rc<Tree<'a>>) -> bool;

/// Where a part of a pattern was tried: which part (its address), in how long
/// a text (lines and sections are tried as texts of their own), at which offset.
pub type Place = (usize, usize, usize);
pub type Attempts = std::collections::HashMap<Place, u32>;

pub struct Model {
    fuel: Cell<u64>,
    steps: Cell<u64>,
    out: Cell<bool>,
    /// How many times a match had to be given up for a less preferred one.
    pub backtracks: Cell<u64>,
    pub regions_failed: Cell<u64>,
    /// How often each part was tried at each place, if somebody asks.
    attempts: Option<RefCell<Attempts>>,
}

fn lower_plus() -> &'static Pat {
    static P: OnceLock<Pat> = OnceLock::new();
    P.get_or_init(|| Pat::Plus(Box::new(Pat::class("lower"))))
}
fn angle_open() -> &'static Pat {
    static P: OnceLock<Pat> = OnceLock::new();
    P.get_or_init(|| Pat::Chr('<'))
}
fn angle_close() -> &'static Pat {
    static P: OnceLock<Pat> = OnceLock::new();
    P.get_or_init(|| Pat::Chr('>'))
}

impl Model {
    pub fn new(fuel: u64) -> Model {
        Model {
            fuel: Cell::new(fuel),
            steps: Cell::new(0),
            out: Cell::new(false),
            backtracks: Cell::new(0),
            regions_failed: Cell::new(0),
            attempts: None,
        }
    }

    pub fn ran_out(&self) -> bool {
        self.out.get()
    }

    pub fn steps(&self) -> u64 {
        self.steps.get()
    }

    /// Call `k` for each match. Returns true if `k` said to stop (or we ran
    /// out of fuel).
    pub fn m<'a>(&self, p: &'a Pat, env: &'a [Pat], cx: &Cx, pos: usize, k: K<'_, 'a>) -> bool {
        if self.fuel.get() == 0 {
            self.out.set(true);
            return true;
        }
        self.fuel.set(self.fuel.get() - 1);
        self.steps.set(self.steps.get() + 1);
        if let Some(a) = &self.attempts {
            let place = (p as *const Pat as usize, cx.src.len(), pos);
            *a.borrow_mut().entry(place).or_default() += 1;
        }

        let leaf = |r: LeafMatch, k: K<'_, 'a>| match r {
            LeafMatch::Yes(n, v) => k(
                pos + n,
                Rc::new(Tree {
                    pat: p,
                    kind: Kind::Leaf(v),
                }),
            ),
            LeafMatch::No(reason) => {
                cx.report(pos, || reason);
                false
            }
        };
        let node = |kids: Kids<'a>| {
            Rc::new(Tree {
                pat: p,
                kind: Kind::Kids(kids),
            })
        };
        let rest = &cx.src[pos..];
        match p {
            Pat::Lit(s) => {
                if rest.starts_with(s.as_str()) {
                    k(
                        pos + s.len(),
                        Rc::new(Tree {
                            pat: p,
                            kind: Kind::Nothing,
                        }),
                    )
                } else {
                    cx.report(pos, || format!("expected {s:?}"));
                    false
                }
            }
            Pat::Chr(c) => {
                if rest.chars().next() == Some(*c) {
                    let end = pos + c.len_utf8();
                    k(
                        end,
                        Rc::new(Tree {
                            pat: p,
                            kind: Kind::Nothing,
                        }),
                    )
                } else {
                    cx.report(pos, || format!("expected {c:?}"));
                    false
                }
            }
            Pat::Unit => k(
                pos,
                Rc::new(Tree {
                    pat: p,
                    kind: Kind::Leaf(V::Unit),
                }),
            ),
            Pat::Num(i) => leaf(NUMS[*i].match_at(rest), k),
            Pat::Word(w) => leaf(match_word(*w, rest), k),
            Pat::Class(i) => leaf(match_class(&CLASSES[*i], rest), k),
            Pat::CharOf(i) => leaf(match_char_of(CHAR_OFS[*i], rest), k),
            Pat::Seq(ps) => {
                let ps: Vec<&Pat> = ps.iter().collect();
                self.seq(&ps, env, cx, pos, None, &mut |e, kids| k(e, node(kids)))
            }
            Pat::Map(_, ts) => {
                let ps: Vec<&Pat> = ts.iter().map(|(_, p)| p).collect();
                self.seq(&ps, env, cx, pos, None, &mut |e, kids| k(e, node(kids)))
            }
            Pat::Func(0, ps) => {
                let ps = [&ps[0], &ps[0]];
                self.seq(&ps, env, cx, pos, None, &mut |e, kids| k(e, node(kids)))
            }
            Pat::Func(1, ps) => {
                let ps = [angle_open(), &ps[0], angle_close()];
                self.seq(&ps, env, cx, pos, None, &mut |e, kids| k(e, node(kids)))
            }
            Pat::Func(..) => self.m(lower_plus(), env, cx, pos, &mut |e, _| {
                let text = cx.src[pos..e].to_string();
                k(
                    e,
                    Rc::new(Tree {
                        pat: p,
                        kind: Kind::Text(text),
                    }),
                )
            }),
            Pat::Paren(q) | Pat::Var(_, q) | Pat::Coll(_, q) => {
                self.m(q, env, cx, pos, &mut |e, t| k(e, node(push(t, &None))))
            }
            Pat::Str(q) => self.m(q, env, cx, pos, &mut |e, _| {
                let text = cx.src[pos..e].to_string();
                k(
                    e,
                    Rc::new(Tree {
                        pat: p,
                        kind: Kind::Text(text),
                    }),
                )
            }),
            Pat::Alt(ps) => {
                for (i, q) in ps.iter().enumerate() {
                    if i > 0 {
                        self.backtracks.set(self.backtracks.get() + 1);
                    }
                    if self.m(q, env, cx, pos, &mut |e, t| k(e, node(push(t, &None)))) {
                        return true;
                    }
                }
                false
            }
            Pat::Opt(q) => {
                if self.m(q, env, cx, pos, &mut |e, t| k(e, node(push(t, &None)))) {
                    return true;
                }
                k(pos, node(None))
            }
            Pat::Star(q) => {
                self.rep(q, None, env, cx, None, pos, &None, &mut |e, kids| {
                    k(e, node(kids))
                }) || k(pos, node(None))
            }
            Pat::Plus(q) => self.rep(q, None, env, cx, None, pos, &None, &mut |e, kids| {
                k(e, node(kids))
            }),
            Pat::RepSep(q, s) => {
                self.rep(q, Some(s), env, cx, None, pos, &None, &mut |e, kids| {
                    k(e, node(kids))
                }) || k(pos, node(None))
            }
            Pat::Line(q) => self.region(true, q, env, cx, pos, &mut |e, t| {
                k(e, node(push(t, &None)))
            }),
            Pat::Section(q) => self.region(false, q, env, cx, pos, &mut |e, t| {
                k(e, node(push(t, &None)))
            }),
            Pat::Lines(q) => self.reg_rep(true, q, env, cx, pos, &None, &mut |e, kids| {
                k(e, node(kids))
            }),
            Pat::Sections(q) => self.reg_rep(false, q, env, cx, pos, &None, &mut |e, kids| {
                k(e, node(kids))
            }),
            Pat::RuleSet(rs, e) => {
                self.m(e, rs, cx, pos, &mut |e, t| k(e, node(push(t, &None))))
            }
            Pat::Rule(i) => self.m(&env[*i], env, cx, pos, &mut |e, t| {
                k(e, node(push(t, &None)))
            }),
            Pat::Custom(kind) => {
                let ends = custom_ends(*kind, cx.src, pos);
                if ends.is_empty() {
                    cx.report(pos, || "expected something custom".to_string());
                    return false;
                }
                for e in ends {
                    let text = cx.src[pos..e].to_string();
                    if k(
                        e,
                        Rc::new(Tree {
                            pat: p,
                            kind: Kind::Text(text),
                        }),
                    ) {
                        return true;
                    }
                    self.backtracks.set(self.backtracks.get() + 1);
                }
                if *kind == 0 {
                    cx.report(pos, || "expected nothing more".to_string());
                }
                false
            }
        }
    }

    fn seq<'a>(
        &self,
        ps: &[&'a Pat],
        env: &'a [Pat],
        cx: &Cx,
        pos: usize,
        kids: Kids<'a>,
        k: &mut dyn FnMut(usize, Kids<'a>) -> bool,
    ) -> bool {
        match ps.split_first() {
            None => k(pos, kids),
            Some((p, rest)) => {
                let mut first = true;
                self.m(p, env, cx, pos, &mut |e, t| {
                    if !first {
                        self.backtracks.set(self.backtracks.get() + 1);
                    }
                    first = false;
                    self.seq(rest, env, cx, e, push(t, &kids), k)
                })
            }
        }
    }

    /// One or more `p`, separated by `s`, longest first. `last` is where the
    /// previous round started: a round that consumed nothing is the last one.
    fn rep<'a>(
        &self,
        p: &'a Pat,
        s: Option<&'a Pat>,
        env: &'a [Pat],
        cx: &Cx,
        last: Option<usize>,
        pos: usize,
        kids: &Kids<'a>,
        k: &mut dyn FnMut(usize, Kids<'a>) -> bool,
    ) -> bool {
        if last == Some(pos) {
            return false;
        }
        self.m(p, env, cx, pos, &mut |e, t| {
            let kids = push(t, kids);
            let stop = match s {
                None => self.rep(p, s, env, cx, Some(pos), e, &kids, k),
                Some(sep) => self.m(sep, env, cx, e, &mut |e2, _| {
                    self.rep(p, s, env, cx, Some(pos), e2, &kids, k)
                }),
            };
            if stop {
                return true;
            }
            self.backtracks.set(self.backtracks.get() + 1);
            k(e, kids)
        })
    }

    fn reg_rep<'a>(
        &self,
        line: bool,
        p: &'a Pat,
        env: &'a [Pat],
        cx: &Cx,
        pos: usize,
        kids: &Kids<'a>,
        k: &mut dyn FnMut(usize, Kids<'a>) -> bool,
    ) -> bool {
        // A region always consumes something, so this is not stuck anywhere.
        if self.region(line, p, env, cx, pos, &mut |e, t| {
            self.reg_rep(line, p, env, cx, e, &push(t, kids), k)
        }) {
            return true;
        }
        k(pos, kids.clone())
    }

    fn region<'a>(
        &self,
        line: bool,
        p: &'a Pat,
        env: &'a [Pat],
        cx: &Cx,
        pos: usize,
        k: K<'_, 'a>,
    ) -> bool {
        let src = cx.src;
        let b = src.as_bytes();
        let after_newline = |i: usize| i == 0 || b[i - 1] == b'\n';
        // (end of the inside, end of the region)
        let ends = if line {
            if !after_newline(pos) {
                cx.report(pos, || {
                    "line() can't match here because this is not at the start of a line".into()
                });
                return false;
            }
            let mut i = pos;
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            if pos == b.len() {
                cx.report(pos, || "expected line".into());
                return false;
            }
            if i < b.len() {
                (i, i + 1)
            } else {
                (i, i)
            }
        } else {
            // At the start of the text, or just after a blank line.
            let ok = pos == 0 || (b[pos - 1] == b'\n' && after_newline(pos - 1));
            if !ok {
                cx.report(pos, || {
                    "section() can't match here because this is not at the start of a section"
                        .into()
                });
                return false;
            }
            if pos == b.len() {
                cx.report(pos, || "expected section".into());
                return false;
            }
            // Take lines until a blank one.
            let mut i = pos;
            loop {
                if i == b.len() {
                    break (i, i);
                }
                if b[i] == b'\n' {
                    break (i, i + 1);
                }
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                if i < b.len() {
                    i += 1;
                }
            }
        };
        let (inner_end, outer_end) = ends;
        let inner = Cx::new(&src[pos..inner_end]);
        let mut found = None;
        self.m(p, env, &inner, 0, &mut |e, t| {
            if e == inner.src.len() {
                found = Some(t);
                true
            } else {
                inner.report(e, || {
                    if line {
                        "line(pattern) matched part of the line, but not all of it".into()
                    } else {
                        "section(pattern) matched part of the section, but not all of it".into()
                    }
                });
                false
            }
        });
        if self.out.get() {
            return true;
        }
        match found {
            Some(t) => k(outer_end, t),
            None => {
                self.regions_failed.set(self.regions_failed.get() + 1);
                let (at, reason) = inner.into_best().expect("failed for no reason");
                cx.report(pos + at, || reason);
                false
            }
        }
    }
}

/// Convert a match to a value, noting which conversions ran.
fn convert(t: &Tree, trace: &mut Vec<u32>) -> Vec<V> {
    let kids = match &t.kind {
        Kind::Nothing => return vec![],
        Kind::Leaf(v) => return vec![v.clone()],
        Kind::Text(s) => return vec![V::Str(s.clone())],
        Kind::Kids(k) => in_order(k),
    };
    let user = |t: &Tree, trace: &mut Vec<u32>| V::Raw(convert(t, trace)).user();
    match t.pat {
        Pat::Seq(_) => kids.iter().flat_map(|k| convert(k, trace)).collect(),
        Pat::Paren(_)
        | Pat::Var(..)
        | Pat::Alt(_)
        | Pat::Line(_)
        | Pat::Section(_)
        | Pat::RuleSet(..)
        | Pat::Rule(_) => vec![user(kids[0], trace)],
        Pat::Func(0, _) => vec![V::Tuple(kids.iter().map(|k| user(k, trace)).collect())],
        Pat::Func(1, _) => vec![user(kids[1], trace)],
        Pat::Opt(_) => vec![match kids.first() {
            None => V::None,
            Some(k) => V::Some(Box::new(user(k, trace))),
        }],
        Pat::Star(_) | Pat::Plus(_) | Pat::RepSep(..) | Pat::Lines(_) | Pat::Sections(_) => {
            vec![V::List(kids.iter().map(|k| user(k, trace)).collect())]
        }
        Pat::Coll(kind, _) => vec![coll_value(*kind, user(kids[0], trace))],
        Pat::Map(id, ts) => {
            let mut args = vec![];
            for (k, (labeled, _)) in kids.iter().zip(ts) {
                let v = user(k, trace);
                if *labeled {
                    args.push(v);
                }
            }
            trace.push(*id);
            vec![V::M(*id, args)]
        }
        _ => unreachable!(),
    }
}

/// Where a byte offset is, for people.
pub fn describe_location(source: &str, at: usize) -> String {
    if at == source.len() {
        return "at end of input".to_string();
    }
    let mut line = 1;
    let mut column = 1;
    for (i, c) in source.char_indices() {
        if i >= at {
            break;
        }
        if c == '\n' {
            line += 1;
            column = 1;
        } else {
            column += 1;
        }
    }
    format!("at line {line} column {column}")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    Ok { value: V, trace: Vec<u32> },
    Err { location: usize, message: String },
}

impl Expect {
    pub fn is_ok(&self) -> bool {
        matches!(self, Expect::Ok { .. })
    }
    pub fn text(&self) -> String {
        match self {
            Expect::Ok { value, .. } => format!("Ok {}", value.show()),
            Expect::Err { location, message } => format!("Err at byte {location}: {message}"),
        }
    }
}

pub struct Run {
    pub expect: Expect,
    pub steps: u64,
    pub backtracks: u64,
    pub regions_failed: u64,
    /// Matches of a proper prefix of the input that were rejected.
    pub partial: u64,
}

/// What parsing all of `s` with `p` should do. None if it takes too long.
pub fn parse(p: &Pat, s: &str, fuel: u64) -> Option<Run> {
    parse_with(p, s, Model::new(fuel)).map(|(run, _)| run)
}

/// The same, with how often every part is tried at every place.
pub fn parse_counting(p: &Pat, s: &str, fuel: u64) -> Option<(Run, Attempts)> {
    let mut model = Model::new(fuel);
    model.attempts = Some(RefCell::default());
    parse_with(p, s, model).map(|(run, a)| (run, a.unwrap()))
}

fn parse_with(p: &Pat, s: &str, model: Model) -> Option<(Run, Option<Attempts>)> {
    let cx = Cx::new(s);
    let mut found = None;
    let mut partial = 0;
    model.m(p, &[], &cx, 0, &mut |e, t| {
        if e == s.len() {
            found = Some(t);
            true
        } else {
            partial += 1;
            cx.report(e, || "extra unparsed text after match".into());
            false
        }
    });
    if model.ran_out() {
        return None;
    }
    let expect = match found {
        Some(t) => {
            let mut trace = vec![];
            let value = V::Raw(convert(&t, &mut trace)).user();
            Expect::Ok { value, trace }
        }
        None => {
            let (location, reason) = cx.into_best().expect("failed for no reason");
            Expect::Err {
                location,
                message: format!("{reason} {}", describe_location(s, location)),
            }
        }
    };
    let run = Run {
        expect,
        steps: model.steps(),
        backtracks: model.backtracks.get(),
        regions_failed: model.regions_failed.get(),
        partial,
    };
    Some((run, model.attempts.map(|a| a.into_inner())))
}

pub struct Matches {
    pub list: Vec<(usize, V)>,
    /// True if there are no more than these.
    pub complete: bool,
    pub problem: Option<(usize, String)>,
}

/// The first `max` matches of `p` at `start`, best first.
pub fn matches(p: &Pat, s: &str, start: usize, max: usize, fuel: u64) -> Option<Matches> {
    let model = Model::new(fuel);
    let cx = Cx::new(s);
    let mut list = vec![];
    let stopped = model.m(p, &[], &cx, start, &mut |e, t| {
        if list.len() == max {
            return true;
        }
        list.push((e, V::Raw(convert(&t, &mut vec![])).user()));
        false
    });
    if model.ran_out() {
        return None;
    }
    Some(Matches {
        list,
        complete: !stopped,
        problem: cx.into_best(),
    })
}

pub fn custom_ends(kind: usize, source: &str, start: usize) -> Vec<usize> {
    let rest = &source[start..];
    let mut prefixes = vec![start];
    for (i, c) in rest.char_indices().take(3) {
        prefixes.push(start + i + c.len_utf8());
    }
    match kind {
        0 => prefixes,
        1 => {
            prefixes.reverse();
            prefixes
        }
        2 => vec![],
        _ => ["aa", "a", "b"]
            .iter()
            .filter(|w| rest.starts_with(**w))
            .map(|w| start + w.len())
            .collect(),
    }
}

pub fn list_items(v: V) -> Vec<V> {
    match v {
        V::List(vs) => vs,
        V::None => vec![],
        V::Some(v) => vec![*v],
        V::Deque(vs) => vs,
        other => vec![other],
    }
}

pub fn pairs(v: V) -> Vec<(V, V)> {
    list_items(v)
        .into_iter()
        .map(|v| match v {
            V::Tuple(mut kv) if kv.len() >= 2 => {
                let rest = kv.split_off(1);
                (kv.pop().unwrap(), V::Raw(rest).user())
            }
            v => (v, V::Unit),
        })
        .collect()
}

/// How to turn the value of a collection's inner pattern into the collection.
pub fn coll_value(k: CollKind, inner: V) -> V {
    match k {
        CollKind::HashSet | CollKind::BTreeSet => V::Set(list_items(inner).into_iter().collect()),
        CollKind::HashMap | CollKind::BTreeMap => {
            // Later pairs replace earlier ones.
            let mut m = std::collections::BTreeMap::new();
            for (k, v) in pairs(inner) {
                m.insert(k, v);
            }
            V::Map(m)
        }
        CollKind::Deque => V::Deque(list_items(inner)),
    }
}

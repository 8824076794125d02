//! Patterns as data: the AST shared by the reference model, the run-time
//! builder (`erase.rs`) and the generator of `parser!` source (`progs.rs`).

use crate::leaf::*;
use crate::tape::Tape;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CollKind {
    HashSet,
    HashMap,
    BTreeSet,
    BTreeMap,
    Deque,
}

impl CollKind {
    pub const ALL: [CollKind; 5] = [
        CollKind::BTreeSet,
        CollKind::HashSet,
        CollKind::BTreeMap,
        CollKind::HashMap,
        CollKind::Deque,
    ];
    pub fn name(self) -> &'static str {
        match self {
            CollKind::HashSet => "hash_set",
            CollKind::HashMap => "hash_map",
            CollKind::BTreeSet => "btree_set",
            CollKind::BTreeMap => "btree_map",
            CollKind::Deque => "vec_deque",
        }
    }
    pub fn is_map(self) -> bool {
        matches!(self, CollKind::HashMap | CollKind::BTreeMap)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pat {
    Lit(String),
    Chr(char),
    /// `()`
    Unit,
    Num(usize),
    Word(Word),
    Class(usize),
    CharOf(usize),
    Seq(Vec<Pat>),
    /// `(p)`
    Paren(Box<Pat>),
    /// `{p, q, ...}`
    Alt(Vec<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    RepSep(Box<Pat>, Box<Pat>),
    Line(Box<Pat>),
    Lines(Box<Pat>),
    Section(Box<Pat>),
    Sections(Box<Pat>),
    Str(Box<Pat>),
    Coll(CollKind, Box<Pat>),
    /// `a:p q b:r => M(id, [a, b])`; the flag says which terms have labels.
    Map(u32, Vec<(bool, Pat)>),
    /// `rule r0: .. = ..; rule r1: .. = ..; entry`
    RuleSet(Vec<Pat>, Box<Pat>),
    Rule(usize),
    /// A parser bound with `let`, used by name.
    Var(usize, Box<Pat>),
    /// Call of a user-defined function (see `FUNCS`).
    Func(usize, Vec<Pat>),
    /// A hand-written implementation of the `Parser` trait (see `erase.rs`).
    Custom(usize),
}

/// User-defined functions available to generated patterns: name, arity.
///
/// `twice(p)` = `parser!(a:p b:p => (a, b))`, `angle(p)` = `parser!('<' p '>')`,
/// `word()` = `parser!(string(lower+))`.
pub const FUNCS: &[(&str, usize)] = &[("twice", 1), ("angle", 1), ("word", 0)];

pub fn b(p: Pat) -> Box<Pat> {
    Box::new(p)
}

impl Pat {
    pub fn lit(s: &str) -> Pat {
        Pat::Lit(s.to_string())
    }

    pub fn class(name: &str) -> Pat {
        Pat::Class(CLASSES.iter().position(|c| c.name == name).unwrap())
    }

    pub fn num(name: &str) -> Pat {
        Pat::Num(NUMS.iter().position(|c| c.name == name).unwrap())
    }

    pub fn children(&self) -> Vec<&Pat> {
        match self {
            Pat::Seq(ps) | Pat::Alt(ps) | Pat::Func(_, ps) => ps.iter().collect(),
            Pat::Paren(p)
            | Pat::Opt(p)
            | Pat::Star(p)
            | Pat::Plus(p)
            | Pat::Line(p)
            | Pat::Lines(p)
            | Pat::Section(p)
            | Pat::Sections(p)
            | Pat::Str(p)
            | Pat::Coll(_, p)
            | Pat::Var(_, p) => vec![p],
            Pat::RepSep(p, s) => vec![p, s],
            Pat::Map(_, ts) => ts.iter().map(|(_, p)| p).collect(),
            Pat::RuleSet(rs, e) => rs.iter().chain(std::iter::once(&**e)).collect(),
            _ => vec![],
        }
    }

    /// Apply `f` to every leaf.
    pub fn map_leaves(&self, f: &mut dyn FnMut(&Pat) -> Pat) -> Pat {
        fn all(ps: &[Pat], f: &mut dyn FnMut(&Pat) -> Pat) -> Vec<Pat> {
            ps.iter().map(|p| p.map_leaves(f)).collect()
        }
        let mut one = |p: &Pat| b(p.map_leaves(f));
        match self {
            Pat::Paren(p) => Pat::Paren(one(p)),
            Pat::Opt(p) => Pat::Opt(one(p)),
            Pat::Star(p) => Pat::Star(one(p)),
            Pat::Plus(p) => Pat::Plus(one(p)),
            Pat::Line(p) => Pat::Line(one(p)),
            Pat::Lines(p) => Pat::Lines(one(p)),
            Pat::Section(p) => Pat::Section(one(p)),
            Pat::Sections(p) => Pat::Sections(one(p)),
            Pat::Str(p) => Pat::Str(one(p)),
            Pat::Coll(k, p) => Pat::Coll(*k, one(p)),
            Pat::Var(k, p) => Pat::Var(*k, one(p)),
            Pat::RepSep(p, s) => Pat::RepSep(one(p), one(s)),
            Pat::Seq(ps) => Pat::Seq(all(ps, f)),
            Pat::Alt(ps) => Pat::Alt(all(ps, f)),
            Pat::Func(k, ps) => Pat::Func(*k, all(ps, f)),
            Pat::Map(id, ts) => Pat::Map(*id, ts.iter().map(|(l, p)| (*l, p.map_leaves(f))).collect()),
            Pat::RuleSet(rs, e) => Pat::RuleSet(all(rs, f), b(e.map_leaves(f))),
            leaf => f(leaf),
        }
    }

    pub fn any(&self, f: &mut dyn FnMut(&Pat) -> bool) -> bool {
        f(self) || self.children().into_iter().any(|c| c.any(f))
    }

    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }

    pub fn has_region(&self) -> bool {
        self.any(&mut |p| {
            matches!(
                p,
                Pat::Line(_) | Pat::Lines(_) | Pat::Section(_) | Pat::Sections(_)
            )
        })
    }

    /// Could this match the empty string? (Errs on the side of yes.)
    pub fn nullable(&self) -> bool {
        match self {
            Pat::Lit(s) => s.is_empty(),
            Pat::Chr(_) | Pat::Num(_) | Pat::Word(_) | Pat::Class(_) | Pat::CharOf(_) => false,
            Pat::Unit
            | Pat::Opt(_)
            | Pat::Star(_)
            | Pat::RepSep(..)
            | Pat::Lines(_)
            | Pat::Sections(_)
            | Pat::Custom(_)
            | Pat::Rule(_) => true,
            Pat::Seq(ps) => ps.iter().all(|p| p.nullable()),
            Pat::Alt(ps) => ps.iter().any(|p| p.nullable()),
            Pat::Paren(p) | Pat::Plus(p) | Pat::Str(p) | Pat::Coll(_, p) | Pat::Var(_, p) => {
                p.nullable()
            }
            Pat::Line(_) | Pat::Section(_) => false,
            Pat::Map(_, ts) => ts.iter().all(|(_, p)| p.nullable()),
            Pat::RuleSet(..) => true,
            Pat::Func(i, ps) => *i == 0 && ps[0].nullable(),
        }
    }

    /// `parser!` source. With `rust_exprs`, `=>` conversions are real Rust.
    pub fn render(&self, rust: &Rust) -> String {
        let list = |ps: &[Pat]| ps.iter().map(|p| p.render(rust)).collect::<Vec<_>>();
        match self {
            Pat::Lit(s) => format!("{s:?}"),
            Pat::Chr(c) => format!("{c:?}"),
            Pat::Unit => "()".into(),
            Pat::Num(i) => NUMS[*i].name.into(),
            Pat::Word(Word::F32) => "f32".into(),
            Pat::Word(Word::F64) => "f64".into(),
            Pat::Word(Word::Bool) => "bool".into(),
            Pat::Class(i) => CLASSES[*i].name.into(),
            Pat::CharOf(i) => format!("char_of({:?})", CHAR_OFS[*i]),
            Pat::Seq(ps) => list(ps).join(" "),
            Pat::Paren(p) => format!("({})", p.render(rust)),
            Pat::Alt(ps) => format!("{{{}}}", list(ps).join(", ")),
            Pat::Opt(p) => format!("{}?", p.render(rust)),
            Pat::Star(p) => format!("{}*", p.render(rust)),
            Pat::Plus(p) => format!("{}+", p.render(rust)),
            Pat::RepSep(p, s) => format!("repeat_sep({}, {})", p.render(rust), s.render(rust)),
            Pat::Line(p) => format!("line({})", p.render(rust)),
            Pat::Lines(p) => format!("lines({})", p.render(rust)),
            Pat::Section(p) => format!("section({})", p.render(rust)),
            Pat::Sections(p) => format!("sections({})", p.render(rust)),
            Pat::Str(p) => format!("string({})", p.render(rust)),
            Pat::Coll(k, p) => format!("{}({})", k.name(), p.render(rust)),
            Pat::Map(id, ts) => {
                let mut out = vec![];
                let mut names = vec![];
                for (i, (labeled, p)) in ts.iter().enumerate() {
                    if *labeled {
                        out.push(format!("x{i}:{}", p.render(rust)));
                        names.push(format!("x{i}"));
                    } else {
                        out.push(p.render(rust));
                    }
                }
                let expr = match rust {
                    Rust::No => format!("M{id}({})", names.join(", ")),
                    Rust::Yes => format!(
                        "M::new({id}, vec![{}])",
                        names
                            .iter()
                            .map(|n| format!("Show::show(&{n})"))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                };
                format!("{} => {}", out.join(" "), expr)
            }
            Pat::RuleSet(rs, e) => {
                let mut s = String::new();
                for (i, r) in rs.iter().enumerate() {
                    let ty = match rust {
                        Rust::No => "_".to_string(),
                        Rust::Yes => user_ty(rule_ty(rs, i)).rust(),
                    };
                    s += &format!("rule r{i}: {ty} = {}; ", r.render(rust));
                }
                s + &e.render(rust)
            }
            Pat::Rule(i) => format!("r{i}"),
            Pat::Var(i, _) => match rust {
                Rust::No => format!("/*v{i}*/({})", self.children()[0].render(rust)),
                Rust::Yes => format!("v{i}"),
            },
            Pat::Func(i, ps) => format!("{}({})", FUNCS[*i].0, list(ps).join(", ")),
            Pat::Custom(i) => format!("custom{i}"),
        }
    }

    pub fn text(&self) -> String {
        self.render(&Rust::No)
    }
}

pub enum Rust {
    No,
    Yes,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Unit,
    Named(&'static str),
    Vec(Box<Ty>),
    Opt(Box<Ty>),
    Tuple(Vec<Ty>),
    Coll(CollKind, Box<Ty>),
    M,
}

impl Ty {
    pub fn rust(&self) -> String {
        match self {
            Ty::Unit => "()".into(),
            Ty::Named(n) => n.to_string(),
            Ty::Vec(t) => format!("Vec<{}>", t.rust()),
            Ty::Opt(t) => format!("Option<{}>", t.rust()),
            Ty::Tuple(ts) => format!(
                "({})",
                ts.iter().map(|t| t.rust()).collect::<Vec<_>>().join(", ")
            ),
            Ty::Coll(k, t) => {
                let (name, args) = match (k, &**t) {
                    (CollKind::HashSet, t) => ("HashSet", t.rust()),
                    (CollKind::BTreeSet, t) => ("BTreeSet", t.rust()),
                    (CollKind::Deque, t) => ("VecDeque", t.rust()),
                    (CollKind::HashMap, Ty::Tuple(kv)) => {
                        ("HashMap", format!("{}, {}", kv[0].rust(), kv[1].rust()))
                    }
                    (CollKind::BTreeMap, Ty::Tuple(kv)) => {
                        ("BTreeMap", format!("{}, {}", kv[0].rust(), kv[1].rust()))
                    }
                    _ => unreachable!("map of non-pairs"),
                };
                format!("std::collections::{name}<{args}>")
            }
            Ty::M => "M".into(),
        }
    }

    /// Can it be an element of any set, i.e. is it Ord and Hash?
    pub fn ordered(&self) -> bool {
        match self {
            Ty::Unit => true,
            Ty::Named(n) => !n.starts_with('f'),
            Ty::Vec(t) | Ty::Opt(t) => t.ordered(),
            Ty::Tuple(ts) => ts.iter().all(|t| t.ordered()),
            Ty::Coll(k, t) => {
                matches!(k, CollKind::BTreeSet | CollKind::BTreeMap | CollKind::Deque)
                    && t.ordered()
            }
            Ty::M => true,
        }
    }
}

pub fn user_ty(mut raw: Vec<Ty>) -> Ty {
    match raw.len() {
        0 => Ty::Unit,
        1 => raw.pop().unwrap(),
        _ => Ty::Tuple(raw),
    }
}

/// Rules that refer to other rules are always of type M; see `Gen::rule_set`.
pub fn rule_ty(rules: &[Pat], i: usize) -> Vec<Ty> {
    raw_ty(&rules[i], rules)
}

pub fn raw_ty(p: &Pat, rules: &[Pat]) -> Vec<Ty> {
    let user = |p: &Pat| user_ty(raw_ty(p, rules));
    match p {
        Pat::Lit(_) | Pat::Chr(_) => vec![],
        Pat::Unit => vec![Ty::Unit],
        Pat::Num(i) => vec![Ty::Named(NUMS[*i].rust_ty)],
        Pat::Word(Word::F32) => vec![Ty::Named("f32")],
        Pat::Word(Word::F64) => vec![Ty::Named("f64")],
        Pat::Word(Word::Bool) => vec![Ty::Named("bool")],
        Pat::Class(i) => vec![Ty::Named(if CLASSES[*i].digit.is_some() {
            "usize"
        } else {
            "char"
        })],
        Pat::CharOf(_) => vec![Ty::Named("usize")],
        Pat::Seq(ps) => ps.iter().flat_map(|p| raw_ty(p, rules)).collect(),
        Pat::Paren(p) | Pat::Line(p) | Pat::Section(p) | Pat::Var(_, p) => vec![user(p)],
        Pat::Alt(ps) => {
            // A mapped arm settles the type without looking at any rule.
            if ps.iter().any(|p| matches!(p, Pat::Map(..))) {
                vec![Ty::M]
            } else {
                vec![user(&ps[0])]
            }
        }
        Pat::Opt(p) => vec![Ty::Opt(Box::new(user(p)))],
        Pat::Star(p) | Pat::Plus(p) | Pat::RepSep(p, _) | Pat::Lines(p) | Pat::Sections(p) => {
            vec![Ty::Vec(Box::new(user(p)))]
        }
        Pat::Str(_) => vec![Ty::Named("String")],
        Pat::Coll(k, p) => match user(p) {
            Ty::Vec(t) | Ty::Opt(t) => vec![Ty::Coll(*k, t)],
            _ => unreachable!("collection of non-iterable"),
        },
        Pat::Map(..) => vec![Ty::M],
        Pat::RuleSet(rs, e) => vec![user_ty(raw_ty(e, rs))],
        Pat::Rule(i) => vec![user_ty(rule_ty(rules, *i))],
        Pat::Func(0, ps) => vec![Ty::Tuple(vec![user(&ps[0]), user(&ps[0])])],
        Pat::Func(1, ps) => vec![user(&ps[0])],
        Pat::Func(..) => vec![Ty::Named("String")],
        Pat::Custom(_) => vec![Ty::Named("String")],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Theme {
    /// {a, b} only: lots of ambiguity.
    Tiny,
    /// All leaves, Unicode text.
    Mixed,
    /// Lines and sections.
    Regions,
    /// Conversions, collections, strings.
    Values,
}

pub struct Gen {
    pub theme: Theme,
    /// Generate only patterns that type-check as Rust.
    pub typed: bool,
    pub rules: bool,
    pub regions: bool,
    /// If false, the only regions are lines.
    pub sections: bool,
    pub custom: bool,
    pub maps: bool,
    pub colls: bool,
    pub numbers: bool,
    pub nullable_reps: bool,
    /// All values are integers (or floats and bools).
    pub only_numbers: bool,
    pub only_words: bool,
    pub budget: usize,
    next_id: u32,
    vars: Vec<Pat>,
    /// While generating rule bodies: which rules can be referred to without
    /// having consumed text (index strictly greater than this), and how many
    /// there are.
    rule_scope: Option<(usize, usize)>,
    /// Inside a rule set parsers have to be 'static, so no named parsers.
    no_vars: bool,
}

impl Gen {
    pub fn new(theme: Theme, budget: usize) -> Gen {
        Gen {
            theme,
            typed: false,
            rules: true,
            regions: matches!(theme, Theme::Regions),
            sections: true,
            custom: matches!(theme, Theme::Tiny),
            maps: true,
            colls: matches!(theme, Theme::Values),
            numbers: !matches!(theme, Theme::Tiny),
            nullable_reps: true,
            only_numbers: false,
            only_words: false,
            budget,
            next_id: 0,
            vars: vec![],
            rule_scope: None,
            no_vars: false,
        }
    }

    pub fn any_theme(t: &mut Tape, budget: usize) -> Gen {
        let theme = *t.pick(&[Theme::Tiny, Theme::Mixed, Theme::Regions, Theme::Values]);
        Gen::new(theme, budget)
    }

    pub fn vars(&self) -> &[Pat] {
        &self.vars
    }

    fn spend(&mut self) -> bool {
        if self.budget == 0 {
            return false;
        }
        self.budget -= 1;
        true
    }

    pub fn literal(&mut self, t: &mut Tape) -> Pat {
        match self.theme {
            Theme::Tiny => match t.weighted(&[8, 2, 1]) {
                0 => Pat::lit(t.pick(&["a", "b", "ab", "ba", "aa", "aab"])),
                1 => Pat::Chr(*t.pick(&['a', 'b'])),
                _ => Pat::lit(""),
            },
            Theme::Regions => match t.weighted(&[8, 2, 1, 1]) {
                0 => Pat::lit(t.pick(&["a", "b", ":", "-", ",", " ", "é"])),
                1 => Pat::Chr(*t.pick(&['a', '#', '京'])),
                2 => Pat::lit(t.pick(&["\n", "\n\n", "a\n", "\na", "\r\n"])),
                _ => Pat::lit(""),
            },
            _ => match t.weighted(&[8, 3, 1]) {
                0 => Pat::lit(t.pick(&[
                    "a", ",", " ", "-", "->", "x", "=", ": ", "1", "12", "+", "é", "éa", "京都",
                    "😂", "true", "e", ".", "0x", "ff", "a\u{301}", "\u{0}", "\t",
                ])),
                1 => Pat::Chr(*t.pick(&['a', ',', ' ', 'x', '1', '-', 'é', '😂', '\n', '\''])),
                _ => Pat::lit(""),
            },
        }
    }

    fn leaf_value(&mut self, t: &mut Tape) -> Pat {
        if self.only_numbers {
            return Pat::Num(t.below(NUMS.len()));
        }
        if self.only_words {
            return Pat::Word(*t.pick(&[Word::F64, Word::F32, Word::Bool]));
        }
        match self.theme {
            Theme::Tiny => match t.weighted(&[4, 3, 2, 2]) {
                0 => Pat::class(t.pick(&["alpha", "any_char", "lower", "alnum"])),
                1 => Pat::CharOf(*t.pick(&[0, 1, 7])),
                2 if self.custom => Pat::Custom(t.below(4)),
                2 => Pat::CharOf(0),
                _ => Pat::Str(b(self.literal(t))),
            },
            Theme::Regions => match t.weighted(&[6, 2, 3, 1]) {
                0 => Pat::class(t.pick(&["alpha", "any_char", "digit", "alnum"])),
                1 => Pat::CharOf(t.below(CHAR_OFS.len())),
                2 if self.numbers => Pat::num(t.pick(&["u8", "i32", "u64", "u16_hex"])),
                2 => Pat::class("digit"),
                _ => Pat::Str(b(Pat::Star(b(Pat::class("any_char"))))),
            },
            _ => match t.weighted(&[6, 2, if self.numbers { 6 } else { 0 }, 1]) {
                0 => Pat::Class(t.below(CLASSES.len())),
                1 => Pat::CharOf(t.below(CHAR_OFS.len())),
                2 => match t.weighted(&[6, 2]) {
                    0 => Pat::Num(t.below(NUMS.len())),
                    _ => Pat::Word(*t.pick(&[Word::Bool, Word::F64, Word::F32])),
                },
                _ => Pat::Str(b(Pat::Plus(b(Pat::class("lower"))))),
            },
        }
    }

    fn leaf(&mut self, t: &mut Tape) -> Pat {
        if t.chance(1, 2) {
            self.leaf_value(t)
        } else {
            self.literal(t)
        }
    }

    /// A whole pattern.
    pub fn pattern(&mut self, t: &mut Tape) -> Pat {
        if self.rules && t.chance(1, 5) {
            self.rule_set(t)
        } else if self.regions && t.chance(1, 2) {
            // Several regions in a row: what regions are for.
            let n = t.range(1, 3);
            let ps = (0..n).map(|_| self.region(t, false)).collect::<Vec<_>>();
            if ps.len() == 1 {
                ps.into_iter().next().unwrap()
            } else {
                Pat::Seq(ps)
            }
        } else {
            self.expr(t, false)
        }
    }

    fn rule_set(&mut self, t: &mut Tape) -> Pat {
        let saved = self.rule_scope.take();
        let saved_vars = std::mem::replace(&mut self.no_vars, true);
        let n = t.range(1, 4);
        let mut rules = vec![];
        for i in 0..n {
            self.budget += 6;
            self.rule_scope = Some((i, n));
            let body = if self.typed {
                if t.chance(1, 4) {
                    // Not recursive, any type.
                    self.rule_scope = None;
                    let had_rules = std::mem::replace(&mut self.rules, false);
                    let p = self.expr(t, false);
                    self.rules = had_rules;
                    p
                } else {
                    let arms = t.range(1, 3);
                    if arms == 1 {
                        self.map(t, false)
                    } else {
                        Pat::Alt((0..arms).map(|_| self.map(t, false)).collect())
                    }
                }
            } else {
                self.expr(t, false)
            };
            rules.push(body);
        }
        // From the entry pattern, any rule will do.
        self.rule_scope = Some((usize::MAX, n));
        self.budget += 3;
        let entry = if t.chance(2, 3) {
            Pat::Rule(0)
        } else {
            self.expr(t, true)
        };
        self.rule_scope = saved;
        self.no_vars = saved_vars;
        Pat::RuleSet(rules, b(entry))
    }

    /// `guarded`: some text has definitely been consumed since the start of
    /// the enclosing rule, so recursion is safe.
    pub fn expr(&mut self, t: &mut Tape, guarded: bool) -> Pat {
        match t.weighted(&[3, 6, if self.maps { 2 } else { 0 }]) {
            0 => self.term(t, guarded),
            1 => {
                let ps = self.terms(t, guarded);
                if ps.len() == 1 {
                    ps.into_iter().next().unwrap()
                } else {
                    Pat::Seq(ps)
                }
            }
            _ => self.map(t, guarded),
        }
    }

    fn terms(&mut self, t: &mut Tape, mut guarded: bool) -> Vec<Pat> {
        let n = match t.weighted(&[4, 4, 2, 1]) {
            0 => 2,
            1 => 3,
            2 => 1,
            _ => t.range(4, 8),
        };
        let mut ps = vec![];
        for _ in 0..n {
            if self.budget == 0 && !ps.is_empty() {
                break;
            }
            let p = self.term(t, guarded);
            guarded = guarded || consumes(&p);
            ps.push(p);
        }
        ps
    }

    fn map(&mut self, t: &mut Tape, guarded: bool) -> Pat {
        let id = self.next_id;
        self.next_id += 1;
        let ts = self
            .terms(t, guarded)
            .into_iter()
            .map(|p| (t.chance(2, 3), p))
            .collect();
        Pat::Map(id, ts)
    }

    fn term(&mut self, t: &mut Tape, guarded: bool) -> Pat {
        if !self.spend() {
            return self.leaf(t);
        }
        match t.weighted(&[6, 2, 2, 2]) {
            0 => self.prim(t, guarded),
            1 => Pat::Opt(b(self.prim(t, guarded))),
            k => {
                let p = self.prim(t, guarded);
                if !self.nullable_reps && p.nullable() {
                    return p;
                }
                if k == 2 {
                    Pat::Star(b(p))
                } else {
                    Pat::Plus(b(p))
                }
            }
        }
    }

    fn alt(&mut self, t: &mut Tape, guarded: bool) -> Pat {
        let n = match t.weighted(&[5, 3, 1]) {
            0 => 2,
            1 => 3,
            _ => t.range(1, 6),
        };
        if !self.typed {
            return Pat::Alt((0..n).map(|_| self.expr(t, guarded)).collect());
        }
        // `{p}` is p itself, flattened or not, so only with one value in it.
        let n2 = n.max(2);
        match t.below(3) {
            0 => Pat::Alt((0..n2).map(|_| self.literal(t)).collect()),
            1 if self.maps => Pat::Alt((0..n).map(|_| self.map(t, guarded)).collect()),
            _ => {
                // All arms produce the type that `v` does.
                let v = self.leaf_value(t);
                Pat::Alt(
                    (0..n)
                        .map(|_| {
                            let mut ps = vec![v.clone()];
                            if t.chance(2, 3) {
                                ps.insert(0, self.literal(t));
                            }
                            if t.chance(1, 3) {
                                ps.push(self.literal(t));
                            }
                            if ps.len() == 1 {
                                ps.pop().unwrap()
                            } else {
                                Pat::Seq(ps)
                            }
                        })
                        .collect(),
                )
            }
        }
    }

    fn region(&mut self, t: &mut Tape, guarded: bool) -> Pat {
        self.spend();
        let k = t.below(if self.sections { 4 } else { 2 });
        let p = if k >= 2 && t.chance(2, 3) {
            self.region(t, guarded)
        } else {
            self.expr(t, guarded)
        };
        match k {
            0 => Pat::Line(b(p)),
            1 => Pat::Lines(b(p)),
            2 => Pat::Section(b(p)),
            _ => Pat::Sections(b(p)),
        }
    }

    fn coll(&mut self, t: &mut Tape, guarded: bool) -> Pat {
        let kind = *t.pick(&CollKind::ALL);
        let item = if kind.is_map() {
            let k = self.leaf_value(t);
            let v = self.leaf_value(t);
            let mut ps = vec![k];
            if t.chance(1, 2) {
                ps.push(self.literal(t));
            }
            ps.push(v);
            Pat::Paren(b(Pat::Seq(ps)))
        } else if t.chance(2, 3) {
            self.leaf_value(t)
        } else {
            Pat::Paren(b(self.expr(t, guarded)))
        };
        if self.typed {
            if item.any(&mut |p| matches!(p, Pat::Rule(_))) {
                return item;
            }
            let ty = user_ty(raw_ty(&item, &[]));
            let key_ok = match (&ty, kind) {
                (Ty::Tuple(kv), k) if k.is_map() => kv[0].ordered(),
                (_, CollKind::Deque) => true,
                (ty, _) => ty.ordered(),
            };
            if !key_ok {
                return item;
            }
        }
        if !self.nullable_reps && item.nullable() {
            return item;
        }
        let inner = match t.weighted(&[4, 3, 2, 1]) {
            0 => Pat::Star(b(item)),
            1 => Pat::Plus(b(item)),
            2 => Pat::RepSep(b(item), b(self.literal(t))),
            _ if self.regions => Pat::Lines(b(item)),
            _ => Pat::Opt(b(item)),
        };
        Pat::Coll(kind, b(inner))
    }

    fn prim(&mut self, t: &mut Tape, guarded: bool) -> Pat {
        if !self.spend() {
            return self.leaf(t);
        }
        let w_rule = match self.rule_scope {
            Some((cur, n)) if guarded || cur == usize::MAX || cur + 1 < n => 4,
            _ => 0,
        };
        let w_region = if self.regions { 3 } else { 0 };
        let w_coll = if self.colls { 2 } else { 0 };
        let w_var = if self.typed && !self.no_vars { 2 } else { 0 };
        let w_func = if self.typed { 1 } else { 0 };
        match t.weighted(&[4, 4, 3, 4, 2, 2, w_rule, w_region, w_coll, 1, w_var, w_func]) {
            0 => self.literal(t),
            1 => self.leaf_value(t),
            2 => Pat::Paren(b(self.expr(t, guarded))),
            3 => self.alt(t, guarded),
            4 => {
                let p = self.expr(t, guarded);
                let s = if t.chance(1, 3) {
                    self.expr(t, guarded)
                } else {
                    self.literal(t)
                };
                if !self.nullable_reps && p.nullable() && s.nullable() {
                    return Pat::Paren(b(p));
                }
                Pat::RepSep(b(p), b(s))
            }
            5 => Pat::Str(b(self.expr(t, guarded))),
            6 => {
                let (cur, n) = self.rule_scope.unwrap();
                let lo = if guarded || cur == usize::MAX {
                    0
                } else {
                    cur + 1
                };
                Pat::Rule(t.range(lo, n - 1))
            }
            7 => self.region(t, guarded),
            8 => self.coll(t, guarded),
            9 => Pat::Unit,
            10 => {
                if !self.vars.is_empty() && t.chance(1, 2) {
                    let i = t.below(self.vars.len());
                    Pat::Var(i, b(self.vars[i].clone()))
                } else if self.vars.len() < 4 {
                    let p = self.expr(t, guarded);
                    self.vars.push(p.clone());
                    Pat::Var(self.vars.len() - 1, b(p))
                } else {
                    self.leaf(t)
                }
            }
            _ => match t.below(3) {
                0 => {
                    // `twice` wants a Copy parser; keep its argument simple.
                    let p = self.leaf(t);
                    Pat::Func(0, vec![p])
                }
                1 => Pat::Func(1, vec![self.expr(t, guarded)]),
                _ => Pat::Func(2, vec![]),
            },
        }
    }
}

/// Does this pattern always consume at least one character?
fn consumes(p: &Pat) -> bool {
    !p.nullable() && !matches!(p, Pat::Line(_) | Pat::Section(_))
}

/// Produce a string that has a good chance of matching `p`.
pub fn sample(p: &Pat, rules: &[Pat], t: &mut Tape, depth: usize, out: &mut String) {
    if out.len() > 600 || depth > 40 {
        return;
    }
    let d = depth + 1;
    match p {
        Pat::Lit(s) => out.push_str(s),
        Pat::Chr(c) => out.push(*c),
        Pat::Unit => {}
        Pat::Num(i) => out.push_str(&sample_num(&NUMS[*i], t)),
        Pat::Word(Word::Bool) => out.push_str(t.pick(&["true", "false"])),
        Pat::Word(_) => out.push_str(t.pick(&[
            "0",
            "1.5",
            "-2",
            ".25",
            "3.",
            "inf",
            "-Infinity",
            "NaN",
            "1e5",
            "+6.022E-23",
            "1e999",
            "0.1",
            "16777217",
            "-0",
        ])),
        Pat::Class(i) => out.push(*t.pick(class_samples(CLASSES[*i].name))),
        Pat::CharOf(i) => {
            let cs: Vec<char> = CHAR_OFS[*i].chars().collect();
            if !cs.is_empty() {
                out.push(*t.pick(&cs));
            }
        }
        Pat::Seq(ps) => ps.iter().for_each(|p| sample(p, rules, t, d, out)),
        Pat::Paren(p) | Pat::Str(p) | Pat::Coll(_, p) | Pat::Var(_, p) => {
            sample(p, rules, t, d, out)
        }
        Pat::Alt(ps) => {
            let mut i = t.below(ps.len());
            if depth > 12 {
                // Wind down recursion.
                if let Some(j) = ps
                    .iter()
                    .position(|p| !p.any(&mut |p| matches!(p, Pat::Rule(_))))
                {
                    i = j;
                }
            }
            sample(&ps[i], rules, t, d, out)
        }
        Pat::Opt(p) => {
            if t.chance(1, 2) {
                sample(p, rules, t, d, out)
            }
        }
        Pat::Star(q) | Pat::Plus(q) => {
            let mut n = if depth > 12 { 0 } else { t.count(12) };
            if matches!(**q, Pat::Class(_) | Pat::CharOf(_)) && n > 3 && t.chance(1, 4) {
                n *= 4;
            }
            if q.any(&mut |x| matches!(x, Pat::Rule(_))) {
                n = n.min(2);
            }
            if matches!(p, Pat::Plus(_)) {
                n = n.max(1);
            }
            for _ in 0..n {
                sample(q, rules, t, d, out);
            }
        }
        Pat::Lines(q) => {
            for _ in 0..if depth > 12 { 1 } else { t.count(8) } {
                sample(q, rules, t, d, out);
                end_line(t, out);
            }
        }
        Pat::Sections(q) => {
            for _ in 0..if depth > 12 { 1 } else { t.count(5) } {
                sample(q, rules, t, d, out);
                end_section(t, out);
            }
        }
        Pat::RepSep(p, s) => {
            let n = if depth > 12 { 1 } else { t.count(8) };
            for i in 0..n {
                if i > 0 {
                    sample(s, rules, t, d, out);
                }
                sample(p, rules, t, d, out);
            }
        }
        Pat::Line(p) => {
            sample(p, rules, t, d, out);
            end_line(t, out);
        }
        Pat::Section(p) => {
            sample(p, rules, t, d, out);
            end_section(t, out);
        }
        Pat::Map(_, ts) => ts.iter().for_each(|(_, p)| sample(p, rules, t, d, out)),
        Pat::RuleSet(rs, e) => sample(e, rs, t, d, out),
        Pat::Rule(i) => sample(&rules[*i], rules, t, d, out),
        Pat::Func(0, ps) => {
            sample(&ps[0], rules, t, d, out);
            sample(&ps[0], rules, t, d, out)
        }
        Pat::Func(1, ps) => {
            out.push('<');
            sample(&ps[0], rules, t, d, out);
            out.push('>')
        }
        Pat::Func(..) => out.push_str("abc"),
        Pat::Custom(_) => {
            for _ in 0..t.below(4) {
                out.push(*t.pick(&['a', 'b']));
            }
        }
    }
}

fn end_line(t: &mut Tape, out: &mut String) {
    if !t.chance(1, 12) {
        out.push('\n');
    }
}

fn end_section(t: &mut Tape, out: &mut String) {
    if out.ends_with('\n') || out.is_empty() {
        if !t.chance(1, 12) {
            out.push('\n');
        }
    } else if t.chance(1, 3) {
        out.push_str("\n\n");
    }
}

fn class_samples(name: &str) -> &'static [char] {
    match name {
        "alpha" => &['a', 'b', 'Z', 'é', '京', 'ß', 'ª'],
        "alnum" => &['a', '7', 'b', 'Z', '٣', '½', '京'],
        "upper" => &['A', 'Z', 'Ω', 'Ⅷ'],
        "lower" => &['a', 'b', 'z', 'ω', 'ª'],
        "any_char" => &['a', 'b', '\n', ' ', '😂', '\u{0}', '\u{301}'],
        "digit" => &['0', '1', '7', '9'],
        "digit_bin" => &['0', '1'],
        _ => &['0', '9', 'a', 'f', 'A', 'F'],
    }
}

pub fn to_radix(x: &num_bigint::BigInt, radix: u32) -> String {
    x.to_str_radix(radix)
}

/// Text for a number of the given kind; mostly in range, often near the limits.
pub fn sample_num(spec: &NumSpec, t: &mut Tape) -> String {
    use num_bigint::BigInt;
    let (lo, hi) = match (spec.min(), spec.max()) {
        (Some(lo), Some(hi)) => (lo, hi),
        _ => {
            let m: BigInt = BigInt::from(1) << 200;
            (
                if spec.signed {
                    -m.clone()
                } else {
                    BigInt::from(0)
                },
                m,
            )
        }
    };
    let mut x = match t.weighted(&[6, 3, 3, 3, 1]) {
        0 => BigInt::from(t.below(130)),
        1 => hi.clone() - t.below(3),
        2 => lo.clone() + t.below(3),
        3 => {
            // A random number of random bits.
            let bits = t.range(1, spec.bits.unwrap_or(300) as usize);
            let mut v = BigInt::from(0);
            for _ in 0..(bits + 31) / 32 {
                v = (v << 32) + t.raw();
            }
            v & ((BigInt::from(1) << bits) - 1)
        }
        _ => hi.clone() + t.range(1, 3),
    };
    if spec.signed && x >= BigInt::from(0) && t.chance(1, 4) {
        x = -x;
    }
    let neg = x < BigInt::from(0);
    let digits = to_radix(&if neg { -x } else { x }, spec.radix);
    let digits: String = digits
        .chars()
        .map(|c| {
            if c.is_ascii_alphabetic() && t.chance(1, 3) {
                c.to_ascii_uppercase()
            } else {
                c
            }
        })
        .collect();
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if spec.signed && t.chance(1, 6) {
        s.push('+');
    }
    if t.chance(1, 8) {
        for _ in 0..t.range(1, 5) {
            s.push('0');
        }
    }
    s + &digits
}

const NOISE: &[&str] = &[
    "a", "b", "\n", " ", "0", "1", "-", "+", ",", "\n\n", "x", "é", "京", "😂", "A", "f", "9", ".",
    "\r", "\t", "\u{0}", "\u{301}", "_", "e", "\u{feff}", "\u{2028}", "٣", ":",
];

/// Apply `n` random edits.
pub fn mutate(s: &str, n: usize, t: &mut Tape) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..n {
        let len = cs.len();
        match t.below(7) {
            0 => {
                let at = t.below(len + 1);
                for (i, c) in t.pick(NOISE).chars().enumerate() {
                    cs.insert(at + i, c);
                }
            }
            1 if len > 0 => {
                cs.remove(t.below(len));
            }
            2 if len > 0 => {
                let at = t.below(len);
                cs[at] = t.pick(NOISE).chars().next().unwrap();
            }
            3 if len > 0 => cs.truncate(t.below(len)),
            4 => cs.extend(t.pick(NOISE).chars()),
            5 if len > 1 => {
                // Duplicate a slice.
                let i = t.below(len);
                let j = (i + 1 + t.below(4)).min(len);
                let part: Vec<char> = cs[i..j].to_vec();
                for (k, c) in part.into_iter().enumerate() {
                    cs.insert(j + k, c);
                }
            }
            _ if len > 1 => {
                let i = t.below(len - 1);
                cs.swap(i, i + 1);
            }
            _ => cs.push('a'),
        }
    }
    cs.into_iter().collect()
}

/// An input for `p`: usually derived from the pattern, often damaged a little.
pub fn input_for(p: &Pat, t: &mut Tape) -> String {
    match t.weighted(&[10, 5, 3, 1]) {
        0 => {
            let mut s = String::new();
            sample(p, &[], t, 0, &mut s);
            s
        }
        1 => {
            let mut s = String::new();
            sample(p, &[], t, 0, &mut s);
            let n = t.range(1, 3);
            mutate(&s, n, t)
        }
        2 => {
            // Short strings over a two-letter alphabet.
            (0..t.below(10)).map(|_| *t.pick(&['a', 'b'])).collect()
        }
        _ => {
            let n = t.below(12);
            (0..n).map(|_| *t.pick(NOISE)).collect()
        }
    }
}

/// Any Unicode text at all.
pub fn any_text(t: &mut Tape, max: usize) -> String {
    let n = t.below(max + 1);
    (0..n)
        .map(|_| match t.weighted(&[6, 3, 1]) {
            0 => t.pick(NOISE).chars().next().unwrap(),
            1 => char::from(t.range(0x20, 0x7e) as u8),
            _ => char::from_u32(t.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        })
        .collect()
}

/// The same pattern over a longer alphabet: each character of its exact text
/// becomes a word, and all of it may come after a long beginning, or over and
/// over. What is special about the length or position of a match shows here.
pub fn stretched(p: &Pat, t: &mut Tape) -> Pat {
    const FILL: &[&str] = &["-", "ab", "a", "é", "京", "😂", "0", "xyz"];
    let mut words: Vec<(char, String)> = vec![];
    let p = p.map_leaves(&mut |leaf| {
        let mut word = |c: char| -> String {
            if c == '\n' {
                return c.to_string();
            }
            if let Some((_, w)) = words.iter().find(|(d, _)| *d == c) {
                return w.clone();
            }
            let mut w = c.to_string();
            let n = match t.weighted(&[2, 3, 3, 1]) {
                0 => 0,
                1 => t.range(1, 5),
                2 => t.range(6, 20),
                _ => t.range(20, 70),
            };
            w.push_str(&t.pick(FILL).repeat(n));
            words.push((c, w.clone()));
            w
        };
        match leaf {
            Pat::Lit(s) => Pat::Lit(s.chars().map(word).collect()),
            Pat::Chr(c) if *c != '\n' => Pat::Lit(word(*c)),
            p => p.clone(),
        }
    });
    let group = |p: Pat| match p {
        Pat::Seq(_) | Pat::Map(..) | Pat::RuleSet(..) => Pat::Paren(b(p)),
        p => p,
    };
    match t.weighted(&[3, 3, 2]) {
        0 => p,
        1 => {
            let n = t.range(1, 90);
            let head = t.pick(FILL).repeat(n);
            let head = match t.below(3) {
                0 => Pat::Lit(head),
                1 => Pat::Str(b(Pat::Lit(head))),
                _ => Pat::Lit(format!("{head}\n")),
            };
            Pat::Seq(vec![head, group(p)])
        }
        _ => {
            let stop = Pat::lit(t.pick(&[";", "\n", ", ", "--------------------"]));
            if t.chance(1, 2) {
                Pat::RepSep(b(p), b(stop))
            } else {
                Pat::Star(b(Pat::Paren(b(Pat::Seq(vec![group(p), stop])))))
            }
        }
    }
}

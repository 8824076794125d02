//! C21: equations between patterns.

use crate::erase::{build_user, run, Seen};
use crate::model::coll_value;
use crate::model;
use crate::pat::*;
use crate::props::core::{real_fuel, MODEL_FUEL};
use crate::runner::*;
use crate::tape::Tape;
use crate::value::V;

/// How much of the outcome has to agree.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Same {
    Accept,
    Value,
    /// ... and where the error is.
    Location,
    /// ... and what it says.
    All,
}

struct Law {
    name: &'static str,
    left: Pat,
    right: Pat,
    same: Same,
    /// Makes the right value look like the left one.
    fix: Option<fn(V) -> V>,
}

fn seq(ps: Vec<Pat>) -> Pat {
    Pat::Seq(ps)
}
fn paren(p: &Pat) -> Pat {
    Pat::Paren(b(p.clone()))
}

fn pair_to_list(v: V) -> V {
    match v {
        V::Tuple(mut vs) if vs.len() == 2 => {
            let rest = vs.pop().unwrap();
            let mut out = vec![vs.pop().unwrap()];
            match rest {
                V::List(r) => out.extend(r),
                other => out.push(other),
            }
            V::List(out)
        }
        v => v,
    }
}

fn unit_to_empty(v: V) -> V {
    match v {
        V::Unit => V::List(vec![]),
        v => pair_to_list(v),
    }
}

fn left_nested(v: V) -> V {
    // (a, (b, c)) -> ((a, b), c)
    match v {
        V::Tuple(vs) if vs.len() == 2 => {
            let [a, r]: [V; 2] = vs.try_into().unwrap();
            match r {
                V::Tuple(rs) if rs.len() == 2 => {
                    let [x, y]: [V; 2] = rs.try_into().unwrap();
                    V::Tuple(vec![V::Tuple(vec![a, x]), y])
                }
                r => V::Tuple(vec![a, r]),
            }
        }
        v => v,
    }
}

fn to_set(v: V) -> V {
    coll_value(CollKind::BTreeSet, v)
}

/// A pattern from a fresh generator; without conversions, so that values do
/// not differ by conversion number only.
fn part(t: &mut Tape, theme: Theme) -> Pat {
    let budget = t.range(1, 6);
    let mut g = Gen::new(theme, budget);
    g.rules = false;
    g.maps = t.chance(1, 3);
    let p = g.expr(t, false);
    // Inside other patterns it counts as one value.
    match p {
        Pat::Map(..) => Pat::Alt(vec![p]),
        p => p,
    }
}

fn one(p: Pat) -> Pat {
    Pat::Paren(b(p))
}

fn law(t: &mut Tape) -> Law {
    let which = t.below(26);
    let theme = *t.pick(&[Theme::Tiny, Theme::Mixed, Theme::Regions, Theme::Values]);
    let p = part(t, theme);
    let q = part(t, theme);
    let r = part(t, theme);
    let (pp, qq, rr) = (one(p.clone()), one(q.clone()), one(r.clone()));
    let law = |name, left, right, same| Law { name, left, right, same, fix: None };
    let alt = |ps: Vec<Pat>| Pat::Alt(ps);
    match which {
        0 => law("lines(p) = line(p)*", Pat::Lines(b(p.clone())), Pat::Star(b(Pat::Line(b(p)))), Same::Value),
        1 => law(
            "sections(p) = section(p)*",
            Pat::Sections(b(p.clone())),
            Pat::Star(b(Pat::Section(b(p)))),
            Same::Value,
        ),
        2 if !p.nullable() => Law {
            name: "p+ = p p*",
            left: Pat::Plus(b(pp.clone())),
            right: seq(vec![pp.clone(), Pat::Star(b(pp))]),
            same: Same::Location,
            fix: Some(pair_to_list),
        },
        3 => Law {
            name: "p* = {p+, \"\"}",
            left: Pat::Star(b(pp.clone())),
            right: alt(vec![Pat::Plus(b(pp)), Pat::lit("")]),
            same: if p.nullable() { Same::Accept } else { Same::Location },
            fix: Some(unit_to_empty),
        },
        4 => law(
            "p? accepts what {p, \"\"} does",
            Pat::Opt(b(pp.clone())),
            alt(vec![seq(vec![pp]), Pat::lit("")]),
            Same::Accept,
        ),
        5 => Law {
            name: "(p q) r = p (q r)",
            left: seq(vec![Pat::Paren(b(seq(vec![pp.clone(), qq.clone()]))), rr.clone()]),
            right: seq(vec![pp, Pat::Paren(b(seq(vec![qq, rr])))]),
            same: Same::All,
            fix: Some(left_nested),
        },
        6 => law(
            "{{p, q}, r} = {p, q, r}",
            alt(vec![alt(vec![pp.clone(), qq.clone()]), rr.clone()]),
            alt(vec![pp, qq, rr]),
            Same::All,
        ),
        7 => law(
            "{p, {q, r}} = {p, q, r}",
            alt(vec![pp.clone(), alt(vec![qq.clone(), rr.clone()])]),
            alt(vec![pp, qq, rr]),
            Same::All,
        ),
        8 => law(
            "{p, q} r = {p r, q r}",
            seq(vec![alt(vec![pp.clone(), qq.clone()]), rr.clone()]),
            alt(vec![seq(vec![pp, rr.clone()]), seq(vec![qq, rr])]),
            Same::All,
        ),
        9 => law(
            "p {q, r} accepts what {p q, p r} does",
            seq(vec![pp.clone(), alt(vec![qq.clone(), rr.clone()])]),
            alt(vec![seq(vec![pp.clone(), qq]), seq(vec![pp, rr])]),
            Same::Accept,
        ),
        10 => law("\"\" p = p", seq(vec![Pat::lit(""), pp.clone()]), pp, Same::All),
        11 => law("p \"\" = p", seq(vec![pp.clone(), Pat::lit("")]), pp, Same::All),
        12 => law("{p, p} = p", alt(vec![pp.clone(), pp.clone()]), pp, Same::All),
        13 => law("(p) = p", Pat::Paren(b(paren(&p))), paren(&p), Same::All),
        14 => Law {
            name: "repeat_sep(p, s) = {p (s p)*, \"\"}",
            left: Pat::RepSep(b(pp.clone()), b(Pat::lit(";"))),
            right: alt(vec![
                seq(vec![pp.clone(), Pat::Star(b(Pat::Paren(b(seq(vec![Pat::lit(";"), pp])))))]),
                Pat::lit(""),
            ]),
            same: Same::Location,
            fix: Some(unit_to_empty),
        },
        15 => {
            let s: String = (0..t.range(1, 4)).map(|_| *t.pick(&['a', 'b', 'é', '😂', '\n'])).collect();
            law(
                "\"xy\" = 'x' 'y'",
                seq(vec![Pat::lit(&s), qq.clone()]),
                seq(s.chars().map(Pat::Chr).chain([qq]).collect()),
                Same::Value,
            )
        }
        16 => {
            let c = *t.pick(&['a', 'b', 'é', '😂', '\n', '"', '\'']);
            law(
                "'c' = \"c\"",
                seq(vec![pp.clone(), Pat::Chr(c), qq.clone()]),
                seq(vec![pp, Pat::lit(&c.to_string()), qq]),
                Same::Location,
            )
        }
        17 => law("string(string(p)) = string(p)", Pat::Str(b(Pat::Str(b(p.clone())))), Pat::Str(b(p)), Same::All),
        18 => law(
            "string(p q) = the text of (p q) and string is transparent",
            Pat::Str(b(seq(vec![pp.clone(), qq.clone()]))),
            Pat::Str(b(seq(vec![Pat::Str(b(pp)), Pat::Str(b(qq))]))),
            Same::All,
        ),
        19 => Law {
            name: "btree_set(p*) = the set of p*",
            left: Pat::Coll(CollKind::BTreeSet, b(Pat::Star(b(pp.clone())))),
            right: Pat::Star(b(pp)),
            same: Same::All,
            fix: Some(to_set),
        },
        20 => law(
            "line(line(p)) accepts no more than line(p)",
            Pat::Line(b(paren(&p))),
            Pat::Line(b(seq(vec![pp]))),
            Same::All,
        ),
        21 => law(
            "section(line(p)) = line(p) at the end of a section",
            Pat::Sections(b(Pat::Line(b(Pat::Str(b(Pat::Plus(b(Pat::class("alnum"))))))))),
            Pat::Sections(b(Pat::Line(b(Pat::Str(b(seq(vec![
                Pat::class("alnum"),
                Pat::Star(b(Pat::class("alnum"))),
            ]))))))),
            Same::Value,
        ),
        22 => law(
            "p? p? accepts what {p p, p, \"\"} does",
            seq(vec![Pat::Opt(b(pp.clone())), Pat::Opt(b(pp.clone()))]),
            alt(vec![seq(vec![pp.clone(), pp.clone()]), seq(vec![pp]), Pat::lit("")]),
            Same::Accept,
        ),
        23 => law(
            "p* p* accepts what p* does",
            seq(vec![Pat::Star(b(pp.clone())), Pat::Star(b(pp.clone()))]),
            Pat::Star(b(pp)),
            Same::Accept,
        ),
        24 => law(
            "(p*)* accepts what p* does",
            Pat::Star(b(Pat::Paren(b(Pat::Star(b(pp.clone())))))),
            Pat::Star(b(pp)),
            Same::Accept,
        ),
        _ => law(
            "rule r = p; r is p",
            Pat::RuleSet(vec![p.clone()], b(Pat::Rule(0))),
            pp,
            Same::All,
        ),
    }
}

/// Both sides in the same surroundings.
fn around(t: &mut Tape, l: Law) -> Law {
    if l.fix.is_some() || l.same < Same::Value {
        return l;
    }
    let k = t.below(9);
    let c = part(t, Theme::Tiny);
    let f = |p: Pat| -> Pat {
        match k {
            0..=2 => p,
            3 => seq(vec![one(c.clone()), one(p)]),
            4 => seq(vec![one(p), one(c.clone())]),
            5 => Pat::Alt(vec![seq(vec![one(p), Pat::lit("b")]), seq(vec![one(c.clone())])]),
            6 => Pat::Star(b(Pat::Paren(b(seq(vec![one(p), Pat::lit(",")]))))),
            7 => Pat::Lines(b(one(p))),
            _ => Pat::Str(b(one(p))),
        }
    };
    // A rule set cannot be written inside a group as such, but its parser can.
    Law {
        left: f(l.left),
        right: f(l.right),
        ..l
    }
}

fn laws(t: &mut Tape, case: &mut Case) -> Verdict {
    let l = law(t);
    let l = around(t, l);
    let s = if t.chance(1, 2) {
        input_for(&l.left, t)
    } else {
        input_for(&l.right, t)
    };
    case.key(&(l.name, &l.left, &s));
    case.show(|| format!("{}: {} and {} on {s:?}", l.name, l.left.text(), l.right.text()));
    // Only to know how much work to allow.
    let (Some(m1), Some(m2)) = (
        model::parse(&l.left, &s, MODEL_FUEL),
        model::parse(&l.right, &s, MODEL_FUEL),
    ) else {
        return Ok(Status::Discard);
    };
    let x = run(&build_user(&l.left), &s, real_fuel(m1.steps));
    let y = run(&build_user(&l.right), &s, real_fuel(m2.steps));
    let ok = match (&x, &y) {
        (Seen::Ok(a), Seen::Ok(c)) => {
            l.same < Same::Value || *a == l.fix.map_or(c.clone(), |f| f(c.clone()))
        }
        (
            Seen::Err { location: a, message: m },
            Seen::Err { location: c, message: n },
        ) => (l.same < Same::Location || a == c) && (l.same < Same::All || m == n),
        _ => false,
    };
    if !ok {
        return Err(format!(
            "{} ({:?})\ninput: {s:?}\nleft:  {}\n       {}\nright: {}\n       {}",
            l.name,
            l.same,
            l.left.text(),
            x.text(),
            l.right.text(),
            y.text()
        ));
    }
    case.class(l.name);
    case.class_if(x.is_ok(), "both accept");
    nontrivial(match x {
        Seen::Ok(_) => !s.is_empty(),
        Seen::Err { location, .. } => location > 0,
        _ => false,
    })
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        rule: "an equation between patterns, instantiated with generated patterns, placed in generated surroundings, and both sides run on the same input; non-trivial when they accept a text that is not empty or fail after its start",
        assumptions: &["the reference model is only used to limit the work"],
        subs: vec![Sub { name: "laws", body: Body::Random(2_000_000, 40_000_000, 200, laws) }],
    }
}

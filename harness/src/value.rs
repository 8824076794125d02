//! A dynamically typed value, big enough to hold anything the generated
//! parsers produce.

use num_bigint::BigInt;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Unit,
    Int(BigInt),
    F32(u32),
    F64(u64),
    Bool(bool),
    Char(char),
    Str(String),
    Tuple(Vec<V>),
    List(Vec<V>),
    None,
    Some(Box<V>),
    Set(BTreeSet<V>),
    Map(BTreeMap<V, V>),
    Deque(Vec<V>),
    /// The result of the `=>` conversion with the given id.
    M(u32, Vec<V>),
    /// Values that are still waiting to be concatenated (a "raw tuple").
    Raw(Vec<V>),
}

impl V {
    pub fn int<T: Into<BigInt>>(x: T) -> V {
        V::Int(x.into())
    }

    /// Convert `Raw` to what the user sees.
    pub fn user(self) -> V {
        match self {
            V::Raw(mut vs) => match vs.len() {
                0 => V::Unit,
                1 => vs.pop().unwrap(),
                _ => V::Tuple(vs),
            },
            v => v,
        }
    }

    /// Canonical text. Generated programs print their results in this format.
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s);
        s
    }

    fn show_to(&self, out: &mut String) {
        use std::fmt::Write;
        fn seq(out: &mut String, open: &str, items: &[V], close: &str) {
            out.push_str(open);
            for (i, v) in items.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                v.show_to(out);
            }
            out.push_str(close);
        }
        match self {
            V::Unit => out.push_str("()"),
            V::Int(i) => write!(out, "i{i}").unwrap(),
            V::F32(b) => write!(out, "f{b:08x}").unwrap(),
            V::F64(b) => write!(out, "d{b:016x}").unwrap(),
            V::Bool(b) => write!(out, "{b}").unwrap(),
            V::Char(c) => write!(out, "{c:?}").unwrap(),
            V::Str(s) => write!(out, "{s:?}").unwrap(),
            V::Tuple(vs) => seq(out, "(", vs, ")"),
            V::List(vs) => seq(out, "[", vs, "]"),
            V::None => out.push_str("None"),
            V::Some(v) => {
                out.push_str("Some(");
                v.show_to(out);
                out.push(')');
            }
            V::Set(vs) => {
                let mut items: Vec<String> = vs.iter().map(|v| v.show()).collect();
                items.sort();
                write!(out, "set{{{}}}", items.join(",")).unwrap();
            }
            V::Map(m) => {
                let mut items: Vec<String> = m
                    .iter()
                    .map(|(k, v)| format!("{}=>{}", k.show(), v.show()))
                    .collect();
                items.sort();
                write!(out, "map{{{}}}", items.join(",")).unwrap();
            }
            V::Deque(vs) => seq(out, "deque[", vs, "]"),
            V::M(id, vs) => seq(out, &format!("M{id}("), vs, ")"),
            V::Raw(vs) => seq(out, "raw(", vs, ")"),
        }
    }
}

//! Independent definitions of the leaf patterns: which text each matches at
//! the start of a string, what it converts to, and how failure is described.

use crate::value::V;
use num_bigint::Sign;
use num_bigint::{BigInt, BigUint};

#[derive(Clone, Copy, Debug)]
pub struct NumSpec {
    pub name: &'static str,
    pub signed: bool,
    /// None for big integers.
    pub bits: Option<u32>,
    pub radix: u32,
    /// The name of the corresponding Rust type in error messages.
    pub ty: fn() -> &'static str,
    /// How to write the type in Rust source.
    pub rust_ty: &'static str,
}

macro_rules! num_specs {
    ( $( $t:ident $bin:ident $hex:ident $signed:literal $bits:literal ; )* ) => {
        pub const NUMS: &[NumSpec] = &[
            $(
                NumSpec { name: stringify!($t), signed: $signed, bits: Some($bits), radix: 10, ty: std::any::type_name::<$t>, rust_ty: stringify!($t) },
                NumSpec { name: stringify!($bin), signed: $signed, bits: Some($bits), radix: 2, ty: std::any::type_name::<$t>, rust_ty: stringify!($t) },
                NumSpec { name: stringify!($hex), signed: $signed, bits: Some($bits), radix: 16, ty: std::any::type_name::<$t>, rust_ty: stringify!($t) },
            )*
            NumSpec { name: "big_uint", signed: false, bits: None, radix: 10, ty: std::any::type_name::<BigUint>, rust_ty: "num_bigint::BigUint" },
            NumSpec { name: "big_uint_bin", signed: false, bits: None, radix: 2, ty: std::any::type_name::<BigUint>, rust_ty: "num_bigint::BigUint" },
            NumSpec { name: "big_uint_hex", signed: false, bits: None, radix: 16, ty: std::any::type_name::<BigUint>, rust_ty: "num_bigint::BigUint" },
            NumSpec { name: "big_int", signed: true, bits: None, radix: 10, ty: std::any::type_name::<BigInt>, rust_ty: "num_bigint::BigInt" },
            NumSpec { name: "big_int_bin", signed: true, bits: None, radix: 2, ty: std::any::type_name::<BigInt>, rust_ty: "num_bigint::BigInt" },
            NumSpec { name: "big_int_hex", signed: true, bits: None, radix: 16, ty: std::any::type_name::<BigInt>, rust_ty: "num_bigint::BigInt" },
        ];
    };
}

num_specs! {
    u8 u8_bin u8_hex false 8;
    u16 u16_bin u16_hex false 16;
    u32 u32_bin u32_hex false 32;
    u64 u64_bin u64_hex false 64;
    u128 u128_bin u128_hex false 128;
    usize usize_bin usize_hex false 64;
    i8 i8_bin i8_hex true 8;
    i16 i16_bin i16_hex true 16;
    i32 i32_bin i32_hex true 32;
    i64 i64_bin i64_hex true 64;
    i128 i128_bin i128_hex true 128;
    isize isize_bin isize_hex true 64;
}

pub enum LeafMatch {
    /// Matched this many bytes.
    Yes(usize, V),
    /// No match, with a description of why.
    No(String),
}

impl NumSpec {
    pub fn min(&self) -> Option<BigInt> {
        self.bits.map(|b| {
            if self.signed {
                -(BigInt::from(1) << (b - 1))
            } else {
                BigInt::from(0)
            }
        })
    }

    pub fn max(&self) -> Option<BigInt> {
        self.bits.map(|b| {
            if self.signed {
                (BigInt::from(1) << (b - 1)) - 1
            } else {
                (BigInt::from(1) << b) - 1
            }
        })
    }

    /// Length of the longest prefix of `s` that is an integer, and its value.
    pub fn scan(&self, s: &str) -> Option<(usize, BigInt)> {
        let b = s.as_bytes();
        let mut i = 0;
        let mut neg = false;
        if self.signed && i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            neg = b[i] == b'-';
            i += 1;
        }
        let mut digits: Vec<u8> = vec![];
        while i < b.len() {
            let d = match b[i] {
                c @ b'0'..=b'9' => c - b'0',
                c @ b'a'..=b'f' => c - b'a' + 10,
                c @ b'A'..=b'F' => c - b'A' + 10,
                _ => break,
            };
            if d as u32 >= self.radix {
                break;
            }
            digits.push(d);
            i += 1;
        }
        if digits.is_empty() {
            return None;
        }
        // Horner in chunks small enough for u64, so that this shares nothing
        // with the from_str routines under test.
        let mut mag = BigUint::from(0u32);
        for chunk in digits.chunks(12) {
            let mut scale = 1u64;
            let mut x = 0u64;
            for d in chunk {
                x = x * self.radix as u64 + *d as u64;
                scale *= self.radix as u64;
            }
            mag = mag * scale + x;
        }
        let sign = if neg { Sign::Minus } else { Sign::Plus };
        Some((i, BigInt::from_biguint(sign, mag)))
    }

    pub fn match_at(&self, s: &str) -> LeafMatch {
        match self.scan(s) {
            None => LeafMatch::No(format!("expected {}", (self.ty)())),
            Some((len, v)) => {
                let problem = if self.max().map_or(false, |m| v > m) {
                    Some("999".parse::<i8>().unwrap_err())
                } else if self.min().map_or(false, |m| v < m) {
                    Some("-999".parse::<i8>().unwrap_err())
                } else {
                    None
                };
                match problem {
                    Some(err) => LeafMatch::No(format!(
                        "failed to parse {:?} as type {}: {}",
                        &s[..len],
                        (self.ty)(),
                        err
                    )),
                    None => LeafMatch::Yes(len, V::Int(v)),
                }
            }
        }
    }
}

/// Longest prefix of `s` in the format documented for `f64::from_str`.
pub fn scan_float(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let sign = usize::from(!b.is_empty() && (b[0] == b'+' || b[0] == b'-'));
    let rest = &b[sign..];
    for word in ["infinity", "inf", "nan"] {
        if rest.len() >= word.len() && rest[..word.len()].eq_ignore_ascii_case(word.as_bytes()) {
            return Some(sign + word.len());
        }
    }
    let digits = |from: usize| {
        let mut n = 0;
        while from + n < b.len() && b[from + n].is_ascii_digit() {
            n += 1;
        }
        n
    };
    let int = digits(sign);
    let mut i = sign + int;
    if i < b.len() && b[i] == b'.' {
        let frac = digits(i + 1);
        if int + frac > 0 {
            i += 1 + frac;
        }
    }
    if i == sign {
        return None;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        let mut j = i + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            j += 1;
        }
        let exp = digits(j);
        if exp > 0 {
            i = j + exp;
        }
    }
    Some(i)
}

pub struct ClassSpec {
    pub name: &'static str,
    pub noun: &'static str,
    pub pred: fn(char) -> bool,
    /// Some(radix) if it converts to the value of the digit.
    pub digit: Option<u32>,
}

pub const CLASSES: &[ClassSpec] = &[
    ClassSpec {
        name: "alpha",
        noun: "letter",
        pred: char::is_alphabetic,
        digit: None,
    },
    ClassSpec {
        name: "alnum",
        noun: "letter or digit",
        pred: char::is_alphanumeric,
        digit: None,
    },
    ClassSpec {
        name: "upper",
        noun: "uppercase letter",
        pred: char::is_uppercase,
        digit: None,
    },
    ClassSpec {
        name: "lower",
        noun: "lowercase letter",
        pred: char::is_lowercase,
        digit: None,
    },
    ClassSpec {
        name: "any_char",
        noun: "any character",
        pred: |_| true,
        digit: None,
    },
    ClassSpec {
        name: "digit",
        noun: "decimal digit",
        pred: |c| ('0'..='9').contains(&c),
        digit: Some(10),
    },
    ClassSpec {
        name: "digit_bin",
        noun: "binary digit",
        pred: |c| c == '0' || c == '1',
        digit: Some(2),
    },
    ClassSpec {
        name: "digit_hex",
        noun: "hexadecimal digit",
        pred: |c| ('0'..='9').contains(&c) || ('a'..='f').contains(&c) || ('A'..='F').contains(&c),
        digit: Some(16),
    },
];

impl ClassSpec {
    pub fn value(&self, c: char) -> V {
        match self.digit {
            None => V::Char(c),
            Some(_) => V::int(match c {
                '0'..='9' => c as u32 - '0' as u32,
                'a'..='f' => c as u32 - 'a' as u32 + 10,
                'A'..='F' => c as u32 - 'A' as u32 + 10,
                _ => unreachable!(),
            }),
        }
    }
}

pub fn match_class(spec: &ClassSpec, s: &str) -> LeafMatch {
    match s.chars().next() {
        Some(c) if (spec.pred)(c) => LeafMatch::Yes(c.len_utf8(), spec.value(c)),
        _ => LeafMatch::No(format!("expected {}", spec.noun)),
    }
}

pub const CHAR_OFS: &[&str] = &[
    "ab",
    "ba1",
    ">^<v",
    ".#",
    "\n ",
    "😂😃🌍",
    "éàa",
    "aab",
    "x",
    "0123456789abcdef",
    "-+",
    "",
    "京都b",
    "AZ\u{10ffff}\u{0}",
];

pub fn match_char_of(options: &str, s: &str) -> LeafMatch {
    if let Some(c) = s.chars().next() {
        let mut i = 0u32;
        for o in options.chars() {
            if o == c {
                return LeafMatch::Yes(c.len_utf8(), V::int(i));
            }
            i += 1;
        }
    }
    LeafMatch::No(format!("expected one of {options:?}"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Word {
    F32,
    F64,
    Bool,
}

pub fn match_word(w: Word, s: &str) -> LeafMatch {
    match w {
        Word::Bool => {
            if s.starts_with("true") {
                LeafMatch::Yes(4, V::Bool(true))
            } else if s.starts_with("false") {
                LeafMatch::Yes(5, V::Bool(false))
            } else {
                LeafMatch::No("expected bool".to_string())
            }
        }
        Word::F32 => match scan_float(s) {
            None => LeafMatch::No("expected f32".to_string()),
            Some(n) => LeafMatch::Yes(n, V::F32(s[..n].parse::<f32>().unwrap().to_bits())),
        },
        Word::F64 => match scan_float(s) {
            None => LeafMatch::No("expected f64".to_string()),
            Some(n) => LeafMatch::Yes(n, V::F64(s[..n].parse::<f64>().unwrap().to_bits())),
        },
    }
}

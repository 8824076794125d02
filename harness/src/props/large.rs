//! Large inputs: simple patterns whose outcome can be computed directly, at
//! sizes around every power of two where a counter or buffer might give out.

use crate::erase::{take_attempts, take_broken, Watched};
use crate::runner::*;
use aoc_parse::{parser, prelude::*, ParseError};
use std::cell::Cell;
use std::collections::*;

const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 24, 25, 31, 32, 33, 40, 49, 50, 51, 63,
    64, 65, 99, 100, 101, 120, 127, 128, 129, 199, 200, 201, 250, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512,
    513, 600, 750, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000,
    8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 50000, 65535, 65536,
    65537, 99999, 100000, 100001,
];
const LARGER: &[usize] = &[131071, 131072, 131073, 200000, 262144, 524288, 1000000, 1048576, 2000003];

/// A name, a check, and the largest size for the quick tier. (Every failing
/// attempt copies the whole source into its error, so that patterns with a
/// failing attempt per item take quadratic time.)
type Kind = (&'static str, fn(usize) -> Result<(), String>, usize);
const ANY: usize = usize::MAX;
/// Quick at every size.
const LINEAR: usize = usize::MAX - 1;
const SLOW: usize = 16385;
/// Up to here parses that take quadratic time are tried in the other kinds.
const QUADRATIC: usize = 100001;

fn short(s: &str) -> String {
    if s.chars().count() <= 200 {
        return s.to_string();
    }
    let head: String = s.chars().take(100).collect();
    let n = s.chars().count();
    let tail: String = s.chars().skip(n - 90).collect();
    format!("{head}[...]{tail}")
}

fn ok<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<T, ParseError>, want: T) -> Result<(), String> {
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!(
            "{what}: wrong value\nexpected: {}\ngot: {}",
            short(&format!("{want:?}")),
            short(&format!("{g:?}"))
        )),
        Err(e) => Err(format!("{what}: does not match: {}", short(&e.to_string()))),
    }
}

/// The error has to be at `at`, with this text.
fn err<T>(what: &str, source: &str, got: Result<T, ParseError>, at: usize, text: &str) -> Result<(), String> {
    let e = match got {
        Ok(_) => return Err(format!("{what}: matches")),
        Err(e) => e,
    };
    let before = &source.as_bytes()[..at];
    let line = 1 + before.iter().filter(|b| **b == b'\n').count();
    let line_start = before.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    // Characters begin at the bytes that are not continuation bytes.
    let col = 1 + before[line_start..].iter().filter(|b| **b & 0xc0 != 0x80).count();
    let want = if at == source.len() {
        format!("{text} at end of input")
    } else {
        format!("{text} at line {line} column {col}")
    };
    if e.location != at || e.to_string() != want {
        return Err(format!(
            "{what}: wrong error\nexpected: byte {at}, {want}\ngot: byte {}, {}",
            e.location,
            short(&e.to_string())
        ));
    }
    if e.source.as_str() != source {
        return Err(format!("{what}: the error has another source"));
    }
    Ok(())
}

fn text_of(n: usize) -> String {
    (0..n).map(|i| ['a', 'b', 'é', 'Z', '京', 'q', '𝔸'][(i * i + i / 7) % 7]).collect()
}

/// All sorts of characters, but no newline.
fn mixed_text(n: usize, k: usize) -> String {
    const CS: &[char] = &[
        ' ', 'a', '\t', '京', '0', '"', '\0', '\r', 'é', ' ', '\u{feff}', '-', '𝔸', '\u{2028}', '\\', 'Z', '\u{301}', '\u{a0}', '\u{85}',
    ];
    (0..n).map(|i| if k < 3 { CS[i % (k + 1)] } else { CS[(i * i + i / 5 + k) % CS.len()] }).collect()
}

fn units(n: usize) -> Result<(), String> {
    let p = parser!("a"*);
    let mut s = "a".repeat(n);
    ok("\"a\"*", p.parse(&s), vec![(); n])?;
    let q = parser!("a"+);
    if n == 0 {
        err("\"a\"+", &s, q.parse(&s), 0, "expected \"a\"")?;
    } else {
        ok("\"a\"+", q.parse(&s), vec![(); n])?;
    }
    if n > QUADRATIC {
        return Ok(());
    }
    s.push('b');
    err("\"a\"* with b at the end", &s, p.parse(&s), n, "expected \"a\"")
}

fn letters(n: usize) -> Result<(), String> {
    let p = parser!(alpha*);
    let s = text_of(n);
    ok("alpha*", p.parse(&s), s.chars().collect::<Vec<char>>())?;
    if n > QUADRATIC {
        return Ok(());
    }
    let t = format!("{s}1{s}");
    err("alpha* with a digit in the middle", &t, p.parse(&t), s.len(), "expected letter")
}

fn choices(n: usize) -> Result<(), String> {
    let p = parser!({"a" "c" => 0usize, "ab" => 1, "a" => 2, n:u32 ";" => n as usize}*);
    let mut s = String::new();
    let mut want = vec![];
    for i in 0..n {
        match (i * 7 + i / 3) % 4 {
            0 => s += "ac",
            1 => s += "ab",
            2 => s += "a",
            _ => s += &format!("{i};"),
        }
        want.push(match (i * 7 + i / 3) % 4 {
            3 => i,
            k => k,
        });
    }
    ok("choices", p.parse(&s), want.clone())?;
    let at = s.len();
    // The last choice has to be reconsidered.
    let q = parser!({"a" "c" => 0usize, "ab" => 1, "a" => 2, n:u32 ";" => n as usize}* "b");
    if n > 0 && s.ends_with("ab") {
        *want.last_mut().unwrap() = 2;
        ok("choices, and b", q.parse(&s), want)?;
    } else {
        s += "b";
        ok("choices, and b", q.parse(&s), want)?;
    }
    s.truncate(at);
    s += "x";
    match p.parse(&s) {
        Err(e) if e.location == at => Ok(()),
        r => Err(format!("choices and x: {}", short(&format!("{:?}", r.map_err(|e| e.to_string()))))),
    }
}

fn give_back(n: usize) -> Result<(), String> {
    let s = "a".repeat(n);
    let p = parser!(string("a"*) string("a" "a" "a"));
    let q = parser!(string(alpha+) "b"? string(alpha+) string("a"?));
    let r = parser!("a"* "b");
    let half = parser!(x:string("a"*) "|"? y:string("a"*) => (x, y));
    if n >= 3 {
        ok("\"a\"* then three", p.parse(&s), ("a".repeat(n - 3), "aaa".to_string()))?;
    } else {
        err("\"a\"* then three", &s, p.parse(&s), n, "expected \"a\"")?;
    }
    if n >= 2 {
        match q.parse(&s) {
            Ok((x, None, y, z)) if x.len() == n - 1 && y == "a" && z.is_empty() => {}
            v => return Err(format!("alpha+ b? alpha+ a?: {}", short(&format!("{:?}", v.map_err(|e| e.to_string()))))),
        }
    }
    ok("\"a\"* |? \"a\"*", half.parse(&s), (s.clone(), String::new()))?;
    err("\"a\"* \"b\"", &s, r.parse(&s), n, "expected \"a\"")
}

fn separated(n: usize) -> Result<(), String> {
    let p = parser!(repeat_sep(u32, ", "));
    let want: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(2654435761)).collect();
    let mut s = want.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    ok("repeat_sep(u32, \", \")", p.parse(&s), want.clone())?;
    s += "; rest";
    let q = parser!(repeat_sep(u32, ", ") ';' " rest");
    ok("repeat_sep and more", q.parse(&s), want)?;
    let s = &s[..s.len() - 6];
    let s = format!("{s}, ");
    if n > 0 {
        err("repeat_sep with a separator at the end", &s, p.parse(&s), s.len(), "expected u32")?;
    }
    Ok(())
}

fn long_literal(n: usize) -> Result<(), String> {
    let s = text_of(n);
    let lit: &str = &s;
    let t = format!("{s}{s}");
    let p = parser!(lit lit string(alpha?));
    ok("a long literal twice", p.parse(&t), String::new())?;
    if n > 0 {
        let mut u = t.clone();
        u.pop();
        u.push('x');
        err("a long literal, last character wrong", &u, parser!(lit lit).parse(&u), s.len(), &format!("expected {s:?}"))?;
        u.pop();
        err("a long literal, last character missing", &u, parser!(lit lit).parse(&u), s.len(), &format!("expected {s:?}"))?;
    }
    Ok(())
}

fn options(n: usize) -> Result<(), String> {
    let n = n.min(5000);
    let cs: Vec<char> = (0..n as u32).map(|i| char::from_u32(0x4e00 + i).unwrap()).collect();
    let all: String = cs.iter().collect();
    let options = crate::erase::intern(&all);
    let p = parser!((char_of(options))*);
    ok("char_of with many characters", p.parse(&all), (0..n).collect::<Vec<_>>())?;
    let twice = format!("{all}{all}");
    let options = crate::erase::intern(&twice);
    let p = parser!((char_of(options))*);
    ok("char_of with repeated characters", p.parse(&all), (0..n).collect::<Vec<_>>())
}

fn matrix(n: usize) -> Result<(), String> {
    let w = (n as f64).sqrt() as usize;
    let p = parser!(lines(repeat_sep(i64, ' ')));
    let m: Vec<Vec<i64>> = (0..w).map(|i| (0..=w).map(|j| (i * j) as i64 - 50).collect()).collect();
    let s: String = m
        .iter()
        .map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") + "\n")
        .collect();
    ok("a matrix", p.parse(&s), m)?;
    if w > 0 {
        let t = format!("{s}1 2 x\n{s}");
        err("a matrix with an x", &t, p.parse(&t), s.len() + 4, "expected i64")?;
    }
    Ok(())
}

/// What aoc_parse gives to the parser.
fn whole_text(n: usize) -> Result<(), String> {
    let all = parser!(string(any_char*));
    let terminated = parser!((string({any_char, upper}) "\n")*);
    let check = |s: &str| {
        let mut full = s.to_string();
        if !s.ends_with('\n') {
            full.push('\n');
        }
        ok("the text, via aoc_parse", aoc_parse::<_, ParseError>(s, &all), full.clone())?;
        let p = parser!(string(any_char*) "\n");
        ok("the text and \\n, via aoc_parse", aoc_parse::<_, ParseError>(s, &p), full[..full.len() - 1].to_string())?;
        if n > 8193 {
            return Ok(());
        }
        let p = parser!(string(any_char*) "!?");
        err("the text and !?, via aoc_parse", &full, aoc_parse::<_, ParseError>(s, &p), full.len(), "expected any character")
    };
    for k in [0, 2, 4] {
        let mut s = mixed_text(n, k);
        for end in ["", "\n", "\r", "\n\r", "\n ", "\n\n", "a"] {
            let len = s.len();
            s.push_str(end);
            if n <= 4097 || k == 4 {
                check(&s)?;
            }
            s.truncate(len);
        }
    }
    let lines: Vec<String> = (0..n).map(|i| ["a", "é", "京", "Z"][i % 4].to_string()).collect();
    let s = lines.join("\n");
    if n > 0 {
        check(&s)?;
        ok("lines with \\n, via aoc_parse", aoc_parse::<_, ParseError>(&s, &terminated), lines)?;
    }
    check(&"\n".repeat(n))?;
    check(&format!("{}x", "\n".repeat(n)))?;
    check(&format!("{}x", "\r\n".repeat(n)))
}

fn many_lines(n: usize) -> Result<(), String> {
    let p = parser!(lines("<" u32 ">"));
    let s: String = (0..n).map(|i| format!("<{i}>\n")).collect();
    let want: Vec<u32> = (0..n as u32).collect();
    ok("lines", p.parse(&s), want.clone())?;
    if n > 0 {
        ok("lines, via aoc_parse", aoc_parse::<_, ParseError>(&s, &p), want.clone())?;
    }
    if n > 0 {
        let t = s.trim_end();
        ok("lines, no newline at the end", p.parse(t), want.clone())?;
        ok("lines, no newline at the end, via aoc_parse", aoc_parse::<_, ParseError>(t, &p), want.clone())?;
        let t = format!("{}?>\n{s}", &s[..s.len() - 2]);
        err("lines, one bad", &t, p.parse(&t), s.len() - 2, "expected \">\"")?;
    }
    let t = format!("{s}\n");
    err("lines, and an empty one", &t, p.parse(&t), s.len(), "expected \"<\"")?;
    let q = parser!(lines("<" u32 ">") line("-") lines(string(any_char*)));
    let t = format!("{s}-\n{s}");
    ok("lines, a line, lines", q.parse(&t), (want, (), s.lines().map(|l| l.to_string()).collect::<Vec<_>>()))
}

fn long_line(n: usize) -> Result<(), String> {
    let s = text_of(n);
    let p = parser!(line(string(any_char*)) line(string(alpha*)));
    let t = format!("{s}\n{s}\n");
    ok("two long lines", p.parse(&t), (s.clone(), s.clone()))?;
    let t = format!("{s}\n{s}");
    if n > 0 {
        ok("two long lines, no newline at the end", p.parse(&t), (s.clone(), s.clone()))?;
    }
    if n <= QUADRATIC {
        let t = format!("{s}\n{s}!\n");
        err("two long lines, the second bad", &t, p.parse(&t), 2 * s.len() + 1, "expected letter")?;
    }
    let p = parser!(lines(string(any_char*)));
    for k in [0, 2, 3, 4, 12] {
        let s = mixed_text(n, k);
        let t = format!("{s}\n\n{s}\n{s}\n");
        ok("long lines of all sorts", p.parse(&t), vec![s.clone(), String::new(), s.clone(), s])?;
    }
    Ok(())
}

/// An error behind a long text, inside a line and a section.
fn late_error(n: usize) -> Result<(), String> {
    let s = mixed_text(n, 4);
    let p = parser!(line(string(any_char*)) line("x" alpha));
    let t = format!("{s}\nx-\n{s}");
    err("an error in the line after a long one", &t, p.parse(&t), s.len() + 2, "expected letter")?;
    let p = parser!(line(string(any_char*)) line(string(any_char*)) line("x" u8));
    let t = format!("{s}\n{s}\nx999\n{s}");
    let e = "failed to parse \"999\" as type u8: number too large to fit in target type";
    err("an error after two long lines", &t, p.parse(&t), 2 * s.len() + 3, e)?;
    let p = parser!(section(line(string(any_char*))) section(line(string(any_char+)) line("x" alpha)));
    let t = format!("{s}\n\nx\nx");
    if n > 0 {
        err("an error in the section after a long one", &t, p.parse(&t), t.len(), "expected letter")?;
    }
    Ok(())
}

/// A list with a separator too many.
fn trailing(n: usize) -> Result<(), String> {
    if n == 0 {
        return Ok(());
    }
    let p = parser!(repeat_sep(alpha, ","));
    let t = "a,".repeat(n);
    err("a separator at the end of a list", &t, p.parse(&t), t.len(), "expected letter")?;
    let p = parser!(repeat_sep(alpha, ",") ",");
    ok("a list, and a separator", p.parse(&t), vec!['a'; n])?;
    let p = parser!(repeat_sep(alpha, ","?));
    ok("a list with a separator", p.parse(&t[..t.len() - 1]), vec!['a'; n])
}

/// The only way of matching comes after many others.
fn long_way_back(n: usize) -> Result<(), String> {
    let s = "y".repeat(n);
    let t = format!("x{s}");
    let p = parser!(string(any_char*) "x" string(any_char*));
    ok("string(any_char*) \"x\" string(any_char*)", p.parse(&t), (String::new(), s.clone()))?;
    let p = parser!(repeat_sep(alpha, '-'?) 'y'* "x");
    let t = format!("{s}x");
    match p.parse(&t) {
        Ok((v, w)) if v.len() == n && w.is_empty() => Ok(()),
        r => Err(format!("a list, 'y'* \"x\": {}", short(&format!("{:?}", r.map_err(|e| e.to_string()))))),
    }
}

fn many_sections(n: usize) -> Result<(), String> {
    let p = parser!(sections(lines(u32)));
    let want: Vec<Vec<u32>> = (0..n as u32).map(|i| (0..1 + i % 3).map(|j| i * 10 + j).collect()).collect();
    let s: String = want
        .iter()
        .map(|v| v.iter().map(|x| format!("{x}\n")).collect::<String>())
        .collect::<Vec<_>>()
        .join("\n");
    ok("sections", p.parse(&s), want.clone())?;
    if n > 0 {
        ok("sections, a blank line at the end", p.parse(&format!("{s}\n")), want.clone())?;
        ok("sections, no newline at the end", p.parse(s.trim_end()), want.clone())?;
        let t = format!("{s}\n1\nx\n\n{s}");
        err("sections, one bad", &t, p.parse(&t), s.len() + 3, "expected u32")?;
    }
    Ok(())
}

fn long_section(n: usize) -> Result<(), String> {
    let p = parser!(section(lines(u32)) section(string(any_char+)));
    let a: String = (0..=n).map(|i| format!("{i}\n")).collect();
    let t = format!("{a}\n{a}");
    ok("a long section", p.parse(&t), ((0..=n as u32).collect::<Vec<_>>(), a.clone()))?;
    let t = format!("{a}x\n\n{a}");
    err("a long section, bad at the end", &t, p.parse(&t), a.len(), "expected u32")
}

fn long_string(n: usize) -> Result<(), String> {
    let s = text_of(n);
    let p = parser!(string(any_char*));
    ok("string(any_char*)", p.parse(&s), s.clone())?;
    let parts = parser!(string(any_char*) "|" string((any_char)+));
    for k in [0, 2, 3, 4, 12] {
        let s = mixed_text(n, k);
        ok("string(any_char*)", p.parse(&s), s.clone())?;
        if n > QUADRATIC {
            continue;
        }
        let t = format!("{s}|{s} ");
        ok("string(any_char*) \"|\" string(any_char+)", parts.parse(&t), (s.clone(), format!("{s} ")))?;
    }
    let p = parser!("é" string(alpha*) '.' string({"a", alpha => ()}*));
    if n <= QUADRATIC {
        let t = format!("é{s}.{s}");
        ok("two strings", p.parse(&t), (s.clone(), s.clone()))?;
    }
    let p = parser!(string(string(alpha*) "." string(alpha*) => ()));
    let t = format!("{s}.{s}");
    ok("string of strings", p.parse(&t), t.clone())
}

fn collections(n: usize) -> Result<(), String> {
    let m = (n / 3 + 1) as u32;
    let ks: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(40503) % m).collect();
    let s = ks.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
    let kv = ks.iter().enumerate().map(|(i, k)| format!("{k}={i}\n")).collect::<String>();
    ok("hash_set", parser!(hash_set(repeat_sep(u32, ","))).parse(&s), ks.iter().copied().collect::<HashSet<u32>>())?;
    ok("btree_set", parser!(btree_set(repeat_sep(u32, ","))).parse(&s), ks.iter().copied().collect::<BTreeSet<u32>>())?;
    ok("vec_deque", parser!(vec_deque(repeat_sep(u32, ","))).parse(&s), ks.iter().copied().collect::<VecDeque<u32>>())?;
    let pairs = ks.iter().copied().zip(0usize..);
    ok("hash_map", parser!(hash_map(lines(u32 "=" usize))).parse(&kv), pairs.clone().collect::<HashMap<u32, usize>>())?;
    ok("btree_map", parser!(btree_map(lines(u32 "=" usize))).parse(&kv), pairs.collect::<BTreeMap<u32, usize>>())
}

fn conversions(n: usize) -> Result<(), String> {
    let count = Cell::new(0usize);
    let order = Cell::new(true);
    let next = |i: usize| {
        order.set(order.get() && i == count.get());
        count.set(count.get() + 1);
        i
    };
    let p = parser!({i:usize "!" => next(i), i:usize "?" => next(i), i:usize => next(i)}*);
    let p = parser!(repeat_sep(p, ";"));
    let s = (0..n).map(|i| format!("{i}{}", ["", "!", "?"][i % 3])).collect::<Vec<_>>().join(";");
    let got = p.parse(&s);
    let total = count.get();
    let in_order = order.get();
    match got {
        Ok(v) if n == 0 || v.iter().map(|x| x.len()).sum::<usize>() == n => {}
        r => return Err(format!("conversions: {}", short(&format!("{:?}", r.map_err(|e| e.to_string()))))),
    }
    if total != n || !in_order {
        return Err(format!("{total} conversions instead of {n} (in order: {in_order})"));
    }
    count.set(0);
    let t = format!("{s}x");
    if p.parse(&t).is_ok() || count.get() != 0 {
        return Err(format!("{} conversions run in a parse that fails", count.get()));
    }
    Ok(())
}

fn rule_uses(n: usize) -> Result<(), String> {
    let p = parser! {
        rule item: usize = { "(" v:list ")" => v, digit => 0 };
        rule list: usize = v:item* => v.len();
        repeat_sep(item, ",")
    };
    let s = (0..n).map(|i| if i % 2 == 0 { "(12(3))" } else { "7" }).collect::<Vec<_>>().join(",");
    let want: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { 3 } else { 0 }).collect();
    ok("a rule used often", p.parse(&s), want)?;
    let s = format!("({})", "1".repeat(n));
    ok("a rule used often inside", p.parse(&s), vec![n])?;
    let t = &s[..s.len() - 1];
    err("a parenthesis is missing", t, p.parse(t), t.len(), "expected \"(\"")
}

fn digits(n: usize) -> Result<(), String> {
    let s = "0".repeat(n);
    let t = format!("{s}12");
    ok("leading zeros", parser!(u8).parse(&t), 12)?;
    ok("leading zeros, i64", parser!(i64).parse(&format!("-{t}")), -12)?;
    ok("leading zeros, hex", parser!(u16_hex).parse(&format!("{s}ffFF")), 0xffff)?;
    ok("zeros", parser!(digit*).parse(&s), vec![0; n])?;
    // Numbers with many digits.
    if n > 40 {
        let nines = "9".repeat(n);
        match parser!(u64).parse(&nines) {
            Err(e) if e.location == 0 => {}
            r => return Err(format!("u64 of {n} nines: {r:?}")),
        }
    }
    Ok(())
}

/// Distinct characters.
fn distinct(n: usize) -> Vec<char> {
    (0..n as u32).map(|i| char::from_u32(0x10000 + (i % 0xf0000)).unwrap()).collect()
}

fn char_collections(n: usize) -> Result<(), String> {
    let cs = distinct(n);
    let s: String = cs.iter().collect();
    ok("vec_deque(any_char*)", parser!(vec_deque(any_char*)).parse(&s), cs.iter().copied().collect::<VecDeque<_>>())?;
    ok("hash_set(any_char*)", parser!(hash_set(any_char*)).parse(&s), cs.iter().copied().collect::<HashSet<_>>())?;
    ok("btree_set(any_char*)", parser!(btree_set(any_char*)).parse(&s), cs.iter().copied().collect::<BTreeSet<_>>())?;
    let pairs: Vec<(char, char)> = cs.chunks_exact(2).map(|p| (p[0], p[1])).collect();
    let s: String = pairs.iter().flat_map(|p| [p.0, p.1]).collect();
    ok(
        "hash_map((any_char any_char)*)",
        parser!(hash_map((any_char any_char)*)).parse(&s),
        pairs.iter().copied().collect::<HashMap<_, _>>(),
    )?;
    ok(
        "btree_map((any_char any_char)*)",
        parser!(btree_map((any_char any_char)*)).parse(&s),
        pairs.iter().copied().collect::<BTreeMap<_, _>>(),
    )
}

fn char_lines(n: usize) -> Result<(), String> {
    let cs = distinct(n);
    let s: String = cs.iter().flat_map(|c| [*c, '\n']).collect();
    ok("lines(any_char)", parser!(lines(any_char)).parse(&s), cs.clone())?;
    if n > QUADRATIC {
        return Ok(());
    }
    let bad = format!("{s}xx\n");
    let e = "line(pattern) matched part of the line, but not all of it";
    err("lines(any_char), the last one longer", &bad, parser!(lines(any_char)).parse(&bad), s.len() + 1, e)
}

fn char_sections(n: usize) -> Result<(), String> {
    let cs = distinct(n);
    let s: String = cs.iter().flat_map(|c| [*c, '\n', '\n']).collect();
    let s = s.strip_suffix('\n').unwrap_or("");
    ok("sections(line(any_char))", parser!(sections(line(any_char))).parse(s), cs.clone())
}

fn char_list(n: usize) -> Result<(), String> {
    let cs = distinct(n);
    let s: String = cs.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", ");
    ok("repeat_sep(any_char, \", \")", parser!(repeat_sep(any_char, ", ")).parse(&s), cs.clone())?;
    let p = parser! {
        rule list: Vec<char> = c:letter+ => c;
        rule letter: char = any_char;
        list
    };
    if n > 0 {
        ok("any_char+, by rules", p.parse(&cs.iter().collect::<String>()), cs.clone())?;
    }
    let count = Cell::new(0usize);
    let p = parser!((c:any_char => { count.set(count.get() + 1); c })*);
    ok("any_char, converted", p.parse(&cs.iter().collect::<String>()), cs)?;
    if count.get() != n {
        return Err(format!("{} conversions for {n} characters", count.get()));
    }
    Ok(())
}

fn watched<P>(inner: P) -> Watched<P> {
    Watched { part: 0, inner }
}

pub const TOO_MANY: &str = "attempts, where this many do:";

/// Parsing this has to match or not, as `fits` says, with at most `most` attempts.
fn tried<P: Parser>(what: &str, p: P, s: &str, fits: bool, most: usize) -> Result<(), String> {
    take_attempts();
    take_broken();
    let r = p.parse(s);
    if r.is_ok() != fits {
        return Err(format!("{what}: {}", if fits { "does not match" } else { "matches" }));
    }
    let n: u64 = take_attempts().values().map(|n| *n as u64).sum();
    if n > most as u64 {
        return Err(format!("{what}: {n} {TOO_MANY} {most}{}", take_broken().map_or(String::new(), |b| format!(", and {b}"))));
    }
    if let Some(how) = take_broken() {
        return Err(format!("{what}: {how}"));
    }
    Ok(())
}

fn attempts(n: usize) -> Result<(), String> {
    let a = watched("a");
    let d = watched(digit);
    let num = watched(usize);
    let s = "a".repeat(n);
    let digits: String = (0..n).map(|i| char::from(b'0' + (i % 10) as u8)).collect();
    let list = digits.split("").filter(|d| !d.is_empty()).collect::<Vec<_>>().join(",");
    let lns: String = (0..n).map(|i| format!("{i}\n")).collect();
    let secs: String = (0..n).map(|i| format!("{i}\n{i}\n\n")).collect();
    tried("a*", parser!(a*), &s, true, n + 1)?;
    tried("a* \"b\"", parser!(a* "b"), &format!("{s}b"), true, n + 1)?;
    tried("a* a?", parser!(a* a?), &s, true, n + 2)?;
    tried("separated", parser!(repeat_sep(d, ",")), &list, true, n.max(1))?;
    tried("lines", parser!(lines(num)), &lns, true, n)?;
    tried("lines in lines", parser!(lines(num) lines(num)), &lns, true, n)?;
    tried("sections", parser!(sections(lines(num))), &secs, true, 2 * n)?;
    tried("a section", parser!(section(lines(num)) section(lines(a))), &format!("{lns}\na\n"), true, n + 1)?;
    tried("strings", parser!(string(string(string(a*)))), &s, true, n + 1)?;
    tried("a line", parser!(line(string(a*) ',' string(a*))), &format!("{s},{s}"), true, 2 * n + 2)?;
    tried("a deque", parser!(vec_deque(d*)), &digits, true, n + 1)?;
    tried("a set", parser!(hash_set(d+)), &digits, n > 0, n + 1)?;
    tried("a map", parser!(btree_map((d d)*)), &digits, n % 2 == 0, n + 1)?;
    tried("options", parser!((a? a?)*), &s, true, n + 3)?;
    tried("conversions", parser!(x:(y:(z:a => z)* => y) => x), &s, true, n + 1)?;
    let p = parser! {
        rule item: usize = { "(" v:d ")" => v, d };
        rule list: usize = v:item* => v.len();
        list
    };
    tried("rules", p, &digits, true, n + 1)
}

/// Here most attempts fail.
fn attempts_back(n: usize) -> Result<(), String> {
    let a = watched("a");
    let b = watched("b");
    let num = watched(usize);
    let s = "a".repeat(n);
    let lns: String = (0..n).map(|i| format!("{i}\n")).collect();
    tried("the second of two ways", parser!({string(a*) "x", string(a*) "y"}), &format!("{s}y"), true, 2 * n + 2)?;
    tried("no way", parser!({a* "x", a* "y"}), &format!("{s}z"), false, 2 * n + 2)?;
    tried("two choices each", parser!({b, a}*), &s, true, 2 * n + 2)?;
    tried("half given back", parser!(a* b), &s, false, 2 * n + 2)?;
    tried("a bad last line", parser!(lines(num)), &format!("{lns}x\n"), false, n + 1)?;
    tried("a bad line in a section", parser!(section(lines(num))), &format!("{lns}x\n"), false, n + 1)?;
    tried("a bad line in each way", parser!({v:lines(num) => v, v:lines(num) line("y") => v}), &format!("{lns}x\n"), false, 2 * n + 2)
}

pub const ALL: &[Kind] = &[
    ("attempts", attempts, SLOW),
    ("attempts_back", attempts_back, SLOW),
    ("char_collections", char_collections, ANY),
    ("char_lines", char_lines, ANY),
    ("char_sections", char_sections, ANY),
    ("char_list", char_list, ANY),
    ("units", units, ANY),
    ("letters", letters, ANY),
    ("choices", choices, SLOW),
    ("give_back", give_back, SLOW),
    ("separated", separated, SLOW),
    ("long_literal", long_literal, ANY),
    ("options", options, ANY),
    ("matrix", matrix, SLOW),
    ("many_lines", many_lines, SLOW),
    ("whole_text", whole_text, ANY),
    ("long_line", long_line, ANY),
    ("many_sections", many_sections, SLOW),
    ("long_section", long_section, SLOW),
    ("late_error", late_error, LINEAR),
    ("trailing", trailing, 65537),
    ("long_way_back", long_way_back, 65537),
    ("long_string", long_string, ANY),
    ("collections", collections, SLOW),
    ("conversions", conversions, SLOW),
    ("rule_uses", rule_uses, SLOW),
    ("digits", digits, ANY),
];

/// The kinds and sizes to try: those of the quick tier come first.
fn pairs(kinds: &[&str]) -> (Vec<(&'static Kind, usize)>, usize) {
    let chosen: Vec<&'static Kind> = ALL.iter().filter(|k| kinds.is_empty() || kinds.contains(&k.0)).collect();
    let mut v = vec![];
    for &n in SIZES {
        v.extend(chosen.iter().filter(|k| n <= k.2).map(|k| (*k, n)));
    }
    for &n in LARGER {
        v.extend(chosen.iter().filter(|k| k.2 == LINEAR).map(|k| (*k, n)));
    }
    let quick = v.len();
    for &n in SIZES.iter().chain(LARGER) {
        v.extend(chosen.iter().filter(|k| (n > k.2 && n / 4 <= k.2) || (k.2 == ANY && n > 100001)).map(|k| (*k, n)));
    }
    (v, quick)
}

fn count(kinds: &[&str], tier: Tier) -> usize {
    let (v, quick) = pairs(kinds);
    if tier == Tier::Thorough {
        v.len()
    } else {
        quick
    }
}

fn run(kinds: &[&str], i: usize, case: &mut Case) -> Verdict {
    let ((name, f, _), n) = pairs(kinds).0[i];
    case.show(|| format!("{name}, size {n}"));
    f(n).map_err(|m| format!("{name}, size {n}: {m}"))?;
    nontrivial(n > 0)
}

/// How many cases there are with sizes up to `max`.
pub fn kinds_up_to(max: usize) -> usize {
    pairs(&[]).0.iter().take_while(|(_, n)| *n <= max).count()
}

pub fn kind(i: usize) -> (&'static str, usize, fn(usize) -> Result<(), String>) {
    let ((name, f, _), n) = pairs(&[]).0[i];
    (*name, n, *f)
}

macro_rules! group {
    ($name:ident $count:ident : $($kind:literal)*) => {
        pub fn $count(tier: Tier) -> usize {
            count(&[$($kind),*], tier)
        }
        pub fn $name(i: usize, case: &mut Case) -> Verdict {
            run(&[$($kind),*], i, case)
        }
    };
}

group!(c01 c01_count: "trailing" "long_way_back" "units" "letters" "choices" "give_back" "separated" "matrix" "long_literal" "char_list");
group!(c03 c03_count: "digits" "separated");
group!(c05 c05_count: "letters" "long_literal" "options");
group!(c06 c06_count: "char_lines" "many_lines" "long_line" "matrix");
group!(c07 c07_count: "char_sections" "many_sections" "long_section");
group!(c08 c08_count: "conversions" "char_list");
group!(c10 c10_count: "late_error" "char_lines");
group!(c09 c09_count: "late_error" "trailing" "units" "char_lines" "letters" "separated" "give_back" "matrix" "many_lines" "long_line" "many_sections" "long_section");
group!(c12 c12_count: "rule_uses" "char_list");
group!(c15 c15_count: "collections" "char_collections");
group!(c16 c16_count: "long_string" "long_line");
group!(c22 c22_count: "attempts" "attempts_back");
group!(c18 c18_count: "many_lines" "whole_text");

/// On a thread with the usual small stack. Only panics and crashes count.
pub fn c11_count(tier: Tier) -> usize {
    count(&[], tier)
}
pub fn c11(i: usize, case: &mut Case) -> Verdict {
    let ((name, f, _), n) = pairs(&[]).0[i];
    case.show(|| format!("{name}, size {n}, on a stack of 2 MB"));
    let r = on_thread(2 << 20, move || f(n));
    match r {
        Ok(_) => nontrivial(n > 0),
        Err(_) => Err(format!("{name}, size {n}: panic")),
    }
}

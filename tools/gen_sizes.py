"""Writes harness/src/props/sizes.rs: a rule set of each of many sizes, written out with parser!."""
SIZES = list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 66, 96, 100]
out = ['''//! Rule sets of many sizes. Written by tools/gen_sizes.py.

use super::rules::{boxed, node, Grammar};
use aoc_parse::parser;

macro_rules! sized {
    ( $( $i:literal $r:ident $f:ident $a:ident $b:ident )* ; $entry:ident ) => {{
        $( let $f = |p, q| node($i, p, q); )*
        boxed(parser! {
            $( rule $r: usize = $f($a, $b); )*
            $entry
        })
    }};
}

pub const SIZES: &[usize] = &%s;

/// Rule number `i` of `n` refers to these two.
pub fn next(n: usize, i: usize) -> (usize, usize) {
    ((i + 1) %% n, (i * 7 + 3) %% n)
}

/// The rule to start with.
pub fn start(n: usize) -> usize {
    n / 2
}

pub fn grammar(n: usize) -> Grammar {
    match n {''' % SIZES]
for n in SIZES:
    rows = ' '.join(f'{i} r{i} body{i} r{(i+1)%n} r{(i*7+3)%n}' for i in range(n))
    out.append(f'        {n} => sized!({rows}; r{n//2}),')
out.append('''        _ => unreachable!(),
    }
}
''')
open('/verif/harness/src/props/sizes.rs', 'w').write('\n'.join(out))

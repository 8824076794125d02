//! Rule sets of many sizes. Written by tools/gen_sizes.py.

use super::rules::{boxed, node, Grammar};
use aoc_parse::parser;

macro_rules! sized {
    ( $( $i:literal $r:ident $f:ident $a:ident $b:ident )* ; $entry:ident ) => {{
        $( let $f = |p, q| node($i, p, q); )*
        boxed(parser! {
            $( rule $r: usize = $f($a, $b); )*
            $entry
        })
    }};
}

pub const SIZES: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 47, 48, 49, 63, 64, 65, 66, 96, 100];

/// Rule number `i` of `n` refers to these two.
pub fn next(n: usize, i: usize) -> (usize, usize) {
    ((i + 1) % n, (i * 7 + 3) % n)
}

/// The rule to start with.
pub fn start(n: usize) -> usize {
    n / 2
}

pub fn grammar(n: usize) -> Grammar {
    match n {
        1 => sized!(0 r0 body0 r0 r0; r0),
        2 => sized!(0 r0 body0 r1 r1 1 r1 body1 r0 r0; r1),
        3 => sized!(0 r0 body0 r1 r0 1 r1 body1 r2 r1 2 r2 body2 r0 r2; r1),
        4 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r2 2 r2 body2 r3 r1 3 r3 body3 r0 r0; r2),
        5 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r0 2 r2 body2 r3 r2 3 r3 body3 r4 r4 4 r4 body4 r0 r1; r2),
        6 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r4 2 r2 body2 r3 r5 3 r3 body3 r4 r0 4 r4 body4 r5 r1 5 r5 body5 r0 r2; r3),
        7 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r3 2 r2 body2 r3 r3 3 r3 body3 r4 r3 4 r4 body4 r5 r3 5 r5 body5 r6 r3 6 r6 body6 r0 r3; r3),
        8 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r2 2 r2 body2 r3 r1 3 r3 body3 r4 r0 4 r4 body4 r5 r7 5 r5 body5 r6 r6 6 r6 body6 r7 r5 7 r7 body7 r0 r4; r4),
        9 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r1 2 r2 body2 r3 r8 3 r3 body3 r4 r6 4 r4 body4 r5 r4 5 r5 body5 r6 r2 6 r6 body6 r7 r0 7 r7 body7 r8 r7 8 r8 body8 r0 r5; r4),
        10 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r0 2 r2 body2 r3 r7 3 r3 body3 r4 r4 4 r4 body4 r5 r1 5 r5 body5 r6 r8 6 r6 body6 r7 r5 7 r7 body7 r8 r2 8 r8 body8 r9 r9 9 r9 body9 r0 r6; r5),
        11 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r6 3 r3 body3 r4 r2 4 r4 body4 r5 r9 5 r5 body5 r6 r5 6 r6 body6 r7 r1 7 r7 body7 r8 r8 8 r8 body8 r9 r4 9 r9 body9 r10 r0 10 r10 body10 r0 r7; r5),
        12 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r5 3 r3 body3 r4 r0 4 r4 body4 r5 r7 5 r5 body5 r6 r2 6 r6 body6 r7 r9 7 r7 body7 r8 r4 8 r8 body8 r9 r11 9 r9 body9 r10 r6 10 r10 body10 r11 r1 11 r11 body11 r0 r8; r6),
        13 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r4 3 r3 body3 r4 r11 4 r4 body4 r5 r5 5 r5 body5 r6 r12 6 r6 body6 r7 r6 7 r7 body7 r8 r0 8 r8 body8 r9 r7 9 r9 body9 r10 r1 10 r10 body10 r11 r8 11 r11 body11 r12 r2 12 r12 body12 r0 r9; r6),
        14 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r3 3 r3 body3 r4 r10 4 r4 body4 r5 r3 5 r5 body5 r6 r10 6 r6 body6 r7 r3 7 r7 body7 r8 r10 8 r8 body8 r9 r3 9 r9 body9 r10 r10 10 r10 body10 r11 r3 11 r11 body11 r12 r10 12 r12 body12 r13 r3 13 r13 body13 r0 r10; r7),
        15 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r2 3 r3 body3 r4 r9 4 r4 body4 r5 r1 5 r5 body5 r6 r8 6 r6 body6 r7 r0 7 r7 body7 r8 r7 8 r8 body8 r9 r14 9 r9 body9 r10 r6 10 r10 body10 r11 r13 11 r11 body11 r12 r5 12 r12 body12 r13 r12 13 r13 body13 r14 r4 14 r14 body14 r0 r11; r7),
        16 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r1 3 r3 body3 r4 r8 4 r4 body4 r5 r15 5 r5 body5 r6 r6 6 r6 body6 r7 r13 7 r7 body7 r8 r4 8 r8 body8 r9 r11 9 r9 body9 r10 r2 10 r10 body10 r11 r9 11 r11 body11 r12 r0 12 r12 body12 r13 r7 13 r13 body13 r14 r14 14 r14 body14 r15 r5 15 r15 body15 r0 r12; r8),
        17 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r0 3 r3 body3 r4 r7 4 r4 body4 r5 r14 5 r5 body5 r6 r4 6 r6 body6 r7 r11 7 r7 body7 r8 r1 8 r8 body8 r9 r8 9 r9 body9 r10 r15 10 r10 body10 r11 r5 11 r11 body11 r12 r12 12 r12 body12 r13 r2 13 r13 body13 r14 r9 14 r14 body14 r15 r16 15 r15 body15 r16 r6 16 r16 body16 r0 r13; r8),
        18 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r6 4 r4 body4 r5 r13 5 r5 body5 r6 r2 6 r6 body6 r7 r9 7 r7 body7 r8 r16 8 r8 body8 r9 r5 9 r9 body9 r10 r12 10 r10 body10 r11 r1 11 r11 body11 r12 r8 12 r12 body12 r13 r15 13 r13 body13 r14 r4 14 r14 body14 r15 r11 15 r15 body15 r16 r0 16 r16 body16 r17 r7 17 r17 body17 r0 r14; r9),
        19 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r5 4 r4 body4 r5 r12 5 r5 body5 r6 r0 6 r6 body6 r7 r7 7 r7 body7 r8 r14 8 r8 body8 r9 r2 9 r9 body9 r10 r9 10 r10 body10 r11 r16 11 r11 body11 r12 r4 12 r12 body12 r13 r11 13 r13 body13 r14 r18 14 r14 body14 r15 r6 15 r15 body15 r16 r13 16 r16 body16 r17 r1 17 r17 body17 r18 r8 18 r18 body18 r0 r15; r9),
        20 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r4 4 r4 body4 r5 r11 5 r5 body5 r6 r18 6 r6 body6 r7 r5 7 r7 body7 r8 r12 8 r8 body8 r9 r19 9 r9 body9 r10 r6 10 r10 body10 r11 r13 11 r11 body11 r12 r0 12 r12 body12 r13 r7 13 r13 body13 r14 r14 14 r14 body14 r15 r1 15 r15 body15 r16 r8 16 r16 body16 r17 r15 17 r17 body17 r18 r2 18 r18 body18 r19 r9 19 r19 body19 r0 r16; r10),
        21 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r3 4 r4 body4 r5 r10 5 r5 body5 r6 r17 6 r6 body6 r7 r3 7 r7 body7 r8 r10 8 r8 body8 r9 r17 9 r9 body9 r10 r3 10 r10 body10 r11 r10 11 r11 body11 r12 r17 12 r12 body12 r13 r3 13 r13 body13 r14 r10 14 r14 body14 r15 r17 15 r15 body15 r16 r3 16 r16 body16 r17 r10 17 r17 body17 r18 r17 18 r18 body18 r19 r3 19 r19 body19 r20 r10 20 r20 body20 r0 r17; r10),
        22 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r2 4 r4 body4 r5 r9 5 r5 body5 r6 r16 6 r6 body6 r7 r1 7 r7 body7 r8 r8 8 r8 body8 r9 r15 9 r9 body9 r10 r0 10 r10 body10 r11 r7 11 r11 body11 r12 r14 12 r12 body12 r13 r21 13 r13 body13 r14 r6 14 r14 body14 r15 r13 15 r15 body15 r16 r20 16 r16 body16 r17 r5 17 r17 body17 r18 r12 18 r18 body18 r19 r19 19 r19 body19 r20 r4 20 r20 body20 r21 r11 21 r21 body21 r0 r18; r11),
        23 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r1 4 r4 body4 r5 r8 5 r5 body5 r6 r15 6 r6 body6 r7 r22 7 r7 body7 r8 r6 8 r8 body8 r9 r13 9 r9 body9 r10 r20 10 r10 body10 r11 r4 11 r11 body11 r12 r11 12 r12 body12 r13 r18 13 r13 body13 r14 r2 14 r14 body14 r15 r9 15 r15 body15 r16 r16 16 r16 body16 r17 r0 17 r17 body17 r18 r7 18 r18 body18 r19 r14 19 r19 body19 r20 r21 20 r20 body20 r21 r5 21 r21 body21 r22 r12 22 r22 body22 r0 r19; r11),
        24 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r0 4 r4 body4 r5 r7 5 r5 body5 r6 r14 6 r6 body6 r7 r21 7 r7 body7 r8 r4 8 r8 body8 r9 r11 9 r9 body9 r10 r18 10 r10 body10 r11 r1 11 r11 body11 r12 r8 12 r12 body12 r13 r15 13 r13 body13 r14 r22 14 r14 body14 r15 r5 15 r15 body15 r16 r12 16 r16 body16 r17 r19 17 r17 body17 r18 r2 18 r18 body18 r19 r9 19 r19 body19 r20 r16 20 r20 body20 r21 r23 21 r21 body21 r22 r6 22 r22 body22 r23 r13 23 r23 body23 r0 r20; r12),
        25 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r6 5 r5 body5 r6 r13 6 r6 body6 r7 r20 7 r7 body7 r8 r2 8 r8 body8 r9 r9 9 r9 body9 r10 r16 10 r10 body10 r11 r23 11 r11 body11 r12 r5 12 r12 body12 r13 r12 13 r13 body13 r14 r19 14 r14 body14 r15 r1 15 r15 body15 r16 r8 16 r16 body16 r17 r15 17 r17 body17 r18 r22 18 r18 body18 r19 r4 19 r19 body19 r20 r11 20 r20 body20 r21 r18 21 r21 body21 r22 r0 22 r22 body22 r23 r7 23 r23 body23 r24 r14 24 r24 body24 r0 r21; r12),
        26 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r5 5 r5 body5 r6 r12 6 r6 body6 r7 r19 7 r7 body7 r8 r0 8 r8 body8 r9 r7 9 r9 body9 r10 r14 10 r10 body10 r11 r21 11 r11 body11 r12 r2 12 r12 body12 r13 r9 13 r13 body13 r14 r16 14 r14 body14 r15 r23 15 r15 body15 r16 r4 16 r16 body16 r17 r11 17 r17 body17 r18 r18 18 r18 body18 r19 r25 19 r19 body19 r20 r6 20 r20 body20 r21 r13 21 r21 body21 r22 r20 22 r22 body22 r23 r1 23 r23 body23 r24 r8 24 r24 body24 r25 r15 25 r25 body25 r0 r22; r13),
        27 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r4 5 r5 body5 r6 r11 6 r6 body6 r7 r18 7 r7 body7 r8 r25 8 r8 body8 r9 r5 9 r9 body9 r10 r12 10 r10 body10 r11 r19 11 r11 body11 r12 r26 12 r12 body12 r13 r6 13 r13 body13 r14 r13 14 r14 body14 r15 r20 15 r15 body15 r16 r0 16 r16 body16 r17 r7 17 r17 body17 r18 r14 18 r18 body18 r19 r21 19 r19 body19 r20 r1 20 r20 body20 r21 r8 21 r21 body21 r22 r15 22 r22 body22 r23 r22 23 r23 body23 r24 r2 24 r24 body24 r25 r9 25 r25 body25 r26 r16 26 r26 body26 r0 r23; r13),
        28 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r3 5 r5 body5 r6 r10 6 r6 body6 r7 r17 7 r7 body7 r8 r24 8 r8 body8 r9 r3 9 r9 body9 r10 r10 10 r10 body10 r11 r17 11 r11 body11 r12 r24 12 r12 body12 r13 r3 13 r13 body13 r14 r10 14 r14 body14 r15 r17 15 r15 body15 r16 r24 16 r16 body16 r17 r3 17 r17 body17 r18 r10 18 r18 body18 r19 r17 19 r19 body19 r20 r24 20 r20 body20 r21 r3 21 r21 body21 r22 r10 22 r22 body22 r23 r17 23 r23 body23 r24 r24 24 r24 body24 r25 r3 25 r25 body25 r26 r10 26 r26 body26 r27 r17 27 r27 body27 r0 r24; r14),
        29 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r2 5 r5 body5 r6 r9 6 r6 body6 r7 r16 7 r7 body7 r8 r23 8 r8 body8 r9 r1 9 r9 body9 r10 r8 10 r10 body10 r11 r15 11 r11 body11 r12 r22 12 r12 body12 r13 r0 13 r13 body13 r14 r7 14 r14 body14 r15 r14 15 r15 body15 r16 r21 16 r16 body16 r17 r28 17 r17 body17 r18 r6 18 r18 body18 r19 r13 19 r19 body19 r20 r20 20 r20 body20 r21 r27 21 r21 body21 r22 r5 22 r22 body22 r23 r12 23 r23 body23 r24 r19 24 r24 body24 r25 r26 25 r25 body25 r26 r4 26 r26 body26 r27 r11 27 r27 body27 r28 r18 28 r28 body28 r0 r25; r14),
        30 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r1 5 r5 body5 r6 r8 6 r6 body6 r7 r15 7 r7 body7 r8 r22 8 r8 body8 r9 r29 9 r9 body9 r10 r6 10 r10 body10 r11 r13 11 r11 body11 r12 r20 12 r12 body12 r13 r27 13 r13 body13 r14 r4 14 r14 body14 r15 r11 15 r15 body15 r16 r18 16 r16 body16 r17 r25 17 r17 body17 r18 r2 18 r18 body18 r19 r9 19 r19 body19 r20 r16 20 r20 body20 r21 r23 21 r21 body21 r22 r0 22 r22 body22 r23 r7 23 r23 body23 r24 r14 24 r24 body24 r25 r21 25 r25 body25 r26 r28 26 r26 body26 r27 r5 27 r27 body27 r28 r12 28 r28 body28 r29 r19 29 r29 body29 r0 r26; r15),
        31 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r0 5 r5 body5 r6 r7 6 r6 body6 r7 r14 7 r7 body7 r8 r21 8 r8 body8 r9 r28 9 r9 body9 r10 r4 10 r10 body10 r11 r11 11 r11 body11 r12 r18 12 r12 body12 r13 r25 13 r13 body13 r14 r1 14 r14 body14 r15 r8 15 r15 body15 r16 r15 16 r16 body16 r17 r22 17 r17 body17 r18 r29 18 r18 body18 r19 r5 19 r19 body19 r20 r12 20 r20 body20 r21 r19 21 r21 body21 r22 r26 22 r22 body22 r23 r2 23 r23 body23 r24 r9 24 r24 body24 r25 r16 25 r25 body25 r26 r23 26 r26 body26 r27 r30 27 r27 body27 r28 r6 28 r28 body28 r29 r13 29 r29 body29 r30 r20 30 r30 body30 r0 r27; r15),
        32 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r6 6 r6 body6 r7 r13 7 r7 body7 r8 r20 8 r8 body8 r9 r27 9 r9 body9 r10 r2 10 r10 body10 r11 r9 11 r11 body11 r12 r16 12 r12 body12 r13 r23 13 r13 body13 r14 r30 14 r14 body14 r15 r5 15 r15 body15 r16 r12 16 r16 body16 r17 r19 17 r17 body17 r18 r26 18 r18 body18 r19 r1 19 r19 body19 r20 r8 20 r20 body20 r21 r15 21 r21 body21 r22 r22 22 r22 body22 r23 r29 23 r23 body23 r24 r4 24 r24 body24 r25 r11 25 r25 body25 r26 r18 26 r26 body26 r27 r25 27 r27 body27 r28 r0 28 r28 body28 r29 r7 29 r29 body29 r30 r14 30 r30 body30 r31 r21 31 r31 body31 r0 r28; r16),
        33 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r5 6 r6 body6 r7 r12 7 r7 body7 r8 r19 8 r8 body8 r9 r26 9 r9 body9 r10 r0 10 r10 body10 r11 r7 11 r11 body11 r12 r14 12 r12 body12 r13 r21 13 r13 body13 r14 r28 14 r14 body14 r15 r2 15 r15 body15 r16 r9 16 r16 body16 r17 r16 17 r17 body17 r18 r23 18 r18 body18 r19 r30 19 r19 body19 r20 r4 20 r20 body20 r21 r11 21 r21 body21 r22 r18 22 r22 body22 r23 r25 23 r23 body23 r24 r32 24 r24 body24 r25 r6 25 r25 body25 r26 r13 26 r26 body26 r27 r20 27 r27 body27 r28 r27 28 r28 body28 r29 r1 29 r29 body29 r30 r8 30 r30 body30 r31 r15 31 r31 body31 r32 r22 32 r32 body32 r0 r29; r16),
        34 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r4 6 r6 body6 r7 r11 7 r7 body7 r8 r18 8 r8 body8 r9 r25 9 r9 body9 r10 r32 10 r10 body10 r11 r5 11 r11 body11 r12 r12 12 r12 body12 r13 r19 13 r13 body13 r14 r26 14 r14 body14 r15 r33 15 r15 body15 r16 r6 16 r16 body16 r17 r13 17 r17 body17 r18 r20 18 r18 body18 r19 r27 19 r19 body19 r20 r0 20 r20 body20 r21 r7 21 r21 body21 r22 r14 22 r22 body22 r23 r21 23 r23 body23 r24 r28 24 r24 body24 r25 r1 25 r25 body25 r26 r8 26 r26 body26 r27 r15 27 r27 body27 r28 r22 28 r28 body28 r29 r29 29 r29 body29 r30 r2 30 r30 body30 r31 r9 31 r31 body31 r32 r16 32 r32 body32 r33 r23 33 r33 body33 r0 r30; r17),
        35 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r3 6 r6 body6 r7 r10 7 r7 body7 r8 r17 8 r8 body8 r9 r24 9 r9 body9 r10 r31 10 r10 body10 r11 r3 11 r11 body11 r12 r10 12 r12 body12 r13 r17 13 r13 body13 r14 r24 14 r14 body14 r15 r31 15 r15 body15 r16 r3 16 r16 body16 r17 r10 17 r17 body17 r18 r17 18 r18 body18 r19 r24 19 r19 body19 r20 r31 20 r20 body20 r21 r3 21 r21 body21 r22 r10 22 r22 body22 r23 r17 23 r23 body23 r24 r24 24 r24 body24 r25 r31 25 r25 body25 r26 r3 26 r26 body26 r27 r10 27 r27 body27 r28 r17 28 r28 body28 r29 r24 29 r29 body29 r30 r31 30 r30 body30 r31 r3 31 r31 body31 r32 r10 32 r32 body32 r33 r17 33 r33 body33 r34 r24 34 r34 body34 r0 r31; r17),
        36 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r2 6 r6 body6 r7 r9 7 r7 body7 r8 r16 8 r8 body8 r9 r23 9 r9 body9 r10 r30 10 r10 body10 r11 r1 11 r11 body11 r12 r8 12 r12 body12 r13 r15 13 r13 body13 r14 r22 14 r14 body14 r15 r29 15 r15 body15 r16 r0 16 r16 body16 r17 r7 17 r17 body17 r18 r14 18 r18 body18 r19 r21 19 r19 body19 r20 r28 20 r20 body20 r21 r35 21 r21 body21 r22 r6 22 r22 body22 r23 r13 23 r23 body23 r24 r20 24 r24 body24 r25 r27 25 r25 body25 r26 r34 26 r26 body26 r27 r5 27 r27 body27 r28 r12 28 r28 body28 r29 r19 29 r29 body29 r30 r26 30 r30 body30 r31 r33 31 r31 body31 r32 r4 32 r32 body32 r33 r11 33 r33 body33 r34 r18 34 r34 body34 r35 r25 35 r35 body35 r0 r32; r18),
        37 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r1 6 r6 body6 r7 r8 7 r7 body7 r8 r15 8 r8 body8 r9 r22 9 r9 body9 r10 r29 10 r10 body10 r11 r36 11 r11 body11 r12 r6 12 r12 body12 r13 r13 13 r13 body13 r14 r20 14 r14 body14 r15 r27 15 r15 body15 r16 r34 16 r16 body16 r17 r4 17 r17 body17 r18 r11 18 r18 body18 r19 r18 19 r19 body19 r20 r25 20 r20 body20 r21 r32 21 r21 body21 r22 r2 22 r22 body22 r23 r9 23 r23 body23 r24 r16 24 r24 body24 r25 r23 25 r25 body25 r26 r30 26 r26 body26 r27 r0 27 r27 body27 r28 r7 28 r28 body28 r29 r14 29 r29 body29 r30 r21 30 r30 body30 r31 r28 31 r31 body31 r32 r35 32 r32 body32 r33 r5 33 r33 body33 r34 r12 34 r34 body34 r35 r19 35 r35 body35 r36 r26 36 r36 body36 r0 r33; r18),
        38 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r0 6 r6 body6 r7 r7 7 r7 body7 r8 r14 8 r8 body8 r9 r21 9 r9 body9 r10 r28 10 r10 body10 r11 r35 11 r11 body11 r12 r4 12 r12 body12 r13 r11 13 r13 body13 r14 r18 14 r14 body14 r15 r25 15 r15 body15 r16 r32 16 r16 body16 r17 r1 17 r17 body17 r18 r8 18 r18 body18 r19 r15 19 r19 body19 r20 r22 20 r20 body20 r21 r29 21 r21 body21 r22 r36 22 r22 body22 r23 r5 23 r23 body23 r24 r12 24 r24 body24 r25 r19 25 r25 body25 r26 r26 26 r26 body26 r27 r33 27 r27 body27 r28 r2 28 r28 body28 r29 r9 29 r29 body29 r30 r16 30 r30 body30 r31 r23 31 r31 body31 r32 r30 32 r32 body32 r33 r37 33 r33 body33 r34 r6 34 r34 body34 r35 r13 35 r35 body35 r36 r20 36 r36 body36 r37 r27 37 r37 body37 r0 r34; r19),
        39 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r6 7 r7 body7 r8 r13 8 r8 body8 r9 r20 9 r9 body9 r10 r27 10 r10 body10 r11 r34 11 r11 body11 r12 r2 12 r12 body12 r13 r9 13 r13 body13 r14 r16 14 r14 body14 r15 r23 15 r15 body15 r16 r30 16 r16 body16 r17 r37 17 r17 body17 r18 r5 18 r18 body18 r19 r12 19 r19 body19 r20 r19 20 r20 body20 r21 r26 21 r21 body21 r22 r33 22 r22 body22 r23 r1 23 r23 body23 r24 r8 24 r24 body24 r25 r15 25 r25 body25 r26 r22 26 r26 body26 r27 r29 27 r27 body27 r28 r36 28 r28 body28 r29 r4 29 r29 body29 r30 r11 30 r30 body30 r31 r18 31 r31 body31 r32 r25 32 r32 body32 r33 r32 33 r33 body33 r34 r0 34 r34 body34 r35 r7 35 r35 body35 r36 r14 36 r36 body36 r37 r21 37 r37 body37 r38 r28 38 r38 body38 r0 r35; r19),
        40 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r5 7 r7 body7 r8 r12 8 r8 body8 r9 r19 9 r9 body9 r10 r26 10 r10 body10 r11 r33 11 r11 body11 r12 r0 12 r12 body12 r13 r7 13 r13 body13 r14 r14 14 r14 body14 r15 r21 15 r15 body15 r16 r28 16 r16 body16 r17 r35 17 r17 body17 r18 r2 18 r18 body18 r19 r9 19 r19 body19 r20 r16 20 r20 body20 r21 r23 21 r21 body21 r22 r30 22 r22 body22 r23 r37 23 r23 body23 r24 r4 24 r24 body24 r25 r11 25 r25 body25 r26 r18 26 r26 body26 r27 r25 27 r27 body27 r28 r32 28 r28 body28 r29 r39 29 r29 body29 r30 r6 30 r30 body30 r31 r13 31 r31 body31 r32 r20 32 r32 body32 r33 r27 33 r33 body33 r34 r34 34 r34 body34 r35 r1 35 r35 body35 r36 r8 36 r36 body36 r37 r15 37 r37 body37 r38 r22 38 r38 body38 r39 r29 39 r39 body39 r0 r36; r20),
        47 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r5 8 r8 body8 r9 r12 9 r9 body9 r10 r19 10 r10 body10 r11 r26 11 r11 body11 r12 r33 12 r12 body12 r13 r40 13 r13 body13 r14 r0 14 r14 body14 r15 r7 15 r15 body15 r16 r14 16 r16 body16 r17 r21 17 r17 body17 r18 r28 18 r18 body18 r19 r35 19 r19 body19 r20 r42 20 r20 body20 r21 r2 21 r21 body21 r22 r9 22 r22 body22 r23 r16 23 r23 body23 r24 r23 24 r24 body24 r25 r30 25 r25 body25 r26 r37 26 r26 body26 r27 r44 27 r27 body27 r28 r4 28 r28 body28 r29 r11 29 r29 body29 r30 r18 30 r30 body30 r31 r25 31 r31 body31 r32 r32 32 r32 body32 r33 r39 33 r33 body33 r34 r46 34 r34 body34 r35 r6 35 r35 body35 r36 r13 36 r36 body36 r37 r20 37 r37 body37 r38 r27 38 r38 body38 r39 r34 39 r39 body39 r40 r41 40 r40 body40 r41 r1 41 r41 body41 r42 r8 42 r42 body42 r43 r15 43 r43 body43 r44 r22 44 r44 body44 r45 r29 45 r45 body45 r46 r36 46 r46 body46 r0 r43; r23),
        48 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r4 8 r8 body8 r9 r11 9 r9 body9 r10 r18 10 r10 body10 r11 r25 11 r11 body11 r12 r32 12 r12 body12 r13 r39 13 r13 body13 r14 r46 14 r14 body14 r15 r5 15 r15 body15 r16 r12 16 r16 body16 r17 r19 17 r17 body17 r18 r26 18 r18 body18 r19 r33 19 r19 body19 r20 r40 20 r20 body20 r21 r47 21 r21 body21 r22 r6 22 r22 body22 r23 r13 23 r23 body23 r24 r20 24 r24 body24 r25 r27 25 r25 body25 r26 r34 26 r26 body26 r27 r41 27 r27 body27 r28 r0 28 r28 body28 r29 r7 29 r29 body29 r30 r14 30 r30 body30 r31 r21 31 r31 body31 r32 r28 32 r32 body32 r33 r35 33 r33 body33 r34 r42 34 r34 body34 r35 r1 35 r35 body35 r36 r8 36 r36 body36 r37 r15 37 r37 body37 r38 r22 38 r38 body38 r39 r29 39 r39 body39 r40 r36 40 r40 body40 r41 r43 41 r41 body41 r42 r2 42 r42 body42 r43 r9 43 r43 body43 r44 r16 44 r44 body44 r45 r23 45 r45 body45 r46 r30 46 r46 body46 r47 r37 47 r47 body47 r0 r44; r24),
        49 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r3 8 r8 body8 r9 r10 9 r9 body9 r10 r17 10 r10 body10 r11 r24 11 r11 body11 r12 r31 12 r12 body12 r13 r38 13 r13 body13 r14 r45 14 r14 body14 r15 r3 15 r15 body15 r16 r10 16 r16 body16 r17 r17 17 r17 body17 r18 r24 18 r18 body18 r19 r31 19 r19 body19 r20 r38 20 r20 body20 r21 r45 21 r21 body21 r22 r3 22 r22 body22 r23 r10 23 r23 body23 r24 r17 24 r24 body24 r25 r24 25 r25 body25 r26 r31 26 r26 body26 r27 r38 27 r27 body27 r28 r45 28 r28 body28 r29 r3 29 r29 body29 r30 r10 30 r30 body30 r31 r17 31 r31 body31 r32 r24 32 r32 body32 r33 r31 33 r33 body33 r34 r38 34 r34 body34 r35 r45 35 r35 body35 r36 r3 36 r36 body36 r37 r10 37 r37 body37 r38 r17 38 r38 body38 r39 r24 39 r39 body39 r40 r31 40 r40 body40 r41 r38 41 r41 body41 r42 r45 42 r42 body42 r43 r3 43 r43 body43 r44 r10 44 r44 body44 r45 r17 45 r45 body45 r46 r24 46 r46 body46 r47 r31 47 r47 body47 r48 r38 48 r48 body48 r0 r45; r24),
        63 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r52 8 r8 body8 r9 r59 9 r9 body9 r10 r3 10 r10 body10 r11 r10 11 r11 body11 r12 r17 12 r12 body12 r13 r24 13 r13 body13 r14 r31 14 r14 body14 r15 r38 15 r15 body15 r16 r45 16 r16 body16 r17 r52 17 r17 body17 r18 r59 18 r18 body18 r19 r3 19 r19 body19 r20 r10 20 r20 body20 r21 r17 21 r21 body21 r22 r24 22 r22 body22 r23 r31 23 r23 body23 r24 r38 24 r24 body24 r25 r45 25 r25 body25 r26 r52 26 r26 body26 r27 r59 27 r27 body27 r28 r3 28 r28 body28 r29 r10 29 r29 body29 r30 r17 30 r30 body30 r31 r24 31 r31 body31 r32 r31 32 r32 body32 r33 r38 33 r33 body33 r34 r45 34 r34 body34 r35 r52 35 r35 body35 r36 r59 36 r36 body36 r37 r3 37 r37 body37 r38 r10 38 r38 body38 r39 r17 39 r39 body39 r40 r24 40 r40 body40 r41 r31 41 r41 body41 r42 r38 42 r42 body42 r43 r45 43 r43 body43 r44 r52 44 r44 body44 r45 r59 45 r45 body45 r46 r3 46 r46 body46 r47 r10 47 r47 body47 r48 r17 48 r48 body48 r49 r24 49 r49 body49 r50 r31 50 r50 body50 r51 r38 51 r51 body51 r52 r45 52 r52 body52 r53 r52 53 r53 body53 r54 r59 54 r54 body54 r55 r3 55 r55 body55 r56 r10 56 r56 body56 r57 r17 57 r57 body57 r58 r24 58 r58 body58 r59 r31 59 r59 body59 r60 r38 60 r60 body60 r61 r45 61 r61 body61 r62 r52 62 r62 body62 r0 r59; r31),
        64 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r52 8 r8 body8 r9 r59 9 r9 body9 r10 r2 10 r10 body10 r11 r9 11 r11 body11 r12 r16 12 r12 body12 r13 r23 13 r13 body13 r14 r30 14 r14 body14 r15 r37 15 r15 body15 r16 r44 16 r16 body16 r17 r51 17 r17 body17 r18 r58 18 r18 body18 r19 r1 19 r19 body19 r20 r8 20 r20 body20 r21 r15 21 r21 body21 r22 r22 22 r22 body22 r23 r29 23 r23 body23 r24 r36 24 r24 body24 r25 r43 25 r25 body25 r26 r50 26 r26 body26 r27 r57 27 r27 body27 r28 r0 28 r28 body28 r29 r7 29 r29 body29 r30 r14 30 r30 body30 r31 r21 31 r31 body31 r32 r28 32 r32 body32 r33 r35 33 r33 body33 r34 r42 34 r34 body34 r35 r49 35 r35 body35 r36 r56 36 r36 body36 r37 r63 37 r37 body37 r38 r6 38 r38 body38 r39 r13 39 r39 body39 r40 r20 40 r40 body40 r41 r27 41 r41 body41 r42 r34 42 r42 body42 r43 r41 43 r43 body43 r44 r48 44 r44 body44 r45 r55 45 r45 body45 r46 r62 46 r46 body46 r47 r5 47 r47 body47 r48 r12 48 r48 body48 r49 r19 49 r49 body49 r50 r26 50 r50 body50 r51 r33 51 r51 body51 r52 r40 52 r52 body52 r53 r47 53 r53 body53 r54 r54 54 r54 body54 r55 r61 55 r55 body55 r56 r4 56 r56 body56 r57 r11 57 r57 body57 r58 r18 58 r58 body58 r59 r25 59 r59 body59 r60 r32 60 r60 body60 r61 r39 61 r61 body61 r62 r46 62 r62 body62 r63 r53 63 r63 body63 r0 r60; r32),
        65 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r52 8 r8 body8 r9 r59 9 r9 body9 r10 r1 10 r10 body10 r11 r8 11 r11 body11 r12 r15 12 r12 body12 r13 r22 13 r13 body13 r14 r29 14 r14 body14 r15 r36 15 r15 body15 r16 r43 16 r16 body16 r17 r50 17 r17 body17 r18 r57 18 r18 body18 r19 r64 19 r19 body19 r20 r6 20 r20 body20 r21 r13 21 r21 body21 r22 r20 22 r22 body22 r23 r27 23 r23 body23 r24 r34 24 r24 body24 r25 r41 25 r25 body25 r26 r48 26 r26 body26 r27 r55 27 r27 body27 r28 r62 28 r28 body28 r29 r4 29 r29 body29 r30 r11 30 r30 body30 r31 r18 31 r31 body31 r32 r25 32 r32 body32 r33 r32 33 r33 body33 r34 r39 34 r34 body34 r35 r46 35 r35 body35 r36 r53 36 r36 body36 r37 r60 37 r37 body37 r38 r2 38 r38 body38 r39 r9 39 r39 body39 r40 r16 40 r40 body40 r41 r23 41 r41 body41 r42 r30 42 r42 body42 r43 r37 43 r43 body43 r44 r44 44 r44 body44 r45 r51 45 r45 body45 r46 r58 46 r46 body46 r47 r0 47 r47 body47 r48 r7 48 r48 body48 r49 r14 49 r49 body49 r50 r21 50 r50 body50 r51 r28 51 r51 body51 r52 r35 52 r52 body52 r53 r42 53 r53 body53 r54 r49 54 r54 body54 r55 r56 55 r55 body55 r56 r63 56 r56 body56 r57 r5 57 r57 body57 r58 r12 58 r58 body58 r59 r19 59 r59 body59 r60 r26 60 r60 body60 r61 r33 61 r61 body61 r62 r40 62 r62 body62 r63 r47 63 r63 body63 r64 r54 64 r64 body64 r0 r61; r32),
        66 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r52 8 r8 body8 r9 r59 9 r9 body9 r10 r0 10 r10 body10 r11 r7 11 r11 body11 r12 r14 12 r12 body12 r13 r21 13 r13 body13 r14 r28 14 r14 body14 r15 r35 15 r15 body15 r16 r42 16 r16 body16 r17 r49 17 r17 body17 r18 r56 18 r18 body18 r19 r63 19 r19 body19 r20 r4 20 r20 body20 r21 r11 21 r21 body21 r22 r18 22 r22 body22 r23 r25 23 r23 body23 r24 r32 24 r24 body24 r25 r39 25 r25 body25 r26 r46 26 r26 body26 r27 r53 27 r27 body27 r28 r60 28 r28 body28 r29 r1 29 r29 body29 r30 r8 30 r30 body30 r31 r15 31 r31 body31 r32 r22 32 r32 body32 r33 r29 33 r33 body33 r34 r36 34 r34 body34 r35 r43 35 r35 body35 r36 r50 36 r36 body36 r37 r57 37 r37 body37 r38 r64 38 r38 body38 r39 r5 39 r39 body39 r40 r12 40 r40 body40 r41 r19 41 r41 body41 r42 r26 42 r42 body42 r43 r33 43 r43 body43 r44 r40 44 r44 body44 r45 r47 45 r45 body45 r46 r54 46 r46 body46 r47 r61 47 r47 body47 r48 r2 48 r48 body48 r49 r9 49 r49 body49 r50 r16 50 r50 body50 r51 r23 51 r51 body51 r52 r30 52 r52 body52 r53 r37 53 r53 body53 r54 r44 54 r54 body54 r55 r51 55 r55 body55 r56 r58 56 r56 body56 r57 r65 57 r57 body57 r58 r6 58 r58 body58 r59 r13 59 r59 body59 r60 r20 60 r60 body60 r61 r27 61 r61 body61 r62 r34 62 r62 body62 r63 r41 63 r63 body63 r64 r48 64 r64 body64 r65 r55 65 r65 body65 r0 r62; r33),
        96 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r52 8 r8 body8 r9 r59 9 r9 body9 r10 r66 10 r10 body10 r11 r73 11 r11 body11 r12 r80 12 r12 body12 r13 r87 13 r13 body13 r14 r94 14 r14 body14 r15 r5 15 r15 body15 r16 r12 16 r16 body16 r17 r19 17 r17 body17 r18 r26 18 r18 body18 r19 r33 19 r19 body19 r20 r40 20 r20 body20 r21 r47 21 r21 body21 r22 r54 22 r22 body22 r23 r61 23 r23 body23 r24 r68 24 r24 body24 r25 r75 25 r25 body25 r26 r82 26 r26 body26 r27 r89 27 r27 body27 r28 r0 28 r28 body28 r29 r7 29 r29 body29 r30 r14 30 r30 body30 r31 r21 31 r31 body31 r32 r28 32 r32 body32 r33 r35 33 r33 body33 r34 r42 34 r34 body34 r35 r49 35 r35 body35 r36 r56 36 r36 body36 r37 r63 37 r37 body37 r38 r70 38 r38 body38 r39 r77 39 r39 body39 r40 r84 40 r40 body40 r41 r91 41 r41 body41 r42 r2 42 r42 body42 r43 r9 43 r43 body43 r44 r16 44 r44 body44 r45 r23 45 r45 body45 r46 r30 46 r46 body46 r47 r37 47 r47 body47 r48 r44 48 r48 body48 r49 r51 49 r49 body49 r50 r58 50 r50 body50 r51 r65 51 r51 body51 r52 r72 52 r52 body52 r53 r79 53 r53 body53 r54 r86 54 r54 body54 r55 r93 55 r55 body55 r56 r4 56 r56 body56 r57 r11 57 r57 body57 r58 r18 58 r58 body58 r59 r25 59 r59 body59 r60 r32 60 r60 body60 r61 r39 61 r61 body61 r62 r46 62 r62 body62 r63 r53 63 r63 body63 r64 r60 64 r64 body64 r65 r67 65 r65 body65 r66 r74 66 r66 body66 r67 r81 67 r67 body67 r68 r88 68 r68 body68 r69 r95 69 r69 body69 r70 r6 70 r70 body70 r71 r13 71 r71 body71 r72 r20 72 r72 body72 r73 r27 73 r73 body73 r74 r34 74 r74 body74 r75 r41 75 r75 body75 r76 r48 76 r76 body76 r77 r55 77 r77 body77 r78 r62 78 r78 body78 r79 r69 79 r79 body79 r80 r76 80 r80 body80 r81 r83 81 r81 body81 r82 r90 82 r82 body82 r83 r1 83 r83 body83 r84 r8 84 r84 body84 r85 r15 85 r85 body85 r86 r22 86 r86 body86 r87 r29 87 r87 body87 r88 r36 88 r88 body88 r89 r43 89 r89 body89 r90 r50 90 r90 body90 r91 r57 91 r91 body91 r92 r64 92 r92 body92 r93 r71 93 r93 body93 r94 r78 94 r94 body94 r95 r85 95 r95 body95 r0 r92; r48),
        100 => sized!(0 r0 body0 r1 r3 1 r1 body1 r2 r10 2 r2 body2 r3 r17 3 r3 body3 r4 r24 4 r4 body4 r5 r31 5 r5 body5 r6 r38 6 r6 body6 r7 r45 7 r7 body7 r8 r52 8 r8 body8 r9 r59 9 r9 body9 r10 r66 10 r10 body10 r11 r73 11 r11 body11 r12 r80 12 r12 body12 r13 r87 13 r13 body13 r14 r94 14 r14 body14 r15 r1 15 r15 body15 r16 r8 16 r16 body16 r17 r15 17 r17 body17 r18 r22 18 r18 body18 r19 r29 19 r19 body19 r20 r36 20 r20 body20 r21 r43 21 r21 body21 r22 r50 22 r22 body22 r23 r57 23 r23 body23 r24 r64 24 r24 body24 r25 r71 25 r25 body25 r26 r78 26 r26 body26 r27 r85 27 r27 body27 r28 r92 28 r28 body28 r29 r99 29 r29 body29 r30 r6 30 r30 body30 r31 r13 31 r31 body31 r32 r20 32 r32 body32 r33 r27 33 r33 body33 r34 r34 34 r34 body34 r35 r41 35 r35 body35 r36 r48 36 r36 body36 r37 r55 37 r37 body37 r38 r62 38 r38 body38 r39 r69 39 r39 body39 r40 r76 40 r40 body40 r41 r83 41 r41 body41 r42 r90 42 r42 body42 r43 r97 43 r43 body43 r44 r4 44 r44 body44 r45 r11 45 r45 body45 r46 r18 46 r46 body46 r47 r25 47 r47 body47 r48 r32 48 r48 body48 r49 r39 49 r49 body49 r50 r46 50 r50 body50 r51 r53 51 r51 body51 r52 r60 52 r52 body52 r53 r67 53 r53 body53 r54 r74 54 r54 body54 r55 r81 55 r55 body55 r56 r88 56 r56 body56 r57 r95 57 r57 body57 r58 r2 58 r58 body58 r59 r9 59 r59 body59 r60 r16 60 r60 body60 r61 r23 61 r61 body61 r62 r30 62 r62 body62 r63 r37 63 r63 body63 r64 r44 64 r64 body64 r65 r51 65 r65 body65 r66 r58 66 r66 body66 r67 r65 67 r67 body67 r68 r72 68 r68 body68 r69 r79 69 r69 body69 r70 r86 70 r70 body70 r71 r93 71 r71 body71 r72 r0 72 r72 body72 r73 r7 73 r73 body73 r74 r14 74 r74 body74 r75 r21 75 r75 body75 r76 r28 76 r76 body76 r77 r35 77 r77 body77 r78 r42 78 r78 body78 r79 r49 79 r79 body79 r80 r56 80 r80 body80 r81 r63 81 r81 body81 r82 r70 82 r82 body82 r83 r77 83 r83 body83 r84 r84 84 r84 body84 r85 r91 85 r85 body85 r86 r98 86 r86 body86 r87 r5 87 r87 body87 r88 r12 88 r88 body88 r89 r19 89 r89 body89 r90 r26 90 r90 body90 r91 r33 91 r91 body91 r92 r40 92 r92 body92 r93 r47 93 r93 body93 r94 r54 94 r94 body94 r95 r61 95 r95 body95 r96 r68 96 r96 body96 r97 r75 97 r97 body97 r98 r82 98 r98 body98 r99 r89 99 r99 body99 r0 r96; r50),
        _ => unreachable!(),
    }
}

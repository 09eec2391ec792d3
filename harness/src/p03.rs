//! P03: bitwise operators are two's-complement 64-bit operators.
use crate::ints::*;
use crate::mock::{run, Out};
use crate::{ck, contracts};
use eucalypt::eval::stg::arith::{BitAnd, BitNot, BitOr, BitXor, Clz, Ctz, PopCount, Shl, Shr};
use serde_json::Number;

/// An operand and, if it denotes an integer of the signed 64-bit range, that
/// integer.
fn operand<S: crate::src::Src>(s: &mut S) -> (Number, Option<i64>) {
    if s.bool() {
        let (n, v) = any_int(s);
        (n, i64::try_from(v).ok())
    } else {
        let f = any_float(s);
        let lim = 9223372036854775808.0; // 2^63
        let v = if f >= -lim && f < lim { f as i64 } else { 0 };
        let ok = f >= -lim && f < lim && v as f64 == f;
        (Number::from_f64(f).unwrap(), if ok { Some(v) } else { None })
    }
}

/// n * 2^k modulo 2^64, as two's complement, by repeated doubling.
fn shl_spec(n: i64, k: i64) -> i64 {
    let mut v = n;
    let mut i = 0;
    while i < 6 {
        if (k >> i) & 1 == 1 {
            v = ((v as u64) << (1u32 << i)) as i64;
        }
        i += 1;
    }
    v
}
/// floor(n / 2^k).
fn shr_spec(n: i64, k: i64) -> i64 {
    let mut v = n;
    let mut i = 0;
    while i < 6 {
        if (k >> i) & 1 == 1 {
            v >>= 1u32 << i;
        }
        i += 1;
    }
    v
}

/// The number of set bits, summed pairwise.
fn popcount_spec(a: i64) -> i64 {
    let x = a as u64;
    let x = (x & 0x5555_5555_5555_5555) + ((x >> 1) & 0x5555_5555_5555_5555);
    let x = (x & 0x3333_3333_3333_3333) + ((x >> 2) & 0x3333_3333_3333_3333);
    let x = (x & 0x0f0f_0f0f_0f0f_0f0f) + ((x >> 4) & 0x0f0f_0f0f_0f0f_0f0f);
    let x = (x & 0x00ff_00ff_00ff_00ff) + ((x >> 8) & 0x00ff_00ff_00ff_00ff);
    let x = (x & 0x0000_ffff_0000_ffff) + ((x >> 16) & 0x0000_ffff_0000_ffff);
    ((x & 0xffff_ffff) + (x >> 32)) as i64
}

macro_rules! expect {
    ($r:expr, $want:expr, $m1:literal, $m2:literal, $m3:literal) => {
        match ($r, $want) {
            (Out::Num(n), Some(w)) => { ck!(n.as_i64() == Some(w), $m1); core::mem::forget(n); }
            (Out::Err, None) => {}
            (Out::Num(n), None) => { core::mem::forget(n); ck!(false, $m2); }
            (Out::Err, Some(_)) => ck!(false, $m3),
            _ => ck!(false, "a bitwise operator returns one number or an error"),
        }
    };
}

contracts! {
    #[kani::unwind(8)]
    fn bitand(s) { let (x, a) = operand(s); let (y, b) = operand(s);
        let want = match (a, b) { (Some(a), Some(b)) => Some(a & b), _ => None };
        expect!(run(&BitAnd, x, y), want, "bitwise and", "and refuses non-integers", "and accepts integers") }
    #[kani::unwind(8)]
    fn bitor(s) { let (x, a) = operand(s); let (y, b) = operand(s);
        let want = match (a, b) { (Some(a), Some(b)) => Some(!(!a & !b)), _ => None };
        expect!(run(&BitOr, x, y), want, "bitwise or", "or refuses non-integers", "or accepts integers") }
    #[kani::unwind(8)]
    fn bitxor(s) { let (x, a) = operand(s); let (y, b) = operand(s);
        let want = match (a, b) { (Some(a), Some(b)) => Some((a & !b) | (!a & b)), _ => None };
        expect!(run(&BitXor, x, y), want, "bitwise xor", "xor refuses non-integers", "xor accepts integers") }
    #[kani::unwind(8)]
    fn bitnot(s) { let (x, a) = operand(s);
        let want = a.map(|a| -1 - a);
        expect!(run(&BitNot, x, Number::from(0)), want, "bitwise not", "not refuses non-integers", "not accepts integers") }
    #[kani::unwind(8)]
    fn shl(s) { let (x, a) = operand(s); let (y, b) = operand(s);
        let want = match (a, b) { (Some(a), Some(b)) if b >= 0 && b < 64 => Some(shl_spec(a, b)), _ => None };
        expect!(run(&Shl, x, y), want, "left shift", "shl refuses non-integers and shifts outside 0..63", "shl accepts shifts 0..63") }
    #[kani::unwind(8)]
    fn shr(s) { let (x, a) = operand(s); let (y, b) = operand(s);
        let want = match (a, b) { (Some(a), Some(b)) if b >= 0 && b < 64 => Some(shr_spec(a, b)), _ => None };
        expect!(run(&Shr, x, y), want, "arithmetic right shift", "shr refuses non-integers and shifts outside 0..63", "shr accepts shifts 0..63") }
    #[kani::unwind(66)]
    fn popcount(s) { let (x, a) = operand(s);
        let want = a.map(popcount_spec);
        expect!(run(&PopCount, x, Number::from(0)), want, "popcount counts the set bits", "popcount refuses non-integers", "popcount accepts integers") }
    #[kani::unwind(66)]
    fn ctz(s) { let (x, a) = operand(s);
        let want = a.map(|a| { let mut i = 0; while i < 64 && (a >> i) & 1 == 0 { i += 1; } i });
        expect!(run(&Ctz, x, Number::from(0)), want, "ctz is the position of the lowest set bit, or 64", "ctz refuses non-integers", "ctz accepts integers") }
    #[kani::unwind(66)]
    fn clz(s) { let (x, a) = operand(s);
        let want = a.map(|a| { let mut i = 0; while i < 64 && (a >> (63 - i)) & 1 == 0 { i += 1; } i });
        expect!(run(&Clz, x, Number::from(0)), want, "clz counts the leading zero bits", "clz refuses non-integers", "clz accepts integers") }
}

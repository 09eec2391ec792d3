//! P02: the division family obeys the floor and truncation laws.
use crate::ints::*;
use crate::mock::{run, Out};
use crate::oracle::{quot, rem};
use crate::{ck, contracts, pre};
use eucalypt::eval::stg::arith::{Div, Mod, PreciseDiv, Quot, Rem};
use serde_json::Number;

/// The mathematical floor quotient and modulus, from truncated division.
fn floor_qm(a: i128, b: i128) -> (i128, i128) {
    let (q, r) = (quot(a, b), rem(a, b));
    if r != 0 && (r < 0) != (b < 0) {
        (q - 1, r + b)
    } else {
        (q, r)
    }
}

/// An answer is promised when both operands and the quotient share one
/// 64-bit representation.
fn promised(a: i128, b: i128, q: i128) -> bool {
    (fits_i64(a) && fits_i64(b) && fits_i64(q)) || (fits_u64(a) && fits_u64(b))
}

/// Any dividend, and zero in any representation.
fn by_zero<S: crate::src::Src>(s: &mut S) -> (Number, Number) {
    let x = any_num(s);
    let y = match s.below(3) {
        0 => Number::from(0i64),
        1 => Number::from_f64(0.0).unwrap(),
        _ => Number::from_f64(-0.0).unwrap(),
    };
    (x, y)
}

contracts! {
    #[kani::unwind(4)]
    #[kani::stub(i64::checked_div, crate::oracle::i64s::checked_div)]
    #[kani::stub(u64::checked_div, crate::oracle::u64s::checked_div)]
    #[kani::stub(i128::checked_div, crate::oracle::i128s::checked_div)]
    #[kani::stub(i64::checked_rem, crate::oracle::i64s::checked_rem)]
    #[kani::stub(u64::checked_rem, crate::oracle::u64s::checked_rem)]
    #[kani::stub(i128::checked_rem, crate::oracle::i128s::checked_rem)]
    fn div_int(s) {
        let (x, a) = any_int(s); let (y, b) = any_int(s);
        pre!(b != 0);
        let (q, _) = floor_qm(a, b);
        match run(&Div, x, y) {
            Out::Num(n) => { ck!(int_val(&n) == Some(q), "/ on integers rounds toward negative infinity, exactly"); core::mem::forget(n); }
            Out::Err => ck!(!promised(a, b, q), "/ refuses only results out of range"),
            _ => ck!(false, "/ returns one number or an error"),
        }
    }
    #[kani::unwind(4)]
    #[kani::stub(i64::checked_div, crate::oracle::i64s::checked_div)]
    #[kani::stub(u64::checked_div, crate::oracle::u64s::checked_div)]
    #[kani::stub(i128::checked_div, crate::oracle::i128s::checked_div)]
    #[kani::stub(i64::checked_rem, crate::oracle::i64s::checked_rem)]
    #[kani::stub(u64::checked_rem, crate::oracle::u64s::checked_rem)]
    #[kani::stub(i128::checked_rem, crate::oracle::i128s::checked_rem)]
    fn mod_int(s) {
        let (x, a) = any_int(s); let (y, b) = any_int(s);
        pre!(b != 0);
        let (q, m) = floor_qm(a, b);
        match run(&Mod, x, y) {
            Out::Num(n) => { ck!(int_val(&n) == Some(m), "% on integers is the floor modulus, exactly"); core::mem::forget(n); }
            Out::Err => ck!(!promised(a, b, q), "% refuses only when the quotient is out of range"),
            _ => ck!(false, "% returns one number or an error"),
        }
    }
    #[kani::unwind(4)]
    #[kani::stub(i64::checked_div, crate::oracle::i64s::checked_div)]
    #[kani::stub(u64::checked_div, crate::oracle::u64s::checked_div)]
    #[kani::stub(i128::checked_div, crate::oracle::i128s::checked_div)]
    fn quot_int(s) {
        let (x, a) = any_int(s); let (y, b) = any_int(s);
        pre!(b != 0);
        let q = quot(a, b);
        match run(&Quot, x, y) {
            Out::Num(n) => { ck!(int_val(&n) == Some(q), "quot on integers rounds toward zero, exactly"); core::mem::forget(n); }
            Out::Err => ck!(!promised(a, b, q), "quot refuses only results out of range"),
            _ => ck!(false, "quot returns one number or an error"),
        }
    }
    #[kani::unwind(4)]
    #[kani::stub(i64::checked_rem, crate::oracle::i64s::checked_rem)]
    #[kani::stub(u64::checked_rem, crate::oracle::u64s::checked_rem)]
    #[kani::stub(i128::checked_rem, crate::oracle::i128s::checked_rem)]
    fn rem_int(s) {
        let (x, a) = any_int(s); let (y, b) = any_int(s);
        pre!(b != 0);
        let (q, r) = (quot(a, b), rem(a, b));
        match run(&Rem, x, y) {
            Out::Num(n) => { ck!(int_val(&n) == Some(r), "rem on integers is the truncated remainder, exactly"); core::mem::forget(n); }
            Out::Err => ck!(!promised(a, b, q), "rem refuses only when the quotient is out of range"),
            _ => ck!(false, "rem returns one number or an error"),
        }
    }
    #[kani::unwind(4)]
    fn div_zero(s) { let (x, y) = by_zero(s); ck!(matches!(run(&Div, x, y), Out::Err), "division by zero is an error"); }
    #[kani::unwind(4)]
    fn mod_zero(s) { let (x, y) = by_zero(s); ck!(matches!(run(&Mod, x, y), Out::Err), "division by zero is an error"); }
    #[kani::unwind(4)]
    fn quot_zero(s) { let (x, y) = by_zero(s); ck!(matches!(run(&Quot, x, y), Out::Err), "division by zero is an error"); }
    #[kani::unwind(4)]
    fn rem_zero(s) { let (x, y) = by_zero(s); ck!(matches!(run(&Rem, x, y), Out::Err), "division by zero is an error"); }
    #[kani::unwind(4)]
    fn precise_div_zero(s) { let (x, y) = by_zero(s); ck!(matches!(run(&PreciseDiv, x, y), Out::Err), "division by zero is an error"); }
}

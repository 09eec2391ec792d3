//! P01: integer addition, subtraction, multiplication and powers are exact or
//! refused.
use crate::ints::*;
use crate::mock::{run, Out};
use crate::{ck, contracts, pre};
use eucalypt::eval::stg::arith::{Add, Mul, Pow, Sub};
use serde_json::Number;

/// The cases in which an answer (not an error) is promised.
fn promised(a: i128, b: i128, exact: i128) -> bool {
    (fits_i64(a) && fits_i64(b) && fits_i64(exact))
        || (!(fits_i64(a) && fits_i64(b)) && fits_u64(a) && fits_u64(b) && fits_u64(exact))
}

contracts! {
    #[kani::unwind(4)]
    fn add_int(s) {
        let (x, a) = any_int(s); let (y, b) = any_int(s);
        let exact = a + b;
        match run(&Add, x, y) {
            Out::Num(n) => { ck!(int_val(&n) == Some(exact), "integer + integer yields the exact sum"); core::mem::forget(n); }
            Out::Err => ck!(!promised(a, b, exact), "+ refuses only results out of range"),
            _ => ck!(false, "+ returns one number or an error"),
        }
    }
    #[kani::unwind(4)]
    fn sub_int(s) {
        let (x, a) = any_int(s); let (y, b) = any_int(s);
        let exact = a - b;
        match run(&Sub, x, y) {
            Out::Num(n) => { ck!(int_val(&n) == Some(exact), "integer - integer yields the exact difference"); core::mem::forget(n); }
            Out::Err => ck!(!promised(a, b, exact), "- refuses only results out of range"),
            _ => ck!(false, "- returns one number or an error"),
        }
    }
    #[kani::unwind(4)]
    #[kani::stub(i64::checked_mul, crate::oracle::i64s::checked_mul)]
    #[kani::stub(u64::checked_mul, crate::oracle::u64s::checked_mul)]
    #[kani::stub(i128::checked_mul, crate::oracle::i128s::checked_mul)]
    fn mul_int(s) {
        let (x, a) = any_int(s); let (y, b) = any_int(s);
        let exact = crate::oracle::prod(a, b);
        match run(&Mul, x, y) {
            Out::Num(n) => { ck!(exact.is_some() && int_val(&n) == exact, "integer * integer yields the exact product"); core::mem::forget(n); }
            Out::Err => ck!(exact.map_or(true, |e| !promised(a, b, e)), "* refuses only results out of range"),
            _ => ck!(false, "* returns one number or an error"),
        }
    }
    #[kani::unwind(4)]
    #[kani::stub(i64::checked_pow, crate::oracle::i64p::checked_pow)]
    #[kani::stub(u64::checked_pow, crate::oracle::u64p::checked_pow)]
    fn pow_i64(s) {
        let b = s.i64(); let e = s.u32();
        let exact = crate::oracle::i64p::checked_pow(b, e);
        pre!(exact.is_some());
        match run(&Pow, Number::from(b), Number::from(e as u64)) {
            Out::Num(n) => { ck!(n.as_i64() == exact, "an integer power in range is exact"); core::mem::forget(n); }
            _ => ck!(false, "an integer power in range is answered"),
        }
    }
    #[kani::unwind(4)]
    #[kani::stub(i64::checked_pow, crate::oracle::i64p::checked_pow)]
    #[kani::stub(u64::checked_pow, crate::oracle::u64p::checked_pow)]
    fn pow_unit_base(s) {
        let b = s.below(3) as i64 - 1; let e = s.u64();
        pre!(e > u32::MAX as u64);
        let exact = if b == -1 && e % 2 == 0 { 1 } else { b };
        match run(&Pow, Number::from(b), Number::from(e)) {
            Out::Num(n) => { ck!(n.as_i64() == Some(exact), "powers of -1, 0, 1 are exact for every exponent"); core::mem::forget(n); }
            _ => ck!(false, "powers of -1, 0, 1 are answered for every exponent"),
        }
    }
}

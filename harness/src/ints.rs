//! Specification helpers: eucalypt integers are the values of i64 and u64.
use crate::src::Src;
use serde_json::Number;

pub const LO: i128 = i64::MIN as i128;
pub const HI: i128 = u64::MAX as i128;

/// An arbitrary representable integer and its mathematical value.
pub fn any_int<S: Src>(s: &mut S) -> (Number, i128) {
    if s.bool() {
        let a = s.i64();
        (Number::from(a), a as i128)
    } else {
        let a = s.u64();
        (Number::from(a), a as i128)
    }
}

/// The mathematical value of an integer Number (None for a float).
pub fn int_val(n: &Number) -> Option<i128> {
    if let Some(i) = n.as_i64() {
        Some(i as i128)
    } else {
        n.as_u64().map(|u| u as i128)
    }
}

pub fn fits_i64(v: i128) -> bool {
    v >= i64::MIN as i128 && v <= i64::MAX as i128
}
pub fn fits_u64(v: i128) -> bool {
    v >= 0 && v <= u64::MAX as i128
}
pub fn representable(v: i128) -> bool {
    v >= LO && v <= HI
}

/// A finite float.
pub fn any_float<S: Src>(s: &mut S) -> f64 {
    let f = s.f64();
    #[cfg(kani)]
    kani::assume(f.is_finite());
    #[cfg(not(kani))]
    let f = if f.is_finite() { f } else { 0.0 };
    f
}

/// Any number: an integer or a finite float.
pub fn any_num<S: Src>(s: &mut S) -> Number {
    if s.bool() {
        any_int(s).0
    } else {
        Number::from_f64(any_float(s)).unwrap()
    }
}

//! P04: numeric comparison and equality are coherent with the exact order.
use crate::ints::*;
use crate::mock::{run, Out};
use crate::{ck, contracts};
use core::cmp::Ordering;
use eucalypt::eval::stg::arith::{Gt, Gte, Lt, Lte};
use eucalypt::eval::stg::eq::Eq;
use serde_json::Number;

/// Two numbers and their exact ordering.  Integers of any magnitude, floats,
/// and a float against an integer of magnitude at most 2^53.
fn pair<S: crate::src::Src>(s: &mut S) -> (Number, Number, Ordering) {
    match s.below(4) {
        0 | 1 => {
            let (x, a) = any_int(s);
            let (y, b) = any_int(s);
            (x, y, a.cmp(&b))
        }
        2 => {
            let a = any_float(s);
            let b = any_float(s);
            (Number::from_f64(a).unwrap(), Number::from_f64(b).unwrap(), fcmp(a, b))
        }
        _ => {
            let f = any_float(s);
            let i = s.below((1 << 54) + 1) as i64 - (1 << 53);
            let o = fcmp(i as f64, f);
            if s.bool() {
                (Number::from(i), Number::from_f64(f).unwrap(), o)
            } else {
                (Number::from_f64(f).unwrap(), Number::from(i), o.reverse())
            }
        }
    }
}
fn fcmp(a: f64, b: f64) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a > b {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}

contracts! {
    #[kani::unwind(4)]
    fn gt(s) { let (x, y, o) = pair(s); match run(&Gt, x, y) { Out::Bool(r) => ck!(r == (o == Ordering::Greater), "> agrees with the exact order"), _ => ck!(false, "> answers on numbers") } }
    #[kani::unwind(4)]
    fn gte(s) { let (x, y, o) = pair(s); match run(&Gte, x, y) { Out::Bool(r) => ck!(r == (o != Ordering::Less), ">= agrees with the exact order"), _ => ck!(false, ">= answers on numbers") } }
    #[kani::unwind(4)]
    fn lt(s) { let (x, y, o) = pair(s); match run(&Lt, x, y) { Out::Bool(r) => ck!(r == (o == Ordering::Less), "< agrees with the exact order"), _ => ck!(false, "< answers on numbers") } }
    #[kani::unwind(4)]
    fn lte(s) { let (x, y, o) = pair(s); match run(&Lte, x, y) { Out::Bool(r) => ck!(r == (o != Ordering::Greater), "<= agrees with the exact order"), _ => ck!(false, "<= answers on numbers") } }
    #[kani::unwind(4)]
    fn eq(s) { let (x, y, o) = pair(s); match run(&Eq, x, y) { Out::Bool(r) => ck!(r == (o == Ordering::Equal), "= agrees with the exact order"), _ => ck!(false, "= answers on numbers") } }
}

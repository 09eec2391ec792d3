//! Demand lattice: the executable side of verus/demand.rs.
use crate::src::{Res, Src};
use crate::{ck, contracts};
use eucalypt::core::demand::*;

fn card<S: Src>(s: &mut S) -> Cardinality {
    [Cardinality::Unknown, Cardinality::Absent, Cardinality::AtMostOnce, Cardinality::Multi][s.below(4) as usize % 4]
}
fn demand<S: Src>(s: &mut S) -> Demand {
    Demand {
        cardinality: card(s),
        strictness: [Strictness::Unknown, Strictness::Lazy, Strictness::Strict][s.below(3) as usize % 3],
        whnf: s.bool(),
        recursive: s.bool(),
    }
}
fn times(c: Cardinality, n: usize) -> bool {
    match c {
        Cardinality::Absent => n == 0,
        Cardinality::AtMostOnce => n <= 1,
        _ => true,
    }
}
fn surely(s: Strictness, e: bool) -> bool {
    s != Strictness::Strict || e
}

contracts! {
    fn alternatives(s) {
        let (a, b) = (demand(s), demand(s));
        let r = a.lub(b);
        for n in 0..4 {
            ck!(!times(a.cardinality, n) && !times(b.cardinality, n) || times(r.cardinality, n), "either branch's uses are described");
        }
        for e in [false, true] {
            ck!(!surely(a.strictness, e) && !surely(b.strictness, e) || surely(r.strictness, e), "strict only if both branches are");
        }
        ck!(r.whnf == (a.whnf && b.whnf), "evaluated only if both are");
        ck!(r.recursive || !(a.recursive || b.recursive), "recursion is not forgotten");
        ck!(a.cardinality.join(b.cardinality) == r.cardinality && a.strictness.join(b.strictness) == r.strictness, "lub joins");
        ck!(a.cardinality != Cardinality::Absent || r.cardinality == b.cardinality, "absent is neutral");
        ck!(b.cardinality != Cardinality::Absent || r.cardinality == a.cardinality, "absent is neutral");
        ck!(!(a.cardinality == b.cardinality && a.cardinality == Cardinality::AtMostOnce) || r.cardinality == a.cardinality, "once in either branch is once");
        ck!(!(a.strictness == b.strictness && a.strictness == Strictness::Strict) || r.strictness == a.strictness, "strict in both branches is strict");
    }
    fn in_sequence(s) {
        let (a, b) = (demand(s), demand(s));
        let r = a.plus(b);
        for n in 0..4 { for m in 0..4 {
            ck!(!(times(a.cardinality, n) && times(b.cardinality, m)) || times(r.cardinality, n + m), "uses add up");
        } }
        for x in [false, true] { for y in [false, true] {
            ck!(!(surely(a.strictness, x) && surely(b.strictness, y)) || surely(r.strictness, x || y), "strict only if one of them is");
        } }
        ck!(r.whnf == (a.whnf && b.whnf), "evaluated only if both are");
        ck!(r.recursive || !(a.recursive || b.recursive), "recursion is not forgotten");
    }
    fn through_another(s) {
        let (a, o) = (demand(s), demand(s));
        let r = a.scale(o);
        for k in 0..4usize {
            if !times(o.cardinality, k) { continue; }
            for n in 0..4usize.pow(k as u32) {
                let uses: Vec<usize> = (0..k).map(|i| n / 4usize.pow(i as u32) % 4).collect();
                if uses.iter().all(|u| times(a.cardinality, *u)) {
                    ck!(times(r.cardinality, uses.iter().sum()), "uses multiply");
                }
            }
        }
        for x in [false, true] { for y in [false, true] {
            ck!(!(surely(o.strictness, x) && surely(a.strictness, y)) || surely(r.strictness, x && y), "strict only if both are");
        } }
        ck!(!r.whnf, "not evaluated");
        ck!(r.recursive || !(a.recursive || o.recursive), "recursion is not forgotten");
    }
    fn skip(s) {
        let a = demand(s);
        let r = a.skip_update();
        ck!(!r || a.whnf || !times(a.cardinality, 2), "an update is skipped only where no second evaluation can happen");
        ck!(r || !(a.whnf || a.cardinality == Cardinality::AtMostOnce || a.cardinality == Cardinality::Absent), "an update is skipped where it is useless");
    }
    fn starting_points(s) {
        let _ = s.bool();
        ck!(Demand::default() == Demand { cardinality: Cardinality::Unknown, strictness: Strictness::Unknown, whnf: false, recursive: false }, "the default claims nothing");
        ck!(!times(Demand::absent().cardinality, 1) && surely(Demand::absent().strictness, false), "an absent binding is not strict");
        ck!(times(Demand::at_most_once().cardinality, 1) && surely(Demand::at_most_once().strictness, false), "once is not strict");
        ck!(times(Demand::strict().cardinality, 2), "strict says nothing of how often");
        ck!(surely(Demand::lazy_once().strictness, false) && surely(Demand::lazy_multi().strictness, false), "lazy is not strict");
        ck!(times(Demand::lazy_multi().cardinality, 2) && times(Demand::strict_multi().cardinality, 2) && times(Demand::whnf().cardinality, 2), "multi is many");
    }
}

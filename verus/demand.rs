// Contracts over core/demand.rs: the demand lattice is a sound abstraction of
// how often, and whether, a binding is evaluated.
use vstd::prelude::*;
verus! {

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ item core/demand.rs enum Cardinality
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ item core/demand.rs enum Strictness
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ item core/demand.rs struct Demand
//@   sub /pub\s+pub/pub/


/// A binding evaluated n times is described by the cardinality.
pub open spec fn times(c: Cardinality, n: nat) -> bool {
    match c {
        Cardinality::Absent => n == 0,
        Cardinality::AtMostOnce => n <= 1,
        _ => true,
    }
}
/// Whether the binding is evaluated for certain is described by the strictness.
pub open spec fn surely(s: Strictness, evaluated: bool) -> bool {
    s == Strictness::Strict ==> evaluated
}
pub open spec fn sum(s: Seq<nat>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { (sum(s.drop_last()) + s.last()) as nat } }

pub proof fn sum_zero(s: Seq<nat>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0
    ensures sum(s) == 0
    decreases s.len()
{ if s.len() > 0 { sum_zero(s.drop_last()); } }
pub proof fn sum_one(s: Seq<nat>)
    requires s.len() <= 1, forall|i: int| 0 <= i < s.len() ==> s[i] <= 1
    ensures sum(s) <= 1
    decreases s.len()
{ if s.len() == 1 { assert(s.drop_last().len() == 0); assert(sum(s.drop_last()) == 0); } }

impl Cardinality {
//@ fn core/demand.rs Cardinality::join
//@   ret r
//@   spec
    ensures
        // either branch may be the one taken
        forall|n: nat| #[trigger] times(self, n) ==> times(r, n),
        forall|n: nat| #[trigger] times(other, n) ==> times(r, n),
        // and nothing is given up needlessly
        (self is Absent ==> r == other) && (other is Absent ==> r == self) && (self is AtMostOnce && other is AtMostOnce ==> r is AtMostOnce),
//@ done
}
impl Strictness {
//@ fn core/demand.rs Strictness::join
//@   ret r
//@   spec
    ensures
        forall|e: bool| #[trigger] surely(self, e) ==> surely(r, e),
        forall|e: bool| #[trigger] surely(other, e) ==> surely(r, e),
        self is Strict && other is Strict ==> r is Strict,
//@ done
}

impl Demand {
//@ fn core/demand.rs Demand::skip_update
//@   ret r
//@   spec
    ensures
        // an update frame is left out only where no second evaluation can happen
        r ==> self.whnf || forall|n: nat| times(self.cardinality, n) ==> n <= 1,
        (self.cardinality is AtMostOnce || self.cardinality is Absent || self.whnf) ==> r,
//@ done
//@ fn core/demand.rs Demand::lub
//@   ret r
//@   spec
    ensures
        forall|n: nat| #[trigger] times(self.cardinality, n) ==> times(r.cardinality, n),
        forall|n: nat| #[trigger] times(other.cardinality, n) ==> times(r.cardinality, n),
        forall|e: bool| #[trigger] surely(self.strictness, e) ==> surely(r.strictness, e),
        forall|e: bool| #[trigger] surely(other.strictness, e) ==> surely(r.strictness, e),
        r.whnf == (self.whnf && other.whnf),
        self.recursive || other.recursive ==> r.recursive,
//@ done
//@ fn core/demand.rs Demand::scale
//@   ret r
//@   sub /crate::core::demand:://
//@   spec
    ensures
        // used as self says in each of the evaluations outer allows
        forall|uses: Seq<nat>| times(outer.cardinality, uses.len()) && (forall|i: int| 0 <= i < uses.len() ==> times(self.cardinality, #[trigger] uses[i]))
            ==> times(r.cardinality, #[trigger] sum(uses)),
        // certain only if the evaluation is certain, and certain to use it
        forall|o: bool, i: bool| #[trigger] surely(outer.strictness, o) && #[trigger] surely(self.strictness, i) ==> surely(r.strictness, o && i),
        !r.whnf,
        self.recursive || outer.recursive ==> r.recursive,
//@   head
    proof {
        assert forall|uses: Seq<nat>| times(outer.cardinality, uses.len()) && (forall|i: int| 0 <= i < uses.len() ==> times(self.cardinality, #[trigger] uses[i]))
            && (outer.cardinality is Absent || self.cardinality is Absent) implies #[trigger] sum(uses) == 0 by { sum_zero(uses); }
        assert forall|uses: Seq<nat>| times(outer.cardinality, uses.len()) && (forall|i: int| 0 <= i < uses.len() ==> times(self.cardinality, #[trigger] uses[i]))
            && outer.cardinality is AtMostOnce && self.cardinality is AtMostOnce implies #[trigger] sum(uses) <= 1 by { sum_one(uses); }
    }
//@ done
//@ fn core/demand.rs Demand::plus
//@   ret r
//@   spec
    ensures
        // used both ways, one after the other
        forall|n: nat, m: nat| #[trigger] times(self.cardinality, n) && #[trigger] times(other.cardinality, m) ==> times(r.cardinality, n + m),
        forall|a: bool, b: bool| #[trigger] surely(self.strictness, a) && #[trigger] surely(other.strictness, b) ==> surely(r.strictness, a || b),
        r.whnf == (self.whnf && other.whnf),
        self.recursive || other.recursive ==> r.recursive,
//@ done
}

}

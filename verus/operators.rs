// Contracts over core/cook/shunt.rs and core/cook/fill.rs: what a run of
// operands and operators is grouped into.
use vstd::prelude::*;
use std::rc::Rc;
verus! {

// ---- expressions -----------------------------------------------------------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Smid { x: u32 }
pub struct Var { x: u8 }
pub struct LetScope { x: u8 }
pub struct LamScope { x: u8 }
pub struct LetType { x: u8 }
pub struct Primitive { x: u8 }
pub struct Ana { x: u8 }
pub struct BlockMap { x: u8 }
pub struct SourceMap { x: u8 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ item core/expr.rs enum Fixity
impl Fixity {
//@ fn core/expr.rs Fixity::arity
//@   ret r
//@   spec
    ensures r == match *self { Fixity::Nullary => 0, Fixity::UnaryPrefix | Fixity::UnaryPostfix => 1, _ => 2u8 }
//@ done
}
pub type Precedence = i32;
//@ item core/expr.rs enum Expr
//@   sub /<T>\s*where\s*T: Clone,//
//@   sub /(LetScope|LamScope|BlockMap)<T>/\1/
//@   sub /Anaphor<Smid, i32>/Ana/
//@   sub /\bT\b/RcExpr/
pub struct RcExpr { pub inner: Rc<Expr> }
impl Clone for RcExpr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Expr {
//@ fn core/expr.rs Expr::is_operator
//@   ret r
//@   spec
    ensures r == (self is Operator)
//@ done
//@ fn core/expr.rs Expr::is_pseudodot
//@   ret r
//@   spec
    ensures r == (self is ErrPseudoDot)
//@ done
//@ fn core/expr.rs Expr::is_pseudocat
//@   ret r
//@   spec
    ensures r == (self is ErrPseudoCat)
//@ done
//@ fn core/expr.rs Expr::is_pseudocall
//@   ret r
//@   spec
    ensures r == (self is ErrPseudoCall)
//@ done
}
pub enum CoreError { TooFewOperands(Smid), NoSmidForImplicitAnaphor }
pub uninterp spec fn place(x: RcExpr) -> Smid;
pub uninterp spec fn nowhere() -> Smid;
#[verifier::external_body]
pub fn no_smid() -> (r: Smid) ensures r == nowhere() { unimplemented!() }
impl RcExpr {
//@ fn core/expr.rs RcExpr::is_pseudocall
//@   ret r
//@   spec
    ensures r == (*self.inner is ErrPseudoCall)
//@ done
//@ fn core/expr.rs RcExpr::is_pseudodot
//@   ret r
//@   spec
    ensures r == (*self.inner is ErrPseudoDot)
//@ done
//@ fn core/expr.rs RcExpr::is_pseudocat
//@   ret r
//@   spec
    ensures r == (*self.inner is ErrPseudoCat)
//@ done
    #[verifier::external_body]
    pub fn smid(&self) -> (r: Smid) ensures r == place(*self) { unimplemented!() }
}
pub fn expr(e: Expr) -> (r: RcExpr) ensures *r.inner == e { RcExpr { inner: Rc::new(e) } }
impl SourceMap { #[verifier::external_body] pub fn merge(&mut self, a: Smid, b: Smid) -> (r: Smid) { unimplemented!() } }
pub open spec fn is_cat(x: RcExpr) -> bool { *x.inner is Operator && (*x.inner)->Operator_1 is InfixLeft && (*x.inner)->Operator_2 == 20 && *(*x.inner)->Operator_3.inner is ErrPseudoCat }
pub uninterp spec fn section(s: Smid, left: bool) -> RcExpr;
pub uninterp spec fn the_cat() -> RcExpr;
#[verifier::external_body]
pub fn cat() -> (r: RcExpr) ensures r == the_cat(), is_cat(r) { unimplemented!() }
#[verifier::external_body]
pub fn section_anaphor_left(s: Smid) -> (r: RcExpr) ensures r == section(s, true), *r.inner is ExprAnaphor { unimplemented!() }
#[verifier::external_body]
pub fn section_anaphor_right(s: Smid) -> (r: RcExpr) ensures r == section(s, false), *r.inner is ExprAnaphor { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_fills()
    ensures is_cat(the_cat()), forall|s: Smid, l: bool| *(#[trigger] section(s, l)).inner is ExprAnaphor
{}
pub open spec fn fix(x: RcExpr) -> Option<Fixity> { match *x.inner { Expr::Operator(_, f, _, _) => Some(f), _ => None } }
pub open spec fn prec(x: RcExpr) -> int { match *x.inner { Expr::Operator(_, _, p, _) => p as int, _ => 0 } }
pub open spec fn body(x: RcExpr) -> RcExpr { match *x.inner { Expr::Operator(_, _, _, b) => b, _ => x } }
/// Takes an operand on its left, on its right.
pub open spec fn takes_left(x: RcExpr) -> bool { fix(x) == Some(Fixity::InfixLeft) || fix(x) == Some(Fixity::InfixRight) || fix(x) == Some(Fixity::UnaryPostfix) }
pub open spec fn takes_right(x: RcExpr) -> bool { fix(x) == Some(Fixity::InfixLeft) || fix(x) == Some(Fixity::InfixRight) || fix(x) == Some(Fixity::UnaryPrefix) }

// ---- gaps ------------------------------------------------------------------
/// What is missing between two neighbours (or at the start or the end).
pub open spec fn gap(l: Option<RcExpr>, r: Option<RcExpr>) -> Option<RcExpr> {
    let open = l is None || takes_right(l->0);
    let wanted = r is None || takes_left(r->0);
    if !open && !wanted { Some(the_cat()) }
    else if !open || !wanted || stuck(l, r) { None }
    else if r is Some && place(r->0) != nowhere() { Some(section(place(r->0), true)) }
    else { Some(section(place(l->0), false)) }
}
/// An operand is missing between two neighbours that have no place in the source.
pub open spec fn stuck(l: Option<RcExpr>, r: Option<RcExpr>) -> bool {
    &&& l is None || takes_right(l->0)
    &&& r is None || takes_left(r->0)
    &&& r is Some ==> place(r->0) == nowhere()
    &&& l is Some ==> place(l->0) == nowhere()
}
pub open spec fn some(x: Option<RcExpr>) -> Seq<RcExpr> { match x { Some(e) => seq![e], None => seq![] } }
pub open spec fn start(s: Seq<RcExpr>) -> Option<RcExpr> { if s.len() > 0 { Some(s[0]) } else { None } }
/// The run with its gaps filled, but for the one in front.
pub open spec fn filled(s: Seq<RcExpr>) -> Seq<RcExpr>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { seq![s[0]] + some(gap(Some(s[0]), start(s.skip(1)))) + filled(s.skip(1)) } }
pub open spec fn whole(s: Seq<RcExpr>) -> Seq<RcExpr> { some(gap(None, start(s))) + filled(s) }
/// No gap is stuck.
pub open spec fn fillable(s: Seq<RcExpr>) -> bool
    decreases s.len()
{ s.len() == 0 || (!stuck(Some(s[0]), start(s.skip(1))) && fillable(s.skip(1))) }

/// A fill leaves no gap on either side.
pub proof fn lemma_fill(l: Option<RcExpr>, s: Seq<RcExpr>)
    requires gap(l, start(s)) is Some
    ensures
        gap(l, gap(l, start(s))) is None, gap(gap(l, start(s)), start(s)) is None,
        !stuck(gap(l, start(s)), start(s)), !stuck(l, gap(l, start(s))),
        filled(seq![gap(l, start(s))->0] + s) == seq![gap(l, start(s))->0] + filled(s),
        fillable(s) ==> fillable(seq![gap(l, start(s))->0] + s),
{
    axiom_fills();
    let g = gap(l, start(s))->0;
    assert((seq![g] + s).skip(1) =~= s);
    assert(some(gap(Some(g), start(s))) =~= seq![]);
    assert(filled(seq![g] + s) =~= seq![g] + filled(s));
}

//@ always /RcExpr::from\(Expr::/expr(Expr::/
//@ always /Smid::default\(\)/no_smid()/
//@ item core/cook/fill.rs enum BindSide
//@ fn core/cook/fill.rs bind_sides
//@   ret r
//@   spec
    ensures
        r.0 is OpLike <==> (expr is None || takes_left(*expr->0)),
        r.1 is OpLike <==> (expr is None || takes_right(*expr->0)),
//@ done
pub open spec fn own(x: Option<&RcExpr>) -> Option<RcExpr> { match x { Some(e) => Some(*e), None => None } }
pub struct Found { x: u8 }
//@ fn core/cook/fill.rs filler
//@   ret r
//@   sub /core::(cat|section_anaphor_left|section_anaphor_right)\(/\1(/
//@   spec
    ensures r is Ok <==> !stuck(own(left), own(right)), r is Ok ==> r->Ok_0 == gap(own(left), own(right))
//@ done

//@ fn core/cook/fill.rs fill_gaps
//@   ret r
//@   attr #[verifier::loop_isolation(false)]
//@   sub /AnaphorSet/Found/
//@   sub /HashSet::new\(\)/Found { x: 0 }/
//@   sub /naked_anaphora\.extend\([^;]*;//
//@   sub /filler\(None, Some\(&xs\[0\]\)\)\?/(match filler(None, Some(&xs[0])) { Ok(f) => f, Err(e) => { return Err(e); } })/
//@   sub /filler\(Some\((\w+)\), (None|Some\(\w+\))\)\?/(match filler(Some(\1), \2) { Ok(f) => f, Err(e) => { return Err(e); } })/
//@   sub /for window in xs\.windows\(2\) \{\s*if let \[ref l, ref r\] = window \{/let mut w: usize = 0; while w < xs.len() - 1 { { let l = &xs[w]; let r = &xs[w + 1]; w += 1;/
//@   spec
    ensures
        r is Ok ==> r->Ok_0.0@ =~= if xs@.len() == 0 { seq![] } else { whole(xs@) },
        r is Err ==> !fillable(xs@) || stuck(None, start(xs@)),
//@   loop 0
        invariant
            0 <= w < xs@.len(),
            out@ + filled(xs@.skip(w as int)) =~= whole(xs@),
            fillable(xs@) ==> fillable(xs@.skip(w as int)),
        decreases xs@.len() - w
//@   head
    assert(xs@.skip(0) =~= xs@);
//@   in 0
    proof { assert(xs@.skip(w as int).skip(1) =~= xs@.skip(w + 1)); }
//@   after 0
    proof {
        let z = xs@.skip(w as int);
        assert(z =~= seq![xs@.last()]);
        assert(z.skip(1) =~= seq![]);
        assert(filled(z.skip(1)) =~= seq![]);
    }
//@ done
// ---- groupings -------------------------------------------------------------
/// A grouping: e is the expression it stands for.
pub enum Tree {
    Leaf { e: RcExpr },
    Nul { op: RcExpr, e: RcExpr },
    Pre { op: RcExpr, r: Box<Tree>, e: RcExpr },
    Post { l: Box<Tree>, op: RcExpr, e: RcExpr },
    Bin { l: Box<Tree>, op: RcExpr, r: Box<Tree>, e: RcExpr },
}
pub open spec fn means(t: Tree) -> RcExpr {
    match t { Tree::Leaf { e } => e, Tree::Nul { e, .. } => e, Tree::Pre { e, .. } => e, Tree::Post { e, .. } => e, Tree::Bin { e, .. } => e }
}
/// The run it was read from.
pub open spec fn text(t: Tree) -> Seq<RcExpr>
    decreases t
{
    match t {
        Tree::Leaf { e } => seq![e],
        Tree::Nul { op, .. } => seq![op],
        Tree::Pre { op, r, .. } => seq![op] + text(*r),
        Tree::Post { l, op, .. } => text(*l).push(op),
        Tree::Bin { l, op, r, .. } => text(*l).push(op) + text(*r),
    }
}
/// Of an operator and one further right, whether the first gets the operand between them.
pub open spec fn holds(first: RcExpr, second: RcExpr) -> bool {
    prec(second) < prec(first) || (prec(second) == prec(first) && fix(first) == Some(Fixity::InfixLeft))
}
/// Every operator at the right edge keeps its operand from o, which follows.
pub open spec fn keeps(t: Tree, o: RcExpr) -> bool
    decreases t
{
    match t {
        Tree::Pre { op, r, .. } => holds(op, o) && keeps(*r, o),
        Tree::Bin { op, r, .. } => holds(op, o) && keeps(*r, o),
        _ => true,
    }
}
/// Every operator at the left edge gets its operand though o stands in front.
pub open spec fn takes(o: RcExpr, t: Tree) -> bool
    decreases t
{
    match t {
        Tree::Post { l, op, .. } => !holds(o, op) && takes(o, *l),
        Tree::Bin { l, op, .. } => !holds(o, op) && takes(o, *l),
        _ => true,
    }
}
/// What an operator applied to operands is.
pub open spec fn applied(op: RcExpr, xs: Seq<RcExpr>, e: RcExpr) -> bool {
    if *op.inner is ErrPseudoCall { xs.len() >= 2 && *xs[1].inner is ArgTuple && *e.inner is App && (*e.inner)->App_1 == xs[0] && (*e.inner)->App_2@ == (*xs[1].inner)->ArgTuple_1@ }
    else if *op.inner is ErrPseudoDot {
        &&& xs.len() >= 2
        &&& match *xs[1].inner {
            Expr::Name(_, n) => *e.inner is Lookup && (*e.inner)->Lookup_1 == xs[0] && (*e.inner)->Lookup_2@ == n@ && (*e.inner)->Lookup_3 is None,
            Expr::Lam(_, _, _) => *e.inner is App && (*e.inner)->App_1 == xs[1] && (*e.inner)->App_2@ =~= seq![xs[0]],
            _ => e == xs[1],
        }
    }
    else if *op.inner is ErrPseudoCat { xs.len() == 2 && *e.inner is App && (*e.inner)->App_1 == xs[1] && (*e.inner)->App_2@ =~= seq![xs[0]] }
    else { *e.inner is App && (*e.inner)->App_1 == op && (*e.inner)->App_2@ == xs }
}
/// Precedence and associativity are respected throughout.
pub open spec fn grouped(t: Tree) -> bool
    decreases t
{
    match t {
        Tree::Leaf { e } => fix(e) is None,
        Tree::Nul { op, e } => fix(op) == Some(Fixity::Nullary) && e == body(op),
        Tree::Pre { op, r, e } => fix(op) == Some(Fixity::UnaryPrefix) && grouped(*r) && takes(op, *r) && applied(body(op), seq![means(*r)], e),
        Tree::Post { l, op, e } => fix(op) == Some(Fixity::UnaryPostfix) && grouped(*l) && keeps(*l, op) && applied(body(op), seq![means(*l)], e),
        Tree::Bin { l, op, r, e } => (fix(op) == Some(Fixity::InfixLeft) || fix(op) == Some(Fixity::InfixRight)) && grouped(*l) && grouped(*r) && keeps(*l, op) && takes(op, *r)
            && applied(body(op), seq![means(*l), means(*r)], e),
    }
}
pub open spec fn reading(s: Seq<RcExpr>, e: RcExpr) -> bool { exists|t: Tree| #[trigger] grouped(t) && text(t) == whole(s) && means(t) == e }

// ---- the algorithm ---------------------------------------------------------
//@ always /panic!\("shunt: [^"]*"\)/stop()/
//@ always /panic!\([^()]*\)/never()/
//@ always /unreachable!\(\)/never()/
//@ always /Shunter<'smap>/Shunter/
//@ always /&'smap mut SourceMap/SourceMap/
#[verifier::external_body]
pub fn stop() -> (r: RcExpr) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn never() requires false { unimplemented!() }
#[verifier::external_body]
pub fn no_result() -> (r: Result<RcExpr, CoreError>) requires false { unimplemented!() }
#[verifier::external_body]
pub fn insist(b: bool) ensures b { assert!(b) }
//@ item core/cook/shunt.rs struct Shunter
//@   sub /Shunter<'smap>/Shunter/
//@   sub /&'smap mut SourceMap/SourceMap/
pub trait Top<T> { spec fn all(&self) -> Seq<T>; fn top(&self) -> (r: Option<&T>) ensures self.all().len() == 0 ==> r is None, self.all().len() > 0 ==> r is Some && *r->0 == self.all().last(); fn turn(&mut self) ensures final(self).all() == old(self).all().reverse(); }
impl<T> Top<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn top(&self) -> (r: Option<&T>) { self.last() }
    #[verifier::external_body]
    fn turn(&mut self) { self.reverse() }
}
pub trait Own<T> { fn owned(self) -> (r: Option<T>); }
pub fn owned(x: Option<&RcExpr>) -> (r: Option<RcExpr>) ensures r == own(x) { match x { Some(e) => Some(e.clone()), None => None } }
#[verifier::external_body]
pub fn nth(xs: &[RcExpr], i: usize) -> (r: &RcExpr) ensures i < xs@.len(), *r == xs@[i as int] { &xs[i] }
#[verifier::external_body]
pub fn copied(xs: &[RcExpr]) -> (r: Vec<RcExpr>) ensures r@ == xs@ { unimplemented!() }
//@ always /self\.(input|ops|output)\.last\(\)/self.\1.top()/
//@ always /self\.peek_op\(\)\.cloned\(\)/owned(self.peek_op())/
//@ always /exprs\.reverse\(\)/exprs.turn()/

// ---- the state of the algorithm ---------------------------------------------
/// Operators that wait for what is on their right, and what is on the left of each.
pub open spec fn lefts(ls: Seq<Option<Tree>>) -> Seq<RcExpr>
    decreases ls.len()
{ if ls.len() == 0 { seq![] } else { lefts(ls.drop_last()) + match ls.last() { Some(t) => seq![means(t)], None => seq![] } } }
pub open spec fn read(ops: Seq<RcExpr>, ls: Seq<Option<Tree>>) -> Seq<RcExpr>
    decreases ops.len()
{ if ops.len() == 0 || ls.len() != ops.len() { seq![] } else { read(ops.drop_last(), ls.drop_last()) + (match ls.last() { Some(t) => text(t), None => seq![] }).push(ops.last()) } }
pub open spec fn waits(ops: Seq<RcExpr>, ls: Seq<Option<Tree>>, k: int) -> bool {
    &&& match ls[k] {
        None => fix(ops[k]) == Some(Fixity::UnaryPrefix),
        Some(t) => takes_left(ops[k]) && grouped(t) && keeps(t, ops[k]) && (k > 0 ==> takes(ops[k - 1], t) && !holds(ops[k - 1], ops[k])),
    }
    &&& fix(ops[k]) == Some(Fixity::UnaryPostfix) ==> k == ops.len() - 1
}
pub open spec fn st(s: &Shunter, ls: Seq<Option<Tree>>, cur: Option<Tree>, done: Seq<RcExpr>) -> bool {
    &&& ls.len() == s.ops@.len()
    &&& s.output@ =~= lefts(ls) + (match cur { Some(t) => seq![means(t)], None => seq![] })
    &&& done =~= read(s.ops@, ls) + (match cur { Some(t) => text(t), None => seq![] })
    &&& forall|k: int| 0 <= k < ls.len() ==> #[trigger] waits(s.ops@, ls, k)
    &&& cur is Some ==> grouped(cur->0) && (ls.len() > 0 ==> takes(s.ops@.last(), cur->0) && fix(s.ops@.last()) != Some(Fixity::UnaryPostfix))
}
/// An operand has been read.
pub open spec fn full(s: &Shunter, cur: Option<Tree>) -> bool { cur is Some || (s.ops@.len() > 0 && fix(s.ops@.last()) == Some(Fixity::UnaryPostfix)) }
pub open spec fn edge(t: Tree) -> bool { !(t is Pre) && !(t is Bin) }
/// Between two tokens: done has been read, and an operand has just been read or is wanted.
pub open spec fn at(s: &Shunter, done: Seq<RcExpr>, have: bool) -> bool {
    exists|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == have && (cur is Some ==> edge(cur->0))
}
/// Before an operator that follows an operand is put down.
pub open spec fn seating(s: &Shunter, op: RcExpr, done: Seq<RcExpr>) -> bool {
    exists|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) && (cur is Some ==> keeps(cur->0, op))
}
/// Whether the token leaves an operand read.
pub open spec fn leaves(x: RcExpr) -> bool { !takes_right(x) }
pub open spec fn fits(have: bool, x: RcExpr) -> bool { have == takes_left(x) }


/// Only operators wait.
pub open spec fn sane(s: &Shunter) -> bool { forall|k: int| 0 <= k < s.ops@.len() ==> fix(#[trigger] s.ops@[k]) is Some }
pub open spec fn sticks(s: &Shunter, t: &Shunter) -> bool { s.error is Some ==> t.error is Some }
pub open spec fn over(s: &Shunter, total: Seq<RcExpr>) -> bool {
    s.input@.len() == 0 && s.ops@.len() == 0 && exists|t: Tree| #[trigger] grouped(t) && text(t) == total && s.output@ == seq![means(t)]
}
pub open spec fn running(s: &Shunter, total: Seq<RcExpr>, done: Seq<RcExpr>, have: bool) -> bool {
    let rest = s.input@.reverse();
    &&& at(s, done, have)
    &&& done + filled(rest) == total
    &&& rest.len() > 0 ==> have == takes_left(rest[0])
    &&& rest.len() == 0 ==> have
}
pub open spec fn inv(s: &Shunter, total: Seq<RcExpr>) -> bool {
    over(s, total) || exists|done: Seq<RcExpr>, have: bool| #[trigger] running(s, total, done, have)
}
pub open spec fn did(o: &Shunter, t: &Shunter, op: RcExpr) -> bool {
    &&& t.ops == o.ops
    &&& fix(op) == Some(Fixity::Nullary) ==> t.error == o.error && t.output@ == o.output@.push(body(op))
    &&& takes_left(op) && takes_right(op) && o.output@.len() >= 2 ==> t.error == o.error && t.output@ =~= o.output@.drop_last().drop_last().push(t.output@.last())
            && applied(body(op), seq![o.output@.drop_last().last(), o.output@.last()], t.output@.last())
    &&& takes_left(op) != takes_right(op) && o.output@.len() >= 1 ==> t.error == o.error && t.output@ =~= o.output@.drop_last().push(t.output@.last()) && applied(body(op), seq![o.output@.last()], t.output@.last())
}
pub open spec fn dropped(s: &Shunter, u: &Shunter) -> bool { s.ops@.len() > 0 && u.ops@ == s.ops@.drop_last() && u.output@ == s.output@ && u.error == s.error }
pub proof fn lemma_over(s: &Shunter, total: Seq<RcExpr>)
    requires inv(s, total), s.input@.len() == 0, s.ops@.len() == 0
    ensures over(s, total)
{
    if !over(s, total) {
        let (done, have) = choose|done: Seq<RcExpr>, have: bool| #[trigger] running(s, total, done, have);
        let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == have && (cur is Some ==> edge(cur->0));
        assert(s.input@.reverse() =~= seq![]);
        assert(done =~= total);
        assert(lefts(ls) =~= seq![]);
        assert(grouped(cur->0) && text(cur->0) =~= total);
        assert(s.output@ =~= seq![means(cur->0)]);
    }
}

impl Shunter {
//@ fn core/cook/shunt.rs Shunter::new
//@   ret r
//@   spec
    ensures r.input@ == exprs@.reverse(), r.output@.len() == 0, r.ops@.len() == 0, r.error is None
//@ done
//@ fn core/cook/shunt.rs Shunter::is_complete
//@   ret r
//@   spec
    ensures r == (self.input@.len() == 0 && self.ops@.len() == 0)
//@ done
//@ fn core/cook/shunt.rs Shunter::pop_next
//@   ret r
//@   spec
    ensures
        old(self).input@.len() == 0 ==> r is None && final(self).input@ =~= old(self).input@ && *final(self) == (Shunter { input: final(self).input, ..*old(self) }),
        old(self).input@.len() > 0 ==> r == Some(old(self).input@.last()) && final(self).input@ == old(self).input@.drop_last()
            && *final(self) == (Shunter { input: final(self).input, ..*old(self) }),
//@ done
//@ fn core/cook/shunt.rs Shunter::peek_next
//@   ret r
//@   sub /&mut self/&self/
//@   spec
    ensures own(r) == start(self.input@.reverse())
//@ done
//@ fn core/cook/shunt.rs Shunter::push_back
//@   spec
    ensures final(self).input@ == old(self).input@.push(expr), *final(self) == (Shunter { input: final(self).input, ..*old(self) })
//@ done
//@ fn core/cook/shunt.rs Shunter::push_op
//@   spec
    ensures final(self).ops@ == old(self).ops@.push(op), *final(self) == (Shunter { ops: final(self).ops, ..*old(self) })
//@ done
//@ fn core/cook/shunt.rs Shunter::drop_op
//@   spec
    requires old(self).ops@.len() > 0
    ensures final(self).ops@ == old(self).ops@.drop_last(), *final(self) == (Shunter { ops: final(self).ops, ..*old(self) })
//@ done
//@ fn core/cook/shunt.rs Shunter::peek_op
//@   ret r
//@   spec
    ensures own(r) == (if self.ops@.len() > 0 { Some(self.ops@.last()) } else { None })
//@ done
//@ fn core/cook/shunt.rs Shunter::pop_one_output
//@   ret r
//@   spec
    ensures
        old(self).output@.len() == 0 ==> r is None && final(self).output@ =~= old(self).output@ && *final(self) == (Shunter { output: final(self).output, ..*old(self) }),
        old(self).output@.len() > 0 ==> r == Some(old(self).output@.last()) && final(self).output@ == old(self).output@.drop_last()
            && *final(self) == (Shunter { output: final(self).output, ..*old(self) }),
//@ done
//@ fn core/cook/shunt.rs Shunter::pop_two_output
//@   ret r
//@   spec
    ensures
        old(self).output@.len() < 2 ==> r is None && final(self).output@ =~= old(self).output@ && *final(self) == (Shunter { output: final(self).output, ..*old(self) }),
        old(self).output@.len() >= 2 ==> r == Some((old(self).output@.last(), old(self).output@.drop_last().last())) && final(self).output@ == old(self).output@.drop_last().drop_last()
            && *final(self) == (Shunter { output: final(self).output, ..*old(self) }),
//@ done
//@ fn core/cook/shunt.rs Shunter::push_output
//@   spec
    ensures final(self).output@ == old(self).output@.push(expr), *final(self) == (Shunter { output: final(self).output, ..*old(self) })
//@ done
//@ fn core/cook/shunt.rs Shunter::form_apply
//@   ret r
//@   sub /assert!\((xs\.len\(\) == 2)\)/insist(\1)/
//@   sub /xs\[(\d)\]/nth(xs, \1)/
//@   sub /xs\.to_vec\(\)/copied(xs)/
//@   sub /args\.to_vec\(\)/copied(args)/
//@   spec
    ensures forall|ys: Seq<RcExpr>| ys =~= xs@ ==> #[trigger] applied(op, ys, r), *final(self) == (Shunter { source_map: final(self).source_map, ..*old(self) })
//@ done
//@ fn core/cook/shunt.rs Shunter::apply_zero
//@   spec
    ensures final(self).output@ == old(self).output@.push(expr), *final(self) == (Shunter { output: final(self).output, ..*old(self) })
//@ done
//@ fn core/cook/shunt.rs Shunter::apply_one
//@   spec
    ensures
        *final(self) == (Shunter { output: final(self).output, error: final(self).error, source_map: final(self).source_map, ..*old(self) }),
        sticks(old(self), final(self)),
        old(self).output@.len() >= 1 ==> final(self).error == old(self).error && final(self).output@ =~= old(self).output@.drop_last().push(final(self).output@.last())
            && applied(expr, seq![old(self).output@.last()], final(self).output@.last()),
//@ done
//@ fn core/cook/shunt.rs Shunter::apply_two
//@   spec
    ensures
        *final(self) == (Shunter { output: final(self).output, error: final(self).error, source_map: final(self).source_map, ..*old(self) }),
        sticks(old(self), final(self)),
        old(self).output@.len() >= 2 ==> final(self).error == old(self).error && final(self).output@ =~= old(self).output@.drop_last().drop_last().push(final(self).output@.last())
            && applied(expr, seq![old(self).output@.drop_last().last(), old(self).output@.last()], final(self).output@.last()),
//@ done
//@ fn core/cook/shunt.rs Shunter::apply_op
//@   spec
    requires fix(op) is Some
    ensures
        *final(self) == (Shunter { output: final(self).output, error: final(self).error, source_map: final(self).source_map, ..*old(self) }),
        sticks(old(self), final(self)), did(old(self), final(self), op),
//@ done
}
/// The top operator applied: what the state becomes.
pub open spec fn folded(s: &Shunter, ls: Seq<Option<Tree>>, cur: Option<Tree>, e: RcExpr) -> Tree {
    let op = s.ops@.last();
    match (ls.last(), cur) {
        (None, _) => Tree::Pre { op, r: Box::new(cur->0), e },
        (Some(l), Some(r)) => Tree::Bin { l: Box::new(l), op, r: Box::new(r), e },
        (Some(l), None) => Tree::Post { l: Box::new(l), op, e },
    }
}
pub proof fn lemma_depth(s: &Shunter, ls: Seq<Option<Tree>>, cur: Option<Tree>, done: Seq<RcExpr>)
    requires st(s, ls, cur, done), s.ops@.len() > 0, full(s, cur)
    ensures
        takes_right(s.ops@.last()) ==> cur is Some && s.output@.last() == means(cur->0) && s.output@.len() >= 1,
        takes_left(s.ops@.last()) && takes_right(s.ops@.last()) ==> ls.last() is Some && s.output@.len() >= 2 && s.output@.drop_last().last() == means(ls.last()->0)
            && s.output@.drop_last().drop_last() =~= lefts(ls.drop_last()),
        fix(s.ops@.last()) == Some(Fixity::UnaryPrefix) ==> ls.last() is None && s.output@.drop_last() =~= lefts(ls.drop_last()),
        fix(s.ops@.last()) == Some(Fixity::UnaryPostfix) ==> cur is None && ls.last() is Some && s.output@.len() >= 1 && s.output@.last() == means(ls.last()->0) && s.output@.drop_last() =~= lefts(ls.drop_last()),
        takes_left(s.ops@.last()) || takes_right(s.ops@.last()),
{
    assert(waits(s.ops@, ls, ls.len() - 1));
    match (ls.last(), cur) { (Some(l), Some(r)) => { assert(s.output@ =~= lefts(ls.drop_last()) + seq![means(l)] + seq![means(r)]); }, _ => {} }
}
pub proof fn lemma_fold(s: &Shunter, t: &Shunter, ls: Seq<Option<Tree>>, cur: Option<Tree>, done: Seq<RcExpr>)
    requires
        st(s, ls, cur, done), s.ops@.len() > 0, full(s, cur),
        t.ops@ == s.ops@.drop_last(),
        takes_left(s.ops@.last()) && takes_right(s.ops@.last()) ==> t.output@ =~= s.output@.drop_last().drop_last().push(t.output@.last())
            && applied(body(s.ops@.last()), seq![s.output@.drop_last().last(), s.output@.last()], t.output@.last()),
        !(takes_left(s.ops@.last()) && takes_right(s.ops@.last())) ==> t.output@ =~= s.output@.drop_last().push(t.output@.last()) && applied(body(s.ops@.last()), seq![s.output@.last()], t.output@.last()),
    ensures
        st(t, ls.drop_last(), Some(folded(s, ls, cur, t.output@.last())), done),
        full(t, Some(folded(s, ls, cur, t.output@.last()))),
        forall|o: RcExpr| #![trigger keeps(folded(s, ls, cur, t.output@.last()), o)] (cur is Some ==> keeps(cur->0, o) && holds(s.ops@.last(), o)) ==> keeps(folded(s, ls, cur, t.output@.last()), o),
{
    lemma_depth(s, ls, cur, done);
    let k = ls.len() - 1;
    assert(waits(s.ops@, ls, k));
    let f = folded(s, ls, cur, t.output@.last());
    assert(grouped(f));
    let ls2 = ls.drop_last();
    assert forall|j: int| 0 <= j < ls2.len() implies #[trigger] waits(t.ops@, ls2, j) by { assert(waits(s.ops@, ls, j)); }
    assert(read(s.ops@, ls) =~= read(t.ops@, ls2) + (match ls.last() { Some(x) => text(x), None => seq![] }).push(s.ops@.last()));
    assert(read(t.ops@, ls2) + text(f) =~= done);
    if ls2.len() > 0 { assert(waits(s.ops@, ls, k - 1)); assert(takes(t.ops@.last(), f)); }
}
/// The top operator gets its operands before op is put down.
pub broadcast proof fn lemma_seat(s: &Shunter, u: &Shunter, t: &Shunter, op: RcExpr, done: Seq<RcExpr>)
    requires #[trigger] seating(s, op, done), #[trigger] did(u, t, s.ops@.last()), dropped(s, u), fix(s.ops@.last()) == Some(Fixity::UnaryPostfix) || holds(s.ops@.last(), op)
    ensures seating(t, op, done), t.error == s.error
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) && (cur is Some ==> keeps(cur->0, op));
    lemma_depth(s, ls, cur, done);
    lemma_fold(s, t, ls, cur, done);
    assert(st(t, ls.drop_last(), Some(folded(s, ls, cur, t.output@.last())), done));
}
/// op is put on the stack.
pub broadcast proof fn lemma_seated(s: &Shunter, t: &Shunter, op: RcExpr, done: Seq<RcExpr>)
    requires #[trigger] seating(s, op, done), #[trigger] t.ops@ == s.ops@.push(op), t.output@ == s.output@, takes_left(op), s.ops@.len() > 0 ==> !holds(s.ops@.last(), op) && fix(s.ops@.last()) != Some(Fixity::UnaryPostfix)
    ensures at(t, done.push(op), takes_right(op) == false)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) && (cur is Some ==> keeps(cur->0, op));
    lemma_put(s, t, ls, cur, done, op);
}
/// op is applied at once: it takes nothing, or what has just been read.
pub broadcast proof fn lemma_alone(s: &Shunter, t: &Shunter, op: RcExpr, done: Seq<RcExpr>)
    requires #[trigger] did(s, t, op),
        (fix(op) == Some(Fixity::Nullary) && #[trigger] at(s, done, false))
    ensures t.error == s.error, at(t, done.push(op), true)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == false && (cur is Some ==> edge(cur->0));
    let n = Tree::Nul { op, e: body(op) };
    assert(grouped(n));
    assert forall|k: int| 0 <= k < ls.len() implies #[trigger] waits(t.ops@, ls, k) by { assert(waits(s.ops@, ls, k)); }
    assert(st(t, ls, Some(n), done.push(op)));
}
pub broadcast proof fn lemma_after(s: &Shunter, t: &Shunter, op: RcExpr, done: Seq<RcExpr>)
    requires #[trigger] did(s, t, op), fix(op) == Some(Fixity::UnaryPostfix), #[trigger] seating(s, op, done),
        s.ops@.len() > 0 ==> !holds(s.ops@.last(), op) && fix(s.ops@.last()) != Some(Fixity::UnaryPostfix)
    ensures t.error == s.error, at(t, done.push(op), true)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) && (cur is Some ==> keeps(cur->0, op));
    let n = Tree::Post { l: Box::new(cur->0), op, e: t.output@.last() };
    assert(s.output@.drop_last() =~= lefts(ls));
    assert(grouped(n));
    assert forall|k: int| 0 <= k < ls.len() implies #[trigger] waits(t.ops@, ls, k) by { assert(waits(s.ops@, ls, k)); }
    assert(st(t, ls, Some(n), done.push(op)));
}
/// A prefix operator waits for what comes.
pub broadcast proof fn lemma_ahead(s: &Shunter, t: &Shunter, op: RcExpr, done: Seq<RcExpr>)
    requires #[trigger] fix(op) == Some(Fixity::UnaryPrefix), #[trigger] at(s, done, false), #[trigger] t.ops@ == s.ops@.push(op), t.output@ == s.output@
    ensures at(t, done.push(op), false)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == false && (cur is Some ==> edge(cur->0));
    lemma_put(s, t, ls, cur, done, op);
}
pub open spec fn held(s: &Shunter, done: Seq<RcExpr>) -> bool { exists|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) }
pub broadcast proof fn lemma_held(s: &Shunter, done: Seq<RcExpr>)
    requires #[trigger] at(s, done, true)
    ensures held(s, done)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == true && (cur is Some ==> edge(cur->0));
    assert(st(s, ls, cur, done));
}
/// The top operator gets its operands at the end.
pub broadcast proof fn lemma_clear(s: &Shunter, u: &Shunter, t: &Shunter, done: Seq<RcExpr>)
    requires #[trigger] held(s, done), #[trigger] did(u, t, s.ops@.last()), dropped(s, u)
    ensures held(t, done), t.error == s.error
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur);
    lemma_depth(s, ls, cur, done);
    lemma_fold(s, t, ls, cur, done);
    assert(st(t, ls.drop_last(), Some(folded(s, ls, cur, t.output@.last())), done));
}
pub broadcast proof fn lemma_cleared(s: &Shunter, done: Seq<RcExpr>)
    requires #[trigger] held(s, done), s.ops@.len() == 0, s.input@.len() == 0
    ensures over(s, done)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur);
    assert(lefts(ls) =~= seq![]);
    assert(grouped(cur->0) && text(cur->0) =~= done);
    assert(s.output@ =~= seq![means(cur->0)]);
}
/// An operand is read.
pub proof fn lemma_operand(s: &Shunter, t: &Shunter, x: RcExpr, done: Seq<RcExpr>)
    requires at(s, done, false), fix(x) is None, t.output@ == s.output@.push(x), t.ops == s.ops
    ensures at(t, done.push(x), true)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == false && (cur is Some ==> edge(cur->0));
    let n = Tree::Leaf { e: x };
    assert(grouped(n));
    assert forall|k: int| 0 <= k < ls.len() implies #[trigger] waits(t.ops@, ls, k) by { assert(waits(s.ops@, ls, k)); }
    assert(st(t, ls, Some(n), done.push(x)));
}
/// Between tokens an operand just read keeps what it has from any operator.
pub proof fn lemma_seating(s: &Shunter, op: RcExpr, done: Seq<RcExpr>)
    requires at(s, done, true)
    ensures seating(s, op, done)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == true && (cur is Some ==> edge(cur->0));
    assert(st(s, ls, cur, done));
}
/// at() looks at the stacks only.
pub proof fn lemma_same(s: &Shunter, t: &Shunter, done: Seq<RcExpr>, have: bool)
    requires at(s, done, have), t.ops == s.ops, t.output == s.output
    ensures at(t, done, have)
{
    let (ls, cur) = choose|ls: Seq<Option<Tree>>, cur: Option<Tree>| #[trigger] st(s, ls, cur, done) && full(s, cur) == have && (cur is Some ==> edge(cur->0));
    assert(st(t, ls, cur, done));
}
/// One token: the input before and after, s and t the stacks before and after.
pub proof fn lemma_token(s: &Shunter, u: &Shunter, t: &Shunter, total: Seq<RcExpr>)
    requires
        s.input@.len() > 0, s.error is None,
        u.ops == s.ops, u.output == s.output,
        u.input@.reverse() =~= some(gap(Some(s.input@.last()), start(s.input@.drop_last().reverse()))) + s.input@.drop_last().reverse(),
        t.input == u.input,
        fix(s.input@.last()) is None ==> t.output@ == u.output@.push(s.input@.last()) && t.ops == u.ops && t.error == u.error,
        fix(s.input@.last()) is Some ==> ({
            let op = s.input@.last();
            &&& forall|done: Seq<RcExpr>| #![trigger at(u, done, false)] !takes_left(op) && at(u, done, false) ==> t.error == u.error && at(t, done.push(op), !takes_right(op))
            &&& forall|done: Seq<RcExpr>| #![trigger seating(u, op, done)] takes_left(op) && seating(u, op, done) ==> t.error == u.error && at(t, done.push(op), !takes_right(op))
        }),
        inv(s, total), !stuck(Some(s.input@.last()), start(s.input@.drop_last().reverse()))
    ensures inv(t, total), t.error == u.error
{
    let x = s.input@.last();
    let rest = s.input@.drop_last().reverse();
    let (done, have) = choose|done: Seq<RcExpr>, have: bool| #[trigger] running(s, total, done, have);
    lemma_same(s, u, done, have);
    assert(s.input@.reverse() =~= seq![x] + rest);
    assert((seq![x] + rest).skip(1) =~= rest);
    if fix(x) is None { lemma_operand(u, t, x, done); }
    else if takes_left(x) { lemma_seating(u, x, done); }
    assert(t.error == u.error);
    let g = gap(Some(x), start(rest));
    let rest2 = t.input@.reverse();
    lemma_gap(x, rest);
    assert(at(t, done.push(x), !takes_right(x)));
    assert(done.push(x) + filled(rest2) =~= done + filled(seq![x] + rest));
    assert(running(t, total, done.push(x), !takes_right(x)));
}
/// The input after a token and its fill, if any, has no gap in front.
pub proof fn lemma_gap(x: RcExpr, rest: Seq<RcExpr>)
    ensures
        filled(seq![x] + rest) =~= seq![x] + filled(some(gap(Some(x), start(rest))) + rest),
        !stuck(Some(x), start(rest)) ==> gap(Some(x), start(some(gap(Some(x), start(rest))) + rest)) is None && !stuck(Some(x), start(some(gap(Some(x), start(rest))) + rest)),
        fillable(seq![x] + rest) ==> !stuck(Some(x), start(rest)) && fillable(some(gap(Some(x), start(rest))) + rest),
{
    assert((seq![x] + rest).skip(1) =~= rest);
    let g = gap(Some(x), start(rest));
    if g is Some { lemma_fill(Some(x), rest); } else { assert(some(g) + rest =~= rest); }
}
/// The end of the input.
pub proof fn lemma_last(s: &Shunter, u: &Shunter, t: &Shunter, total: Seq<RcExpr>)
    requires
        s.input@.len() == 0, inv(s, total), u.ops == s.ops, u.output == s.output, u.error == s.error, u.input@.len() == 0,
        forall|done: Seq<RcExpr>| #![trigger at(u, done, true)] at(u, done, true) ==> t.error == u.error && over(t, done),
        u.ops@.len() == 0 ==> t == u,
    ensures inv(t, total), t.error == s.error
{
    if over(s, total) {
        let x = choose|x: Tree| #[trigger] grouped(x) && text(x) == total && s.output@ == seq![means(x)];
        assert(grouped(x) && text(x) == total && t.output@ == seq![means(x)]);
    } else {
        let (done, have) = choose|done: Seq<RcExpr>, have: bool| #[trigger] running(s, total, done, have);
        assert(s.input@.reverse() =~= seq![]);
        assert(done =~= total);
        lemma_same(s, u, done, true);
        assert(at(u, done, true));
    }
}
/// Before anything has been read.
pub proof fn lemma_first(s: &Shunter, xs: Seq<RcExpr>)
    requires xs.len() > 0, s.input@.reverse() =~= some(gap(None, start(xs))) + xs, s.ops@.len() == 0, s.output@.len() == 0, !stuck(None, start(xs))
    ensures inv(s, whole(xs)), fillable(xs) ==> fillable(s.input@.reverse())
{
    let rest = s.input@.reverse();
    let done = Seq::<RcExpr>::empty();
    let ls = Seq::<Option<Tree>>::empty();
    assert(lefts(ls) =~= seq![]);
    assert(st(s, ls, None, done));
    if gap(None, start(xs)) is Some { lemma_fill(None, xs); } else { assert(rest =~= xs); }
    assert(done + filled(rest) =~= whole(xs));
    assert(running(s, whole(xs), done, false));
}
/// An operator put on the stack.
pub proof fn lemma_put(s: &Shunter, t: &Shunter, ls: Seq<Option<Tree>>, cur: Option<Tree>, done: Seq<RcExpr>, op: RcExpr)
    requires
        st(s, ls, cur, done), t.ops@ == s.ops@.push(op), t.output@ == s.output@,
        fix(op) == Some(Fixity::UnaryPrefix) ==> !full(s, cur),
        fix(op) != Some(Fixity::UnaryPrefix) ==> takes_left(op) && cur is Some && keeps(cur->0, op) && (s.ops@.len() > 0 ==> !holds(s.ops@.last(), op)),
    ensures at(t, done.push(op), !takes_right(op))
{
    let ls2 = ls.push(cur);
    assert(ls2.drop_last() =~= ls);
    assert(t.ops@.drop_last() =~= s.ops@);
    assert forall|j: int| 0 <= j < ls2.len() implies #[trigger] waits(t.ops@, ls2, j) by { if j < ls.len() { assert(waits(s.ops@, ls, j)); } }
    assert(read(t.ops@, ls2) =~= done.push(op));
    assert(lefts(ls2) =~= t.output@);
    assert(st(t, ls2, None, done.push(op)));
}
impl Shunter {
//@ fn core/cook/shunt.rs Shunter::seat_op
//@   head
    broadcast use {lemma_seat, lemma_seated, lemma_alone, lemma_after, lemma_ahead};
//@   spec
    requires sane(old(self)), fix(op) is Some
    ensures
        sane(final(self)), sticks(old(self), final(self)), final(self).input == old(self).input,
        forall|done: Seq<RcExpr>| #![trigger at(old(self), done, false)] !takes_left(op) && at(old(self), done, false) ==> final(self).error == old(self).error && at(final(self), done.push(op), !takes_right(op)),
        forall|done: Seq<RcExpr>| #![trigger seating(old(self), op, done)] takes_left(op) && seating(old(self), op, done) ==> final(self).error == old(self).error && at(final(self), done.push(op), !takes_right(op)),
    decreases old(self).ops@.len()
//@ done

//@ fn core/cook/shunt.rs Shunter::clear_ops
//@   head
    broadcast use {lemma_clear, lemma_held, lemma_cleared};
//@   attr #[verifier::loop_isolation(false)]
//@   spec
    requires sane(old(self))
    ensures
        final(self).ops@.len() == 0, final(self).input == old(self).input, sticks(old(self), final(self)),
        old(self).ops@.len() == 0 ==> *final(self) == *old(self),
        forall|done: Seq<RcExpr>| #![trigger at(old(self), done, true)] at(old(self), done, true) && old(self).input@.len() == 0 ==> final(self).error == old(self).error && over(final(self), done),
//@   loop 0
        invariant
            sane(self), self.input == old(self).input, sticks(old(self), self),
            old(self).ops@.len() == 0 ==> *self == *old(self),
            forall|done: Seq<RcExpr>| #![trigger at(old(self), done, true)] at(old(self), done, true) ==> self.error == old(self).error
                && held(self, done),
        decreases self.ops@.len()
//@ done
//@ fn core/cook/shunt.rs Shunter::insert_initial_fill
//@   sub /super::fill:://
//@   spec
    ensures
        ({
            let s = old(self).input@.reverse();
            let g = gap(None, start(s));
            &&& final(self).input@.reverse() =~= some(g) + s
            &&& *final(self) == (Shunter { input: final(self).input, error: final(self).error, ..*old(self) })
            &&& if stuck(None, start(s)) { final(self).error is Some } else { final(self).error == old(self).error }
        })
//@ done
//@ fn core/cook/shunt.rs Shunter::insert_fill
//@   sub /super::fill:://
//@   spec
    ensures
        ({
            let s = old(self).input@.reverse();
            let g = gap(Some(*lhs), start(s));
            &&& final(self).input@.reverse() =~= some(g) + s
            &&& *final(self) == (Shunter { input: final(self).input, error: final(self).error, ..*old(self) })
            &&& if stuck(Some(*lhs), start(s)) { final(self).error is Some } else { final(self).error == old(self).error }
        })
//@ done
//@ fn core/cook/shunt.rs Shunter::shunt1
//@   tail
    proof {
        let s = old(self);
        if s.input@.len() > 0 {
            let x = s.input@.last();
            let rest = s.input@.drop_last().reverse();
            assert(s.input@.reverse() =~= seq![x] + rest);
            lemma_gap(x, rest);
            let u = Shunter { input: self.input, ..*s };
            assert(self.input@.reverse() =~= some(gap(Some(x), start(rest))) + rest);
            if !stuck(Some(x), start(rest)) && s.error is None {
                assert forall|total: Seq<RcExpr>| #![trigger inv(s, total)] inv(s, total) implies inv(self, total) && self.error == s.error by { lemma_token(s, &u, self, total); }
            }
        } else {
            assert(s.input@.reverse() =~= seq![]);
            assert(self.input@.reverse() =~= seq![]);
            let u = Shunter { input: self.input, ..*s };
            assert forall|total: Seq<RcExpr>| #![trigger inv(s, total)] inv(s, total) implies inv(self, total) && self.error == s.error by { lemma_last(s, &u, self, total); }
        }
    }
//@   spec
    requires sane(old(self))
    ensures
        sane(final(self)), sticks(old(self), final(self)),
        filled(final(self).input@.reverse()).len() <= filled(old(self).input@.reverse()).len(),
        old(self).input@.len() > 0 ==> filled(final(self).input@.reverse()).len() < filled(old(self).input@.reverse()).len(),
        old(self).input@.len() == 0 ==> final(self).ops@.len() == 0 && final(self).input@.len() == 0,
        forall|total: Seq<RcExpr>| #![trigger inv(old(self), total)] inv(old(self), total) ==> final(self).error is Some || inv(final(self), total),
        forall|total: Seq<RcExpr>| #![trigger inv(old(self), total)] inv(old(self), total) && old(self).error is None && fillable(old(self).input@.reverse()) ==> fillable(final(self).input@.reverse()) && final(self).error is None,
//@ done
//@ fn core/cook/shunt.rs Shunter::shunt
//@   ret r
//@   attr #[verifier::loop_isolation(false)]
//@   sub /never\(\)/no_result()/
//@   sub /\bself\b/me/
//@   sub /\(mut me\)/(self)/
//@   head
    let mut me = self;
//@   loop 0
        invariant
            sane(&me),
            me.error is Some || inv(&me, whole(self.input@.reverse())),
            fillable(self.input@.reverse()) && !stuck(None, start(self.input@.reverse())) ==> me.error is None && fillable(me.input@.reverse()),
        decreases filled(me.input@.reverse()).len(), if me.ops@.len() > 0 { 1int } else { 0 }
//@   before while
    proof {
        let xs = self.input@.reverse();
        if !stuck(None, start(xs)) { lemma_first(&me, xs); }
    }
//@   spec
    requires self.ops@.len() == 0, self.output@.len() == 0, self.input@.len() > 0, self.error is None
    ensures
        r is Ok ==> reading(self.input@.reverse(), r->Ok_0),
        fillable(self.input@.reverse()) && !stuck(None, start(self.input@.reverse())) ==> r is Ok,
//@ done
}
//@ fn core/cook/shunt.rs shunt
//@   ret r
//@   sub /&mut SourceMap/SourceMap/
//@   head
    assert(exprs@.reverse().reverse() =~= exprs@);
//@   spec
    requires exprs@.len() > 0
    ensures
        r is Ok ==> reading(exprs@, r->Ok_0),
        fillable(exprs@) && !stuck(None, start(exprs@)) ==> r is Ok,
//@ done

// ---- lists of groups ---------------------------------------------------------
pub open spec fn is_sep(x: RcExpr) -> bool { *x.inner is Operator && *(*x.inner)->Operator_3.inner is ErrPseudoCat }
/// The groups between separators, and the one that goes on.
pub open spec fn parts(s: Seq<RcExpr>) -> (Seq<Seq<RcExpr>>, Seq<RcExpr>)
    decreases s.len()
{
    if s.len() == 0 { (seq![], seq![]) } else {
        let (gs, c) = parts(s.drop_last());
        if !is_sep(s.last()) { (gs, c.push(s.last())) } else if c.len() > 0 { (gs.push(c), seq![]) } else { (gs, c) }
    }
}
pub open spec fn groups_of(s: Seq<RcExpr>) -> Seq<Seq<RcExpr>> { let (gs, c) = parts(s); if c.len() > 0 { gs.push(c) } else { gs } }
pub open spec fn views(v: Seq<Vec<RcExpr>>) -> Seq<Seq<RcExpr>> { Seq::new(v.len(), |i: int| v[i]@) }
pub fn taken(v: &mut Vec<RcExpr>) -> (r: Vec<RcExpr>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut r = Vec::new(); std::mem::swap(v, &mut r); r }
//@ fn core/cook/mod.rs is_cat_operator
//@   ret r
//@   spec
    ensures r == is_sep(*expr)
//@ done
//@ fn core/cook/mod.rs split_at_cat_operators
//@   ret r
//@   each 0 ref
//@   attr #[verifier::loop_isolation(false)]
//@   sub /std::mem::take\(/taken(/
//@   spec
    ensures views(r@) =~= groups_of(atoms@)
//@   loop 0
        invariant 0 <= i_0 <= n_0 == atoms@.len(), views(groups@) =~= parts(atoms@.take(i_0 as int)).0, current@ =~= parts(atoms@.take(i_0 as int)).1
        decreases n_0 - i_0
//@   end 0
    proof {
        assert(atoms@.take(i_0 as int).drop_last() =~= atoms@.take(i_0 - 1));
    }
//@   after 0
    assert(atoms@.take(n_0 as int) =~= atoms@);
//@ done
}

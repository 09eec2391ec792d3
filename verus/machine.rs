// Contracts over the machine's transitions: what a value does to the
// continuation that waits for it, how a variable is entered, and what each
// instruction makes of the state.
//@ include frames

// ---- names of the source ---------------------------------------------------
impl Smid {
    pub uninterp spec fn valid(self) -> bool;
    pub uninterp spec fn located(self) -> bool;
    #[verifier::external_body]
    pub fn is_valid(&self) -> (r: bool) ensures r == self.valid() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_source_location(&self) -> (r: bool) ensures r == self.located() { unimplemented!() }
}
//@ item eval/stg/tags.rs enum DataConstructor
impl Copy for DataConstructor {}
impl Clone for DataConstructor { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl DataConstructor {
//@ fn eval/stg/tags.rs DataConstructor::tag
//@   ret r
//@   spec
    ensures r == self as Tag
//@ done
//@ fn eval/stg/tags.rs DataConstructor::is_io_constructor
//@   ret r
//@   spec
    ensures r == (12 <= tag <= 15)
//@ done
//@ fn eval/stg/tags.rs TryFrom<Tag>~for~DataConstructor::try_from
//@   ret r
//@   sub /Result<Self, Self::Error>/Result<Self, ()>/
//@   sub /value if value == DataConstructor::(\w+) as Tag =>/value if same_tag(value, DataConstructor::\1) =>/
//@   spec
    ensures r is Ok <==> value <= 17, r is Ok ==> r->Ok_0 as Tag == value
//@ done
}
pub fn same_tag(t: Tag, c: DataConstructor) -> (r: bool) ensures r == (t == c as Tag) { t == c as Tag }

// ---- the program -----------------------------------------------------------
pub type St = BcMachineState;
pub type Res = Result<(), ExecutionError>;
//@ item eval/bytecode/opcode.rs enum Op
impl Copy for Op {}
impl Clone for Op { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@ const eval/bytecode/opcode.rs NO_BRANCH FLAG_EAGER FORM_LAMBDA FORM_THUNK FORM_VALUE
//@ const eval/bytecode/program.rs PAP_MAX_ARITY
//@ item eval/bytecode/predecode.rs struct Instr
impl Copy for Instr {}
impl Clone for Instr { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@ item eval/bytecode/machine.rs struct FormHeader
impl Copy for FormHeader {}
impl Clone for FormHeader { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct StgNative { x: u8 }
pub struct Codes { x: u8 }
//@ item eval/bytecode/program.rs struct BytecodeProgram
//@ item eval/bytecode/predecode.rs struct DecodedProgram
//@   sub /HashMap<CodeRef, CodeRef>/Codes/

// ---- states ----------------------------------------------------------------
pub proof fn axiom_small<C>(m: &Mem<C>, base: int, n: int)
    requires fits::<C>(m.room(), base, n)
    ensures n < 0x4000_0000_0000_0000
{ admit(); }
/// Nothing has gone, and what has changed is well formed.
pub open spec fn grew(o: &M, m: &M) -> bool {
    &&& closed(o) ==> closed(m)
    &&& forall|b: int| #[trigger] o.room().contains_key(b) ==> m.room().contains_key(b) && m.room()[b] == o.room()[b]
    &&& forall|a: int| #[trigger] o.frames().f.contains_key(a) ==> m.frames().f.contains_key(a) && m.frames().f[a] == o.frames().f[a]
    &&& forall|b: int, i: int| o.room().contains_key(b) ==> (#[trigger] m.cells()[(b, i)] == o.cells()[(b, i)] || good(m, m.cells()[(b, i)]))
}
/// One cell has been overwritten.
pub open spec fn put(o: &M, m: &M, c: (int, int), v: BcValue) -> bool { m.cells() == o.cells().insert(c, v) && m.room() == o.room() && m.frames() == o.frames() }
pub open spec fn cont_ok(m: &M, k: BcContinuation) -> bool {
    match k {
        BcContinuation::Branch { environment, .. } => m.frames().has(environment),
        BcContinuation::BranchPredecoded { environment, .. } => m.frames().has(environment),
        BcContinuation::Update { environment, .. } => m.frames().has(environment),
        BcContinuation::ApplyTo { args, .. } => arr_ok(m, args),
        BcContinuation::DeMeta { environment, .. } => m.frames().has(environment),
        BcContinuation::SeqBind { environment, .. } => m.frames().has(environment),
        BcContinuation::LookupLitForce { default_closure, .. } => m.frames().has(default_closure.env),
        BcContinuation::CaptureEnd => true,
        BcContinuation::FusedPrimopLeft { environment, .. } => m.frames().has(environment),
        BcContinuation::FusedPrimopRight { left, environment, .. } => good(m, left) && m.frames().has(environment),
    }
}
pub open spec fn stack_ok(m: &M, s: Seq<BcContinuation>) -> bool { forall|i: int| 0 <= i < s.len() ==> cont_ok(m, #[trigger] s[i]) }
/// Everything the state refers to exists.
pub open spec fn ok(m: &M, s: &St) -> bool {
    &&& closed(m)
    &&& m.frames().has(s.globals) && m.frames().has(s.root_env)
    &&& good(m, s.current)
    &&& stack_ok(m, s.stack@)
    &&& goods(m, s.stash@)
    &&& forall|i: int| 0 <= i < s.suspended_stacks@.len() ==> stack_ok(m, (#[trigger] s.suspended_stacks@[i])@)
    &&& s.stripped_meta is Some ==> good(m, s.stripped_meta->0)
}
pub broadcast proof fn lemma_good_kept(o: &M, m: &M, v: BcValue)
    requires #[trigger] grew(o, m), #[trigger] good(o, v)
    ensures good(m, v)
{}
pub broadcast proof fn lemma_cont_kept(o: &M, m: &M, k: BcContinuation)
    requires #[trigger] grew(o, m), #[trigger] cont_ok(o, k)
    ensures cont_ok(m, k)
{
    if k is ApplyTo {
        let a = k->ApplyTo_args;
        assert forall|j: int| 0 <= j < a.length implies good(m, #[trigger] m.cells()[(a.base(), j)]) by {
            assert(good(o, o.cells()[(a.base(), j)]));
        }
    }
}
pub broadcast proof fn lemma_stack_kept(o: &M, m: &M, s: Seq<BcContinuation>)
    requires #[trigger] grew(o, m), #[trigger] stack_ok(o, s)
    ensures stack_ok(m, s)
{
    assert forall|i: int| 0 <= i < s.len() implies cont_ok(m, #[trigger] s[i]) by { lemma_cont_kept(o, m, s[i]); }
}
pub broadcast proof fn lemma_grew_trans(a: &M, b: &M, c: &M)
    requires #[trigger] grew(a, b), #[trigger] grew(b, c)
    ensures grew(a, c)
{
    assert forall|x: int, i: int| a.room().contains_key(x) implies (#[trigger] c.cells()[(x, i)] == a.cells()[(x, i)] || good(c, c.cells()[(x, i)])) by {
        assert(b.room().contains_key(x));
        assert(b.cells()[(x, i)] == a.cells()[(x, i)] || good(b, b.cells()[(x, i)]));
    }
}
pub broadcast proof fn lemma_undisturbed_grew(o: &M, m: &M)
    requires #[trigger] undisturbed(o, m), closed(o) ==> closed(m)
    ensures grew(o, m)
{}
pub broadcast proof fn lemma_put_grew(o: &M, m: &M, c: (int, int), v: BcValue)
    requires #[trigger] put(o, m, c, v), closed(o), good(o, v)
    ensures grew(o, m)
{
    assert forall|a: int, k: int| m.frames().f.contains_key(a) && 0 <= k < m.frames().f[a].bindings.length implies good(m, #[trigger] m.cells()[(m.frames().f[a].bindings.base(), k)]) by {
        assert(good(o, o.cells()[(o.frames().f[a].bindings.base(), k)]));
    }
}
pub broadcast group kept {  lemma_good_kept, lemma_cont_kept, lemma_stack_kept, lemma_grew_trans, lemma_undisturbed_grew, lemma_put_grew }
/// Only what evaluation moves has changed.
pub open spec fn only(s: &St, t: &St) -> bool {
    *t == (St { current: t.current, stack: t.stack, annotation: t.annotation, last_annotation: t.last_annotation, ..*s })
}
pub open spec fn steady(s: &St, t: &St) -> bool { t.annotation == s.annotation && t.last_annotation == s.last_annotation }
impl BcMachineState {
//@ fn eval/bytecode/machine.rs BcMachineState::set_annotation
//@   spec
    ensures *final(self) == (St { annotation: smid, last_annotation: if smid.located() { smid } else { old(self).last_annotation }, ..*old(self) })
//@ done
}
pub open spec fn plain(code: CodeRef, env: Env, v: BcValue) -> bool { v is Closure && v->Closure_0.is(false, 0, 0, code, env) }
/// `v` is the code, in a new frame that binds `vs` in front of `next`.
pub open spec fn entered(o: &M, m: &M, v: BcValue, code: CodeRef, vs: Seq<BcValue>, next: Env) -> bool {
    undisturbed(o, m) && v is Closure && plain(code, v->Closure_0.env, v) && holds(m, v->Closure_0.env, vs, next)
}
/// The branch of a case for a value that has none of its tags.
pub open spec fn otherwise(o: &M, m: &M, s: &St, t: &St, fallback: Option<CodeRef>, v: BcValue, next: Env, r: Res, none: ExecutionError) -> bool {
    match fallback {
        Some(code) => if r is Ok { entered(o, m, t.current, code, seq![v], next) } else { r->Err_0 is Heap },
        None => r == Res::Err(none),
    }
}
pub open spec fn tail_of(k: BcContinuation) -> Option<CodeRef> {
    match k {
        BcContinuation::Branch { fallback, .. } => fallback,
        BcContinuation::BranchPredecoded { fallback, .. } => if fallback != NO_BRANCH { Some(fallback) } else { None },
        _ => None,
    }
}
pub open spec fn env_of(k: BcContinuation) -> Env {
    match k {
        BcContinuation::Branch { environment, .. } => environment,
        BcContinuation::BranchPredecoded { environment, .. } => environment,
        _ => arbitrary(),
    }
}
pub open spec fn ann_of(k: BcContinuation) -> Smid {
    match k {
        BcContinuation::Branch { annotation, .. } => annotation,
        BcContinuation::BranchPredecoded { annotation, .. } => annotation,
        BcContinuation::LookupLitForce { smid, .. } => smid,
        _ => arbitrary(),
    }
}
pub open spec fn blamed(k: BcContinuation, s: &St) -> Smid { if ann_of(k).valid() { ann_of(k) } else { s.annotation } }
/// Both operands of an arithmetic or comparison instruction are there: the
/// intrinsic runs on them.
pub open spec fn primop(o: &M, m: &M, s: &St, t: &St, id: u8, left: BcValue, right: BcValue, next: Env, r: Res) -> bool {
    if r is Ok {
        &&& t.pending_bif == Some(id)
        &&& t.pending_bif_args@ =~= seq![DecodedRef::Local(0), DecodedRef::Local(1)]
        &&& *t == (St { current: t.current, stack: t.stack, pending_bif: t.pending_bif, pending_bif_args: t.pending_bif_args, ..*s })
        &&& entered(o, m, t.current, s.blackhole, seq![left, right], next)
    } else { r->Err_0 is Heap && only(s, t) }
}
/// A value reaches a continuation that does the same with every value.
pub open spec fn common(k: BcContinuation) -> bool { k is Update || k is DeMeta || k is SeqBind || k is CaptureEnd || k is FusedPrimopLeft || k is FusedPrimopRight }
pub open spec fn passed(o: &M, m: &M, s: &St, t: &St, k: BcContinuation, v: BcValue, r: Res) -> bool {
    match k {
        // the thunk's own slot gets the value, and the value goes on
        BcContinuation::Update { environment, index, .. } => only(s, t) && steady(s, t) && t.current == s.current && t.stack@ == s.stack@.drop_last() && match place_of(o, environment, index as int) {
            Some(c) => r is Ok && put(o, m, c, v),
            None => r is Err && *m == *o,
        },
        // no metadata
        BcContinuation::DeMeta { or_else, environment, .. } => only(s, t) && steady(s, t) && t.stack@ == s.stack@.drop_last() && if r is Ok { entered(o, m, t.current, or_else, seq![v], environment) } else { r->Err_0 is Heap },
        // the value was only to be forced
        BcContinuation::SeqBind { body, environment, annotation } => only(s, t) && t.stack@ == s.stack@.drop_last() && r is Ok && *m == *o && plain(body, environment, t.current) && t.annotation == annotation,
        BcContinuation::CaptureEnd => r is Ok && *m == *o && *t == (St { stack: t.stack, capture_end_pending: true, ..*s }) && t.stack@ == s.stack@.drop_last(),
        BcContinuation::FusedPrimopLeft { primop_id, right, environment, annotation } => only(s, t) && steady(s, t) && r is Ok && *m == *o && plain(right, environment, t.current)
            && t.stack@ == s.stack@.drop_last().push(BcContinuation::FusedPrimopRight { primop_id, left: v, environment, annotation }),
        BcContinuation::FusedPrimopRight { primop_id, left, environment, .. } => t.stack@ == s.stack@.drop_last() && primop(o, m, s, t, primop_id, left, v, environment, r),
        _ => true,
    }
}
//@ always /BcEnvFrame::new\(/EnvironmentFrame::new(/
//@ always /ExecutionError::(NoBranchForNative|CannotReturnFunToCase|NotCallable|LookupOnFunction|NotValue|NoBranchForDataTag)\(\s*((?:\w|\.)+),(?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\)/ExecutionError::\1(\2)/
//@ always /view\.frame\((\w+(?:\.\w+)?)\)(\s*)\.update\(&?view,/view.frame(\1)\2.update(&mut *view,/
//@ always /Array::(with_capacity|from_slice)\(view,/Array::\1(&mut *view,/
//@ always /(\w+)\.push\(\s*view,/\1.push(&mut *view,/
//@ always /ArgRefs::new\(\)/Vec::new()/
//@ fn eval/bytecode/machine.rs finish_fused_primop
//@   ret r
//@   spec
    requires ok(old(view), old(state)), good(old(view), left), good(old(view), right), old(view).frames().has(environment)
    ensures ok(final(view), final(state)), grew(old(view), final(view)), final(state).stack@ == old(state).stack@,
        primop(old(view), final(view), old(state), final(state), primop_id, left, right, environment, r)
//@   head
    broadcast use {kept, built};
//@ done
pub open spec fn native_returned(o: &M, m: &M, s: &St, t: &St, n: Native, r: Res) -> bool {
    let v = BcValue::Native(n);
    if s.stack@.len() == 0 { r is Ok && *m == *o && *t == (St { current: v, terminated: true, stack: t.stack, ..*s }) && t.stack@ == s.stack@ } else {
        let k = s.stack@.last();
        &&& passed(o, m, s, t, k, v, r)
        &&& !common(k) ==> only(s, t) && steady(s, t) && t.stack@ == s.stack@.drop_last()
        &&& (k is Branch || k is BranchPredecoded) ==> otherwise(o, m, s, t, tail_of(k), v, env_of(k), r, ExecutionError::NoBranchForNative(s.annotation))
        &&& k is ApplyTo ==> r == Res::Err(ExecutionError::NotCallable(k->ApplyTo_annotation))
        &&& k is LookupLitForce ==> r == Res::Err(ExecutionError::NoBranchForNative(blamed(k, s)))
    }
}
//@ fn eval/bytecode/machine.rs return_native
//@   ret r
//@   spec
    requires ok(old(view), old(state))
    ensures ok(final(view), final(state)), grew(old(view), final(view)),
        native_returned(old(view), final(view), old(state), final(state), value, r)
//@   head
    broadcast use {kept, built};
//@ done

// ---- entering a variable -----------------------------------------------------
#[verifier::external_body]
pub fn target_annotation(prog: &BytecodeProgram, decoded: &DecodedProgram, closure: &BcClosure) -> Smid { unimplemented!() }
/// A variable is entered: a thunk's slot becomes a black hole until the value
/// it is waiting for is written to that very slot.
pub open spec fn entering(o: &M, m: &M, s: &St, t: &St, env: Env, i: int, r: Res, none: ExecutionError) -> bool {
    &&& only(s, t) && steady(s, t)
    &&& match var(o, env, i) {
        None => r == Res::Err(none) && *m == *o && t.stack@ =~= s.stack@,
        Some(v) => r is Ok && t.current == v && if v is Closure && v->Closure_0.info.info.upd() {
            let c = place_of(o, env, i)->0;
            &&& put(o, m, c, m.cells()[c]) && plain(s.blackhole, env, m.cells()[c])
            &&& t.stack@ =~= s.stack@.push(t.stack@.last())
            &&& t.stack@.last() is Update && t.stack@.last()->Update_environment == env && t.stack@.last()->Update_index == i
        } else { *m == *o && t.stack@ =~= s.stack@ },
    }
}
pub open spec fn calling(o: &M, m: &M, s: &St, t: &St, env: Env, d: DecodedRef, r: Res) -> bool {
    match d {
        DecodedRef::Local(i) => entering(o, m, s, t, env, i as int, r, ExecutionError::BadEnvironmentIndex(i as usize)),
        DecodedRef::Global(i) => entering(o, m, s, t, s.globals, i as int, r, ExecutionError::BadGlobalIndex(i as usize)),
        DecodedRef::Value(_) => r == Res::Err(ExecutionError::NotCallable(s.annotation)) && *t == *s && *m == *o,
    }
}
//@ fn eval/bytecode/machine.rs enter_local
//@   ret r
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env)
    ensures ok(final(view), final(state)), grew(old(view), final(view)), entering(old(view), final(view), old(state), final(state), env, i as int, r, ExecutionError::BadEnvironmentIndex(i))
//@   head
    broadcast use {kept, built};
    proof { lemma_var(view, env, i as int); }
//@ done
//@ fn eval/bytecode/machine.rs enter_global
//@   ret r
//@   spec
    requires ok(old(view), old(state))
    ensures ok(final(view), final(state)), grew(old(view), final(view)), entering(old(view), final(view), old(state), final(state), old(state).globals, i as int, r, ExecutionError::BadGlobalIndex(i))
//@   head
    broadcast use {kept, built};
    proof { lemma_var(view, state.globals, i as int); }
//@ done
//@ fn eval/bytecode/machine.rs enter_callable
//@   ret r
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env)
    ensures ok(final(view), final(state)), grew(old(view), final(view)), calling(old(view), final(view), old(state), final(state), env, callable, r)
//@ done

// ---- functions ---------------------------------------------------------------
pub trait Order: Sized { spec fn num(self) -> int; fn order(self, o: Self) -> (r: Ordering) ensures r == if self.num() < o.num() { Ordering::Less } else if self.num() == o.num() { Ordering::Equal } else { Ordering::Greater }; }
pub use core::cmp::Ordering;
impl Order for isize { open spec fn num(self) -> int { self as int } fn order(self, o: isize) -> (r: Ordering) { if self < o { Ordering::Less } else if self == o { Ordering::Equal } else { Ordering::Greater } } }
impl Order for usize { open spec fn num(self) -> int { self as int } fn order(self, o: usize) -> (r: Ordering) { if self < o { Ordering::Less } else if self == o { Ordering::Equal } else { Ordering::Greater } } }
/// The items of an array, as they are now.
pub trait Items { spec fn all(self, m: &M) -> Seq<BcValue>; spec fn is_ok(self, m: &M) -> bool; fn items(&self, m: &M) -> (r: Vec<BcValue>) requires self.is_ok(m) ensures r@ =~= self.all(m); }
impl Items for Array<BcValue> {
    open spec fn all(self, m: &M) -> Seq<BcValue> { self.seq(m) }
    open spec fn is_ok(self, m: &M) -> bool { self.ok(m.room()) }
    #[verifier::external_body]
    fn items(&self, m: &M) -> (r: Vec<BcValue>) { unimplemented!() }
}
/// `slice.split_at(k)`, which panics beyond the end.
#[verifier::external_body]
pub fn split_at(v: Vec<BcValue>, k: usize) -> (r: (Vec<BcValue>, Vec<BcValue>))
    ensures k <= v@.len(), r.0@ == v@.take(k as int), r.1@ == v@.skip(k as int)
{ unimplemented!() }
pub fn with_first(x: BcValue, mut v: Vec<BcValue>) -> (r: Vec<BcValue>) ensures r@ =~= seq![x] + v@ { let mut w = v; w.insert(0, x); w }
pub fn two(x: BcValue, y: BcValue) -> (r: Vec<BcValue>) ensures r@ =~= seq![x, y] { let mut w = Vec::new(); w.push(x); w.push(y); w }
/// `table.get(k).copied()`
pub fn pick_opt(v: &Vec<CodeRef>, k: usize) -> (r: Option<CodeRef>) ensures r == if k < v@.len() { Some(v@[k as int]) } else { None } { if k < v.len() { Some(v[k]) } else { None } }
impl BytecodeProgram {
    pub open spec fn pap_code(&self, supplied: int, pending: int) -> Option<CodeRef> {
        let k = (supplied - 1) * 16 + (pending - 1);
        if 1 <= supplied <= 16 && 1 <= pending <= 16 && k < self.pap@.len() { Some(self.pap@[k]) } else { None }
    }
//@ fn eval/bytecode/program.rs BytecodeProgram::pap_offset
//@   ret r
//@   sub /self\s*\.pap\s*\.get\((.*?)\)\s*\.copied\(\)/pick_opt(&self.pap, \1)/
//@   spec
    ensures r == self.pap_code(supplied as int, pending as int)
//@ done
}
/// A function that has some of its arguments: code that will call it with
/// those and the rest.
pub open spec fn partial(o: &M, m: &M, v: BcClosure, prog: &BytecodeProgram, f: BcClosure, args: Seq<BcValue>) -> bool {
    &&& prog.pap_code(args.len() as int, f.info.info.ar() - args.len()) is Some
    &&& v.is(false, (f.info.info.ar() - args.len()) as u8, f.info.info.ann(), prog.pap_code(args.len() as int, f.info.info.ar() - args.len())->0, v.env)
    &&& undisturbed(o, m) && holds(m, v.env, seq![BcValue::Closure(f)] + args, f.env)
}
/// A function that has exactly its arguments: its body, with them bound.
pub open spec fn saturated(o: &M, m: &M, v: BcValue, f: BcClosure, args: Seq<BcValue>) -> bool {
    v is Closure && v->Closure_0.is(false, 0, f.info.info.ann(), f.info.body, v->Closure_0.env) && undisturbed(o, m) && holds(m, v->Closure_0.env, args, f.env)
}
//@ fn eval/bytecode/machine.rs partially_apply
//@   ret r
//@   sub /std::iter::once\((.*?)\)\.chain\((\w+)\.as_slice\(\)\.iter\(\)\.cloned\(\)\)/with_first(\1, \2.items(view))/
//@   spec
    requires closed(old(view)), old(view).frames().has(fun.env), arr_ok(old(view), args), args.length < fun.info.info.ar()
    ensures closed(final(view)), grew(old(view), final(view)), undisturbed(old(view), final(view)),
        r is Ok ==> partial(old(view), final(view), r->Ok_0, prog, *fun, args.seq(old(view))),
        r is Err ==> r->Err_0 is Heap || prog.pap_code(args.length as int, fun.info.info.ar() - args.length) is None,
//@   head
    broadcast use {kept, built};
    proof { lemma_items(view, args); }
//@ done
pub proof fn lemma_items(m: &M, a: Array<BcValue>)
    requires arr_ok(m, a)
    ensures goods(m, a.seq(m))
{
    assert forall|i: int| 0 <= i < a.seq(m).len() implies good(m, #[trigger] a.seq(m)[i]) by { assert(good(m, m.cells()[(a.base(), i)])); }
}
pub open spec fn applied(o: &M, m: &M, s: &St, t: &St, prog: &BytecodeProgram, args: Seq<BcValue>, annotation: Smid, r: Res) -> bool {
    let f = s.current->Closure_0;
    let n = f.info.info.ar() as int;
    let rest = s.stack@.drop_last();
    if args.len() == n {
        t.stack@ == rest && if r is Ok { saturated(o, m, t.current, f, args) } else { r->Err_0 is Heap }
    } else if args.len() < n {
        t.stack@ == rest && if r is Ok { t.current is Closure && partial(o, m, t.current->Closure_0, prog, f, args) } else { r->Err_0 is Heap || prog.pap_code(args.len() as int, n - args.len()) is None }
    } else if r is Ok {
        &&& saturated(o, m, t.current, f, args.take(n))
        &&& t.stack@ =~= rest.push(t.stack@.last())
        &&& t.stack@.last() is ApplyTo && t.stack@.last()->ApplyTo_annotation == annotation && t.stack@.last()->ApplyTo_args.seq(m) =~= args.skip(n)
    } else { r->Err_0 is Heap }
}
pub open spec fn fun_returned(o: &M, m: &M, s: &St, t: &St, prog: &BytecodeProgram, r: Res) -> bool {
    if s.stack@.len() == 0 { r is Ok && *m == *o && *t == (St { terminated: true, stack: t.stack, ..*s }) && t.stack@ == s.stack@ } else {
        let k = s.stack@.last();
        &&& passed(o, m, s, t, k, s.current, r)
        &&& !common(k) ==> only(s, t) && steady(s, t)
        &&& !common(k) && !(k is ApplyTo) ==> t.stack@ == s.stack@.drop_last()
        &&& (k is Branch || k is BranchPredecoded) ==> otherwise(o, m, s, t, tail_of(k), s.current, env_of(k), r, ExecutionError::CannotReturnFunToCase(blamed(k, s)))
        &&& k is ApplyTo ==> applied(o, m, s, t, prog, k->ApplyTo_args.seq(o), k->ApplyTo_annotation, r)
        &&& k is LookupLitForce ==> r == Res::Err(ExecutionError::LookupOnFunction(blamed(k, s)))
    }
}
//@ fn eval/bytecode/machine.rs return_fun
//@   ret r
//@   sub /(\w+)\.cmp\(&(\w+)\)/\1.order(\2)/
//@   sub /(\w+)\.as_slice\(\)\.split_at\(/split_at(\1.items(view), /
//@   sub /Array::from_slice\(view, (\w+)\)/Array::from_slice(&mut *view, \1.as_slice())/
//@   sub /Array::from_slice\(&mut \*view, (\w+)\)/Array::from_slice(&mut *view, \1.as_slice())/
//@   sub /view\.saturate\(&fun, (\w+)\)/view.saturate(&fun, \1.as_slice())/
//@   sub /let expected: Vec<u8> = .*?\.collect\(\);//
//@   sub /let expected = branch_pool_expected\([^;]*\);//
//@   spec
    requires ok(old(view), old(state)), old(state).current is Closure
    ensures ok(final(view), final(state)), grew(old(view), final(view)), fun_returned(old(view), final(view), old(state), final(state), prog, r)
//@   head
    broadcast use {kept, built};
    proof {
        if state.stack@.len() > 0 && state.stack@.last() is ApplyTo {
            let a = state.stack@.last()->ApplyTo_args;
            assert(cont_ok(view, state.stack@.last()));
            lemma_items(view, a);
            if a.data.ptr is Some { axiom_small(view, a.base(), a.data.capacity as int); }
        }
    }
//@ done

// ---- data ----------------------------------------------------------------------
pub uninterp spec fn entry_of(t: Array<Option<CodeRef>>, i: int) -> Option<CodeRef>;
#[verifier::external_body]
pub fn entry(t: &Array<Option<CodeRef>>, i: usize) -> (r: Option<CodeRef>) ensures r == entry_of(*t, i as int) { unimplemented!() }
/// `pool[i]`, which panics beyond the end.
pub trait Pool<T> { spec fn items(&self) -> Seq<T>; fn at(&self, i: usize) -> (r: T) ensures i < self.items().len(), r == self.items()[i as int]; fn run(&self, a: usize, b: usize) -> (r: Vec<T>) ensures a <= b <= self.items().len(), r@ == self.items().subrange(a as int, b as int); }
impl<T: Copy> Pool<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn at(&self, i: usize) -> (r: T) { self[i] }
    #[verifier::external_body]
    fn run(&self, a: usize, b: usize) -> (r: Vec<T>) { self[a..b].to_vec() }
}
pub uninterp spec fn lookup(m: &M, prog: &BytecodeProgram, decoded: &DecodedProgram, constants: Seq<Ref>, globals: Env, block: BcClosure, key: SymbolId) -> Option<BcValue>;
#[verifier::external_body]
pub fn bc_lookup_in_block(prog: &BytecodeProgram, decoded: &DecodedProgram, state: &BcMachineState, view: &mut M, block: &BcClosure, target: SymbolId) -> (r: Option<BcValue>)
    requires closed(old(view)), old(view).frames().has(block.env), old(view).frames().has(state.globals)
    ensures *final(view) == *old(view), r == lookup(old(view), prog, decoded, state.constants@, state.globals, *block, target), r is Some ==> good(old(view), r->0)
{ unimplemented!() }
pub uninterp spec fn merge_index() -> int;
#[verifier::external_body]
pub fn intrinsic_index() -> (r: Option<usize>) ensures r is Some ==> r->0 == merge_index() { unimplemented!() }
pub fn first<T: Copy>(v: &[T]) -> (r: Option<T>) ensures r == if v@.len() > 0 { Some(v@[0]) } else { None } { if v.len() > 0 { Some(v[0]) } else { None } }
//@ always /decoded\.(instrs|smids|branches|off_of)\[((?:[^][]|\[[^][]*\])*)\]/decoded.\1.at(\2)/
//@ always /&decoded\.(refs|offsets|headers)\[(\w+)\.\.(\w+) \+ (\w+)\]/decoded.\1.run(\2, \3 + \4).as_slice()/
//@ fn eval/bytecode/machine.rs branch_pool_match
//@   ret r
//@   spec
    ensures r == pooled(decoded, branch_start as int, branch_len as int, min_tag, tag)
//@ done
pub open spec fn pooled(decoded: &DecodedProgram, start: int, len: int, min_tag: u8, tag: u8) -> Option<CodeRef> {
    if min_tag <= tag && tag - min_tag < len && decoded.branches@[start + (tag - min_tag)] != NO_BRANCH { Some(decoded.branches@[start + (tag - min_tag)]) } else { None }
}
/// The branch of a case for a constructor.
pub open spec fn chosen(k: BcContinuation, decoded: &DecodedProgram, tag: u8) -> Option<CodeRef> {
    match k {
        BcContinuation::Branch { min_tag, branch_table, .. } => if tag >= min_tag { entry_of(branch_table, tag - min_tag) } else { None },
        BcContinuation::BranchPredecoded { min_tag, branch_start, branch_len, .. } => pooled(decoded, branch_start as int, branch_len as int, min_tag, tag),
        _ => None,
    }
}
pub open spec fn boxed(tag: u8) -> bool { tag == 3 || tag == 4 || tag == 5 || tag == 11 }
pub open spec fn field(o: &M, s: &St, d: DecodedRef) -> Option<BcValue> { denotes(o, s.constants@, s.current->Closure_0.env, s.globals, d) }
//@ fn eval/bytecode/machine.rs fused_boxed_field
//@   ret r
//@   sub /(\w+)\.first\(\)/first(\1)/
//@   sub /\*field\b/field/
//@   spec
    requires ok(old(view), state)
    ensures *final(view) == *old(view), boxed(tag) ==> match r {
            Ok(f) => f is Some && args@.len() > 0 && state.current is Closure && f == field(old(view), state, args@[0]) && good(old(view), f->0),
            Err(_) => state.current is Native || args@.len() == 0 || field(old(view), state, args@[0]) is None,
        },
        !boxed(tag) ==> r == Result::<Option<BcValue>, ExecutionError>::Ok(None)
//@   head
    proof { if state.current is Closure && args@.len() > 0 { lemma_denotes(view, state.constants@, state.current->Closure_0.env, state.globals, args@[0]); } }
//@ done
/// A block is applied: it and the arguments go to the MERGE intrinsic.
pub open spec fn merging(o: &M, m: &M, s: &St, t: &St, args: Seq<BcValue>, annotation: Smid, r: Res) -> bool {
    let n = s.stack@.len() - 1;
    &&& t.stack@.len() >= n + 1 && t.stack@.take(n) =~= s.stack@.drop_last()
    &&& t.stack@[n] is ApplyTo && t.stack@[n]->ApplyTo_annotation == annotation && t.stack@[n]->ApplyTo_args.seq(m) =~= args.push(s.current)
    &&& t.annotation == annotation
    &&& match var(o, s.globals, merge_index() as u32 as int) { Some(v) => r is Ok && t.current == v, None => r is Err }
}
pub open spec fn data_returned(o: &M, m: &M, s: &St, t: &St, prog: &BytecodeProgram, decoded: &DecodedProgram, tag: u8, args: Seq<DecodedRef>, r: Res) -> bool {
    if s.stack@.len() == 0 { r is Ok && *m == *o && *t == (St { terminated: true, yielded_io: s.yielded_io || 12 <= tag <= 15, stack: t.stack, ..*s }) && t.stack@ == s.stack@ } else {
        let k = s.stack@.last();
        // a boxed operand is opened, and its content forced
        let opened = boxed(tag) && (k is FusedPrimopLeft || k is FusedPrimopRight);
        &&& !opened ==> passed(o, m, s, t, k, s.current, r)
        &&& opened ==> only(s, t) && steady(s, t) && *m == *o && if r is Ok { Some(t.current) == field(o, s, args[0]) && t.stack@ =~= s.stack@ } else { t.stack@ == s.stack@.drop_last() && (args.len() == 0 || field(o, s, args[0]) is None) }
        &&& !common(k) ==> only(s, t)
        &&& !common(k) && !(k is ApplyTo) ==> steady(s, t) && t.stack@ == s.stack@.drop_last()
        &&& (k is Branch || k is BranchPredecoded) ==> match chosen(k, decoded, tag) {
            Some(body) => r is Ok ==> t.current is Closure && plain(body, t.current->Closure_0.env, t.current) && if args.len() == 0 { *m == *o && t.current->Closure_0.env == env_of(k) } else { receives(o, m, t.current->Closure_0.env, *s, args, env_of(k)) && undisturbed(o, m) },
            None => otherwise(o, m, s, t, tail_of(k), s.current, env_of(k), r, ExecutionError::NoBranchForDataTag(blamed(k, s))),
        }
        &&& k is ApplyTo ==> if tag == 8 { merging(o, m, s, t, k->ApplyTo_args.seq(o), k->ApplyTo_annotation, r) } else { r == Res::Err(ExecutionError::NotCallable(k->ApplyTo_annotation)) && *m == *o }
        &&& k is LookupLitForce ==> *m == *o && if tag == 8 { r is Ok && t.current == match lookup(o, prog, decoded, s.constants@, s.globals, s.current->Closure_0, k->LookupLitForce_key) { Some(v) => v, None => BcValue::Closure(k->LookupLitForce_default_closure) } } else { r == Res::Err(ExecutionError::NoBranchForDataTag(blamed(k, s))) }
    }
}
//@ fn eval/bytecode/machine.rs return_data
//@   ret r
//@   sub /(\w+)\.get\(\((.*?)\) as usize\)\.flatten\(\)/entry(&\1, (\2) as usize)/
//@   sub /let expected: Vec<u8> = .*?\.collect\(\);//
//@   sub /let expected = branch_pool_expected\([^;]*\);//
//@   sub /let type_name = [^;]*;//
//@   sub /(\w+)\.as_slice\(\)\.to_vec\(\)/\1.items(view)/
//@   sub /&merged\)/merged.as_slice())/
//@   sub /crate::eval::intrinsics::index\("MERGE"\)/intrinsic_index()/
//@   spec
    requires ok(old(view), old(state)), old(state).current is Closure
    ensures ok(final(view), final(state)), grew(old(view), final(view)), data_returned(old(view), final(view), old(state), final(state), prog, decoded, tag, args@, r)
//@   head
    broadcast use {kept, built};
    proof {
        if state.stack@.len() > 0 && state.stack@.last() is ApplyTo {
            assert(cont_ok(view, state.stack@.last()));
            lemma_items(view, state.stack@.last()->ApplyTo_args);
        }
    }
//@ done

// ---- metadata ------------------------------------------------------------------
/// Metadata is stripped: what it annotates is entered, as if it stood alone.
pub open spec fn body_entered(o: &M, m: &M, s: &St, t: &St, env: Env, d: DecodedRef, r: Res) -> bool {
    match d {
        DecodedRef::Value(_) => only(s, t) && steady(s, t) && *m == *o && t.stack@ =~= s.stack@ && match denotes(o, s.constants@, env, s.globals, d) { Some(v) => r is Ok && t.current == v, None => r is Err },
        _ => calling(o, m, s, t, env, d, r),
    }
}
pub open spec fn meta_returned(o: &M, m: &M, s: &St, t: &St, env: Env, meta: DecodedRef, body: DecodedRef, r: Res) -> bool {
    let mv = denotes(o, s.constants@, env, s.globals, meta);
    let bv = denotes(o, s.constants@, env, s.globals, body);
    if s.stack@.len() == 0 {
        if mv is Some { body_entered(o, m, &St { stripped_meta: mv, ..*s }, t, env, body, r) } else { r is Err && *m == *o && only(s, t) }
    } else {
        match s.stack@.last() {
            BcContinuation::DeMeta { handler, environment, .. } => only(s, t) && steady(s, t) && t.stack@ == s.stack@.drop_last()
                && if r is Ok { mv is Some && bv is Some && entered(o, m, t.current, handler, seq![mv->0, bv->0], environment) } else { r->Err_0 is Heap || mv is None || bv is None },
            BcContinuation::Update { .. } => passed(o, m, s, t, s.stack@.last(), s.current, r),
            _ => body_entered(o, m, s, t, env, body, r),
        }
    }
}
//@ fn eval/bytecode/machine.rs enter_meta_body
//@   ret r
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env)
    ensures ok(final(view), final(state)), grew(old(view), final(view)), body_entered(old(view), final(view), old(state), final(state), env, body_ref, r)
//@   head
    proof { lemma_denotes(view, state.constants@, env, state.globals, body_ref); }
//@ done
//@ fn eval/bytecode/machine.rs return_meta
//@   ret r
//@   sub /\[(\w+), (\w+)\]\.into_iter\(\)/two(\1, \2)/
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env)
    ensures ok(final(view), final(state)), grew(old(view), final(view)), meta_returned(old(view), final(view), old(state), final(state), env, meta_ref, body_ref, r)
//@   head
    broadcast use {kept, built};
    proof { lemma_denotes(view, state.constants@, env, state.globals, body_ref); lemma_denotes(view, state.constants@, env, state.globals, meta_ref); }
//@ done

// ---- instructions ----------------------------------------------------------------
pub open spec fn dref(tag: u8, p: u32) -> DecodedRef { if tag & 3 == 0 { DecodedRef::Local(p) } else if tag & 3 == 1 { DecodedRef::Global(p) } else { DecodedRef::Value(p) } }
//@ fn eval/bytecode/predecode.rs make_ref
//@   ret r
//@   sub /0b11\b/3/
//@   spec
    ensures r == dref(tag, payload)
//@ done
impl Instr {
//@ fn eval/bytecode/predecode.rs Instr::atom_ref
//@   ret r
//@   spec
    ensures r == dref(self.flags, self.a)
//@ done
//@ fn eval/bytecode/predecode.rs Instr::eager
//@   ret r
//@   spec
    ensures r == (self.flags & 1 != 0)
//@ done
//@ fn eval/bytecode/predecode.rs Instr::callable_ref
//@   ret r
//@   spec
    ensures r == dref(self.flags >> 1, self.a)
//@ done
//@ fn eval/bytecode/predecode.rs Instr::first_ref
//@   ret r
//@   spec
    ensures r == dref(self.flags, self.a)
//@ done
//@ fn eval/bytecode/predecode.rs Instr::second_ref
//@   ret r
//@   spec
    ensures r == dref(self.flags >> 2, self.b)
//@ done
//@ fn eval/bytecode/predecode.rs Instr::tag_byte
//@   ret r
//@   sub /self\.a as u8/low(self.a)/
//@   spec
    ensures r == self.a as u8
//@ done
//@ fn eval/bytecode/predecode.rs Instr::min_tag
//@   ret r
//@   spec
    ensures r == self.flags
//@ done
//@ fn eval/bytecode/predecode.rs Instr::primop_id
//@   ret r
//@   spec
    ensures r == self.flags
//@ done
//@ fn eval/bytecode/predecode.rs Instr::pool
//@   ret r
//@   spec
    ensures r == (self.c as usize, self.len as usize)
//@ done
//@ fn eval/bytecode/predecode.rs Instr::header_pool
//@   ret r
//@   spec
    ensures r == (self.c as usize, self.b as usize)
//@ done
}
#[verifier::truncate]
pub fn low(x: u32) -> (r: u8) ensures r == x as u8 { #[verifier::truncate] (x as u8) }
/// A slot's value can never change: no thunk, and a function or an alias.
pub open spec fn settled(decoded: &DecodedProgram, v: BcValue) -> bool {
    v is Closure && !v->Closure_0.info.info.upd() && (v->Closure_0.info.info.ar() > 0 || (v->Closure_0.info.body < decoded.instrs@.len() && decoded.instrs@[v->Closure_0.info.body as int].op is Atom))
}
pub fn op_is_atom(d: &DecodedProgram, k: usize) -> (r: bool) ensures r == (k < d.instrs@.len() && d.instrs@[k as int].op is Atom) { if k < d.instrs.len() { match d.instrs[k].op { Op::Atom => true, _ => false } } else { false } }
//@ fn eval/bytecode/machine.rs bc_is_settled_pd
//@   ret r
//@   sub /decoded\s*\.instrs\s*\.get\((.*?)\)\s*\.is_some_and\(\|i\| i\.op == Op::Atom\)/op_is_atom(decoded, \1)/
//@   spec
    ensures r == settled(decoded, *value)
//@ done
/// What an argument is: the settled or eager variable itself, or its
/// suspension in the caller's environment.
pub open spec fn arg_is(o: &M, decoded: &DecodedProgram, env: Env, ord: CodeRef, eager: bool, v: BcValue) -> bool {
    let i = decoded.instrs@[ord as int];
    match dref(i.flags, i.a) {
        DecodedRef::Local(k) => match var(o, env, k as int) { Some(w) if eager || settled(decoded, w) => v == w, _ => plain(ord, env, v) },
        _ => plain(ord, env, v),
    }
}
pub open spec fn args_are(o: &M, decoded: &DecodedProgram, env: Env, ords: Seq<CodeRef>, eager: bool, vs: Seq<BcValue>) -> bool {
    vs.len() == ords.len() && forall|j: int| #![trigger ords[j]] #![trigger vs[j]] 0 <= j < ords.len() ==> arg_is(o, decoded, env, ords[j], eager, vs[j])
}
//@ fn eval/bytecode/machine.rs make_arg_array_pd
//@   ret r
//@   each 0 ref
//@   spec
    requires closed(old(view)), old(view).frames().has(env)
    ensures closed(final(view)), undisturbed(old(view), final(view)), final(view).frames() == old(view).frames(),
        r is Ok ==> arr_ok(final(view), r->Ok_0) && args_are(old(view), decoded, env, arg_ords@, eager, r->Ok_0.seq(final(view))) && (r->Ok_0.data.capacity > 0 ==> !old(view).room().contains_key(r->Ok_0.base())),
        r is Err ==> eager && !args_there(old(view), decoded, env, arg_ords@)
//@   head
    broadcast use {kept, built};
//@   loop 0
        invariant n_0 == arg_ords@.len(), i_0 <= n_0, closed(old(view)), closed(view), old(view).frames().has(env), undisturbed(old(view), view), view.frames() == old(view).frames(), array.ok(view.room()), array.length == i_0,
            array.data.capacity > 0 ==> !old(view).room().contains_key(array.base()), goods(view, array.seq(view)),
            forall|j: int| #![trigger arg_ords@[j]] 0 <= j < i_0 ==> arg_is(old(view), decoded, env, arg_ords@[j], eager, array.seq(view)[j]),
        decreases n_0 - i_0
//@   before array\.push\(
        let ghost was = array.seq(view);
        let ghost item = v;
        proof {
            assert(goods(view, was));
            assert(good(view, item));
            assert(arg_is(old(view), decoded, env, arg_ords@[i_0 as int], eager, item));
        }
//@   end 0
        proof {
            assert(array.seq(view) =~= was.push(item));
            assert(forall|k: int| 0 <= k < was.len() ==> good(view, #[trigger] was[k]));
        }
//@   in 0
        proof {
            let ins = decoded.instrs@[arg_ords@[i_0 as int] as int];
            match dref(ins.flags, ins.a) { DecodedRef::Local(k) => { lemma_var_kept(old(view), view, env, k as int); lemma_var(view, env, k as int); }, _ => {} }
        }
//@ done
pub open spec fn info_is(kind: u8, arity: u8, smid: Smid, body: CodeRef, i: InfoTagged<CodeRef>) -> bool {
    if kind == FORM_THUNK { i.is(true, 0, 0, body) } else if kind == FORM_LAMBDA { i.is(false, arity, smid.n, body) } else { i.is(false, 0, 0, body) }
}
//@ fn eval/bytecode/machine.rs form_info
//@   ret r
//@   spec
    ensures info_is(kind, arity, smid, body, r)
//@ done
//@ fn eval/bytecode/machine.rs bc_info
//@   ret r
//@   spec
    ensures info_is(h.kind, h.arity, h.smid, h.body, r)
//@ done
pub open spec fn noted(s: St, a: Smid) -> St { St { annotation: a, last_annotation: if a.located() { a } else { s.last_annotation }, ..s } }
/// The state an instruction starts from: the source location is that of the
/// closure, and then that of the instruction, where they have one.
pub open spec fn primed(s: St, decoded: &DecodedProgram) -> St {
    let c = s.current->Closure_0;
    let a = Smid { n: c.info.info.ann() };
    let p = if a.valid() { noted(s, a) } else { s };
    let b = decoded.smids@[c.info.body as int];
    if b.valid() { noted(p, b) } else { p }
}
pub open spec fn same_but<C>(o: &Mem<C>, m: &Mem<C>, c: Option<(int, int)>) -> bool {
    &&& forall|b: int| #[trigger] o.room().contains_key(b) ==> m.room().contains_key(b) && m.room()[b] == o.room()[b]
    &&& forall|b: int, i: int| o.room().contains_key(b) && c != Some((b, i)) ==> #[trigger] m.cells()[(b, i)] == o.cells()[(b, i)]
    &&& forall|a: int| #[trigger] o.frames().f.contains_key(a) ==> m.frames().f.contains_key(a) && m.frames().f[a] == o.frames().f[a]
}
/// The variable a callable names: its environment and its index there.
pub open spec fn target(p: &St, env: Env, d: DecodedRef) -> Option<(Env, int)> {
    match d { DecodedRef::Local(i) => Some((env, i as int)), DecodedRef::Global(i) => Some((p.globals, i as int)), DecodedRef::Value(_) => None }
}
pub open spec fn thunk(v: BcValue) -> bool { v is Closure && v->Closure_0.info.info.upd() }
/// The slot of the forced variable is a black hole until the value goes into it.
pub open spec fn forced(o: &M, m: &M, p: &St, k: BcContinuation, e: Env, i: int) -> bool {
    let c = place_of(o, e, i)->0;
    &&& same_but(o, m, Some(c)) && plain(p.blackhole, e, m.cells()[c])
    &&& k is Update && k->Update_environment == e && k->Update_index == i
}
pub open spec fn waits(o: &M, m: &M, p: &St, decoded: &DecodedProgram, k: BcContinuation, env: Env, ords: Seq<CodeRef>, eager: bool) -> bool {
    k is ApplyTo && k->ApplyTo_annotation == p.annotation && args_are(o, decoded, env, ords, eager, k->ApplyTo_args.seq(m))
}
pub open spec fn args_there(o: &M, decoded: &DecodedProgram, env: Env, ords: Seq<CodeRef>) -> bool {
    forall|j: int| 0 <= j < ords.len() ==> match dref(decoded.instrs@[(#[trigger] ords[j]) as int].flags, decoded.instrs@[ords[j] as int].a) { DecodedRef::Local(k) => var(o, env, k as int) is Some, _ => true }
}
/// A call: the callable is entered with its arguments waiting for it; a
/// direct call that has exactly the arguments binds them at once.
pub open spec fn called(o: &M, m: &M, p: &St, t: &St, decoded: &DecodedProgram, env: Env, d: DecodedRef, ords: Seq<CodeRef>, eager: bool, direct: bool, r: Res) -> bool {
    let n = p.stack@.len() as int;
    let at = target(p, env, d);
    let v = var(o, (at->0).0, (at->0).1);
    &&& only(p, t) && steady(p, t)
    &&& at is None || v is None || (direct && v->0 is Native) ==> r is Err
    &&& r is Err ==> at is None || v is None || (direct && v->0 is Native) || (direct && r->Err_0 is Heap) || (eager && !args_there(o, decoded, env, ords))
    &&& r is Ok ==> if thunk(v->0) {
            t.current == v->0 && t.stack@.len() == n + 2 && t.stack@.take(n) =~= p.stack@ && waits(o, m, p, decoded, t.stack@[n], env, ords, eager) && forced(o, m, p, t.stack@[n + 1], (at->0).0, (at->0).1)
        } else if direct && v->0->Closure_0.info.info.ar() == ords.len() {
            let f = v->0->Closure_0;
            let c = t.current->Closure_0;
            let fr = m.frames().f[c.env.id()];
            &&& same_but(o, m, None) && t.stack@ =~= p.stack@
            &&& t.current is Closure && c.is(false, 0, f.info.info.ann(), f.info.body, c.env)
            &&& m.frames().has(c.env) && !o.frames().has(c.env) && fr.width() == ords.len() && fr.next == Some(f.env)
            &&& forall|j: int| #![trigger ords[j]] 0 <= j < ords.len() ==> value(m, fr, j) is Some && arg_is(o, decoded, env, ords[j], eager, value(m, fr, j)->0)
        } else {
            same_but(o, m, None) && t.current == v->0 && t.stack@.len() == n + 1 && t.stack@.take(n) =~= p.stack@ && waits(o, m, p, decoded, t.stack@[n], env, ords, eager)
        }
}
pub open spec fn suspended(h: FormHeader, e: Env, v: BcValue) -> bool { v is Closure && info_is(h.kind, h.arity, h.smid, h.body, v->Closure_0.info) && v->Closure_0.env == e }
/// A new frame binds one closure for each form; in a recursive group they see it.
pub open spec fn binds(o: &M, m: &M, p: Env, hs: Seq<FormHeader>, own: bool, next: Env) -> bool {
    let f = m.frames().f[p.id()];
    &&& undisturbed(o, m) && m.frames().has(p) && !o.frames().has(p) && f.width() == hs.len() && f.next == Some(next)
    &&& forall|j: int| #![trigger hs[j]] 0 <= j < hs.len() ==> value(m, f, j) is Some && suspended(hs[j], if own { p } else { next }, value(m, f, j)->0)
}
pub open spec fn key_of(c: Seq<Ref>, d: DecodedRef) -> Option<SymbolId> {
    match d { DecodedRef::Value(k) => match constant(c, k as int) { Some(BcValue::Native(Native::Sym(id))) => Some(id), _ => None }, _ => None }
}
pub uninterp spec fn blocky(prog: &BytecodeProgram, decoded: &DecodedProgram, c: BcClosure) -> bool;
#[verifier::external_body]
pub fn is_block(prog: &BytecodeProgram, decoded: &DecodedProgram, c: &BcClosure) -> (r: bool) ensures r == blocky(prog, decoded, *c) { unimplemented!() }
#[verifier::external_body]
pub fn diverge() ensures false { unimplemented!() }
/// A literal key is looked up in a block, or in what the object is forced to.
pub open spec fn looked_up(o: &M, m: &M, p: &St, t: &St, prog: &BytecodeProgram, decoded: &DecodedProgram, env: Env, key: DecodedRef, obj: DecodedRef, or_else: CodeRef, smid: Smid, r: Res) -> bool {
    let n = p.stack@.len() as int;
    let k = key_of(p.constants@, key);
    let at = target(p, env, obj);
    let v = var(o, (at->0).0, (at->0).1);
    &&& only(p, t) && steady(p, t)
    &&& r is Ok <==> k is Some && at is Some && v is Some && v->0 is Closure
    &&& r is Err ==> *m == *o && *t == *p
    &&& r is Ok ==> if blocky(prog, decoded, v->0->Closure_0) {
            *m == *o && t.stack@ == p.stack@ && match lookup(o, prog, decoded, p.constants@, p.globals, v->0->Closure_0, k->0) { Some(w) => t.current == w, None => plain(or_else, env, t.current) }
        } else {
            let w = t.stack@[n];
            &&& t.current == v->0 && t.stack@.take(n) =~= p.stack@
            &&& w is LookupLitForce && w->LookupLitForce_key == k->0 && w->LookupLitForce_smid == smid && plain(or_else, env, BcValue::Closure(w->LookupLitForce_default_closure))
            &&& if obj is Local && thunk(v->0) { t.stack@.len() == n + 2 && forced(o, m, p, t.stack@[n + 1], (at->0).0, (at->0).1) } else { t.stack@.len() == n + 1 && *m == *o }
        }
}
/// The scrutinee is evaluated first, in the same environment.
pub open spec fn first_do(o: &M, m: &M, p: &St, t: &St, code: CodeRef, env: Env, k: BcContinuation, r: Res) -> bool {
    r is Ok && *m == *o && only(p, t) && steady(p, t) && plain(code, env, t.current) && t.stack@ =~= p.stack@.push(k)
}
pub open spec fn bound(o: &M, m: &M, p: &St, t: &St, decoded: &DecodedProgram, env: Env, i: Instr, own: bool, r: Res) -> bool {
    &&& only(p, t) && steady(p, t) && t.stack@ == p.stack@
    &&& if r is Ok { t.current is Closure && plain(i.a, t.current->Closure_0.env, t.current) && binds(o, m, t.current->Closure_0.env, decoded.headers@.subrange(i.c as int, i.c + i.b), own, env) } else { r->Err_0 is Heap }
}
pub open spec fn handled(o: &M, m: &M, s: &St, t: &St, prog: &BytecodeProgram, decoded: &DecodedProgram, r: Res) -> bool {
    if s.current is Native { r is Err && *m == *o && *t == *s } else {
        let p = &primed(*s, decoded);
        let env = s.current->Closure_0.env;
        let ord = s.current->Closure_0.info.body as int;
        let i = decoded.instrs@[ord];
        let refs = decoded.refs@.subrange(i.c as int, i.c + i.len);
        let ords = decoded.offsets@.subrange(i.c as int, i.c + i.len);
        match i.op {
            Op::Atom => match dref(i.flags, i.a) {
                DecodedRef::Value(k) => match constant(p.constants@, k as int) { Some(v) => native_returned(o, m, p, t, v->Native_0, r), None => r is Err && *m == *o && *t == *p },
                d => calling(o, m, p, t, env, d, r),
            },
            Op::Cons => data_returned(o, m, p, t, prog, decoded, i.a as u8, refs, r),
            Op::Bif => r is Ok && *m == *o && *t == (St { pending_bif: Some(i.a as u8), pending_bif_args: t.pending_bif_args, ..*p }) && t.pending_bif_args@ =~= refs,
            Op::Case => first_do(o, m, p, t, i.a, env, BcContinuation::BranchPredecoded { min_tag: i.flags, branch_start: i.c, branch_len: i.len, fallback: i.b, environment: env, annotation: p.annotation }, r),
            Op::Seq => first_do(o, m, p, t, i.a, env, BcContinuation::SeqBind { body: i.b, environment: env, annotation: p.annotation }, r),
            Op::FusedPrimop => first_do(o, m, p, t, i.a, env, BcContinuation::FusedPrimopLeft { primop_id: i.flags, right: i.b, environment: env, annotation: p.annotation }, r),
            Op::DeMeta => first_do(o, m, p, t, i.a, env, BcContinuation::DeMeta { handler: i.b, or_else: i.c, environment: env }, r),
            Op::BlackHole => r == Res::Err(ExecutionError::BlackHole(p.annotation)) && *m == *o && *t == *p,
            Op::App => called(o, m, p, t, decoded, env, dref(i.flags >> 1, i.a), ords, i.flags & 1 != 0, false, r),
            Op::DirectApp => called(o, m, p, t, decoded, env, dref(i.flags >> 1, i.a), ords, i.flags & 1 != 0, true, r),
            Op::Let => bound(o, m, p, t, decoded, env, i, false, r),
            Op::LetRec => bound(o, m, p, t, decoded, env, i, true, r),
            Op::Meta => meta_returned(o, m, p, t, env, dref(i.flags, i.a), dref(i.flags >> 2, i.b), r),
            Op::LookupLit => looked_up(o, m, p, t, prog, decoded, env, dref(i.flags, i.a), dref(i.flags >> 2, i.b), i.c, decoded.smids@[ord], r),
            Op::Ann => false,
        }
    }
}
/// A recursive group, once its slots are filled.
pub proof fn lemma_group(o: &M, mid: &M, m: &M, a: Array<BcValue>, p: Env, hs: Seq<FormHeader>, next: Env)
    requires closed(o), undisturbed(o, mid), m.ok(), m.frames() == mid.frames(), m.room() == mid.room(), m.frames().f.remove(p.id()) =~= o.frames().f, m.frames().has(p), !o.frames().has(p),
        m.frames().f[p.id()].bindings == a, m.frames().f[p.id()].remap_len == 0, m.frames().f[p.id()].next == Some(next), a.length == hs.len(), a.length <= a.data.capacity, a.data.capacity > 0 ==> !o.room().contains_key(a.base()),
        forall|b: int, k: int| !(b == a.base() && 0 <= k < a.length) ==> #[trigger] m.cells()[(b, k)] == mid.cells()[(b, k)],
        forall|j: int| 0 <= j < hs.len() ==> suspended(hs[j], p, #[trigger] m.cells()[(a.base(), j)]),
    ensures closed(m), binds(o, m, p, hs, true, next)
{
    let f = m.frames().f[p.id()];
    assert(m.frames().f.contains_key(p.id()));
    assert forall|j: int| #![trigger hs[j]] 0 <= j < hs.len() implies value(m, f, j) is Some && suspended(hs[j], p, value(m, f, j)->0) by {
        assert(find(m.frames(), f, j) == Some((a.base(), j)));
        assert(suspended(hs[j], p, m.cells()[(a.base(), j)]));
    }
    assert forall|b: int, k: int| o.room().contains_key(b) implies #[trigger] m.cells()[(b, k)] == o.cells()[(b, k)] by {
        if b == a.base() { assert(a.data.capacity == 0); }
        assert(mid.cells()[(b, k)] == o.cells()[(b, k)]);
    }
    assert forall|x: int| #[trigger] o.frames().f.contains_key(x) implies m.frames().f.contains_key(x) && m.frames().f[x] == o.frames().f[x] by { assert(m.frames().f.remove(p.id()).contains_key(x)); }
    assert forall|x: int, k: int| m.frames().f.contains_key(x) && 0 <= k < m.frames().f[x].bindings.length implies good(m, #[trigger] m.cells()[(m.frames().f[x].bindings.base(), k)]) by {
        if x == p.id() { assert(suspended(hs[k], p, m.cells()[(a.base(), k)])); }
        else {
            assert(m.frames().f.remove(p.id()).contains_key(x));
            assert(o.frames().f.contains_key(x));
            assert(o.frames().f[x].ok(o.room()));
            assert(good(o, o.cells()[(o.frames().f[x].bindings.base(), k)]));
        }
    }
}
//@ always /state\.allocs \+= len as u64;//
//@ always /\.as_slice\(\)\.iter\(\)\.copied\(\)\.collect\(\)//
//@ always /&?decoded\.(refs|offsets|headers)\[(\w+)\.\.(\w+) \+ (\w+)\]/decoded.\1.run(\2, \3 + \4)/
//@ always /decoded\.refs\.run\((\w+), (\w+ \+ \w+)\)\.iter\(\)\.copied\(\)\.collect\(\)/decoded.refs.run(\1, \2)/
//@ always /for (\w+) in decoded\.headers\.run\(([^()]*)\)\.as_slice\(\) \{/let hs = decoded.headers.run(\2); for \1 in hs.iter() {/
//@ always /for \((\w+), (\w+)\) in decoded\.headers\.run\(([^()]*)\)\.iter\(\)\.enumerate\(\) \{/let hs = decoded.headers.run(\3); for (\1, \2) in hs.iter().enumerate() {/
//@ always /for _ in 0\.\.len \{/for k in 0..len {/
//@ always /unreachable!\([^()]*\([^()]*\)[^()]*\)/diverge()/
//@ always /unsafe \{(.*?);\s*\}/\1;/
//@ always /\.set_unchecked\(/.set_unchecked(&mut *view, /
//@ always /array\.clone\(\), state\.annotation, Some\(env\)\)\)\?/array.clone(), state.annotation, Some(env)))?/
//@ always /decode_cons\(([^()]*)\)\s*\.is_some_and\(\|\(t, _\)\| t == DataConstructor::Block\.tag\(\)\)/is_block(\1)/
//@ arm eval/bytecode/machine.rs handle_op_predecoded Op::App op_app (state: &mut BcMachineState, view: &mut M, prog: &BytecodeProgram, decoded: &DecodedProgram, env: Env, ord: usize, instr: Instr) -> Result<(), ExecutionError>
//@   ret r
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env), instr == decoded.instrs@[ord as int], ord < decoded.instrs@.len()
    ensures ok(final(view), final(state)), grew(old(view), final(view)),
        called(old(view), final(view), old(state), final(state), decoded, env, dref(instr.flags >> 1, instr.a), decoded.offsets@.subrange(instr.c as int, instr.c + instr.len), instr.flags & 1 != 0, false, r)
//@   head
    broadcast use {kept, built};
    proof { match dref(instr.flags >> 1, instr.a) { DecodedRef::Local(k) => lemma_var(view, env, k as int), DecodedRef::Global(k) => lemma_var(view, state.globals, k as int), _ => {} } }
//@ done
//@ arm eval/bytecode/machine.rs handle_op_predecoded Op::DirectApp op_direct_app (state: &mut BcMachineState, view: &mut M, prog: &BytecodeProgram, decoded: &DecodedProgram, env: Env, ord: usize, instr: Instr) -> Result<(), ExecutionError>
//@   ret r
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env), instr == decoded.instrs@[ord as int], ord < decoded.instrs@.len()
    ensures ok(final(view), final(state)), grew(old(view), final(view)),
        called(old(view), final(view), old(state), final(state), decoded, env, dref(instr.flags >> 1, instr.a), decoded.offsets@.subrange(instr.c as int, instr.c + instr.len), instr.flags & 1 != 0, true, r)
//@   head
    broadcast use {kept, built};
    proof { match dref(instr.flags >> 1, instr.a) { DecodedRef::Local(k) => lemma_var(view, env, k as int), DecodedRef::Global(k) => lemma_var(view, state.globals, k as int), _ => {} } }
//@ done
//@ arm eval/bytecode/machine.rs handle_op_predecoded Op::LookupLit op_lookup_lit (state: &mut BcMachineState, view: &mut M, prog: &BytecodeProgram, decoded: &DecodedProgram, env: Env, ord: usize, instr: Instr) -> Result<(), ExecutionError>
//@   ret r
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env), instr == decoded.instrs@[ord as int], ord < decoded.instrs@.len()
    ensures ok(final(view), final(state)), grew(old(view), final(view)),
        looked_up(old(view), final(view), old(state), final(state), prog, decoded, env, dref(instr.flags, instr.a), dref(instr.flags >> 2, instr.b), instr.c, decoded.smids@[ord as int], r)
//@   head
    broadcast use {kept, built};
    proof { match dref(instr.flags >> 2, instr.b) { DecodedRef::Local(k) => lemma_var(view, env, k as int), DecodedRef::Global(k) => lemma_var(view, state.globals, k as int), _ => {} } }
//@ done
//@ arm eval/bytecode/machine.rs handle_op_predecoded Op::Let op_let (state: &mut BcMachineState, view: &mut M, prog: &BytecodeProgram, decoded: &DecodedProgram, env: Env, ord: usize, instr: Instr) -> Result<(), ExecutionError>
//@   ret r
//@   attr #[verifier::loop_isolation(false)]
//@   each 0 ref
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env), instr == decoded.instrs@[ord as int], ord < decoded.instrs@.len()
    ensures ok(final(view), final(state)), grew(old(view), final(view)),
        bound(old(view), final(view), old(state), final(state), decoded, env, instr, false, r)
//@   head
    broadcast use {kept, built};
//@   loop 0
        invariant n_0 == hs@.len(), i_0 <= n_0, closed(view), undisturbed(old(view), view), view.frames() == old(view).frames(), array.ok(view.room()), array.length == i_0,
            array.data.capacity > 0 ==> !old(view).room().contains_key(array.base()),
            forall|j: int| #![trigger hs@[j]] 0 <= j < i_0 ==> suspended(hs@[j], env, array.seq(view)[j]),
        decreases n_0 - i_0
//@   in 0
        let ghost was = array.seq(view);
//@   end 0
        proof {
            assert(array.seq(view).len() == was.len() + 1);
            assert forall|j: int| #![trigger hs@[j]] 0 <= j < i_0 - 1 implies suspended(hs@[j], env, array.seq(view)[j]) by { assert(array.seq(view)[j] == was[j]); }
            assert(suspended(hs@[i_0 - 1], env, array.seq(view)[i_0 - 1]));
        }
//@   after 0
        proof {
            assert(forall|k: int| 0 <= k < array.length ==> array.seq(view)[k] == #[trigger] view.cells()[(array.base(), k)]);
            assert forall|k: int| 0 <= k < array.length implies good(view, #[trigger] view.cells()[(array.base(), k)]) by { assert(suspended(hs@[k], env, array.seq(view)[k])); }
        }
//@ done
//@ arm eval/bytecode/machine.rs handle_op_predecoded Op::LetRec op_let_rec (state: &mut BcMachineState, view: &mut M, prog: &BytecodeProgram, decoded: &DecodedProgram, env: Env, ord: usize, instr: Instr) -> Result<(), ExecutionError>
//@   ret r
//@   attr #[verifier::loop_isolation(false)]
//@   each 1 ref
//@   spec
    requires ok(old(view), old(state)), old(view).frames().has(env), instr == decoded.instrs@[ord as int], ord < decoded.instrs@.len()
    ensures ok(final(view), final(state)), grew(old(view), final(view)),
        bound(old(view), final(view), old(state), final(state), decoded, env, instr, true, r)
//@   head
    broadcast use {kept, built};
//@   loop 0
        invariant closed(view), undisturbed(old(view), view), view.frames() == old(view).frames(), array.ok(view.room()), array.length == k, k <= len,
            array.data.capacity > 0 ==> !old(view).room().contains_key(array.base()),
//@   before let hs = decoded\.headers\.run\(start, start \+ len\); let n_1
            let ghost mid = *view;
            let ghost base = array.base();
            let ghost arr = array;
            proof { assert(view.frames().f.contains_key(frame.id())); assert(view.frames().f.remove(frame.id()) =~= old(view).frames().f); }
//@   loop 1
        invariant n_1 == hs@.len() == array.length, i_1 <= n_1, array.ok(view.room()), array == arr, base == arr.base(), view.frames() == mid.frames(), view.room() == mid.room(), view.ok(),
            forall|b: int, k: int| !(b == base && 0 <= k < n_1) ==> #[trigger] view.cells()[(b, k)] == mid.cells()[(b, k)],
            forall|j: int| 0 <= j < i_1 ==> suspended(hs@[j], frame, #[trigger] view.cells()[(base, j)]),
        decreases n_1 - i_1
//@   after 1
        proof { lemma_group(old(view), &mid, view, array, frame, hs@, env); }
//@ done
//@ fn eval/bytecode/machine.rs handle_op_predecoded
//@   ret r
//@   outline Op::App op_app(state, view, prog, decoded, env, ord, instr)?;
//@   outline Op::DirectApp op_direct_app(state, view, prog, decoded, env, ord, instr)?;
//@   outline Op::LookupLit op_lookup_lit(state, view, prog, decoded, env, ord, instr)?;
//@   outline Op::Let op_let(state, view, prog, decoded, env, ord, instr)?;
//@   outline Op::LetRec op_let_rec(state, view, prog, decoded, env, ord, instr)?;
//@   spec
    requires ok(old(view), old(state))
    ensures ok(final(view), final(state)), grew(old(view), final(view)), handled(old(view), final(view), old(state), final(state), prog, decoded, r)
//@   head
    broadcast use {kept, built};
//@ done
// ---- a step ------------------------------------------------------------------------
pub enum Dispatch { Native(Native), Fun(Smid), Op }
pub open spec fn stepped(o: &M, m: &M, s: &St, t: &St, prog: &BytecodeProgram, decoded: &DecodedProgram, r: Res) -> bool {
    match s.current {
        BcValue::Native(n) => native_returned(o, m, s, t, n, r),
        BcValue::Closure(c) => if c.info.info.ar() > 0 {
            let a = Smid { n: c.info.info.ann() };
            fun_returned(o, m, &(if a.valid() { noted(*s, a) } else { *s }), t, prog, r)
        } else { handled(o, m, s, t, prog, decoded, r) },
    }
}
//@ fn eval/bytecode/machine.rs step_predecoded
//@   ret r
//@   sub /enum Dispatch \{.*?\n    \}//
//@   spec
    requires ok(old(view), old(state))
    ensures ok(final(view), final(state)), grew(old(view), final(view)), stepped(old(view), final(view), old(state), final(state), prog, decoded, r)
//@ done

// ---- evaluating a value on the side ---------------------------------------------------
/// `std::mem::take` and `std::mem::replace`.
#[verifier::external_body]
pub fn take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(v), final(v)@.len() == 0 { core::mem::take(v) }
#[verifier::external_body]
pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { core::mem::replace(a, b) }
//@ always /(?:std|core)::mem::take\(/take(/
//@ always /(?:std|core)::mem::replace\(/replace(/
/// The caller's state, put away.
pub open spec fn suspended_in(s: &St, t: &St) -> bool {
    t.suspended_stacks@ =~= s.suspended_stacks@.push(s.stack) && t.stash@ =~= s.stash@.push(s.current)
}
/// `t` is `u` with what was put away last taken out again.
pub open spec fn resumed(u: &St, t: &St, terminated: bool, yielded: bool) -> bool {
    *t == (St { current: u.stash@.last(), stack: u.suspended_stacks@.last(), terminated, yielded_io: yielded, stash: t.stash, suspended_stacks: t.suspended_stacks, ..*u })
        && t.stash@ =~= u.stash@.drop_last() && t.suspended_stacks@ =~= u.suspended_stacks@.drop_last()
}
//@ fn eval/bytecode/machine.rs enter_whnf_subrun
//@   ret r
//@   spec
    ensures r == old(state).terminated, suspended_in(old(state), final(state)), final(state).stack@.len() == 0,
        *final(state) == (St { current: value, stack: final(state).stack, terminated: false, yielded_io: false, stripped_meta: None, stash: final(state).stash, suspended_stacks: final(state).suspended_stacks, ..*old(state) }),
        forall|m: &M| ok(m, old(state)) && good(m, value) ==> #[trigger] ok(m, final(state))
//@ done
//@ fn eval/bytecode/machine.rs exit_whnf_subrun
//@   ret r
//@   spec
    ensures old(state).stash@.len() > 0, old(state).suspended_stacks@.len() > 0, resumed(old(state), final(state), post_terminated, post_yielded_io),
        r == match run_result { Err(e) => Err(e), Ok(_) => if old(state).yielded_io { Err(ExecutionError::Panic) } else { Ok(old(state).current) } },
        forall|m: &M| ok(m, old(state)) ==> #[trigger] ok(m, final(state)) && (r is Ok ==> good(m, r->Ok_0))
//@ done
/// No step touches what is put away: whatever a value's evaluation does, the
/// caller finds its continuations and its current value again.
pub open spec fn keeps(s: &St, t: &St) -> bool { t.suspended_stacks == s.suspended_stacks && t.stash == s.stash && t.globals == s.globals && t.root_env == s.root_env && t.constants == s.constants && t.blackhole == s.blackhole && t.bif_frames == s.bif_frames }
pub proof fn lemma_step_keeps(o: &M, m: &M, s: &St, t: &St, prog: &BytecodeProgram, decoded: &DecodedProgram, r: Res)
    requires stepped(o, m, s, t, prog, decoded, r)
    ensures keeps(s, t)
{}
pub struct BcBifContext { pub state: BcMachineState, pub program: BytecodeProgram }
/// What evaluation leaves of the state it started from: proved for each step,
/// assumed for the intrinsics it runs.
pub open spec fn ran(o: &M, m: &M, s: &St, t: &St) -> bool { ok(m, t) && grew(o, m) && t.suspended_stacks@ == s.suspended_stacks@ && t.stash@ == s.stash@ && t.globals == s.globals && t.root_env == s.root_env }
impl BcBifContext {
#[verifier::external_body]
pub fn drive_to_whnf(&mut self, view: &mut M) -> (r: Res)
    requires ok(old(view), &old(self).state)
    ensures ran(old(view), final(view), &old(self).state, &final(self).state)
{ unimplemented!() }
//@ fn eval/bytecode/machine.rs BcBifContext::run_to_whnf
//@   ret r
//@   sub /&mut self, value/&mut self, view: &mut M, value/
//@   sub /_subrun\(\s*self\.state/_subrun(&mut self.state/
//@   sub /drive_to_whnf\(\)/drive_to_whnf(&mut *view)/
//@   spec
    requires ok(old(view), &old(self).state), good(old(view), value)
    ensures ok(final(view), &final(self).state), grew(old(view), final(view)), r is Ok ==> good(final(view), r->Ok_0),
        final(self).state.stack == old(self).state.stack, final(self).state.current == old(self).state.current, final(self).state.terminated == old(self).state.terminated,
        final(self).state.suspended_stacks@ =~= old(self).state.suspended_stacks@, final(self).state.stash@ =~= old(self).state.stash@, !final(self).state.yielded_io
//@   head
    broadcast use {kept, built};
//@ done
}
// ---- what an intrinsic is given -------------------------------------------------------
impl Clone for Ref {
    fn clone(&self) -> (r: Self) ensures r == *self { match self { Ref::L(i) => Ref::L(*i), Ref::G(i) => Ref::G(*i), Ref::V(n) => Ref::V(n.clone()) } }
}
/// `constants[k]`, which panics beyond the end.
#[verifier::external_body]
pub fn const_at(c: &Vec<Ref>, k: usize) -> (r: &Ref) ensures k < c@.len(), *r == c@[k as int] { &c[k] }
pub open spec fn arg_ref_of(c: Seq<Ref>, d: DecodedRef) -> Ref { match d { DecodedRef::Local(i) => Ref::L(i as usize), DecodedRef::Global(i) => Ref::G(i as usize), DecodedRef::Value(k) => c[k as int] } }
#[verifier::external_body]
pub fn pooled_args(pool: &mut Vec<Vec<Ref>>) -> Vec<Ref> { pool.pop().unwrap_or_default() }
#[verifier::external_body]
pub fn reserve<T>(v: &mut Vec<T>, n: usize) ensures final(v)@ == old(v)@ { v.reserve(n) }
//@ fn eval/bytecode/machine.rs materialize_bif_args
//@   ret r
//@   sub /state\.bif_arg_pool\.pop\(\)\.unwrap_or_default\(\)/pooled_args(&mut state.bif_arg_pool)/
//@   sub /args\.reserve\(/reserve(&mut args, /
//@   sub /state\.constants\[([^][]*)\]/const_at(&state.constants, \1)/
//@   each 0
//@   spec
    ensures final(state).pending_bif_args@.len() == 0, *final(state) == (St { pending_bif_args: final(state).pending_bif_args, bif_arg_pool: final(state).bif_arg_pool, ..*old(state) }),
        r@.len() == old(state).pending_bif_args@.len(), forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j] == arg_ref_of(old(state).constants@, old(state).pending_bif_args@[j])
//@   loop 0
        invariant n_0 == pending@.len(), i_0 <= n_0, args@.len() == i_0, state.constants == old(state).constants, *state == (St { pending_bif_args: state.pending_bif_args, bif_arg_pool: state.bif_arg_pool, ..*old(state) }), state.pending_bif_args@.len() == 0,
            pending@ == old(state).pending_bif_args@, forall|j: int| #![trigger args@[j]] 0 <= j < i_0 ==> args@[j] == arg_ref_of(old(state).constants@, pending@[j]),
        decreases n_0 - i_0
//@ done
//@ fn eval/bytecode/machine.rs recycle_bif_args
//@   spec
    ensures *final(state) == (St { bif_arg_pool: final(state).bif_arg_pool, ..*old(state) }), final(state).bif_arg_pool@.len() == old(state).bif_arg_pool@.len() + 1,
        final(state).bif_arg_pool@.last()@.len() == 0, final(state).bif_arg_pool@.drop_last() =~= old(state).bif_arg_pool@
//@ done
/// Where an intrinsic's local operands live.
pub open spec fn operands(s: &St) -> Env { if s.bif_frames@.len() > 0 { s.bif_frames@.last().env } else { s.root_env } }
pub open spec fn operand(o: &M, s: &St, d: Ref) -> Option<BcValue> {
    match d { Ref::V(n) => Some(BcValue::Native(n)), Ref::L(i) => var(o, operands(s), i as int), Ref::G(i) => var(o, s.globals, i as int) }
}
pub fn innermost(v: &Vec<BifFrame>, d: Env) -> (r: Env) ensures r == if v@.len() > 0 { v@.last().env } else { d } { if v.len() > 0 { v[v.len() - 1].env } else { d } }
pub open spec fn all_good(m: &M, s: &St) -> bool { ok(m, s) && m.frames().has(operands(s)) }
impl BcBifContext {
//@ fn eval/bytecode/machine.rs BcBifContext::bif_env
//@   ret r
//@   sub /self\s*\.state\s*\.bif_frames\s*\.last\(\)\s*\.map\(\|f\| f\.env\)\s*\.unwrap_or\((.*?)\)/innermost(&self.state.bif_frames, \1)/
//@   spec
    ensures r == operands(&self.state)
//@ done
//@ fn eval/bytecode/machine.rs BcBifContext::resolve_value
//@   ret r
//@   spec
    requires all_good(old(view), &self.state)
    ensures *final(view) == *old(view), r is Ok <==> operand(old(view), &self.state, *arg) is Some, r is Ok ==> Some(r->Ok_0) == operand(old(view), &self.state, *arg) && good(old(view), r->Ok_0)
//@   head
        proof { match *arg { Ref::L(i) => lemma_var(view, operands(&self.state), i as int), Ref::G(i) => lemma_var(view, self.state.globals, i as int), _ => {} } }
//@ done
//@ fn eval/bytecode/machine.rs BcBifContext::build_data
//@   ret r
//@   sub /self\s*\.program\s*\.templates\s*\.get\((.*?)\)\s*\.copied\(\)/pick_opt(&self.program.templates, \1)/
//@   sub /fields\.iter\(\)\.cloned\(\)/owned(fields)/
//@   spec
    requires ok(old(view), &self.state), goods(old(view), fields@)
    ensures closed(final(view)), undisturbed(old(view), final(view)), match r {
        Ok(v) => tag < self.program.templates@.len() && v is Closure && plain(self.program.templates@[tag as int], v->Closure_0.env, v) && if fields@.len() == 0 { v->Closure_0.env == self.state.root_env } else { holds(final(view), v->Closure_0.env, fields@, self.state.root_env) },
        Err(e) => e is Heap || tag >= self.program.templates@.len() }
//@   head
        broadcast use {kept, built};
//@ done
//@ fn eval/bytecode/machine.rs IntrinsicMachine~for~BcBifContext::tail_apply_global
//@   ret r
//@   sub /let args: Vec<BcValue> = arg_refs\s*\.iter\(\)\s*\.map\(\|r\| self\.resolve_value\(view, r\)\)\s*\.collect::<Result<_, _>>\(\)\?/let args = self.resolved(view, arg_refs)?/
//@   sub /Array::from_slice\(&mut \*view, &args\)/Array::from_slice(&mut *view, args.as_slice())/
//@   spec
    requires all_good(old(view), &old(self).state)
    ensures all_good(final(view), &final(self).state), undisturbed(old(view), final(view)), only(&old(self).state, &final(self).state), steady(&old(self).state, &final(self).state), ({
        let (s, t, n) = (old(self).state, final(self).state, old(self).state.stack@.len() as int);
        let v = var(old(view), s.globals, global_idx as int);
        let have = forall|j: int| 0 <= j < arg_refs@.len() ==> operand(old(view), &s, #[trigger] arg_refs@[j]) is Some;
        &&& r is Ok <==> v is Some && have
        &&& r is Ok ==> t.current == v->0
        &&& r is Ok && arg_refs@.len() == 0 ==> t.stack@ == s.stack@
        &&& r is Ok && arg_refs@.len() > 0 ==> t.stack@.len() == n + 1 && t.stack@.take(n) =~= s.stack@ && t.stack@[n] is ApplyTo && t.stack@[n]->ApplyTo_annotation == s.annotation
            && t.stack@[n]->ApplyTo_args.length == arg_refs@.len() && forall|j: int| #![trigger arg_refs@[j]] 0 <= j < arg_refs@.len() ==> Some(t.stack@[n]->ApplyTo_args.seq(final(view))[j]) == operand(old(view), &s, arg_refs@[j])
    })
//@   head
        broadcast use {kept, built};
        proof { lemma_var(view, self.state.globals, global_idx as int); }
//@ done
/// `arg_refs.iter().map(resolve_value).collect::<Result<_, _>>()`
pub fn resolved(&self, view: &mut M, arg_refs: &[Ref]) -> (r: Result<Vec<BcValue>, ExecutionError>)
    requires all_good(old(view), &self.state)
    ensures *final(view) == *old(view), r is Ok <==> (forall|j: int| 0 <= j < arg_refs@.len() ==> operand(old(view), &self.state, #[trigger] arg_refs@[j]) is Some),
        r is Ok ==> r->Ok_0@.len() == arg_refs@.len() && goods(old(view), r->Ok_0@) && forall|j: int| #![trigger arg_refs@[j]] 0 <= j < arg_refs@.len() ==> Some(r->Ok_0@[j]) == operand(old(view), &self.state, arg_refs@[j])
{
    let mut v = Vec::new();
    let mut i = 0;
    while i < arg_refs.len()
        invariant i <= arg_refs@.len(), v@.len() == i, *view == *old(view), all_good(view, &self.state), goods(view, v@), forall|j: int| #![trigger arg_refs@[j]] 0 <= j < i ==> Some(v@[j]) == operand(view, &self.state, arg_refs@[j])
        decreases arg_refs.len() - i
    {
        match self.resolve_value(view, &arg_refs[i]) { Ok(x) => v.push(x), Err(e) => return Err(e) }
        i += 1;
    }
    Ok(v)
}
}
#[verifier::external_body]
pub fn owned(v: &[BcValue]) -> (r: Vec<BcValue>) ensures r@ == v@ { unimplemented!() }
//@ end
} // verus!
fn main() {}

// Contracts over the collector's view of the runtime's data: every pointer a
// value, continuation, environment or machine holds is marked and queued, and
// every one is rewritten when its target has moved.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- what the data structures hold -------------------------------------
/// A pointer into the heap: its address is all that matters here.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefPtr<T> { a: usize, _p: core::marker::PhantomData<T> }
impl<T> Copy for RefPtr<T> {}
impl<T> Clone for RefPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T> RefPtr<T> {
    pub uninterp spec fn id(self) -> int;
    #[verifier::external_body]
    pub fn cast<U>(self) -> (r: RefPtr<U>) ensures r.id() == self.id() { unimplemented!() }
}
#[verifier::external_body] pub struct HeapSet { x: u8 }
#[verifier::external_body] pub struct HeapVec { x: u8 }
#[verifier::external_body] pub struct HeapNdArray { x: u8 }
#[verifier::external_body] pub struct Number { x: u8 }
#[verifier::external_body] pub struct Zoned { x: u8 }
#[verifier::external_body] pub struct SharedIndex { x: u8 }
#[verifier::external_body] pub struct OpaqueHeapBytes { x: u8 }
pub struct SymbolId { pub n: u32 }
#[derive(Clone, Copy)] pub struct Smid { pub n: u32 }
#[derive(Clone, Copy)] pub struct InfoTagged { pub flags: u64, pub body: u32 }
pub type CodeRef = u32;
pub type Tag = u8;
pub struct Scope();

//@ item eval/memory/syntax.rs enum Native
//@   sub /DateTime<FixedOffset>/Zoned/
//@   sub /Rc<BlockIndex>/SharedIndex/
//@ item eval/bytecode/closure.rs struct BcClosure
//@   sub /InfoTagged<CodeRef>/InfoTagged/
//@ item eval/bytecode/closure.rs enum BcValue
//@ item eval/machine/env.rs struct EnvironmentFrame
//@   sub /<C>\s*where\s*C: Clone,/ /
//@   sub /EnvironmentFrame<C>/BcEnvFrame/
//@   sub /Array<C>/Array<BcValue>/
pub type BcEnvFrame = EnvironmentFrame;
//@ item eval/bytecode/cont.rs enum BcContinuation
//@ item eval/memory/string.rs struct HeapString
//@   sub /RawArray<u8>/RawBytes/
//@ item eval/bytecode/machine.rs struct BifFrame
//@ item eval/bytecode/machine.rs struct BcMachineState
//@   sub /ArgRefs/ArgRefs/
#[verifier::external_body] pub struct ArgRefs { x: u8 }
//@ item eval/memory/syntax.rs enum Reference
//@   sub /<T: Clone>/<T>/
pub type Ref = Reference<Native>;

/// What is queued for the collector: an object of the heap, or a value inside one.
pub ghost enum Todo { Object(int), Part(BcValue) }

/// What has to be queued once the object at this address is found live.
pub uninterp spec fn obliges(a: int) -> ISet<Todo>;
pub open spec fn whole(a: int) -> ISet<Todo> { ISet::empty().insert(Todo::Object(a)) }


/// The pointee types, and whether they hold pointers themselves.
pub trait Pointee {
    spec fn leaf() -> bool;
}
impl Pointee for EnvironmentFrame { open spec fn leaf() -> bool { false } }
impl Pointee for HeapString { open spec fn leaf() -> bool { false } }
impl Pointee for HeapSet { open spec fn leaf() -> bool { true } }
impl Pointee for HeapVec { open spec fn leaf() -> bool { true } }
impl Pointee for HeapNdArray { open spec fn leaf() -> bool { true } }
impl Pointee for OpaqueHeapBytes { open spec fn leaf() -> bool { false } }
/// A typed pointer to an object of the heap.
pub open spec fn to_object<T: Pointee>(p: RefPtr<T>) -> bool {
    obliges(p.id()).subset_of(if T::leaf() { ISet::empty() } else { whole(p.id()) })
}

// ---- stand-ins ---------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array<T> { x: usize, _p: core::marker::PhantomData<T> }
impl<T> Array<T> {
    /// Address of the storage, if there is any.
    pub uninterp spec fn at(&self) -> Option<int>;
    pub uninterp spec fn items(&self) -> Seq<T>;
    /// The elements as they were when the storage was copied.
    pub uninterp spec fn copied(&self) -> Seq<T>;
    pub open spec fn fresh(&self) -> bool { self.copied() == self.items() }
    #[verifier::external_body]
    pub fn allocated_data(&self) -> (r: Option<RefPtr<u8>>)
        ensures r is Some <==> self.at() is Some, r is Some ==> r->0.id() == self.at()->0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.items().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&self, i: usize) -> (r: &T) requires i < self.items().len() ensures *r == self.items()[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_backing_ptr(&mut self, p: RefPtr<T>)
        ensures final(self).at() == Some(p.id()), final(self).items() == old(self).copied(), final(self).copied() == old(self).copied()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).items().len()
        ensures *r == old(self).items()[i as int], final(self).items() == old(self).items().update(i as int, *final(r)),
            final(self).at() == old(self).at(), final(self).copied() == old(self).copied()
    { unimplemented!() }
}
pub open spec fn parts(s: Seq<BcValue>) -> ISet<Todo> { ISet::new(|t: Todo| exists|i: int| 0 <= i < s.len() && t == Todo::Part(#[trigger] s[i])) }
/// The storage of an array of values: its owner answers for the elements.
pub open spec fn to_values(a: Array<BcValue>) -> bool {
    a.at() is Some ==> obliges(a.at()->0).subset_of(whole(a.at()->0).union(parts(a.items())))
}
/// Storage without pointers in it.
pub open spec fn to_bytes(at: Option<int>) -> bool {
    at is Some ==> obliges(at->0).subset_of(whole(at->0))
}
pub open spec fn one(a: int) -> ISet<int> { ISet::empty().insert(a) }
pub open spec fn opt(a: Option<int>) -> ISet<int> { if a is Some { one(a->0) } else { ISet::empty() } }
/// A byte buffer.
#[verifier::external_body] pub struct RawBytes { x: usize }
impl RawBytes {
    pub uninterp spec fn at(&self) -> Option<int>;
    pub uninterp spec fn capacity(&self) -> usize;
    #[verifier::external_body]
    pub fn allocated_data(&self) -> (r: Option<RefPtr<u8>>)
        ensures r is Some <==> self.at() is Some, r is Some ==> r->0.id() == self.at()->0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_backing_ptr(&mut self, p: RefPtr<u8>) ensures final(self).at() == Some(p.id()), final(self).capacity() == old(self).capacity() { unimplemented!() }
}

#[verifier::external_body] pub struct ScanPtr { x: usize }
impl ScanPtr {
    pub uninterp spec fn todo(&self) -> Todo;
    #[verifier::external_body]
    pub fn new(scope: &Scope, v: &BcValue) -> (r: ScanPtr) ensures r.todo() == Todo::Part(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_non_null<T: Pointee>(scope: &Scope, p: RefPtr<T>) -> (r: ScanPtr) ensures r.todo() == Todo::Object(p.id()) { unimplemented!() }
}
/// The buffer of what is to be scanned next.
#[verifier::external_body] pub struct Out { x: usize }
impl Out {
    pub uninterp spec fn view(&self) -> ISet<Todo>;
    #[verifier::external_body]
    pub fn push(&mut self, s: ScanPtr) ensures final(self)@ == old(self)@.insert(s.todo()) { unimplemented!() }
}

/// The heap as the collector sees it.
#[verifier::external_body] pub struct Heap { x: usize }
impl Heap {
    /// Objects whose header is marked, and objects all of whose lines are.
    pub uninterp spec fn marked(&self) -> ISet<int>;
    pub uninterp spec fn lined(&self) -> ISet<int>;
    /// Where evacuated objects went.
    pub uninterp spec fn forwards(&self) -> Map<int, int>;
    #[verifier::external_body]
    pub fn is_marked<T>(&self, p: RefPtr<T>) -> (r: bool) ensures r == self.marked().contains(p.id()) { unimplemented!() }
}
pub struct CollectorHeapView { pub heap: Heap }
impl CollectorHeapView {
    pub open spec fn view(&self) -> ISet<int> { self.heap.marked() }
    #[verifier::external_body]
    pub fn mark<T: Pointee>(&mut self, obj: RefPtr<T>) -> (r: bool)
        ensures r == !old(self)@.contains(obj.id()), final(self)@ == old(self)@.insert(obj.id())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_raw_bytes(&mut self, ptr: RefPtr<u8>) -> (r: bool)
        ensures r == !old(self)@.contains(ptr.id()), final(self)@ == old(self)@.insert(ptr.id())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_array<T>(&mut self, arr: &Array<T>) -> (r: bool)
        ensures r == (arr.at() is Some && !old(self)@.contains(arr.at()->0)), final(self)@ =~= old(self)@.union(opt(arr.at()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn forwarded_to<T>(&self, p: RefPtr<T>) -> (r: Option<RefPtr<T>>)
        ensures r is Some <==> self.heap.forwards().contains_key(p.id()), r is Some ==> r->0.id() == self.heap.forwards()[p.id()]
    { unimplemented!() }
}

// ---- the contract ------------------------------------------------------
/// After a scan: all of `needs` is marked, whatever became live is queued with
/// all that has to follow it, and nothing that was queued is lost.
pub open spec fn covered(m0: ISet<int>, m1: ISet<int>, o0: ISet<Todo>, o1: ISet<Todo>, needs: ISet<int>, always: ISet<Todo>) -> bool {
    &&& m0.subset_of(m1) && needs.subset_of(m1)
    &&& o0.subset_of(o1)
    &&& always.subset_of(o1)
    &&& forall|a: int| #![trigger obliges(a)] m1.contains(a) && !m0.contains(a) ==> obliges(a).subset_of(o1)
}
pub open spec fn upto(s: Seq<ISet<int>>, n: int) -> ISet<int> { ISet::new(|a: int| exists|i: int| 0 <= i < n && i < s.len() && (#[trigger] s[i]).contains(a)) }
/// Where a pointer leads after the objects have moved.
pub open spec fn to(h: &CollectorHeapView, a: int) -> int { if h.heap.forwards().contains_key(a) { h.heap.forwards()[a] } else { a } }
pub open spec fn moved<T>(h: &CollectorHeapView, p: RefPtr<T>, q: RefPtr<T>) -> bool { q.id() == to(h, p.id()) }
pub open spec fn opt_to(h: &CollectorHeapView, a: Option<int>) -> Option<int> { if a is Some { Some(to(h, a->0)) } else { None } }

/// What the roots and the objects of the heap are made of.
pub trait Held: Sized {
    /// The pointers it holds.
    spec fn needs(self) -> ISet<int>;
    /// The values it holds that answer for themselves.
    spec fn always(self) -> ISet<Todo>;
    spec fn sound(self) -> bool;
    /// `r` is the same thing, every pointer leading to where its object now is.
    spec fn moves(self, h: &CollectorHeapView, r: Self) -> bool;
}
pub open spec fn all_needs<T: Held>(s: Seq<T>, n: int) -> ISet<int> { ISet::new(|a: int| exists|i: int| 0 <= i < n && (#[trigger] s[i]).needs().contains(a)) }
pub open spec fn all_always<T: Held>(s: Seq<T>, n: int) -> ISet<Todo> { ISet::new(|a: Todo| exists|i: int| 0 <= i < n && (#[trigger] s[i]).always().contains(a)) }
pub open spec fn all_sound<T: Held>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sound() }
pub open spec fn parts_upto(s: Seq<BcValue>, n: int) -> ISet<Todo> { ISet::new(|t: Todo| exists|i: int| 0 <= i < n && t == Todo::Part(#[trigger] s[i])) }
/// The first `n` have been rewritten, the others not yet.
pub open spec fn moved_upto<T: Held>(h: &CollectorHeapView, s: Seq<T>, r: Seq<T>, n: int) -> bool {
    &&& s.len() == r.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).moves(h, r[i])
    &&& forall|i: int| n <= i < s.len() ==> (#[trigger] s[i]) == r[i]
}
pub open spec fn values_moved(h: &CollectorHeapView, a: Array<BcValue>, b: Array<BcValue>) -> bool {
    b.at() == opt_to(h, a.at()) && moved_upto(h, a.items(), b.items(), a.items().len() as int)
}

impl Held for Native {
    open spec fn needs(self) -> ISet<int> {
        match self {
            Native::Str(p) => one(p.id()),
            Native::Set(p) => one(p.id()),
            Native::NdArray(p) => one(p.id()),
            Native::Vec(p) => one(p.id()),
            _ => ISet::empty(),
        }
    }
    open spec fn always(self) -> ISet<Todo> { ISet::empty() }
    open spec fn sound(self) -> bool {
        match self {
            Native::Str(p) => to_object(p),
            Native::Set(p) => to_object(p),
            Native::NdArray(p) => to_object(p),
            Native::Vec(p) => to_object(p),
            _ => true,
        }
    }
    open spec fn moves(self, h: &CollectorHeapView, r: Native) -> bool {
        match (self, r) {
            (Native::Str(p), Native::Str(q)) => moved(h, p, q),
            (Native::Set(p), Native::Set(q)) => moved(h, p, q),
            (Native::NdArray(p), Native::NdArray(q)) => moved(h, p, q),
            (Native::Vec(p), Native::Vec(q)) => moved(h, p, q),
            _ => !(self is Str || self is Set || self is NdArray || self is Vec) && r == self,
        }
    }
}
impl Held for Ref {
    open spec fn needs(self) -> ISet<int> { if self is V { self->V_0.needs() } else { ISet::empty() } }
    open spec fn always(self) -> ISet<Todo> { ISet::empty() }
    open spec fn sound(self) -> bool { self is V ==> self->V_0.sound() }
    open spec fn moves(self, h: &CollectorHeapView, r: Ref) -> bool { if self is V { r is V && self->V_0.moves(h, r->V_0) } else { r == self } }
}
impl Held for BcClosure {
    open spec fn needs(self) -> ISet<int> { one(self.env.id()) }
    open spec fn always(self) -> ISet<Todo> { ISet::empty() }
    open spec fn sound(self) -> bool { to_object(self.env) }
    open spec fn moves(self, h: &CollectorHeapView, r: BcClosure) -> bool { r.info == self.info && moved(h, self.env, r.env) }
}
impl Held for BcValue {
    open spec fn needs(self) -> ISet<int> { match self { BcValue::Closure(c) => c.needs(), BcValue::Native(n) => n.needs() } }
    open spec fn always(self) -> ISet<Todo> { ISet::empty() }
    open spec fn sound(self) -> bool { match self { BcValue::Closure(c) => c.sound(), BcValue::Native(n) => n.sound() } }
    open spec fn moves(self, h: &CollectorHeapView, r: BcValue) -> bool {
        match (self, r) {
            (BcValue::Closure(a), BcValue::Closure(b)) => a.moves(h, b),
            (BcValue::Native(a), BcValue::Native(b)) => a.moves(h, b),
            _ => false,
        }
    }
}
impl Held for BcContinuation {
    open spec fn needs(self) -> ISet<int> {
        match self {
            BcContinuation::Branch { branch_table, environment, .. } => opt(branch_table.at()).union(one(environment.id())),
            BcContinuation::BranchPredecoded { environment, .. } => one(environment.id()),
            BcContinuation::Update { environment, .. } => one(environment.id()),
            BcContinuation::ApplyTo { args, .. } => opt(args.at()),
            BcContinuation::DeMeta { environment, .. } => one(environment.id()),
            BcContinuation::SeqBind { environment, .. } => one(environment.id()),
            BcContinuation::LookupLitForce { default_closure, .. } => default_closure.needs(),
            BcContinuation::CaptureEnd => ISet::empty(),
            BcContinuation::FusedPrimopLeft { environment, .. } => one(environment.id()),
            BcContinuation::FusedPrimopRight { environment, .. } => one(environment.id()),
        }
    }
    open spec fn always(self) -> ISet<Todo> {
        match self {
            BcContinuation::FusedPrimopRight { left, .. } => ISet::empty().insert(Todo::Part(left)),
            _ => ISet::empty(),
        }
    }
    open spec fn sound(self) -> bool {
        match self {
            BcContinuation::Branch { branch_table, environment, .. } => to_bytes(branch_table.at()) && branch_table.fresh() && to_object(environment),
            BcContinuation::BranchPredecoded { environment, .. } => to_object(environment),
            BcContinuation::Update { environment, .. } => to_object(environment),
            BcContinuation::ApplyTo { args, .. } => to_values(args) && args.fresh(),
            BcContinuation::DeMeta { environment, .. } => to_object(environment),
            BcContinuation::SeqBind { environment, .. } => to_object(environment),
            BcContinuation::LookupLitForce { default_closure, .. } => default_closure.sound(),
            BcContinuation::CaptureEnd => true,
            BcContinuation::FusedPrimopLeft { environment, .. } => to_object(environment),
            BcContinuation::FusedPrimopRight { environment, left, .. } => to_object(environment) && left.sound(),
        }
    }
    open spec fn moves(self, h: &CollectorHeapView, r: BcContinuation) -> bool {
        match (self, r) {
            (BcContinuation::Branch { min_tag: m, branch_table: b, fallback: f, environment: e, annotation: a }, BcContinuation::Branch { min_tag: m1, branch_table: b1, fallback: f1, environment: e1, annotation: a1 })
                => m1 == m && b1.at() == opt_to(h, b.at()) && b1.items() == b.items() && f1 == f && moved(h, e, e1) && a1 == a,
            (BcContinuation::BranchPredecoded { min_tag: m, branch_start: b, branch_len: l, fallback: f, environment: e, annotation: a }, BcContinuation::BranchPredecoded { min_tag: m1, branch_start: b1, branch_len: l1, fallback: f1, environment: e1, annotation: a1 })
                => m1 == m && b1 == b && l1 == l && f1 == f && moved(h, e, e1) && a1 == a,
            (BcContinuation::Update { environment: e, index: i, annotation: a }, BcContinuation::Update { environment: e1, index: i1, annotation: a1 })
                => moved(h, e, e1) && i1 == i && a1 == a,
            (BcContinuation::ApplyTo { args: s, annotation: a }, BcContinuation::ApplyTo { args: s1, annotation: a1 })
                => values_moved(h, s, s1) && a1 == a,
            (BcContinuation::DeMeta { handler: b, or_else: o, environment: e }, BcContinuation::DeMeta { handler: b1, or_else: o1, environment: e1 })
                => b1 == b && o1 == o && moved(h, e, e1),
            (BcContinuation::SeqBind { body: b, environment: e, annotation: a }, BcContinuation::SeqBind { body: b1, environment: e1, annotation: a1 })
                => b1 == b && moved(h, e, e1) && a1 == a,
            (BcContinuation::LookupLitForce { key: k, smid: m, default_closure: c }, BcContinuation::LookupLitForce { key: k1, smid: m1, default_closure: c1 })
                => k1 == k && m1 == m && c.moves(h, c1),
            (BcContinuation::CaptureEnd, BcContinuation::CaptureEnd) => true,
            (BcContinuation::FusedPrimopLeft { primop_id: p, right: b, environment: e, annotation: a }, BcContinuation::FusedPrimopLeft { primop_id: p1, right: b1, environment: e1, annotation: a1 })
                => p1 == p && b1 == b && moved(h, e, e1) && a1 == a,
            (BcContinuation::FusedPrimopRight { primop_id: p, left: b, environment: e, annotation: a }, BcContinuation::FusedPrimopRight { primop_id: p1, left: b1, environment: e1, annotation: a1 })
                => p1 == p && b.moves(h, b1) && moved(h, e, e1) && a1 == a,
            _ => false,
        }
    }
}
impl Held for BcEnvFrame {
    open spec fn needs(self) -> ISet<int> { opt(self.bindings.at()).union(if self.next is Some { one(self.next->0.id()) } else { ISet::empty() }) }
    open spec fn always(self) -> ISet<Todo> { ISet::empty() }
    open spec fn sound(self) -> bool { to_values(self.bindings) && self.bindings.fresh() && (self.next is Some ==> to_object(self.next->0)) }
    open spec fn moves(self, h: &CollectorHeapView, r: BcEnvFrame) -> bool {
        &&& values_moved(h, self.bindings, r.bindings)
        &&& r.remap == self.remap && r.remap_len == self.remap_len && r.annotation == self.annotation
        &&& r.next is Some <==> self.next is Some
        &&& self.next is Some ==> moved(h, self.next->0, r.next->0)
    }
}
impl Held for BifFrame {
    open spec fn needs(self) -> ISet<int> { one(self.env.id()).union(all_needs(self.args@, self.args@.len() as int)) }
    open spec fn always(self) -> ISet<Todo> { ISet::empty() }
    open spec fn sound(self) -> bool { to_object(self.env) && all_sound(self.args@) }
    open spec fn moves(self, h: &CollectorHeapView, r: BifFrame) -> bool { moved(h, self.env, r.env) && moved_upto(h, self.args@, r.args@, self.args@.len() as int) }
}
impl Held for HeapString {
    open spec fn needs(self) -> ISet<int> { opt(self.data.at()) }
    open spec fn always(self) -> ISet<Todo> { ISet::empty() }
    open spec fn sound(self) -> bool { to_bytes(self.data.at()) }
    open spec fn moves(self, h: &CollectorHeapView, r: HeapString) -> bool { r.length == self.length && r.data.capacity() == self.data.capacity() && r.data.at() == opt_to(h, self.data.at()) }
}

//@ always /CollectorHeapView<'\w+>/CollectorHeapView/
//@ always /Vec<ScanPtr<'a>>/Out/
//@ always /scope: &'a dyn [\w:]*CollectorScope/scope: &Scope/
//@ always /<'a>\(/(/
//@ always /&'a /&/
//@ always /(?:crate::eval::memory::collect::)CollectorHeapView/CollectorHeapView/
//@ always /\bunsafe \{/{/
//@ always /((?:Ref::V\()?Native::\w+\(ptr\)\)?) if (marker\.mark\(\*ptr\)) => \{/\1 => if \2 {/
impl BcClosure {
//@ fn eval/bytecode/closure.rs BcClosure::env
//@   ret r
//@   spec
    ensures r == self.env
//@ done
//@ fn eval/bytecode/closure.rs BcClosure::set_env
//@   spec
    ensures final(self).env == env, final(self).info == old(self).info
//@ done
//@ fn eval/bytecode/closure.rs GcScannable~for~BcClosure::scan
//@   spec
    requires self.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, self.needs(), ISet::empty())
//@ done
//@ fn eval/bytecode/closure.rs GcScannable~for~BcClosure::scan_and_update
//@   spec
    ensures old(self).moves(heap, *final(self))
//@ done
}
//@ fn eval/bytecode/closure.rs scan_native
//@   spec
    requires native.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, native.needs(), ISet::empty())
//@ done
//@ fn eval/bytecode/closure.rs update_native
//@   spec
    ensures old(native).moves(heap, *final(native))
//@ done
impl BcValue {
//@ fn eval/bytecode/closure.rs GcScannable~for~BcValue::scan
//@   spec
    requires self.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, self.needs(), ISet::empty())
//@ done
//@ fn eval/bytecode/closure.rs GcScannable~for~BcValue::scan_and_update
//@   spec
    ensures old(self).moves(heap, *final(self))
//@ done
}
//@ fn eval/bytecode/cont.rs scan_bc_closure
//@   spec
    requires closure.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, closure.needs(), ISet::empty())
//@ done
impl BcContinuation {
//@ fn eval/bytecode/cont.rs GcScannable~for~BcContinuation::scan
//@   each 0 nth
//@   loop 0
    invariant
        n_0 == args.items().len(), i_0 <= n_0,
        marker@ == old(marker)@.insert(args.at()->0),
        old(out)@.insert(Todo::Object(args.at()->0)).union(parts_upto(args.items(), i_0 as int)).subset_of(out@),
    decreases n_0 - i_0
//@   spec
    requires self.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, self.needs(), self.always())
//@ done
//@ fn eval/bytecode/cont.rs GcScannable~for~BcContinuation::scan_and_update
//@   each 0 nth
//@   head
    let ghost was = *self;
//@   loop 0
    invariant
        n_0 == args.items().len(), i_0 <= n_0, was is ApplyTo,
        moved_upto(heap, was->ApplyTo_args.items(), args.items(), i_0 as int),
        args.at() == opt_to(heap, was->ApplyTo_args.at()),
    decreases n_0 - i_0
//@   spec
    requires old(self).sound()
    ensures old(self).moves(heap, *final(self))
//@ done
}
impl EnvironmentFrame {
//@ fn eval/machine/env.rs GcScannable~for~EnvironmentFrame<C>::scan
//@   each 0 nth
//@   loop 0
    invariant
        n_0 == bindings.items().len(), i_0 <= n_0,
        marker@ == old(marker)@.insert(bindings.at()->0),
        old(out)@.insert(Todo::Object(bindings.at()->0)).union(parts_upto(bindings.items(), i_0 as int)).subset_of(out@),
    decreases n_0 - i_0
//@   spec
    requires self.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, self.needs(), self.always())
//@ done
//@ fn eval/machine/env.rs GcScannable~for~EnvironmentFrame<C>::scan_and_update
//@   each 0 nth
//@   loop 0
    invariant
        n_0 == self.bindings.items().len(), i_0 <= n_0,
        moved_upto(heap, old(self).bindings.items(), self.bindings.items(), i_0 as int),
        self.bindings.at() == opt_to(heap, old(self).bindings.at()),
        self.remap == old(self).remap, self.remap_len == old(self).remap_len, self.annotation == old(self).annotation, self.next == old(self).next,
    decreases n_0 - i_0
//@   spec
    requires old(self).sound()
    ensures old(self).moves(heap, *final(self))
//@ done
}
impl HeapString {
//@ fn eval/memory/string.rs GcScannable~for~HeapString::scan
//@   spec
    requires self.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, self.needs(), self.always())
//@ done
//@ fn eval/memory/string.rs GcScannable~for~HeapString::scan_and_update
//@   spec
    ensures old(self).moves(heap, *final(self))
//@ done
}
//@ fn eval/bytecode/machine.rs scan_const
//@   spec
    requires r.sound()
    ensures covered(old(marker)@, final(marker)@, old(out)@, final(out)@, r.needs(), ISet::empty())
//@ done
//@ fn eval/bytecode/machine.rs update_const
//@   spec
    ensures old(r).moves(heap, *final(r))
//@ done

// ---- the roots ---------------------------------------------------------
/// Whatever was found live is queued with all that follows it; nothing queued is lost.
pub open spec fn steady(m0: ISet<int>, m1: ISet<int>, o0: ISet<Todo>, o1: ISet<Todo>) -> bool {
    m0.subset_of(m1) && o0.subset_of(o1) && forall|a: int| #![trigger obliges(a)] m1.contains(a) && !m0.contains(a) ==> obliges(a).subset_of(o1)
}
pub open spec fn held<T: Held>(s: Seq<T>, n: int, m: ISet<int>, o: ISet<Todo>) -> bool {
    forall|i: int| 0 <= i < n && i < s.len() ==> (#[trigger] s[i]).needs().subset_of(m) && s[i].always().subset_of(o)
}
pub open spec fn held_each(s: Seq<Vec<BcContinuation>>, n: int, m: ISet<int>, o: ISet<Todo>) -> bool {
    forall|j: int| 0 <= j < n && j < s.len() ==> held((#[trigger] s[j])@, s[j]@.len() as int, m, o)
}
pub open spec fn moved_each(h: &CollectorHeapView, s: Seq<Vec<BcContinuation>>, r: Seq<Vec<BcContinuation>>, n: int) -> bool {
    &&& s.len() == r.len()
    &&& forall|j: int| 0 <= j < n && j < s.len() ==> moved_upto(h, (#[trigger] s[j])@, r[j]@, s[j]@.len() as int)
    &&& forall|j: int| n <= j < s.len() ==> (#[trigger] s[j]) == r[j]
}
impl BcMachineState {
    /// The first so many of each kind of root are accounted for.
    pub open spec fn upto(self, m: ISet<int>, o: ISet<Todo>, stack: int, constants: int, stash: int, suspended: int, frames: int) -> bool {
        &&& m.contains(self.globals.id()) && m.contains(self.root_env.id())
        &&& o.contains(Todo::Part(self.current))
        &&& held(self.stack@, stack, m, o)
        &&& held(self.constants@, constants, m, o)
        &&& forall|i: int| 0 <= i < stash && i < self.stash@.len() ==> o.contains(Todo::Part(#[trigger] self.stash@[i]))
        &&& held_each(self.suspended_stacks@, suspended, m, o)
        &&& held(self.bif_frames@, frames, m, o)
    }
    pub open spec fn rooted(self, m: ISet<int>, o: ISet<Todo>) -> bool {
        &&& self.upto(m, o, self.stack@.len() as int, self.constants@.len() as int, self.stash@.len() as int, self.suspended_stacks@.len() as int, self.bif_frames@.len() as int)
        &&& self.stripped_meta is Some ==> o.contains(Todo::Part(self.stripped_meta->0))
    }
    pub open spec fn sound(self) -> bool {
        &&& to_object(self.globals) && to_object(self.root_env) && self.current.sound()
        &&& all_sound(self.stack@) && all_sound(self.constants@) && all_sound(self.stash@) && all_sound(self.bif_frames@)
        &&& forall|j: int| 0 <= j < self.suspended_stacks@.len() ==> all_sound((#[trigger] self.suspended_stacks@[j])@)
        &&& self.stripped_meta is Some ==> self.stripped_meta->0.sound()
    }
    pub open spec fn moved_so_far(self, h: &CollectorHeapView, r: BcMachineState, stack: int, constants: int, stash: int, suspended: int, frames: int) -> bool {
        &&& moved(h, self.globals, r.globals) && moved(h, self.root_env, r.root_env)
        &&& self.current.moves(h, r.current)
        &&& moved_upto(h, self.stack@, r.stack@, stack)
        &&& moved_upto(h, self.constants@, r.constants@, constants)
        &&& moved_upto(h, self.stash@, r.stash@, stash)
        &&& moved_each(h, self.suspended_stacks@, r.suspended_stacks@, suspended)
        &&& moved_upto(h, self.bif_frames@, r.bif_frames@, frames)
    }
    pub open spec fn moves(self, h: &CollectorHeapView, r: BcMachineState) -> bool {
        &&& self.moved_so_far(h, r, self.stack@.len() as int, self.constants@.len() as int, self.stash@.len() as int, self.suspended_stacks@.len() as int, self.bif_frames@.len() as int)
        &&& r.stripped_meta is Some <==> self.stripped_meta is Some
        &&& self.stripped_meta is Some ==> self.stripped_meta->0.moves(h, r.stripped_meta->0)
    }
//@ fn eval/bytecode/machine.rs GcScannable~for~BcMachineState::scan
//@   each 0
//@   each 1
//@   each 2
//@   each 3
//@   each 4 ref
//@   each 5
//@   each 6
//@   loop 0
    invariant self.sound(), steady(old(marker)@, marker@, old(out)@, out@), n_0 == self.stack.len(), i_0 <= n_0, self.upto(marker@, out@, i_0 as int, 0, 0, 0, 0)
    decreases n_0 - i_0
//@   loop 1
    invariant self.sound(), steady(old(marker)@, marker@, old(out)@, out@), n_0 == self.stack.len(), n_1 == self.constants.len(), i_1 <= n_1, self.upto(marker@, out@, n_0 as int, i_1 as int, 0, 0, 0)
    decreases n_1 - i_1
//@   loop 2
    invariant self.sound(), steady(old(marker)@, marker@, old(out)@, out@), n_0 == self.stack.len(), n_1 == self.constants.len(), n_2 == self.stash.len(), i_2 <= n_2, self.upto(marker@, out@, n_0 as int, n_1 as int, i_2 as int, 0, 0)
    decreases n_2 - i_2
//@   loop 3
    invariant self.sound(), steady(old(marker)@, marker@, old(out)@, out@), n_0 == self.stack.len(), n_1 == self.constants.len(), n_2 == self.stash.len(), n_3 == self.suspended_stacks.len(), i_3 <= n_3, self.upto(marker@, out@, n_0 as int, n_1 as int, n_2 as int, i_3 as int, 0)
    decreases n_3 - i_3
//@   loop 4
    invariant self.sound(), steady(old(marker)@, marker@, old(out)@, out@), n_0 == self.stack.len(), n_1 == self.constants.len(), n_2 == self.stash.len(), n_3 == self.suspended_stacks.len(), i_3 < n_3, self.upto(marker@, out@, n_0 as int, n_1 as int, n_2 as int, i_3 as int, 0),
        suspended == &self.suspended_stacks@[i_3 as int], n_4 == suspended.len(), i_4 <= n_4, held(suspended@, i_4 as int, marker@, out@)
    decreases n_4 - i_4
//@   loop 5
    invariant self.sound(), steady(old(marker)@, marker@, old(out)@, out@), n_0 == self.stack.len(), n_1 == self.constants.len(), n_2 == self.stash.len(), n_3 == self.suspended_stacks.len(), n_5 == self.bif_frames.len(), i_5 <= n_5, self.upto(marker@, out@, n_0 as int, n_1 as int, n_2 as int, n_3 as int, i_5 as int)
    decreases n_5 - i_5
//@   loop 6
    invariant self.sound(), steady(old(marker)@, marker@, old(out)@, out@), n_0 == self.stack.len(), n_1 == self.constants.len(), n_2 == self.stash.len(), n_3 == self.suspended_stacks.len(), n_5 == self.bif_frames.len(), i_5 < n_5, self.upto(marker@, out@, n_0 as int, n_1 as int, n_2 as int, n_3 as int, i_5 as int),
        frame == &self.bif_frames@[i_5 as int], n_6 == frame.args.len(), i_6 <= n_6, held(frame.args@, i_6 as int, marker@, out@), marker@.contains(frame.env.id())
    decreases n_6 - i_6
//@   spec
    requires self.sound()
    ensures steady(old(marker)@, final(marker)@, old(out)@, final(out)@), self.rooted(final(marker)@, final(out)@)
//@ done
//@ fn eval/bytecode/machine.rs GcScannable~for~BcMachineState::scan_and_update
//@   each 0
//@   each 1
//@   each 2
//@   each 3
//@   each 4 mut
//@   each 5
//@   each 6
//@   loop 0
    invariant old(self).sound(), n_0 == self.stack.len(), i_0 <= n_0, old(self).moved_so_far(heap, *self, i_0 as int, 0, 0, 0, 0), self.stripped_meta == old(self).stripped_meta
    decreases n_0 - i_0
//@   in 0
    assert(old(self).stack@[i_0 as int].sound());
//@   loop 1
    invariant old(self).sound(), n_0 == old(self).stack.len(), n_1 == self.constants.len(), i_1 <= n_1, old(self).moved_so_far(heap, *self, n_0 as int, i_1 as int, 0, 0, 0), self.stripped_meta == old(self).stripped_meta
    decreases n_1 - i_1
//@   loop 2
    invariant old(self).sound(), n_0 == old(self).stack.len(), n_1 == old(self).constants.len(), n_2 == self.stash.len(), i_2 <= n_2, old(self).moved_so_far(heap, *self, n_0 as int, n_1 as int, i_2 as int, 0, 0), self.stripped_meta == old(self).stripped_meta
    decreases n_2 - i_2
//@   loop 3
    invariant old(self).sound(), n_0 == old(self).stack.len(), n_1 == old(self).constants.len(), n_2 == old(self).stash.len(), n_3 == self.suspended_stacks.len(), i_3 <= n_3, old(self).moved_so_far(heap, *self, n_0 as int, n_1 as int, n_2 as int, i_3 as int, 0), self.stripped_meta == old(self).stripped_meta
    decreases n_3 - i_3
//@   loop 4
    invariant old(self).sound(), n_3 == old(self).suspended_stacks.len(), i_3 < n_3,
        n_4 == suspended.len(), i_4 <= n_4, moved_upto(heap, old(self).suspended_stacks@[i_3 as int]@, suspended@, i_4 as int)
    decreases n_4 - i_4
//@   in 4
    assert(old(self).suspended_stacks@[i_3 as int]@[i_4 as int].sound());
//@   loop 5
    invariant old(self).sound(), n_0 == old(self).stack.len(), n_1 == old(self).constants.len(), n_2 == old(self).stash.len(), n_3 == old(self).suspended_stacks.len(), n_5 == self.bif_frames.len(), i_5 <= n_5, old(self).moved_so_far(heap, *self, n_0 as int, n_1 as int, n_2 as int, n_3 as int, i_5 as int),
        self.stripped_meta is Some <==> old(self).stripped_meta is Some, old(self).stripped_meta is Some ==> old(self).stripped_meta->0.moves(heap, self.stripped_meta->0)
    decreases n_5 - i_5
//@   loop 6
    invariant old(self).sound(), n_5 == old(self).bif_frames.len(), i_5 < n_5,
        n_6 == frame.args.len(), i_6 <= n_6, moved_upto(heap, old(self).bif_frames@[i_5 as int].args@, frame.args@, i_6 as int), moved(heap, old(self).bif_frames@[i_5 as int].env, frame.env)
    decreases n_6 - i_6
//@   spec
    requires old(self).sound()
    ensures old(self).moves(heap, *final(self))
//@ done
}
}

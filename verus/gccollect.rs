// Contracts over the collector's loops: when they stop, what is marked is
// closed under everything the objects hold, every object that moved has one
// faithful copy, and every live object has been rewritten.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- the heap as the collector sees it ---------------------------------
/// A pointer into the heap: its address is all that matters here.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefPtr<T> { a: usize, _p: core::marker::PhantomData<T> }
impl<T> Copy for RefPtr<T> {}
impl<T> Clone for RefPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T> RefPtr<T> {
    pub uninterp spec fn id(self) -> int;
    #[verifier::external_body]
    pub fn cast<U>(self) -> (r: RefPtr<U>) ensures r.id() == self.id() { unimplemented!() }
    /// Live pointers never dangle.
    #[verifier::external_body]
    pub fn real(self) -> (r: bool) ensures r { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array<T> { x: usize, _p: core::marker::PhantomData<T> }
impl<T> Array<T> {
    pub uninterp spec fn at(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn allocated_data(&self) -> (r: Option<RefPtr<u8>>)
        ensures r is Some <==> self.at() is Some, r is Some ==> r->0.id() == self.at()->0
    { unimplemented!() }
}

/// What is queued: an object of the heap, or a value inside one.
pub ghost enum Todo { Object(int), Part(int) }
/// The pointers an item holds, and the values in it that answer for themselves.
pub uninterp spec fn needs(t: Todo) -> ISet<int>;
pub uninterp spec fn always(t: Todo) -> ISet<Todo>;
/// What has to be queued once the object at this address is found live.
pub uninterp spec fn obliges(a: int) -> ISet<Todo>;
pub open spec fn one(a: int) -> ISet<int> { ISet::empty().insert(a) }

/// Marked objects, and objects every line of which is marked.
pub ghost struct Marks { pub marked: ISet<int>, pub lined: ISet<int> }
impl Marks {
    pub open spec fn contains(self, a: int) -> bool { self.marked.contains(a) }
    pub open spec fn mark(self, a: int) -> Marks { Marks { marked: self.marked.insert(a), lined: self.lined } }
    pub open spec fn line(self, a: int) -> Marks { Marks { marked: self.marked, lined: self.lined.insert(a) } }
    pub open spec fn insert(self, a: int) -> Marks { if self.contains(a) { self } else { self.mark(a).line(a) } }
    /// Nothing marked can lose its lines.
    pub open spec fn well(self) -> bool { self.marked.subset_of(self.lined) }
    pub open spec fn within(self, o: Marks) -> bool { self.marked.subset_of(o.marked) && self.lined.subset_of(o.lined) && (self.well() ==> o.well()) }
}
pub type DataPtr = RefPtr<u8>;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct VTable { x: usize }
#[verifier::external_body] pub struct Header { x: usize }
impl Header {
    pub uninterp spec fn len(&self) -> u32;
    pub uninterp spec fn forward(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn length(&self) -> (r: u32) ensures r == self.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_forwarded(&self) -> (r: bool) ensures r == (self.forward() is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn forwarded_to(&self) -> (r: Option<RefPtr<u8>>) ensures r is Some <==> self.forward() is Some, r is Some ==> r->0.id() == self.forward()->0 { unimplemented!() }
}
/// Storage in an evacuation block: an address not in use, and room for so much.
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Room { x: usize }
impl Room {
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn size(&self) -> usize;
    #[verifier::external_body]
    pub fn object<T>(&self) -> (r: RefPtr<T>) ensures r.id() == self.at() { unimplemented!() }
}
pub open spec fn header_size() -> int { 16 }
pub struct AllocHeader { pub bits: u64, pub forwarded: u64 }
global layout AllocHeader is size == 16;

#[verifier::external_body] pub struct Heap { x: usize }
impl Heap {
    pub uninterp spec fn marks(&self) -> Marks;
    /// Where evacuated objects went.
    pub uninterp spec fn forwards(&self) -> Map<int, int>;
    /// What was kept by the collection just made.
    pub uninterp spec fn kept(&self) -> Marks;
    pub uninterp spec fn payload(&self, a: int) -> u32;
    /// The new objects the evacuation made.
    pub open spec fn copies(&self) -> ISet<int> { ISet::new(|b: int| exists|a: int| #[trigger] self.forwards().contains_key(a) && self.forwards()[a] == b) }
    /// No object has been moved to an address that was in use before.
    pub uninterp spec fn in_use(&self) -> ISet<int>;
    pub open spec fn to(&self, a: int) -> int { if self.forwards().contains_key(a) { self.forwards()[a] } else { a } }
    /// A copy was made, byte for byte, header and payload.
    pub uninterp spec fn copied(&self, a: int, b: int) -> bool;
    /// Objects rewritten after the move.
    pub uninterp spec fn rewritten(&self) -> ISet<int>;
    pub open spec fn same_but_marks(&self, o: &Heap) -> bool {
        self.forwards() == o.forwards() && self.kept() == o.kept() && self.in_use() == o.in_use() && self.pins() == o.pins()
            && (forall|a: int, b: int| #[trigger] self.copied(a, b) == o.copied(a, b)) && (forall|a: int| #[trigger] self.payload(a) == o.payload(a))
    }

    #[verifier::external_body]
    pub fn is_marked<T>(&self, p: RefPtr<T>) -> (r: bool) ensures r == self.marks().contains(p.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_object<T>(&mut self, p: RefPtr<T>) ensures final(self).marks() == old(self).marks().mark(p.id()), final(self).same_but_marks(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_line<T: Sized>(&mut self, p: RefPtr<T>) ensures final(self).marks() == old(self).marks().line(p.id()), final(self).same_but_marks(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_lines_for_bytes(&mut self, p: RefPtr<u8>) ensures final(self).marks() == old(self).marks().line(p.id()), final(self).same_but_marks(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_state(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn header<T>(&self, p: RefPtr<T>) -> (r: Header)
        ensures r.len() == self.payload(p.id()),
            r.forward() == (if self.forwards().contains_key(p.id()) { Some(self.forwards()[p.id()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bump_allocate_in_target(&mut self, size: usize) -> (r: Option<Room>)
        requires size % 16 == 0
        ensures r is Some ==> r->0.size() == size && !old(self).in_use().contains(r->0.at()) && final(self).in_use() == old(self).in_use().insert(r->0.at()),
            r is None ==> final(self).in_use() == old(self).in_use(),
            final(self).marks() == old(self).marks(), final(self).forwards() == old(self).forwards(), final(self).kept() == old(self).kept(), final(self).pins() == old(self).pins(),
            forall|a: int, b: int| #[trigger] final(self).copied(a, b) == old(self).copied(a, b), forall|a: int| old(self).in_use().contains(a) ==> #[trigger] final(self).payload(a) == old(self).payload(a)
    { unimplemented!() }
    /// Copy the first `size` bytes of an object, its header included.
    #[verifier::external_body]
    pub fn copy<T>(&mut self, from: RefPtr<T>, to: Room, size: usize)
        requires size <= to.size()
        ensures size == header_size() + old(self).payload(from.id()) ==> final(self).copied(from.id(), to.at()),
            final(self).marks() == old(self).marks(), final(self).forwards() == old(self).forwards(), final(self).kept() == old(self).kept(), final(self).pins() == old(self).pins(), final(self).in_use() == old(self).in_use(),
            forall|a: int, b: int| b != to.at() ==> #[trigger] final(self).copied(a, b) == old(self).copied(a, b),
            forall|a: int| a != to.at() ==> #[trigger] final(self).payload(a) == old(self).payload(a)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_forwarded<T>(&mut self, from: RefPtr<T>, to: RefPtr<u8>)
        requires old(self).copied(from.id(), to.id())
        ensures final(self).forwards() == old(self).forwards().insert(from.id(), to.id()), final(self).marks() == old(self).marks(), final(self).kept() == old(self).kept(), final(self).pins() == old(self).pins(), final(self).in_use() == old(self).in_use(),
            forall|a: int, b: int| #[trigger] final(self).copied(a, b) == old(self).copied(a, b), forall|a: int| #[trigger] final(self).payload(a) == old(self).payload(a)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ptr_in_pinned_block<T>(&self, p: RefPtr<T>) -> (r: bool) ensures r == self.pins().contains(p.id()) { unimplemented!() }
    /// Objects in blocks that must stay where they are.
    pub uninterp spec fn pins(&self) -> ISet<int>;
    #[verifier::external_body]
    pub fn is_in_candidate_block<T>(&self, p: RefPtr<T>, candidates: &[usize]) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_region_marks(&mut self) ensures final(self).marks() == (Marks { marked: old(self).marks().marked, lined: ISet::empty() }), final(self).same_but_marks(old(self)) { unimplemented!() }
    /// From here on only what is marked, and its lines, is safe.
    #[verifier::external_body]
    pub fn defer_sweep(&mut self) ensures final(self).kept() == old(self).marks(), final(self).marks() == old(self).marks(), final(self).forwards() == old(self).forwards(), final(self).in_use() == old(self).in_use(), final(self).pins() == old(self).pins(), final(self).rewritten() == old(self).rewritten(), forall|a: int, b: int| #[trigger] final(self).copied(a, b) == old(self).copied(a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn record_collection(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalise_evacuation(&mut self, log: &Rewritten)
        ensures final(self).same_but_marks(old(self)), final(self).marks() == old(self).marks(), final(self).rewritten() == log@
    { unimplemented!() }
    /// Everything kept counts as unmarked for the next collection.
    #[verifier::external_body]
    pub fn flip_mark_state(&mut self)
        ensures final(self).kept() == old(self).kept(), final(self).pins() == old(self).pins(), final(self).forwards() == old(self).forwards(), final(self).marks().marked == ISet::<int>::empty(), final(self).marks().lined == old(self).marks().lined, final(self).in_use() == old(self).in_use(), final(self).pins() == old(self).pins(), final(self).rewritten() == old(self).rewritten(), forall|a: int, b: int| #[trigger] final(self).copied(a, b) == old(self).copied(a, b)
    { unimplemented!() }
}

/// Which objects have been rewritten so far.
#[verifier::external_body] pub struct Rewritten { x: usize }
impl Rewritten {
    pub uninterp spec fn view(&self) -> ISet<int>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == ISet::<int>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub fn rewrite_object(h: &CollectorHeapView, p: DataPtr, t: VTable, log: &mut Rewritten)
    ensures final(log)@ == old(log)@.insert(p.id())
{ unimplemented!() }

pub struct CollectorHeapView { pub heap: Heap }
/// The collector's view is the heap itself.
#[verifier::external_body]
pub fn as_view(heap: &mut Heap) -> (r: &mut CollectorHeapView)
    ensures r.heap == *old(heap), *final(heap) == final(r).heap
{ unimplemented!() }
#[verifier::external_body] pub fn poison_enabled() -> (r: bool) ensures !r { unimplemented!() }
#[verifier::external_body] pub fn verify_level() -> (r: u8) { unimplemented!() }
#[verifier::external_body] pub fn verify_marked_object<T>(h: &Heap, p: RefPtr<T>) { unimplemented!() }
#[verifier::external_body] pub fn verify_post_evacuate(h: &Heap) { unimplemented!() }
#[verifier::external_body] pub fn verify_post_update(h: &Heap) { unimplemented!() }
#[verifier::external_body] pub fn verify_post_sweep(h: &Heap) { unimplemented!() }
/// A second traversal, which panics unless it finds nothing new.
#[verifier::external_body] pub fn verify_mark_integrity(r: &Roots, h: &mut Heap) ensures *final(h) == *old(h) { unimplemented!() }
pub enum ThreadOccupation { Mutator, CollectorMark, CollectorSweep, Initialisation }
#[verifier::external_body] pub struct Clock { x: usize }
impl Clock { #[verifier::external_body] pub fn switch(&mut self, t: ThreadOccupation) { unimplemented!() } }
pub struct Scope();

/// Whatever was found live is queued with all that follows it; nothing queued is lost.
pub open spec fn steady(h0: &Heap, h1: &Heap, o0: ISet<Todo>, o1: ISet<Todo>) -> bool {
    &&& h0.marks().within(h1.marks()) && h1.same_but_marks(h0)
    &&& o0.subset_of(o1)
    &&& forall|a: int| #![trigger obliges(a)] h1.marks().contains(a) && !h0.marks().contains(a) ==> obliges(a).subset_of(o1)
}
/// Pointers held by reachable objects lead to objects of the heap.
pub open spec fn live_objects(o0: ISet<Todo>, o1: ISet<Todo>, used: ISet<int>) -> bool {
    forall|a: int| #[trigger] o1.contains(Todo::Object(a)) && !o0.contains(Todo::Object(a)) ==> used.contains(a)
}
#[verifier::external_body] pub struct Item { x: usize }
impl Item {
    pub uninterp spec fn todo(&self) -> Todo;
    #[verifier::external_body]
    pub fn scan(&self, scope: &Scope, marker: &mut CollectorHeapView, out: &mut Out)
        ensures steady(&old(marker).heap, &final(marker).heap, old(out)@, final(out)@),
            needs(self.todo()).subset_of(final(marker).heap.marks().marked), always(self.todo()).subset_of(final(out)@),
            live_objects(old(out)@, final(out)@, final(marker).heap.in_use())
    { unimplemented!() }
}
#[verifier::external_body] pub struct ScanPtr { x: usize }
impl ScanPtr {
    pub uninterp spec fn todo(&self) -> Todo;
    #[verifier::external_body]
    pub fn get(&self) -> (r: &Item) ensures r.todo() == self.todo() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_heap_object(&self) -> (r: bool) ensures r == (self.todo() is Object) { unimplemented!() }
}
#[verifier::external_body]
pub fn raw_parts_of(obj: &Item) -> (r: (DataPtr, VTable)) ensures obj.todo() is Object ==> r.0.id() == obj.todo()->Object_0 { unimplemented!() }
#[verifier::external_body] pub struct Roots { x: usize }
impl Roots {
    pub uninterp spec fn needs(&self) -> ISet<int>;
    pub uninterp spec fn always(&self) -> ISet<Todo>;
    pub uninterp spec fn moves(&self, forwards: Map<int, int>, r: &Roots) -> bool;
    #[verifier::external_body]
    pub fn scan(&self, scope: &Scope, marker: &mut CollectorHeapView, out: &mut Out)
        ensures steady(&old(marker).heap, &final(marker).heap, old(out)@, final(out)@),
            self.needs().subset_of(final(marker).heap.marks().marked), self.always().subset_of(final(out)@),
            live_objects(old(out)@, final(out)@, final(marker).heap.in_use())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn scan_and_update(&mut self, h: &CollectorHeapView) ensures old(self).moves(h.heap.forwards(), final(self)) { unimplemented!() }
}
/// The buffer of what a scan found.
#[verifier::external_body] pub struct Out { x: usize }
impl Out {
    pub uninterp spec fn view(&self) -> ISet<Todo>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == ISet::<Todo>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_all(&mut self) -> (r: Out) ensures r@ == old(self)@, final(self)@ == ISet::<Todo>::empty() { unimplemented!() }
}
/// What is waiting to be scanned.
#[verifier::external_body] pub struct Queue { x: usize }
impl Queue {
    pub uninterp spec fn view(&self) -> ISet<Todo>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == ISet::<Todo>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: Out) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<ScanPtr>)
        ensures r is None ==> old(self)@ == ISet::<Todo>::empty() && final(self)@ == old(self)@,
            r is Some ==> old(self)@.contains(r->0.todo()) && final(self)@.subset_of(old(self)@) && old(self)@.subset_of(final(self)@.insert(r->0.todo()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<ScanPtr>)
        ensures r is None ==> old(self)@ == ISet::<Todo>::empty() && final(self)@ == old(self)@,
            r is Some ==> old(self)@.contains(r->0.todo()) && final(self)@.subset_of(old(self)@) && old(self)@.subset_of(final(self)@.insert(r->0.todo()))
    { unimplemented!() }
}

// ---- what a collection guarantees --------------------------------------
/// Everything to be scanned has been (`s`) or is queued (`q`); what has been
/// scanned holds only marked pointers.  New copies (not in use before) aside.
pub open spec fn tracing(r: &Roots, m: Marks, used: ISet<int>, s: ISet<Todo>, q: ISet<Todo>) -> bool {
    &&& m.well()
    &&& r.needs().subset_of(m.marked) && r.always().subset_of(s.union(q))
    &&& forall|t: Todo| #[trigger] s.contains(t) ==> needs(t).subset_of(m.marked) && always(t).subset_of(s.union(q))
    &&& forall|a: int| #![trigger obliges(a)] m.contains(a) && used.contains(a) ==> obliges(a).subset_of(s.union(q))
}
/// The marks are closed: `s` is everything reachable, and all it holds is marked.
pub open spec fn complete(r: &Roots, m: Marks, used: ISet<int>, s: ISet<Todo>) -> bool {
    &&& m.well()
    &&& r.needs().subset_of(m.marked) && r.always().subset_of(s)
    &&& forall|t: Todo| #[trigger] s.contains(t) ==> needs(t).subset_of(m.marked) && always(t).subset_of(s)
    &&& forall|a: int| #![trigger obliges(a)] m.contains(a) && used.contains(a) ==> obliges(a).subset_of(s)
}
/// Objects that moved: one faithful, marked copy each at an address of its own; none was pinned.
pub open spec fn relocated(h: &Heap, used: ISet<int>) -> bool {
    forall|a: int| #[trigger] h.forwards().contains_key(a) ==> h.copied(a, h.forwards()[a]) && !used.contains(h.forwards()[a])
        && h.in_use().contains(h.forwards()[a]) && h.marks().contains(h.forwards()[a]) && !h.pins().contains(a)
}
pub open spec fn recorded(live: Seq<(DataPtr, VTable)>, s: ISet<Todo>) -> bool {
    forall|a: int| #[trigger] s.contains(Todo::Object(a)) ==> exists|i: int| 0 <= i < live.len() && (#[trigger] live[i]).0.id() == a
}
/// Nothing marked, nothing moved yet.
pub open spec fn ready(h: &Heap) -> bool { h.marks().marked == ISet::<int>::empty() && h.forwards() == Map::<int, int>::empty() }
pub open spec fn preserved(r0: &Roots, r1: &Roots, h0: &Heap, h1: &Heap, s: ISet<Todo>) -> bool {
    &&& complete(r0, h1.kept(), h0.in_use(), s)
    &&& r0.moves(h1.forwards(), r1)
    &&& forall|a: int| #[trigger] h1.kept().contains(a) ==> h1.kept().contains(h1.to(a))
    &&& forall|a: int| #[trigger] s.contains(Todo::Object(a)) ==> h1.rewritten().contains(h1.to(a))
    &&& forall|a: int| #[trigger] h1.forwards().contains_key(a) ==> h1.copied(a, h1.forwards()[a]) && !h0.in_use().contains(h1.forwards()[a]) && !h0.pins().contains(a)
}

//@ always /CollectorHeapView<'\w+>/CollectorHeapView/
//@ always /roots: &mut dyn GcScannable/roots: &mut Roots/
//@ always /NonNull</RefPtr</
//@ always /super::gc_\w+:://
//@ always /obj != NonNull::dangling\(\)/obj.real()/
//@ always /let (?:mut )?heap_view = CollectorHeapView \{\s*heap(?:: &mut \*heap)?,?\s*\};/let heap_view = as_view(heap);/
//@ always /&(?:mut )?heap_view\b/heap_view/
//@ always /verify_mark_integrity\(roots, heap_view\.heap\)/verify_mark_integrity(roots, &mut heap_view.heap)/
//@ always /(verify_post_\w+)\(heap_view\.heap\)/\1(&heap_view.heap)/
//@ always /verify_marked_object\(self\.heap, obj\)/verify_marked_object(&self.heap, obj)/
//@ always /VecDeque::default\(\)/Queue::default()/
//@ always /let mut scan_buffer = Vec::new\(\)/let mut scan_buffer = Out::new()/
//@ always /scan_buffer\.drain\(\.\.\)/scan_buffer.drain_all()/
//@ always /\*const u8/DataPtr/
//@ always /\*const \(\)/VTable/
//@ always /\bunsafe \{/{/
impl CollectorHeapView {
//@ fn eval/memory/collect.rs CollectorHeapView::reset
//@   spec
    ensures final(self).heap.marks() == (Marks { marked: old(self).heap.marks().marked, lined: ISet::empty() }), final(self).heap.same_but_marks(&old(self).heap)
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::mark
//@   sub /if poison_enabled\(\) \{.*?\n        \}\n//
//@   ret r
//@   spec
    ensures r == !old(self).heap.marks().contains(obj.id()), final(self).heap.marks() == old(self).heap.marks().insert(obj.id()), final(self).heap.same_but_marks(&old(self).heap)
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::mark_raw_bytes
//@   ret r
//@   spec
    ensures r == !old(self).heap.marks().contains(ptr.id()), final(self).heap.marks() == old(self).heap.marks().insert(ptr.id()), final(self).heap.same_but_marks(&old(self).heap)
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::mark_array
//@   ret r
//@   spec
    ensures r == (arr.at() is Some && !old(self).heap.marks().contains(arr.at()->0)),
        final(self).heap.marks() == (if arr.at() is Some { old(self).heap.marks().insert(arr.at()->0) } else { old(self).heap.marks() }), final(self).heap.same_but_marks(&old(self).heap)
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::is_marked
//@   ret r
//@   spec
    ensures r == self.heap.marks().contains(obj.id())
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::defer_sweep
//@   spec
    ensures final(self).heap.kept() == old(self).heap.marks(), final(self).heap.marks() == old(self).heap.marks(), final(self).heap.forwards() == old(self).heap.forwards(), final(self).heap.in_use() == old(self).heap.in_use(), final(self).heap.pins() == old(self).heap.pins(),
        final(self).heap.rewritten() == old(self).heap.rewritten(), forall|a: int, b: int| #[trigger] final(self).heap.copied(a, b) == old(self).heap.copied(a, b)
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::forwarded_to
//@   sub /let header_ptr = self\.heap\.header_ptr_mut\(ptr\);\s*let header = \{ &\*header_ptr \};/let header = self.heap.header(ptr);/
//@   sub /NonNull::new_unchecked\(\s*(header\s*\.forwarded_to\(\)\s*)\.expect\("[^"]*"\)\s*\.as_ptr\(\) as \*mut T,?\s*\)/\1.unwrap().cast()/
//@   ret r
//@   spec
    ensures r is Some <==> self.heap.forwards().contains_key(ptr.id()), r is Some ==> r->0.id() == self.heap.forwards()[ptr.id()]
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::is_pinned
//@   ret r
//@   spec
    ensures r == self.heap.pins().contains(ptr.id())
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::is_in_candidate_block
//@ done
//@ fn eval/memory/collect.rs CollectorHeapView::evacuate
//@   sub /let header_ptr = self\.heap\.header_ptr_mut\(obj\);\s*let header = \{ &mut \*header_ptr \};/let header = self.heap.header(obj);/
//@   sub /NonNull::new_unchecked\(\s*(header\s*\.forwarded_to\(\)\s*)\.expect\("[^"]*"\)\s*\.as_ptr\(\) as \*mut T,?\s*\)/\1.unwrap().cast()/
//@   sub /\{\s*let src = \(obj\.as_ptr\(\) as DataPtr\)\.sub\(size_of::<AllocHeader>\(\)\);\s*let copy_size = ([^;]*);\s*std::ptr::copy_nonoverlapping\(src, new_raw\.as_ptr\(\), copy_size\);\s*\}/{ let copy_size = \1; self.heap.copy(obj, new_raw, copy_size); }/
//@   sub /NonNull::new_unchecked\(new_raw\.as_ptr\(\)\.add\(size_of::<AllocHeader>\(\)\) as \*mut T\)/new_raw.object::<T>()/
//@   sub /let old_header = \{ &mut \*self\.heap\.header_ptr_mut\(obj\) \};\s*old_header\.set_forwarded\(([^;]*)\);/self.heap.set_forwarded(obj, \1);/
//@   before let new_raw
    assert(forall|x: usize| #[trigger] (x & !15usize) % 16 == 0 && (x & !15usize) <= x && x < (x & !15usize) + 16) by (bit_vector);
//@   ret r
//@   spec
    requires old(self).heap.in_use().contains(obj.id())
    ensures
        r is None ==> final(self).heap.marks() == old(self).heap.marks() && final(self).heap.forwards() == old(self).heap.forwards(),
        r is Some && old(self).heap.forwards().contains_key(obj.id()) ==> *final(self) == *old(self) && r->0.id() == old(self).heap.forwards()[obj.id()],
        r is Some && !old(self).heap.forwards().contains_key(obj.id()) ==> {
            &&& final(self).heap.forwards() == old(self).heap.forwards().insert(obj.id(), r->0.id())
            &&& !old(self).heap.in_use().contains(r->0.id()) && final(self).heap.in_use() == old(self).heap.in_use().insert(r->0.id())
            &&& final(self).heap.marks() == old(self).heap.marks().mark(r->0.id()).line(r->0.id())
            &&& final(self).heap.copied(obj.id(), r->0.id())
        },
        old(self).heap.in_use().subset_of(final(self).heap.in_use()),
        final(self).heap.pins() == old(self).heap.pins(), final(self).heap.kept() == old(self).heap.kept(),
        forall|a: int, b: int| old(self).heap.in_use().contains(b) ==> #[trigger] final(self).heap.copied(a, b) == old(self).heap.copied(a, b)
//@ done
}

//@ fn eval/memory/collect.rs try_evacuate
//@   sub /let Some\(ptr\) = RefPtr::new\(data_ptr as \*mut u8\) else \{\s*return;\s*\};/let ptr = data_ptr;/
//@   sub /let Some\(ptr\) = NonNull::new\(data_ptr as \*mut u8\) else \{\s*return;\s*\};/let ptr = data_ptr;/
//@   spec
    requires old(heap_view).heap.in_use().contains(data_ptr.id())
    ensures evacuated(&old(heap_view).heap, &final(heap_view).heap, data_ptr.id())
//@ done
/// At most this object has moved, to an address of its own, if nothing forbids it.
pub open spec fn evacuated(h0: &Heap, h1: &Heap, a: int) -> bool {
    &&& h0.in_use().subset_of(h1.in_use()) && h1.pins() == h0.pins() && h1.kept() == h0.kept()
    &&& forall|x: int, b: int| h0.in_use().contains(b) ==> #[trigger] h1.copied(x, b) == h0.copied(x, b)
    &&& (h1.forwards() == h0.forwards() && h1.marks() == h0.marks())
        || (exists|b: int| #![trigger h0.marks().mark(b)] !h0.in_use().contains(b) && h1.in_use().contains(b) && !h0.forwards().contains_key(a) && !h0.pins().contains(a)
            && h1.forwards() == h0.forwards().insert(a, b) && h1.marks() == h0.marks().mark(b).line(b) && h1.copied(a, b))
}

//@ fn eval/memory/collect.rs collect_mark_in_place
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   loop 0
    invariant
        heap_view.heap.in_use() == old(heap).in_use(),
        heap_view.heap.forwards() == old(heap).forwards(),
        scan_buffer@ == ISet::<Todo>::empty(),
        tracing(roots, heap_view.heap.marks(), heap_view.heap.in_use(), seen, queue@),
    ensures
        queue@ == ISet::<Todo>::empty(),
//@   head
    let ghost mut seen = ISet::<Todo>::empty();
//@   in 0
    proof { seen = seen.insert(scanptr.todo()); }
//@   after 0
    assert(complete(roots, heap_view.heap.marks(), old(heap).in_use(), seen));
//@   spec
    requires ready(old(heap))
    ensures *final(roots) == *old(roots), final(heap).forwards() == old(heap).forwards(),
        exists|s: ISet<Todo>| complete(old(roots), final(heap).kept(), old(heap).in_use(), s),
        final(heap).marks().marked == ISet::<int>::empty()
//@ done

//@ fn eval/memory/collect.rs collect_with_evacuation
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   sub /let Some\(ptr\) = NonNull::new\(data_ptr as \*mut u8\) else \{\s*continue;\s*\};/let ptr = data_ptr;/
//@   sub /new_ptr\.as_ptr\(\)/new_ptr/
//@   sub /data_ptr as \*mut u8/data_ptr/
//@   sub /let obj_ref: &mut dyn GcScannable =\s*std::mem::transmute::<\[usize; 2\], &mut dyn GcScannable>\(\[\s*(\w+) as usize,\s*(\w+) as usize,?\s*\]\);\s*obj_ref\.scan_and_update\((&?\w+)\);/rewrite_object(\3, \1, \2, &mut log);/
//@   sub /finalise_evacuation\(\)/finalise_evacuation(&log)/
//@   each 1
//@   loop 0
    invariant
        heap_view.heap.pins() == old(heap).pins(),
        old(heap).in_use().subset_of(heap_view.heap.in_use()),
        scan_buffer@ == ISet::<Todo>::empty(),
        tracing(roots, heap_view.heap.marks(), old(heap).in_use(), seen, queue@),
        relocated(&heap_view.heap, old(heap).in_use()),
        recorded(live_heap_objects@, seen),
        live_objects(ISet::empty(), queue@, heap_view.heap.in_use()),
    ensures
        queue@ == ISet::<Todo>::empty(),
//@   in 0
    let ghost recorded0 = live_heap_objects@;
    let ghost seen0 = seen;
    proof { seen = seen.insert(scanptr.todo()); }
//@   end 0
    proof {
        assert forall|a: int| #[trigger] seen.contains(Todo::Object(a)) implies exists|i: int| 0 <= i < live_heap_objects@.len() && (#[trigger] live_heap_objects@[i]).0.id() == a by {
            if scanptr.todo() == Todo::Object(a) {
                assert(live_heap_objects@[live_heap_objects@.len() - 1].0.id() == a);
            } else {
                assert(seen0.contains(Todo::Object(a)));
                let i = choose|i: int| 0 <= i < recorded0.len() && (#[trigger] recorded0[i]).0.id() == a;
                assert(live_heap_objects@[i].0.id() == a);
            }
        }
    }
//@   after 0
    assert(complete(roots, heap_view.heap.marks(), old(heap).in_use(), seen));
//@   before heap_view\.heap\.finalise_evacuation
    proof { moved_heap = heap_view.heap; }
//@   loop 1
    invariant
        n_1 == live_heap_objects@.len(), i_1 <= n_1,
        forall|j: int| 0 <= j < i_1 ==> log@.contains(heap_view.heap.to((#[trigger] live_heap_objects@[j]).0.id())),
    decreases n_1 - i_1
//@   before heap\.flip_mark_state
    assert(forall|a: int| heap.to(a) == moved_heap.to(a));
    assert(complete(old(roots), heap.kept(), old(heap).in_use(), seen));
    assert(forall|a: int| #[trigger] heap.kept().contains(a) ==> heap.kept().contains(heap.to(a)));
//@   after 1
    assert(forall|a: int| #[trigger] seen.contains(Todo::Object(a)) ==> log@.contains(heap_view.heap.to(a)));
//@   head
    let ghost mut seen = ISet::<Todo>::empty();
    let ghost mut moved_heap = *heap;
    let mut log = Rewritten::new();
//@   tail
    assert(preserved(old(roots), roots, old(heap), heap, seen));
//@   spec
    requires ready(old(heap))
    ensures final(heap).marks().marked == ISet::<int>::empty(),
        exists|s: ISet<Todo>| preserved(old(roots), final(roots), old(heap), final(heap), s)
//@ done
}

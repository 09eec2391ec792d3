// Contracts over heap arrays and environment frames: which memory an index
// reads and writes, what a chain of frames makes of a variable's index, and
// that a constructor's fields keep their order and their sharing when a
// branch receives them.
use vstd::prelude::*;
use vstd::layout::*;
verus! {
global size_of usize == 8;

// ---- memory ------------------------------------------------------------
/// A pointer: an allocation, and an element in it.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefPtr<T> { a: usize, _p: core::marker::PhantomData<T> }
impl<T> Copy for RefPtr<T> {}
impl<T> Clone for RefPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T> RefPtr<T> {
    pub uninterp spec fn base(self) -> int;
    pub uninterp spec fn idx(self) -> int;
    pub open spec fn id(self) -> int { self.base() }
    #[verifier::external_body]
    pub fn dangling() -> (r: Self) { unimplemented!() }
    pub fn as_ptr(self) -> (r: Self) ensures r == self { self }
    pub fn new(p: RefPtr<T>) -> (r: Option<RefPtr<T>>) ensures r == Some(p) { Some(p) }
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: Self) ensures r.base() == self.base(), r.idx() == self.idx() + n { unimplemented!() }
    #[verifier::external_body]
    pub fn cast(self) -> (r: RefPtr<u8>) ensures r.base() == self.base(), r.idx() == 0 <==> self.idx() == 0 { unimplemented!() }
}
impl<T> Option2<T> for Option<RefPtr<T>> {
    open spec fn ptr(self) -> Option<RefPtr<T>> { self }
    fn off(self, n: usize) -> (r: Option<RefPtr<T>>) { match self { Some(p) => Some(p.add(n)), None => None } }
}
pub trait Option2<T>: Sized {
    spec fn ptr(self) -> Option<RefPtr<T>>;
    fn off(self, n: usize) -> (r: Option<RefPtr<T>>)
        ensures r is Some <==> self.ptr() is Some, r is Some ==> r->0.base() == self.ptr()->0.base() && r->0.idx() == self.ptr()->0.idx() + n;
}
/// `expect`, and `unwrap_or_else(panic)`: goes on only with a value.
pub trait Must<T>: Sized { spec fn val(self) -> Option<T>; fn must(self) -> (r: T) ensures self.val() == Some(r); }
impl<T> Must<T> for Option<T> {
    open spec fn val(self) -> Option<T> { self }
    #[verifier::external_body]
    fn must(self) -> (r: T) { self.unwrap() }
}
impl<T> Must<T> for Result<T, ExecutionError> {
    open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn must(self) -> (r: T) { unimplemented!() }
}
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }

pub enum ExecutionError {
    ArrayBoundsError { index: usize, length: usize }, BadEnvironmentIndex(usize), BadGlobalIndex(usize), Panic, Heap,
    NoBranchForNative(Smid), NoBranchForDataTag(Smid), CannotReturnFunToCase(Smid), NotCallable(Smid), LookupOnFunction(Smid), NotValue(Smid), BlackHole(Smid),
}

/// Frames by address, each over frames of lower rank: chains end.
pub ghost struct Frames<C> { pub f: IMap<int, EnvironmentFrame<C>>, pub rank: IMap<int, nat> }
impl<C> Frames<C> {
    pub open spec fn has(self, p: RefPtr<EnvironmentFrame<C>>) -> bool { self.f.contains_key(p.id()) }
    pub open spec fn linked(self, f: EnvironmentFrame<C>) -> bool { f.next is Some ==> self.has(f.next->0) }
    pub open spec fn ranked(self) -> bool {
        forall|a: int| #[trigger] self.f.contains_key(a) ==> self.linked(self.f[a]) && (self.f[a].next is Some ==> self.rank[self.f[a].next->0.id()] < self.rank[a])
    }
    pub open spec fn height(self, f: EnvironmentFrame<C>) -> nat { if f.next is Some { self.rank[f.next->0.id()] + 1 } else { 0 } }
}
/// The heap: cells of allocations, the bytes each has, and the frames in it.
#[verifier::external_body]
#[verifier::accept_recursive_types(C)]
pub struct Mem<C> { _c: core::marker::PhantomData<C> }
pub open spec fn fits<C>(room: IMap<int, nat>, base: int, n: int) -> bool { room.contains_key(base) && n * size_of::<C>() <= room[base] }
impl<C> Mem<C> {
    pub uninterp spec fn cells(&self) -> IMap<(int, int), C>;
    pub uninterp spec fn room(&self) -> IMap<int, nat>;
    pub uninterp spec fn frames(&self) -> Frames<C>;
    pub open spec fn ok(&self) -> bool {
        &&& self.frames().ranked()
        &&& forall|a: int| #[trigger] self.frames().f.contains_key(a) ==> self.frames().f[a].ok(self.room())
    }
    /// Later: nothing that was there has gone, and only cells in `but` have changed.
    pub open spec fn later(&self, o: &Mem<C>, but: ISet<(int, int)>) -> bool {
        &&& forall|b: int| #[trigger] o.room().contains_key(b) ==> self.room().contains_key(b) && self.room()[b] == o.room()[b]
        &&& self.frames() == o.frames()
        &&& forall|b: int, i: int| o.room().contains_key(b) && !but.contains((b, i)) ==> #[trigger] self.cells()[(b, i)] == o.cells()[(b, i)]
    }
    #[verifier::external_body]
    pub fn alloc_bytes_uninit(&mut self, bytes: usize) -> (r: Result<RefPtr<C>, ExecutionError>)
        ensures
            r is Ok ==> !old(self).room().contains_key(r->Ok_0.base()) && r->Ok_0.idx() == 0 && final(self).room() == old(self).room().insert(r->Ok_0.base(), bytes as nat),
            r is Err ==> final(self).room() == old(self).room(),
            final(self).frames() == old(self).frames(),
            forall|b: int, i: int| old(self).room().contains_key(b) ==> #[trigger] final(self).cells()[(b, i)] == old(self).cells()[(b, i)],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, p: RefPtr<C>, item: C)
        requires p.idx() >= 0, fits::<C>(old(self).room(), p.base(), p.idx() + 1)
        ensures final(self).cells() == old(self).cells().insert((p.base(), p.idx()), item), final(self).room() == old(self).room(), final(self).frames() == old(self).frames()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self, p: RefPtr<C>) -> (r: C)
        requires p.idx() >= 0, fits::<C>(self.room(), p.base(), p.idx() + 1)
        ensures r == self.cells()[(p.base(), p.idx())]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_nonoverlapping(&mut self, from: RefPtr<C>, to: RefPtr<C>, n: usize)
        requires from.base() != to.base(), from.idx() >= 0, to.idx() >= 0, fits::<C>(old(self).room(), from.base(), from.idx() + n), fits::<C>(old(self).room(), to.base(), to.idx() + n)
        ensures
            final(self).room() == old(self).room(), final(self).frames() == old(self).frames(),
            forall|b: int, i: int| !(b == to.base() && to.idx() <= i < to.idx() + n) ==> #[trigger] final(self).cells()[(b, i)] == old(self).cells()[(b, i)],
            forall|b: int, i: int| b == to.base() && to.idx() <= i < to.idx() + n ==> #[trigger] final(self).cells()[(b, i)] == old(self).cells()[(from.base(), i - to.idx() + from.idx())],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from(&mut self, from: &[C], to: RefPtr<C>, n: usize)
        requires n <= from@.len(), to.idx() >= 0, fits::<C>(old(self).room(), to.base(), to.idx() + n)
        ensures
            final(self).room() == old(self).room(), final(self).frames() == old(self).frames(),
            forall|b: int, i: int| !(b == to.base() && to.idx() <= i < to.idx() + n) ==> #[trigger] final(self).cells()[(b, i)] == old(self).cells()[(b, i)],
            forall|b: int, i: int| b == to.base() && to.idx() <= i < to.idx() + n ==> #[trigger] final(self).cells()[(b, i)] == from@[i - to.idx()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, p: RefPtr<C>, n: usize) -> (r: &[C])
        requires p.idx() >= 0, fits::<C>(self.room(), p.base(), p.idx() + n)
        ensures r@ == Seq::new(n as nat, |i: int| self.cells()[(p.base(), p.idx() + i)])
    { unimplemented!() }
    /// The frame at an address.
    #[verifier::external_body]
    pub fn frame(&self, p: RefPtr<EnvironmentFrame<C>>) -> (r: EnvironmentFrame<C>)
        requires self.frames().has(p)
        ensures r == self.frames().f[p.id()]
    { unimplemented!() }
    #[verifier::external_body]
    fn place(&mut self, f: EnvironmentFrame<C>) -> (r: Result<RefPtr<EnvironmentFrame<C>>, ExecutionError>)
        ensures
            final(self).cells() == old(self).cells(), final(self).room() == old(self).room(),
            r is Err ==> final(self).frames() == old(self).frames() && r->Err_0 is Heap,
            r is Ok ==> !old(self).frames().f.contains_key(r->Ok_0.id()) && final(self).frames() == (Frames { f: old(self).frames().f.insert(r->Ok_0.id(), f),
                rank: old(self).frames().rank.insert(r->Ok_0.id(), old(self).frames().height(f)) }),
    { unimplemented!() }
    pub fn alloc(&mut self, f: EnvironmentFrame<C>) -> (r: Result<RefPtr<EnvironmentFrame<C>>, ExecutionError>)
        requires old(self).ok(), f.ok(old(self).room()), old(self).frames().linked(f)
        ensures
            final(self).ok(), undisturbed(old(self), final(self)), final(self).cells() == old(self).cells(), final(self).room() == old(self).room(),
            r is Err ==> final(self).frames() == old(self).frames() && r->Err_0 is Heap,
            r is Ok ==> !old(self).frames().has(r->Ok_0) && final(self).frames().has(r->Ok_0) && final(self).frames().f == old(self).frames().f.insert(r->Ok_0.id(), f)
                && placed(old(self), final(self), r->Ok_0, f)
                && forall|i: int| #[trigger] find(final(self).frames(), f, i) == find(old(self).frames(), f, i),
    {
        let r = self.place(f);
        proof {
            if r is Ok {
                lemma_grown(old(self).frames(), r->Ok_0.id(), f, self.frames(), f, 0);
                assert forall|i: int| #[trigger] find(self.frames(), f, i) == find(old(self).frames(), f, i) by { lemma_grown(old(self).frames(), r->Ok_0.id(), f, self.frames(), f, i); }
            }
        }
        r
    }
}
pub open spec fn placed<C>(o: &Mem<C>, m: &Mem<C>, p: RefPtr<EnvironmentFrame<C>>, f: EnvironmentFrame<C>) -> bool {
    m.cells() == o.cells() && m.room() == o.room() && m.frames().f == o.frames().f.insert(p.id(), f) && !o.frames().has(p)
}
pub proof fn fits_less<C>(room: IMap<int, nat>, base: int, n: int, k: int)
    requires fits::<C>(room, base, n), 0 <= k <= n
    ensures fits::<C>(room, base, k)
{
    assert(k * size_of::<C>() <= n * size_of::<C>()) by (nonlinear_arith) requires 0 <= k <= n, size_of::<C>() >= 0;
}

// ---- arrays ------------------------------------------------------------
//@ item eval/memory/array.rs struct RawArray
//@   sub /T: Sized/T/
//@ item eval/memory/array.rs struct Array
//@   sub /T: Sized \+ Clone/T/
impl<T> Copy for RawArray<T> {}
impl<T> Clone for RawArray<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T> Clone for Array<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { Array { length: self.length, data: self.data } }
}
impl<T> RawArray<T> {
    pub open spec fn base(self) -> int { self.ptr->0.base() }
    pub open spec fn shape(self) -> bool { (self.ptr is Some <==> self.capacity > 0) && (self.ptr is Some ==> self.ptr->0.idx() == 0) }
    pub open spec fn ok(self, room: IMap<int, nat>) -> bool { self.shape() && (self.ptr is Some ==> fits::<T>(room, self.base(), self.capacity as int)) }
}
impl<T> Array<T> {
    pub open spec fn base(self) -> int { self.data.base() }
    pub open spec fn shape(self) -> bool { self.data.shape() && self.length <= self.data.capacity }
    pub open spec fn ok(self, room: IMap<int, nat>) -> bool { self.data.ok(room) && self.length <= self.data.capacity }
    pub open spec fn seq(self, m: &Mem<T>) -> Seq<T> { Seq::new(self.length as nat, |i: int| m.cells()[(self.base(), i)]) }
}
//@ always /<'guard, A: ScopedAllocator<'guard>>//
//@ always /mem: &A/mem: &mut Mem<T>/
//@ always /\.unwrap_or_else\(\|[^|]*\| panic!\([^()]*\)\)/.must()/
//@ always /\.expect\("[^"]*"\)/.must()/
//@ always /-> Option<\*(?:const|mut) T>/-> Option<RefPtr<T>>/
//@ always / as \*mut T//
//@ always /\bsize_of::<(\w+)>\(\)/core::mem::size_of::<\1>()/
//@ always /std::ptr::copy_nonoverlapping\(\s*data\.as_ptr\(\)/mem.copy_from(data/
//@ always /std::ptr::copy_nonoverlapping/mem.copy_nonoverlapping/
//@ always /\.unwrap_unchecked\(\)/.unwrap()/
//@ always /std::ptr::(write|read)\(/mem.\1(/
//@ always /(\w+)\.min\(((?:[^()]|\(\))*)\)/min(\1, \2)/
//@ always /\(([^()]*)\)\.max\((\w+)\)/max(\1, \2)/
//@ always /self\.(read|write)\(/self.\1(mem, /
impl<T> RawArray<T> {
//@ fn eval/memory/array.rs RawArray::new
//@   ret r
//@   spec
    ensures forall|m: IMap<int, nat>| r.ok(m), r.capacity == 0
//@ done
//@ fn eval/memory/array.rs RawArray::alloc
//@   ret r
//@   spec
    ensures
        capacity == 0 ==> r is None && *final(mem) == *old(mem),
        capacity > 0 ==> r is Some && r->0.idx() == 0 && !old(mem).room().contains_key(r->0.base()) && fits::<T>(final(mem).room(), r->0.base(), capacity as int),
        final(mem).later(old(mem), ISet::empty()),
//@ done
//@ fn eval/memory/array.rs RawArray::with_capacity
//@   ret r
//@   spec
    ensures r.ok(final(mem).room()), r.capacity == capacity, final(mem).later(old(mem), ISet::empty()), capacity > 0 ==> !old(mem).room().contains_key(r.base())
//@ done
//@ fn eval/memory/array.rs RawArray::with_data
//@   ret r
//@   spec
    ensures r.ok(final(mem).room()), r.capacity == data@.len(), final(mem).later(old(mem), ISet::empty()),
        forall|i: int| 0 <= i < data@.len() ==> #[trigger] final(mem).cells()[(r.base(), i)] == data@[i],
        data@.len() > 0 ==> !old(mem).room().contains_key(r.base())
//@ done
//@ fn eval/memory/array.rs RawArray::resize
//@   spec
    requires old(self).ok(old(mem).room())
    ensures final(self).ok(final(mem).room()), final(self).capacity == new_capacity, final(mem).later(old(mem), ISet::empty()),
        forall|i: int| 0 <= i < old(self).capacity && i < new_capacity ==> #[trigger] final(mem).cells()[(final(self).base(), i)] == old(mem).cells()[(old(self).base(), i)],
        new_capacity > 0 ==> !old(mem).room().contains_key(final(self).base())
//@   before let new_ptr
        proof { if self.ptr is Some { if new_capacity < self.capacity { fits_less::<T>(mem.room(), self.base(), self.capacity as int, new_capacity as int); } } }
//@   before std::ptr::|mem\.copy
        proof { if new_capacity > self.capacity { fits_less::<T>(mem.room(), new.base(), new_capacity as int, self.capacity as int); } }
//@ done
//@ fn eval/memory/array.rs RawArray::as_ptr
//@   ret r
//@   spec
    ensures r == self.ptr
//@ done
}
impl<T> Array<T> {
//@ fn eval/memory/array.rs Array::with_capacity
//@   ret r
//@   spec
    ensures r.ok(final(mem).room()), r.length == 0, r.data.capacity == capacity, final(mem).later(old(mem), ISet::empty()), capacity > 0 ==> !old(mem).room().contains_key(r.base())
//@ done
//@ fn eval/memory/array.rs Array::from_slice
//@   ret r
//@   spec
    ensures r.ok(final(mem).room()), r.seq(final(mem)) =~= slice@, final(mem).later(old(mem), ISet::empty()), slice@.len() > 0 ==> !old(mem).room().contains_key(r.base())
//@ done
//@ fn eval/memory/array.rs Array::len
//@   ret r
//@   spec
    ensures r == self.length
//@ done
//@ fn eval/memory/array.rs Array::is_empty
//@   ret r
//@   spec
    ensures r == (self.length == 0)
//@ done
//@ fn eval/memory/array.rs Array::default_array_growth
//@   ret r
//@   spec
    ensures r > existing_capacity
//@ done
//@ fn eval/memory/array.rs Array::get_offset
//@   ret r
//@   sub /\.map\(\|p\| unsafe \{ p\.add\(index\) \}\)/.off(index)/
//@   spec
    requires self.shape()
    ensures r is Some <==> index < self.length, r is Some ==> r->0.base() == self.base() && r->0.idx() == index
//@ done
//@ fn eval/memory/array.rs Array::write
//@   sub /&mut self, index: usize, item: T\) -> &T/&mut self, mem: &mut Mem<T>, index: usize, item: T)/
//@   sub /&\*dest as &T//
//@   spec
    requires old(self).ok(old(mem).room()), index < old(self).length
    ensures *final(self) == *old(self), final(mem).cells() == old(mem).cells().insert((old(self).base(), index as int), item),
        final(mem).room() == old(mem).room(), final(mem).frames() == old(mem).frames()
//@   head
        proof { fits_less::<T>(mem.room(), self.base(), self.data.capacity as int, index + 1); }
//@ done
//@ fn eval/memory/array.rs Array::read
//@   ret r
//@   sub /&self, index/&self, mem: &Mem<T>, index/
//@   spec
    requires self.ok(mem.room()), index < self.length
    ensures r == mem.cells()[(self.base(), index as int)]
//@   head
        proof { fits_less::<T>(mem.room(), self.base(), self.data.capacity as int, index + 1); }
//@ done
//@ fn eval/memory/array.rs Array::push
//@   spec
    requires old(self).ok(old(mem).room())
    ensures final(self).ok(final(mem).room()), final(self).length == old(self).length + 1,
        final(self).seq(final(mem)) =~= old(self).seq(old(mem)).push(item),
        final(mem).later(old(mem), ISet::empty().insert((old(self).base(), old(self).length as int))),
        old(self).length < old(self).data.capacity ==> final(self).base() == old(self).base() && final(mem).later(old(mem), ISet::empty().insert((old(self).base(), old(self).length as int))),
        old(self).length == old(self).data.capacity ==> !old(mem).room().contains_key(final(self).base()) && final(mem).later(old(mem), ISet::empty()),
        old(self).length < old(self).data.capacity ==> final(self).data == old(self).data,
//@   before unsafe \{
        proof { fits_less::<T>(mem.room(), self.base(), self.data.capacity as int, self.length + 1); }
        let ghost b = self.base();
//@ done
//@ fn eval/memory/array.rs Array::pop
//@   ret r
//@   sub /&mut self\)/&mut self, mem: &Mem<T>)/
//@   spec
    requires old(self).ok(mem.room())
    ensures final(self).ok(mem.room()), final(self).data == old(self).data,
        old(self).length == 0 ==> r is None && final(self).length == 0,
        old(self).length > 0 ==> r == Some(old(self).seq(mem).last()) && final(self).seq(mem) =~= old(self).seq(mem).drop_last()
//@ done
//@ fn eval/memory/array.rs Array::top
//@   ret r
//@   sub /&self\)/&self, mem: &Mem<T>)/
//@   spec
    requires self.ok(mem.room())
    ensures self.length == 0 ==> r is None, self.length > 0 ==> r == Some(self.seq(mem).last())
//@ done
//@ fn eval/memory/array.rs Array::get
//@   ret r
//@   sub /&self, index/&self, mem: &Mem<T>, index/
//@   spec
    requires self.ok(mem.room())
    ensures r == if index < self.length { Some(mem.cells()[(self.base(), index as int)]) } else { None }
//@ done
//@ fn eval/memory/array.rs Array::set
//@   ret r
//@   sub /&mut self, index/&mut self, mem: &mut Mem<T>, index/
//@   spec
    requires old(self).ok(old(mem).room())
    ensures *final(self) == *old(self), r is Ok <==> index < old(self).length, r is Err ==> *final(mem) == *old(mem),
        r is Ok ==> final(mem).cells() == old(mem).cells().insert((old(self).base(), index as int), item) && final(mem).room() == old(mem).room() && final(mem).frames() == old(mem).frames()
//@ done
//@ fn eval/memory/array.rs Array::set_unchecked
//@   sub /pub\(crate\) //
//@   sub /unsafe fn/fn/
//@   sub /&mut self, index/&mut self, mem: &mut Mem<T>, index/
//@   spec
    requires old(self).ok(old(mem).room()), index < old(self).length
    ensures *final(self) == *old(self), final(mem).cells() == old(mem).cells().insert((old(self).base(), index as int), item), final(mem).room() == old(mem).room(), final(mem).frames() == old(mem).frames()
//@ done
//@ fn eval/memory/array.rs Array::clone_with_length
//@   ret r
//@   spec
    ensures r.data == self.data, r.length == if n < self.length { n } else { self.length }
//@ done
//@ fn eval/memory/array.rs Array::as_slice
//@   ret r
//@   sub /&self\) -> &\[T\]/&self, mem: &'a Mem<T>) -> &'a [T]/
//@   sub /fn as_slice/fn as_slice<'a>/
//@   sub /from_raw_parts\(/mem.slice(/
//@   spec
    requires self.ok(mem.room())
    ensures r@ =~= self.seq(mem)
//@   head
        proof { if self.data.ptr is Some { fits_less::<T>(mem.room(), self.base(), self.data.capacity as int, self.length as int); } }
//@ done
}
impl<T> Default for Array<T> {
    fn default() -> (r: Self) ensures r.length == 0, forall|m: IMap<int, nat>| r.ok(m) { Array { length: 0, data: RawArray::new() } }
}

// ---- frames ------------------------------------------------------------
#[derive(Clone, Copy)] pub struct Smid { pub n: u32 }
//@ item eval/machine/env.rs struct EnvironmentFrame
//@   sub /<C>\s*where\s*C: Clone,/<C> /
impl<C> EnvironmentFrame<C> {
    pub open spec fn width(self) -> int { if self.remap_len > 0 { self.remap_len as int } else { self.bindings.length as int } }
    pub open spec fn slot(self, i: int) -> int { if self.remap_len > 0 { self.remap[i] as int } else { i } }
    /// Every variable of the frame itself has a slot in its storage.
    pub open spec fn ok(self, room: IMap<int, nat>) -> bool {
        &&& self.bindings.ok(room)
        &&& self.remap_len <= 4
        &&& forall|j: int| 0 <= j < self.remap_len ==> #[trigger] self.remap[j] < self.bindings.length
    }
}
/// Where the variable with this index lives: the frame's own variables in
/// order, then those of the frames it is nested in.
pub open spec fn find<C>(s: Frames<C>, f: EnvironmentFrame<C>, i: int) -> Option<(int, int)>
    decreases s.height(f)
    when s.ranked() && s.linked(f)
{
    if i < f.width() {
        Some((f.bindings.base(), f.slot(i)))
    } else if f.next is Some {
        find(s, s.f[f.next->0.id()], i - f.width())
    } else { None }
}
pub open spec fn value<C>(m: &Mem<C>, f: EnvironmentFrame<C>, i: int) -> Option<C> {
    match find(m.frames(), f, i) { Some(c) => Some(m.cells()[c]), None => None }
}
/// A variable's slot is allocated storage.
pub proof fn lemma_found<C>(m: &Mem<C>, f: EnvironmentFrame<C>, i: int)
    requires m.ok(), f.ok(m.room()), m.frames().linked(f), i >= 0
    ensures find(m.frames(), f, i) is Some ==> m.room().contains_key((find(m.frames(), f, i)->0).0)
    decreases m.frames().height(f)
{
    if i >= f.width() && f.next is Some {
        lemma_found(m, m.frames().f[f.next->0.id()], i - f.width());
    } else if i < f.width() {
        if f.remap_len > 0 { assert(f.remap[i] < f.bindings.length); }
        assert(f.bindings.length > 0);
    }
}
/// Later allocation and writes elsewhere change no variable.
pub proof fn lemma_kept<C>(o: &Mem<C>, m: &Mem<C>, but: ISet<(int, int)>, f: EnvironmentFrame<C>, i: int)
    requires o.ok(), m.later(o, but), f.ok(o.room()), o.frames().linked(f), i >= 0, forall|b: int, k: int| #[trigger] but.contains((b, k)) ==> !o.room().contains_key(b) || find(o.frames(), f, i) != Some((b, k))
    ensures value(m, f, i) == value(o, f, i), find(m.frames(), f, i) == find(o.frames(), f, i)
{
    lemma_found(o, f, i);
    if find(o.frames(), f, i) is Some {
        let (b, k) = find(o.frames(), f, i)->0;
        if but.contains((b, k)) { assert(o.room().contains_key(b)); }
        assert(m.cells()[(b, k)] == o.cells()[(b, k)]);
    }
}
/// Where nothing that existed has changed, every variable is what it was.
pub proof fn lemma_undisturbed<C>(o: &Mem<C>, m: &Mem<C>, f: EnvironmentFrame<C>, i: int)
    requires o.ok(), m.ok(), undisturbed(o, m), f.ok(o.room()), o.frames().linked(f), i >= 0
    ensures find(m.frames(), f, i) == find(o.frames(), f, i), value(m, f, i) == value(o, f, i)
    decreases o.frames().height(f)
{
    lemma_found(o, f, i);
    if i >= f.width() && f.next is Some {
        assert(o.frames().f.contains_key(f.next->0.id()));
        lemma_undisturbed(o, m, o.frames().f[f.next->0.id()], i - f.width());
    }
    if find(o.frames(), f, i) is Some { let (b, k) = find(o.frames(), f, i)->0; assert(m.cells()[(b, k)] == o.cells()[(b, k)]); }
}
/// A new frame changes nothing for those before it.
pub proof fn lemma_grown<C>(s: Frames<C>, a: int, g: EnvironmentFrame<C>, t: Frames<C>, f: EnvironmentFrame<C>, i: int)
    requires s.ranked(), s.linked(f), s.linked(g), !s.f.contains_key(a), t == (Frames { f: s.f.insert(a, g), rank: s.rank.insert(a, s.height(g)) })
    ensures t.ranked(), t.linked(f), find(t, f, i) == find(s, f, i)
    decreases s.height(f)
{
    assert forall|b: int| #[trigger] t.f.contains_key(b) implies t.linked(t.f[b]) && (t.f[b].next is Some ==> t.rank[t.f[b].next->0.id()] < t.rank[b]) by {
        if b == a { } else { assert(s.f.contains_key(b)); }
    }
    assert(t.linked(f));
    if i >= f.width() && f.next is Some {
        assert(t.f[f.next->0.id()] == s.f[f.next->0.id()]);
        lemma_grown(s, a, g, t, s.f[f.next->0.id()], i - f.width());
        assert(t.height(f) == s.height(f));
    }
}
/// An update is seen through every frame that shares the slot, and nowhere else.
pub proof fn lemma_shared<C>(o: &Mem<C>, m: &Mem<C>, f: EnvironmentFrame<C>, i: int, g: EnvironmentFrame<C>, j: int, v: C)
    requires o.ok(), m.frames() == o.frames(), find(o.frames(), f, i) is Some, m.cells() == o.cells().insert(find(o.frames(), f, i)->0, v)
    ensures
        find(o.frames(), g, j) == find(o.frames(), f, i) ==> value(m, g, j) == Some(v),
        find(o.frames(), g, j) != find(o.frames(), f, i) ==> value(m, g, j) == value(o, g, j),
{}
/// `map[..from.len()].copy_from_slice(from)`
pub fn fill(map: &mut [u8; 4], from: &[u8])
    requires from@.len() <= 4
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] final(map)@[i] == if i < from@.len() { from@[i] } else { old(map)@[i] }
{
    let mut i: usize = 0;
    while i < from.len()
        invariant i <= from@.len() <= 4, forall|k: int| 0 <= k < 4 ==> #[trigger] map@[k] == if k < i { from@[k] } else { old(map)@[k] }
        decreases from@.len() - i
    { map[i] = from[i]; i += 1; }
}
//@ always /self\.diag_record_\w+\([^;]*\);//
//@ always /\(\*ScopedPtr::from_non_null\(guard, \*env\)\)/guard.frame(*env)/
//@ always /arr\.(get|set)\(/arr.\1(guard, /
//@ always /map\[\.\.remap\.len\(\)\]\.copy_from_slice\(remap\)/fill(&mut map, remap)/
//@ always /pub\(crate\) //
impl<C: Clone> EnvironmentFrame<C> {
//@ fn eval/machine/env.rs EnvironmentFrame::new
//@   ret r
//@   spec
    ensures r.bindings == bindings, r.annotation == annotation, r.next == next, r.remap_len == 0
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::new_remapped
//@   ret r
//@   spec
    requires remap@.len() <= 4
    ensures r.bindings == bindings, r.annotation == annotation, r.next == next, r.remap_len == remap@.len(), forall|j: int| 0 <= j < remap@.len() ==> #[trigger] r.remap[j] == remap@[j]
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::logical_len
//@   ret r
//@   spec
    ensures r == self.width()
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::physical_index
//@   ret r
//@   spec
    requires self.remap_len <= 4, logical < self.width()
    ensures r == self.slot(logical as int)
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::backing_len
//@   ret r
//@   spec
    ensures r == self.bindings.length
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::shared_bindings_full
//@   ret r
//@   spec
    ensures r == self.bindings
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::shared_bindings
//@   ret r
//@   spec
    ensures r.data == self.bindings.data, r.length == if n < self.bindings.length { n } else { self.bindings.length }
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::annotation
//@   ret r
//@   spec
    ensures r == self.annotation
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::cell
//@   ret r
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   sub /guard: &dyn MutatorScope/guard: &Mem<C>/
//@   spec
    requires guard.ok(), self.ok(guard.room()), guard.frames().linked(*self)
    ensures r is Some <==> find(guard.frames(), *self, idx as int) is Some,
        r is Some ==> (r->0).0.ok(guard.room()) && (r->0).1 < (r->0).0.length && find(guard.frames(), *self, idx as int) == Some(((r->0).0.base(), (r->0).1 as int))
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::get
//@   ret r
//@   sub /guard: &dyn MutatorScope/guard: &Mem<C>/
//@   spec
    requires guard.ok(), self.ok(guard.room()), guard.frames().linked(*self)
    ensures r == value(guard, *self, idx as int)
//@ done
//@ fn eval/machine/env.rs EnvironmentFrame::update
//@   ret r
//@   sub /guard: &dyn MutatorScope/guard: &mut Mem<C>/
//@   spec
    requires old(guard).ok(), self.ok(old(guard).room()), old(guard).frames().linked(*self)
    ensures r is Ok <==> find(old(guard).frames(), *self, idx as int) is Some,
        r is Err ==> *final(guard) == *old(guard),
        r is Ok ==> final(guard).cells() == old(guard).cells().insert(find(old(guard).frames(), *self, idx as int)->0, closure) && final(guard).room() == old(guard).room() && final(guard).frames() == old(guard).frames(),
        final(guard).ok()
//@ done
}

// ---- the static part of a closure --------------------------------------
impl Smid {
    pub fn from(n: u32) -> (r: Smid) ensures r.n == n { Smid { n } }
    pub fn default() -> (r: Smid) ensures r.n == 0 { Smid { n: 0 } }
}
pub type CodeRef = u32;
//@ item eval/memory/infotable.rs struct InfoFlags
//@   sub /InfoFlags\(u64\)/InfoFlags(pub u64)/
//@ item eval/memory/infotable.rs struct InfoTagged
//@   sub /<L>\s*where\s*L: Copy,/<L> /
impl Copy for InfoFlags {}
impl Clone for InfoFlags { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<L: Copy> Copy for InfoTagged<L> {}
impl<L: Copy> Clone for InfoTagged<L> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl InfoFlags {
    pub open spec fn upd(self) -> bool { self.0 & 1 == 1 }
    pub open spec fn ar(self) -> u8 { ((self.0 >> 24) & 0xff) as u8 }
    pub open spec fn ann(self) -> u32 { (self.0 >> 32) as u32 }
//@ fn eval/memory/infotable.rs InfoFlags::new
//@   ret r
//@   sub /annotation\.into\(\)/annotation.n/
//@   spec
    ensures r.upd() == update, r.ar() == arity, r.ann() == annotation.n
//@   head
    proof {
        let s = annotation.n; let a = arity;
        let v = ((s as u64) << 32) | ((a as u64) << 24);
        assert(v & 1 == 0 && v <= 0xffff_ffff_ff00_0000 && ((v >> 24) & 0xff) as u8 == a && (v >> 32) as u32 == s) by (bit_vector) requires v == ((s as u64) << 32) | ((a as u64) << 24);
        assert(v | 1 == add(v, 1) && add(v, 1) & 1 == 1 && ((add(v, 1) >> 24) & 0xff) as u8 == a && (add(v, 1) >> 32) as u32 == s) by (bit_vector) requires v == ((s as u64) << 32) | ((a as u64) << 24);
    }
//@ done
//@ fn eval/memory/infotable.rs InfoTable~for~InfoFlags::update
//@   ret r
//@   spec
    ensures r == self.upd()
//@ done
//@ fn eval/memory/infotable.rs InfoTable~for~InfoFlags::arity
//@   ret r
//@   spec
    ensures r == self.ar()
//@   head
    proof { let v = self.0; assert(((v & 0xff000000) >> 24) as u8 == ((v >> 24) & 0xff) as u8) by (bit_vector); }
//@ done
//@ fn eval/memory/infotable.rs InfoTable~for~InfoFlags::annotation
//@   ret r
//@   spec
    ensures r.n == self.ann()
//@ done
}
impl<L: Copy> InfoTagged<L> {
    pub open spec fn is(self, update: bool, arity: u8, ann: u32, body: L) -> bool { self.info.upd() == update && self.info.ar() == arity && self.info.ann() == ann && self.body == body }
//@ fn eval/memory/infotable.rs InfoTable~for~InfoTagged<L>::update
//@   ret r
//@   spec
    ensures r == self.info.upd()
//@ done
//@ fn eval/memory/infotable.rs InfoTable~for~InfoTagged<L>::arity
//@   ret r
//@   spec
    ensures r == self.info.ar()
//@ done
//@ fn eval/memory/infotable.rs InfoTable~for~InfoTagged<L>::annotation
//@   ret r
//@   spec
    ensures r.n == self.info.ann()
//@ done
//@ fn eval/memory/infotable.rs InfoTagged<L>::new
//@   ret r
//@   spec
    ensures r.is(false, bound, annotation.n, body)
//@ done
//@ fn eval/memory/infotable.rs InfoTagged<L>::thunk
//@   ret r
//@   spec
    ensures r.is(true, 0, 0, body)
//@ done
//@ fn eval/memory/infotable.rs InfoTagged<L>::value
//@   ret r
//@   spec
    ensures r.is(false, 0, 0, body)
//@ done
//@ fn eval/memory/infotable.rs InfoTagged<L>::body
//@   ret r
//@   spec
    ensures r == self.body
//@ done
}

// ---- closures and values -----------------------------------------------
#[derive(Clone, Copy)] pub struct SymbolId { pub n: u32 }
#[verifier::external_body] pub struct Datum { x: u8 }
/// Symbols, and every other native value.
pub enum Native { Sym(SymbolId), Other(Datum) }
impl Clone for Native {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub enum Ref { L(usize), G(usize), V(Native) }
pub type BcEnvFrame = EnvironmentFrame<BcValue>;
pub type M = Mem<BcValue>;
pub type Env = RefPtr<BcEnvFrame>;
//@ item eval/bytecode/closure.rs struct BcClosure
//@ item eval/bytecode/closure.rs enum BcValue
impl Copy for BcClosure {}
impl Clone for BcClosure { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Clone for BcValue {
    fn clone(&self) -> (r: Self) ensures r == *self { match self { BcValue::Closure(c) => BcValue::Closure(*c), BcValue::Native(n) => BcValue::Native(n.clone()) } }
}
impl BcClosure {
    pub open spec fn is(self, update: bool, arity: u8, ann: u32, code: CodeRef, env: RefPtr<BcEnvFrame>) -> bool { self.info.is(update, arity, ann, code) && self.env == env }
//@ fn eval/bytecode/closure.rs BcClosure::new
//@   ret r
//@   spec
    ensures r.is(false, 0, 0, code, env)
//@ done
//@ fn eval/bytecode/closure.rs BcClosure::new_annotated
//@   ret r
//@   spec
    ensures r.is(false, 0, annotation.n, code, env)
//@ done
//@ fn eval/bytecode/closure.rs BcClosure::new_annotated_lambda
//@   ret r
//@   spec
    ensures r.is(false, arity, annotation.n, code, env)
//@ done
//@ fn eval/bytecode/closure.rs BcClosure::close
//@   ret r
//@   spec
    ensures r.info == *info, r.env == env
//@ done
//@ fn eval/bytecode/closure.rs BcClosure::code
//@   ret r
//@   spec
    ensures r == self.info.body
//@ done
//@ fn eval/bytecode/closure.rs BcClosure::env
//@   ret r
//@   spec
    ensures r == self.env
//@ done
//@ fn eval/bytecode/closure.rs InfoTable~for~BcClosure::arity
//@   ret r
//@   spec
    ensures r == self.info.info.ar()
//@ done
//@ fn eval/bytecode/closure.rs InfoTable~for~BcClosure::update
//@   ret r
//@   spec
    ensures r == self.info.info.upd()
//@ done
//@ fn eval/bytecode/closure.rs InfoTable~for~BcClosure::annotation
//@   ret r
//@   spec
    ensures r.n == self.info.info.ann()
//@ done
}
impl BcValue {
//@ fn eval/bytecode/closure.rs BcValue::as_closure
//@   ret r
//@   spec
    ensures match *self { BcValue::Closure(c) => r is Some && *r->0 == c, BcValue::Native(_) => r is None }
//@ done
}

// ---- building frames ---------------------------------------------------
/// The frame at `p` has these variables of its own, and then those of `next`.
pub open spec fn holds(m: &Mem<BcValue>, p: RefPtr<BcEnvFrame>, vs: Seq<BcValue>, next: RefPtr<BcEnvFrame>) -> bool {
    &&& m.frames().has(p)
    &&& m.frames().f[p.id()].width() == vs.len()
    &&& m.frames().f[p.id()].next == Some(next)
    &&& forall|i: int| 0 <= i < vs.len() ==> #[trigger] value(m, m.frames().f[p.id()], i) == Some(vs[i])
}
/// Nothing that existed before has changed.
pub open spec fn undisturbed<C>(o: &Mem<C>, m: &Mem<C>) -> bool {
    &&& forall|b: int| #[trigger] o.room().contains_key(b) ==> m.room().contains_key(b) && m.room()[b] == o.room()[b]
    &&& forall|b: int, i: int| o.room().contains_key(b) ==> #[trigger] m.cells()[(b, i)] == o.cells()[(b, i)]
    &&& forall|a: int| #[trigger] o.frames().f.contains_key(a) ==> m.frames().f.contains_key(a) && m.frames().f[a] == o.frames().f[a]
}
/// A value that refers to no missing frame.
pub open spec fn good(m: &Mem<BcValue>, v: BcValue) -> bool { v is Closure ==> m.frames().has(v->Closure_0.env) }
pub open spec fn goods(m: &Mem<BcValue>, vs: Seq<BcValue>) -> bool { forall|i: int| 0 <= i < vs.len() ==> good(m, #[trigger] vs[i]) }
/// No frame holds a value that does.
pub open spec fn closed(m: &Mem<BcValue>) -> bool {
    m.ok() && forall|a: int, k: int| m.frames().f.contains_key(a) && 0 <= k < m.frames().f[a].bindings.length ==> good(m, #[trigger] m.cells()[(m.frames().f[a].bindings.base(), k)])
}
/// A variable of a closed memory has a value that refers to no missing frame.
pub proof fn lemma_good(m: &Mem<BcValue>, f: BcEnvFrame, i: int)
    requires closed(m), f.ok(m.room()), m.frames().linked(f), i >= 0, forall|k: int| 0 <= k < f.bindings.length ==> good(m, #[trigger] m.cells()[(f.bindings.base(), k)])
    ensures value(m, f, i) is Some ==> good(m, value(m, f, i)->0)
    decreases m.frames().height(f)
{
    if i < f.width() {
        if f.remap_len > 0 { assert(f.remap[i] < f.bindings.length); }
    } else if f.next is Some {
        lemma_good(m, m.frames().f[f.next->0.id()], i - f.width());
    }
}
pub open spec fn arr_ok(m: &M, a: Array<BcValue>) -> bool { a.ok(m.room()) && forall|k: int| 0 <= k < a.length ==> good(m, #[trigger] m.cells()[(a.base(), k)]) }
pub broadcast proof fn lemma_placed(o: &M, m: &M, p: Env, f: BcEnvFrame)
    requires #[trigger] placed(o, m, p, f), closed(o), m.ok(), arr_ok(o, f.bindings)
    ensures closed(m)
{
    assert forall|a: int, k: int| m.frames().f.contains_key(a) && 0 <= k < m.frames().f[a].bindings.length implies good(m, #[trigger] m.cells()[(m.frames().f[a].bindings.base(), k)]) by {
        assert(good(o, o.cells()[(m.frames().f[a].bindings.base(), k)]));
    }
}
pub broadcast proof fn lemma_placed_holds(o: &M, m: &M, p: Env, f: BcEnvFrame)
    requires #[trigger] placed(o, m, p, f), m.ok(), f.remap_len == 0, f.next is Some
    ensures holds(m, p, f.bindings.seq(o), f.next->0), undisturbed(o, m)
{
    assert(m.frames().f.contains_key(p.id()));
    assert(m.frames().linked(f));
    assert forall|i: int| 0 <= i < f.bindings.seq(o).len() implies #[trigger] value(m, m.frames().f[p.id()], i) == Some(f.bindings.seq(o)[i]) by {
        assert(find(m.frames(), f, i) == Some((f.bindings.base(), f.slot(i))));
    }
}
pub broadcast proof fn lemma_arr(m: &M, a: Array<BcValue>)
    requires goods(m, #[trigger] a.seq(m)), a.ok(m.room())
    ensures arr_ok(m, a)
{
    assert forall|k: int| 0 <= k < a.length implies good(m, #[trigger] m.cells()[(a.base(), k)]) by { assert(good(m, a.seq(m)[k])); }
}
pub broadcast proof fn lemma_later(o: &M, m: &M, but: ISet<(int, int)>)
    requires #[trigger] m.later(o, but), forall|b: int, k: int| #[trigger] but.contains((b, k)) ==> !o.room().contains_key(b)
    ensures undisturbed(o, m), o.ok() ==> m.ok(), closed(o) ==> closed(m)
{}
pub broadcast proof fn lemma_undisturbed_trans(a: &M, b: &M, c: &M)
    requires #[trigger] undisturbed(a, b), #[trigger] undisturbed(b, c)
    ensures undisturbed(a, c)
{
    assert forall|x: int, i: int| a.room().contains_key(x) implies #[trigger] c.cells()[(x, i)] == a.cells()[(x, i)] by { assert(b.cells()[(x, i)] == a.cells()[(x, i)]); }
}
pub broadcast proof fn lemma_holds_kept(o: &M, m: &M, p: Env, vs: Seq<BcValue>, next: Env)
    requires #[trigger] undisturbed(o, m), o.ok(), m.ok(), #[trigger] holds(o, p, vs, next)
    ensures holds(m, p, vs, next)
{
    let f = o.frames().f[p.id()];
    assert forall|i: int| 0 <= i < vs.len() implies #[trigger] value(m, m.frames().f[p.id()], i) == Some(vs[i]) by {
        lemma_undisturbed(o, m, f, i);
        assert(value(o, f, i) == Some(vs[i]));
    }
}
pub broadcast proof fn lemma_var_kept(o: &M, m: &M, env: Env, i: int)
    requires #[trigger] undisturbed(o, m), o.ok(), m.ok(), o.frames().has(env), i >= 0
    ensures #[trigger] var(o, env, i) == var(m, env, i), place_of(m, env, i) == place_of(o, env, i), place_of(o, env, i) is Some ==> o.room().contains_key((place_of(o, env, i)->0).0)
{
    let f = o.frames().f[env.id()];
    assert(o.frames().f.contains_key(env.id()));
    lemma_undisturbed(o, m, f, i);
    lemma_found(o, f, i);
}
pub broadcast group built { lemma_later, lemma_var_kept, lemma_undisturbed_trans, lemma_holds_kept, lemma_placed, lemma_placed_holds, lemma_arr }
/// The value of `env`'s variable, and where it lives.
pub open spec fn var(m: &M, env: Env, i: int) -> Option<BcValue> { value(m, m.frames().f[env.id()], i) }
pub open spec fn place_of(m: &M, env: Env, i: int) -> Option<(int, int)> { find(m.frames(), m.frames().f[env.id()], i) }
pub proof fn lemma_var(m: &M, env: Env, i: int)
    requires closed(m), m.frames().has(env), i >= 0
    ensures var(m, env, i) is Some ==> good(m, var(m, env, i)->0), place_of(m, env, i) is Some <==> var(m, env, i) is Some
{
    let f = m.frames().f[env.id()];
    assert(m.frames().f.contains_key(env.id()));
    lemma_good(m, f, i);
}
//@ always /&view\b/view/
//@ always /view: MutatorHeapView<'_>/view: &mut Mem<BcValue>/
//@ always /view\s*\.scoped\(/view.frame(/
//@ always /\(\*(\w+)\)(\s*)\./\1\2./
//@ always /Array::(with_capacity|from_slice)\(self,/Array::\1(&mut *self,/
//@ always /array\.push\(self,/array.push(&mut *self,/
impl Mem<BcValue> {
//@ fn eval/bytecode/env_builder.rs BcEnvBuilder~for~MutatorHeapView::from_saturation
//@   ret r
//@   sub /&self/&mut self/
//@   spec
    requires old(self).ok(), args.ok(old(self).room()), old(self).frames().has(next)
    ensures
        r is Ok ==> final(self).ok() && holds(final(self), r->Ok_0, args.seq(old(self)), next) && !old(self).frames().has(r->Ok_0) && final(self).frames().f[r->Ok_0.id()].bindings == args && final(self).frames().f[r->Ok_0.id()].annotation == annotation,
        undisturbed(old(self), final(self)), closed(old(self)) && goods(old(self), args.seq(old(self))) ==> closed(final(self)),
        r is Err ==> final(self).ok() && r->Err_0 is Heap
//@   head
        proof { assert(forall|k: int| 0 <= k < args.length ==> args.seq(self)[k] == #[trigger] self.cells()[(args.base(), k)]); }
//@ done
//@ fn eval/bytecode/env_builder.rs BcEnvBuilder~for~MutatorHeapView::from_value
//@   ret r
//@   sub /&self/&mut self/
//@   spec
    requires old(self).ok(), old(self).frames().has(next)
    ensures r is Ok ==> final(self).ok() && holds(final(self), r->Ok_0, seq![value], next), undisturbed(old(self), final(self)), r is Err ==> final(self).ok() && r->Err_0 is Heap, closed(old(self)) && good(old(self), value) ==> closed(final(self))
//@ done
//@ fn eval/bytecode/env_builder.rs BcEnvBuilder~for~MutatorHeapView::from_values
//@   ret r
//@   sub /&self/&mut self/
//@   sub /<I: Iterator<Item = BcValue>>//
//@   sub /values: I/values: Vec<BcValue>/
//@   sub /for v in values/for v in values.iter()/
//@   sub /push\(&mut \*self, v\)/push(&mut *self, v.clone())/
//@   each 0
//@   spec
    requires old(self).ok(), old(self).frames().has(next)
    ensures r is Ok ==> final(self).ok() && holds(final(self), r->Ok_0, values@, next), undisturbed(old(self), final(self)), r is Err ==> final(self).ok() && r->Err_0 is Heap,
        closed(old(self)) && goods(old(self), values@) ==> closed(final(self))
//@   loop 0
        invariant n_0 == values@.len(), i_0 <= n_0, undisturbed(old(self), self), self.frames() == old(self).frames(), self.ok(), array.ok(self.room()), array.length == i_0,
            array.data.capacity > 0 ==> !old(self).room().contains_key(array.base()), self.frames().has(next),
            forall|j: int| 0 <= j < i_0 ==> #[trigger] array.seq(self)[j] == values@[j], closed(old(self)) ==> closed(self),
        decreases n_0 - i_0
//@   after 0
        proof { assert(array.seq(self) =~= values@); }
//@ done
//@ fn eval/bytecode/env_builder.rs BcEnvBuilder~for~MutatorHeapView::saturate
//@   ret r
//@   sub /&self/&mut self/
//@   spec
    requires old(self).ok(), old(self).frames().has(closure.env)
    ensures
        r is Ok ==> final(self).ok() && r->Ok_0.is(false, 0, closure.info.info.ann(), closure.info.body, r->Ok_0.env) && holds(final(self), r->Ok_0.env, args@, closure.env),
        undisturbed(old(self), final(self)), r is Err ==> final(self).ok() && r->Err_0 is Heap,
        closed(old(self)) && goods(old(self), args@) ==> closed(final(self))
//@ done
//@ fn eval/bytecode/env_builder.rs BcEnvBuilder~for~MutatorHeapView::saturate_with_array
//@   ret r
//@   sub /&self/&mut self/
//@   spec
    requires old(self).ok(), args.ok(old(self).room()), old(self).frames().has(closure.env)
    ensures
        r is Ok ==> final(self).ok() && r->Ok_0.is(false, 0, closure.info.info.ann(), closure.info.body, r->Ok_0.env) && holds(final(self), r->Ok_0.env, args.seq(old(self)), closure.env) && !old(self).frames().has(r->Ok_0.env),
        undisturbed(old(self), final(self)), r is Err ==> final(self).ok() && r->Err_0 is Heap,
        closed(old(self)) && goods(old(self), args.seq(old(self))) ==> closed(final(self))
//@ done
}

// ---- what a branch receives ----------------------------------------------
pub type Tag = u8;
pub type ArgRefs = Vec<DecodedRef>;
//@ item eval/bytecode/machine.rs enum DecodedRef
//@ item eval/bytecode/machine.rs struct BifFrame
//@ item eval/bytecode/machine.rs struct BcMachineState
//@ item eval/bytecode/machine.rs enum BcArgPattern
//@ item eval/bytecode/cont.rs enum BcContinuation
impl Copy for DecodedRef {}
impl Clone for DecodedRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/// `constants.get(k)`
pub fn at(c: &[Ref], k: usize) -> (r: Option<&Ref>)
    ensures r is Some <==> k < c@.len(), r is Some ==> *r->0 == c@[k as int]
{ if k < c.len() { Some(&c[k]) } else { None } }
pub open spec fn constant(c: Seq<Ref>, k: int) -> Option<BcValue> { if 0 <= k < c.len() && c[k] is V { Some(BcValue::Native(c[k]->V_0)) } else { None } }
/// What an operand stands for.
pub open spec fn denotes(m: &Mem<BcValue>, c: Seq<Ref>, env: RefPtr<BcEnvFrame>, globals: RefPtr<BcEnvFrame>, d: DecodedRef) -> Option<BcValue> {
    match d {
        DecodedRef::Local(i) => value(m, m.frames().f[env.id()], i as int),
        DecodedRef::Global(i) => value(m, m.frames().f[globals.id()], i as int),
        DecodedRef::Value(k) => constant(c, k as int),
    }
}
/// The fields are variables of the constructor's own frame: the branch can use
/// the very slots they live in.
pub open spec fn own_fields(f: BcEnvFrame, args: Seq<DecodedRef>) -> bool {
    args.len() <= 4 && forall|j: int| 0 <= j < args.len() ==> (#[trigger] args[j]) is Local && args[j]->Local_0 < f.width() && f.slot(args[j]->Local_0 as int) <= 255
}
/// What a new frame in front of `next` must be for these fields.
pub open spec fn receives(o: &Mem<BcValue>, m: &Mem<BcValue>, p: RefPtr<BcEnvFrame>, st: BcMachineState, args: Seq<DecodedRef>, next: RefPtr<BcEnvFrame>) -> bool {
    let cons = st.current->Closure_0.env;
    &&& m.frames().has(p) && !o.frames().has(p)
    &&& m.frames().f[p.id()].width() == args.len()
    &&& m.frames().f[p.id()].next == Some(next)
    &&& forall|j: int| #![trigger args[j]] 0 <= j < args.len() ==> value(m, m.frames().f[p.id()], j) is Some && value(m, m.frames().f[p.id()], j) == denotes(o, st.constants@, cons, st.globals, args[j])
    &&& own_fields(o.frames().f[cons.id()], args) ==> forall|j: int| #![trigger args[j]] 0 <= j < args.len() ==> find(m.frames(), m.frames().f[p.id()], j) == find(o.frames(), o.frames().f[cons.id()], args[j]->Local_0 as int)
}
//@ always /\.ok_or_else\(\|\| \{?\s*ExecutionError::Panic\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\s*\}?\)/.ok_or(ExecutionError::Panic)/
//@ always /ExecutionError::Panic\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ExecutionError::Panic/
//@ always /constants\.get\(/at_constants(/
//@ always /(\w+\.)?at_constants\(/at(&\1constants, /
//@ fn eval/bytecode/machine.rs resolve_ref
//@   ret r
//@   sub /&constants,/constants,/
//@   spec
    requires old(view).ok(), old(view).frames().has(env), old(view).frames().has(globals)
    ensures *final(view) == *old(view),
        r is Ok <==> denotes(old(view), constants@, env, globals, dref) is Some,
        r is Ok ==> Some(r->Ok_0) == denotes(old(view), constants@, env, globals, dref)
//@ done
pub proof fn lemma_denotes(m: &M, c: Seq<Ref>, env: Env, globals: Env, d: DecodedRef)
    requires closed(m), m.frames().has(env), m.frames().has(globals)
    ensures denotes(m, c, env, globals, d) is Some ==> good(m, denotes(m, c, env, globals, d)->0)
{
    match d {
        DecodedRef::Local(i) => lemma_var(m, env, i as int),
        DecodedRef::Global(i) => lemma_var(m, globals, i as int),
        _ => {},
    }
}
//@ fn eval/bytecode/machine.rs bc_classify_args
//@   ret r
//@   each 0
//@   spec
    requires forall|i: usize| i < logical_len ==> env_physical_index.requires((i,))
    ensures match r {
        BcArgPattern::SequentialFromZero => args@.len() == backing_len && args@.len() <= 4 && forall|j: int| 0 <= j < args@.len() ==> (#[trigger] args@[j]) is Local && args@[j]->Local_0 < logical_len && env_physical_index.ensures((args@[j]->Local_0 as usize,), j as usize),
        BcArgPattern::Remapped { remap, len } => len == args@.len() && args@.len() <= 4 && forall|j: int| #![trigger args@[j]] #![trigger remap[j]] 0 <= j < args@.len() ==> args@[j] is Local && args@[j]->Local_0 < logical_len && env_physical_index.ensures((args@[j]->Local_0 as usize,), remap[j] as usize),
        BcArgPattern::RequiresCopy => args@.len() > 4 || exists|j: int| 0 <= j < args@.len() && (!((#[trigger] args@[j]) is Local) || args@[j]->Local_0 >= logical_len || exists|p: usize| p > 255 && #[trigger] env_physical_index.ensures((args@[j]->Local_0 as usize,), p)),
    }
//@   loop 0
        invariant n_0 == args@.len() <= 4, i_0 <= n_0, forall|i: usize| i < logical_len ==> env_physical_index.requires((i,)),
            forall|j: int| 0 <= j < i_0 ==> (#[trigger] args@[j]) is Local && args@[j]->Local_0 < logical_len && env_physical_index.ensures((args@[j]->Local_0 as usize,), remap[j] as usize),
            is_identity ==> forall|j: int| 0 <= j < i_0 ==> #[trigger] remap[j] == j,
        decreases n_0 - i_0
//@ done
//@ fn eval/bytecode/machine.rs env_from_data_args_copy
//@   ret r
//@   each 0 ref
//@   spec
    requires old(view).ok(), state.current is Closure, old(view).frames().has(state.current->Closure_0.env), old(view).frames().has(state.globals), old(view).frames().has(next), args@.len() > 0
    ensures final(view).ok(), undisturbed(old(view), final(view)),
        r is Ok ==> final(view).frames().has(r->Ok_0) && !old(view).frames().has(r->Ok_0) && final(view).frames().f[r->Ok_0.id()].width() == args@.len() && final(view).frames().f[r->Ok_0.id()].next == Some(next),
        r is Ok ==> forall|j: int| #![trigger args@[j]] 0 <= j < args@.len() ==> value(final(view), final(view).frames().f[r->Ok_0.id()], j) is Some && value(final(view), final(view).frames().f[r->Ok_0.id()], j) == denotes(old(view), state.constants@, state.current->Closure_0.env, state.globals, args@[j]),
        closed(old(view)) ==> closed(final(view)),
//@   head
    broadcast use built;
//@   loop 0
        invariant n_0 == args@.len(), i_0 <= n_0, undisturbed(old(view), view), view.frames() == old(view).frames(), view.ok(), array.ok(view.room()),
            array.length == i_0, array.data.capacity > 0 ==> !old(view).room().contains_key(array.base()),
            old(view).ok(), state.current is Closure, view.frames().has(state.current->Closure_0.env), view.frames().has(state.globals), view.frames().has(next),
            local == view.frames().f[state.current->Closure_0.env.id()], globals == view.frames().f[state.globals.id()],
            forall|j: int| #![trigger args@[j]] 0 <= j < i_0 ==> Some(array.seq(view)[j]) == denotes(old(view), state.constants@, state.current->Closure_0.env, state.globals, args@[j]),
            closed(old(view)) ==> closed(view) && goods(view, array.seq(view)),
        decreases n_0 - i_0
//@   in 0
        proof {
            if closed(old(view)) { lemma_denotes(old(view), state.constants@, state.current->Closure_0.env, state.globals, args@[i_0 as int]); }
            match args@[i_0 as int] { DecodedRef::Local(i) => lemma_undisturbed(old(view), view, local, i as int), DecodedRef::Global(i) => lemma_undisturbed(old(view), view, globals, i as int), _ => {} }
        }
//@ done
//@ fn eval/bytecode/machine.rs env_from_data_args
//@   ret r
//@   sub /\|i\| \{/|i: usize| -> (r: usize) requires constructor_env.remap_len <= 4, i < constructor_env.width() ensures r == constructor_env.slot(i as int) {/
//@   spec
    requires old(view).ok(), state.current is Closure, old(view).frames().has(state.current->Closure_0.env), old(view).frames().has(state.globals), old(view).frames().has(next), args@.len() > 0
    ensures final(view).ok(), undisturbed(old(view), final(view)), r is Ok ==> receives(old(view), final(view), r->Ok_0, *state, args@, next), closed(old(view)) ==> closed(final(view))
//@   head
    broadcast use built;
//@ done
//@ end
} // verus!
fn main() {}

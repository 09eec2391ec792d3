// Contracts over eval/memory/bump.rs (holes, bump allocation, line marks),
// the allocation sizes of heap.rs and the large object sizes of lob.rs.
// The function bodies below are /repo's, woven in at every run.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ const eval/memory/bump.rs BLOCK_SIZE_BYTES LINE_SIZE_BYTES LINE_COUNT

// ---- stand-ins for what the functions call (assumed contracts) -------------

/// bitmaps::Bitmap: one boolean per index.
#[verifier::external_body]
pub struct Bitmap<const N: usize> { _x: u8 }
impl<const N: usize> Bitmap<N> {
    pub uninterp spec fn at(self, i: int) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures forall|i: int| !#[trigger] r.at(i)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, index: usize) -> (r: bool)
        requires index < N
        ensures r == self.at(index as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, index: usize, value: bool) -> (r: bool)
        requires index < N
        ensures forall|i: int| #[trigger] final(self).at(i) == (if i == index { value } else { old(self).at(i) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_from(&mut self, other: &Self)
        ensures forall|i: int| #[trigger] final(self).at(i) == other.at(i)
    { unimplemented!() }
}

/// A pointer, by its address.
#[verifier::external_body]
pub struct Ptr { _x: u8 }
impl Ptr {
    pub uninterp spec fn addr(self) -> int;
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: Ptr)
        ensures r.addr() == self.addr() + n
    { unimplemented!() }
}

/// The 32 KiB of memory behind a bump block.
#[verifier::external_body]
pub struct Block { _x: u8 }
impl Block {
    pub uninterp spec fn base(self) -> int;
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: Ptr)
        ensures r.addr() == self.base()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&self, offset: usize, size: usize)
        requires offset + size <= 32768
    { unimplemented!() }
    #[verifier::external_body]
    pub fn byte_offset_of(&self, ptr: Ptr) -> (r: Option<usize>)
        ensures
            self.base() <= ptr.addr() < self.base() + 32768 ==> r == Some((ptr.addr() - self.base()) as usize),
            !(self.base() <= ptr.addr() < self.base() + 32768) ==> r is None,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn poison_enabled() -> bool { unimplemented!() }

pub assume_specification<T, P>[ Option::<T>::filter ](_0: Option<T>, _1: P) -> (r: Option<T>)
    where P: FnOnce(&T,) -> bool + core::marker::Destruct, T: core::marker::Destruct
    requires _0 matches Some(x) ==> _1.requires((&x,))
    ensures
        r matches Some(x) ==> _0 == Some(x) && _1.ensures((&x,), true),
        r is None ==> (_0 matches Some(x) ==> _1.ensures((&x,), false)),
;

pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r == (a + b - 1) / (b as int)
;

// ---- the line map -----------------------------------------------------------

//@ item eval/memory/bump.rs struct LineMap
//@   sub /\(Bitmap/(pub Bitmap/

impl LineMap {
    /// Line i is marked.
    pub open spec fn at(self, i: int) -> bool { self.0.at(i) }

//@ fn eval/memory/bump.rs LineMap::mark
//@   spec
    requires index < 256
    ensures forall|i: int| #[trigger] final(self).at(i) == (i == index || old(self).at(i))
//@ done
//@ fn eval/memory/bump.rs LineMap::clear
//@   spec
    requires index < 256
    ensures forall|i: int| #[trigger] final(self).at(i) == (i != index && old(self).at(i))
//@ done
//@ fn eval/memory/bump.rs LineMap::marked
//@   ret r
//@   spec
    requires index < 256
    ensures r == self.at(index as int)
//@ done
//@ fn eval/memory/bump.rs LineMap::reset
//@   spec
    ensures forall|i: int| !#[trigger] final(self).at(i)
//@ done

    /// What a hole is: whole unmarked lines strictly below the limit.
    pub open spec fn hole(self, lo: int, hi: int) -> bool {
        lo % 128 == 0 && hi % 128 == 0 && 0 <= lo < hi <= 32768
        && forall|k: int| lo <= k * 128 < hi ==> !#[trigger] self.at(k)
    }

//@ fn eval/memory/bump.rs LineMap::find_hole
//@   ret r
//@   loops 1
//@   sub /\|_\| count > 1/|_w| -> (b: bool) ensures b == (count > 1) { count > 1 }/
//@   spec
    requires below_offset <= 32768
    ensures
        r matches Some((lo, hi)) ==> self.hole(lo as int, hi as int) && hi < below_offset,
        r is None ==> forall|k: int| 0 <= k && (k + 2) * 128 <= below_offset ==> #[trigger] self.at(k) || self.at(k + 1),
//@   loop 0
    invariant
        limit_line == below_offset / 128, below_offset <= 32768,
        0 <= limit_line - iter.index@, count <= iter.index@,
        count == 0 <==> upper is None,
        count > 0 ==> lower == limit_line - iter.index@ && upper == Some((lower + count) as usize) && lower + count <= limit_line,
        forall|k: int| limit_line - iter.index@ <= k < limit_line - iter.index@ + count ==> !#[trigger] self.at(k),
        limit_line - iter.index@ + count < limit_line ==> self.at(limit_line - iter.index@ + count),
        forall|k: int| limit_line - iter.index@ + count <= k && (k + 2) * 128 <= below_offset ==> #[trigger] self.at(k) || self.at(k + 1),
//@ done

    pub open spec fn n_marked(self, n: int) -> int
        decreases n
    { if n <= 0 { 0 } else { self.n_marked(n - 1) + (if self.at(n - 1) { 1int } else { 0int }) } }
    pub open spec fn n_runs(self, n: int) -> int
        decreases n
    { if n <= 0 { 0 } else { self.n_runs(n - 1) + (if !self.at(n - 1) && (n == 1 || self.at(n - 2)) { 1int } else { 0int }) } }

//@ fn eval/memory/bump.rs LineMap::stats
//@   ret r
//@   loops 1
//@   spec
    ensures r.2 == self.n_marked(256), r.1 == 256 - self.n_marked(256), r.0 == self.n_runs(256)
//@   loop 0
    invariant
        0 <= iter.index@ <= 256,
        marked == self.n_marked(iter.index@ as int), free == iter.index@ - marked, count_holes == self.n_runs(iter.index@ as int),
        count_holes <= iter.index@, marked <= iter.index@,
        iter.index@ == 0 ==> last, iter.index@ > 0 ==> last == self.at(iter.index@ - 1),
//@ done
}

/// A name for the offsets quantified over.
pub open spec fn byte(o: int) -> bool { true }

// ---- bump blocks ------------------------------------------------------------

//@ item eval/memory/bump.rs struct BumpBlock

impl BumpBlock {
    pub open spec fn wf(self) -> bool { self.lower <= self.cursor <= 32768 }
    /// Offset o of the block may be handed out: it lies in the hole being
    /// filled, or on an unmarked line below it.
    pub open spec fn free(self, o: int) -> bool {
        self.lower <= o < self.cursor || (0 <= o < self.cursor && !self.line_map.at(o / 128))
    }

    #[verifier::external_body]
    fn verify_hole_is_dead(&self, lower: usize, upper: usize) { unimplemented!() }

//@ fn eval/memory/bump.rs BumpBlock::bump
//@   ret r
//@   sub /\*const u8/Ptr/
//@   sub /super::gc_debug::poison_enabled/poison_enabled/
//@   sub /\bunsafe \{ (Some\(.*?\)) \}/\1/
//@   spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).block == old(self).block, final(self).line_map == old(self).line_map,
        final(self).cursor <= old(self).cursor,
        // every byte handed out was free, and lies below all handed out before
        r matches Some(p) ==> {
            &&& p.addr() == final(self).block.base() + final(self).cursor
            &&& final(self).cursor + size <= old(self).cursor
            &&& forall|o: int| #[trigger] byte(o) && final(self).cursor <= o < final(self).cursor + size ==> old(self).free(o)
        },
        // and every byte that may be handed out later was free too
        forall|o: int| #[trigger] byte(o) && final(self).lower <= o < final(self).cursor ==> old(self).free(o),
    decreases old(self).cursor
//@   before self\.lower = lower;
    proof {
        assert forall|o: int| lower <= o < cursor implies #[trigger] old(self).free(o) by {
            assert(lower <= (o / 128) * 128 < cursor);
            assert(!self.line_map.at(o / 128));
        }
    }
//@ done

//@ fn eval/memory/bump.rs BumpBlock::recycle
//@   ret r
//@   sub /super::gc_debug::poison_enabled/poison_enabled/
//@   sub /unsafe \{\s*let start = [^;]*;\s*super::gc_debug::poison_region\(start\.add\((\w+)\), ([^)]*)\);\s*\}/self.block.fill(\1, \2);/
//@   spec
    ensures
        final(self).wf(), final(self).block == old(self).block, final(self).line_map == old(self).line_map,
        r ==> final(self).line_map.hole(final(self).lower as int, final(self).cursor as int),
        !r ==> final(self).cursor == 0 && final(self).lower == 0,
        !r ==> forall|k: int| 0 <= k && (k + 2) * 128 <= 32768 ==> #[trigger] final(self).line_map.at(k) || final(self).line_map.at(k + 1),
//@ done

//@ fn eval/memory/bump.rs BumpBlock::current_hole_size
//@   ret r
//@   spec
    requires self.wf()
    ensures r == self.cursor - self.lower
//@ done

//@ fn eval/memory/bump.rs BumpBlock::reset_region_marks
//@   spec
    ensures
        forall|i: int| !#[trigger] final(self).line_map.at(i),
        final(self).block == old(self).block, final(self).lower == old(self).lower, final(self).cursor == old(self).cursor,
//@ done

//@ fn eval/memory/bump.rs BumpBlock::mark_line
//@   sub /<T>\(/(/
//@   sub /NonNull<T>/Ptr/
//@   spec
    ensures
        final(self).block == old(self).block, final(self).lower == old(self).lower, final(self).cursor == old(self).cursor,
        forall|k: int| 0 <= k < 256 ==> #[trigger] final(self).line_map.at(k) == (old(self).line_map.at(k)
            || final(self).block.base() + k * 128 <= ptr.addr() < final(self).block.base() + (k + 1) * 128),
//@ done

//@ fn eval/memory/bump.rs BumpBlock::mark_region
//@   loops 1
//@   sub /NonNull<u8>/Ptr/
//@   spec
    requires
        bytes >= 1,
        old(self).block.base() <= ptr.addr() < old(self).block.base() + 32768 ==> ptr.addr() + bytes <= old(self).block.base() + 32768,
    ensures
        final(self).block == old(self).block, final(self).lower == old(self).lower, final(self).cursor == old(self).cursor,
        // exactly the lines the region touches become marked
        forall|k: int| 0 <= k < 256 ==> #[trigger] final(self).line_map.at(k) == (old(self).line_map.at(k) || {
            &&& final(self).block.base() <= ptr.addr() < final(self).block.base() + 32768
            &&& final(self).block.base() + k * 128 < ptr.addr() + bytes
            &&& ptr.addr() < final(self).block.base() + (k + 1) * 128
        }),
//@   loop 0
    invariant
        self.block == old(self).block, self.lower == old(self).lower, self.cursor == old(self).cursor,
        first_line <= last_line <= 256,
        forall|k: int| #[trigger] self.line_map.at(k) == (old(self).line_map.at(k) || first_line <= k < first_line + iter.index@),
//@ done

//@ fn eval/memory/bump.rs BumpBlock::stats
//@   ret r
//@   spec
    ensures r.2 == self.line_map.n_marked(256), r.1 == 256 - self.line_map.n_marked(256), r.0 == self.line_map.n_runs(256)
//@ done

//@ fn eval/memory/bump.rs BumpBlock::find_largest_hole
//@   ret r
//@   loops 1
//@   spec
    ensures
        r matches Some((o, n)) ==> self.line_map.hole(o as int, o + n),
        r is None ==> forall|k: int| 0 <= k && (k + 2) * 128 <= 32768 ==> #[trigger] self.line_map.at(k) || self.line_map.at(k + 1),
//@   loop 0
    invariant_except_break
        largest_hole is None ==> current_offset == 32768,
    invariant
        current_offset <= 32768,
        largest_hole matches Some((o, n)) ==> self.line_map.hole(o as int, o + n),
    ensures
        largest_hole is None ==> forall|k: int| 0 <= k && (k + 2) * 128 <= 32768 ==> #[trigger] self.line_map.at(k) || self.line_map.at(k + 1),
    decreases current_offset
//@ done

//@ fn eval/memory/bump.rs BumpBlock::total_available_space
//@   ret r
//@   loops 1
//@   spec
    ensures r <= 32768
//@   loop 0
    invariant_except_break current_offset + total <= 32768
    ensures total <= 32768
    decreases current_offset
//@ done
}

// ---- sizes -------------------------------------------------------------------

//@ fn eval/memory/heap.rs Heap::alloc_size_of
//@   ret r
//@   spec
    requires total_size <= usize::MAX - 16
    ensures r % 16 == 0, total_size <= r < total_size + 16
//@   head
    proof {
        assert(((total_size + 15) as usize & !(15usize)) % 16 == 0) by (bit_vector);
        assert(total_size <= 0xffff_ffff_ffff_fff0 ==> ((total_size + 15) as usize & !(15usize)) >= total_size) by (bit_vector);
        assert(total_size <= 0xffff_ffff_ffff_fff0 ==> ((total_size + 15) as usize & !(15usize)) <= total_size + 15) by (bit_vector);
    }
//@ done

//@ fn eval/memory/lob.rs LargeObjectBlock::efficient_size_for
//@   ret r
//@   spec
    requires required_size <= 0xffff_ffff_ffff
    ensures r >= required_size, required_size > 0 ==> r > 0
//@ done

}

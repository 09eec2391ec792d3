//! Bump allocation and line marks: the executable side of verus/bump.rs.
use crate::src::{Res, Src};
use crate::{ck, contracts, pre};
use eucalypt::eval::memory::bump::*;
use eucalypt::eval::memory::lob::LargeObjectBlock;
use std::ptr::NonNull;

const LINE: usize = LINE_SIZE_BYTES;

/// A line map: runs of lines toggled from all-free or all-marked.
fn map<S: Src>(s: &mut S) -> Vec<bool> {
    let mut m = vec![s.bool(); LINE_COUNT];
    for _ in 0..s.below(9) {
        let a = s.below(LINE_COUNT as u64) as usize % LINE_COUNT;
        let n = 1 + s.below(6) as usize;
        for i in a..(a + n).min(LINE_COUNT) {
            m[i] = !m[i];
        }
    }
    m
}
fn block(m: &[bool]) -> BumpBlock {
    let mut b = BumpBlock::new();
    b.reset_region_marks();
    for (i, x) in m.iter().enumerate() {
        if *x {
            b.mark_line_for_test(i);
        }
    }
    b
}
fn pair_below(m: &[bool], lines: usize) -> bool {
    (0..lines.saturating_sub(1)).any(|k| !m[k] && !m[k + 1])
}
/// Object sizes as the heap asks for them.
fn size<S: Src>(s: &mut S) -> usize {
    16 * match s.below(6) {
        0..=2 => 1 + s.below(8),
        3 | 4 => 1 + s.below(64),
        _ => s.below(2049),
    } as usize
}

contracts! {
    /// A hole is made of whole unmarked lines below the limit, and two
    /// adjacent free lines below the limit are never overlooked.
    fn holes(s) {
        let m = map(s);
        let below = s.below(BLOCK_SIZE_BYTES as u64 + 1) as usize;
        pre!(below <= BLOCK_SIZE_BYTES);
        let mut l = LineMap::default();
        for (i, x) in m.iter().enumerate() { if *x { l.mark(i); } }
        match l.find_hole(below) {
            Some((lo, hi)) => {
                ck!(lo < hi && hi <= below, "a hole is a non-empty range below the limit");
                ck!(lo % LINE == 0 && hi % LINE == 0, "a hole is made of whole lines");
                ck!((lo / LINE..hi / LINE).all(|k| !m[k]), "no line of a hole is marked");
            }
            None => ck!(!pair_below(&m, below / LINE), "free space is found"),
        }
    }
    /// Memory handed out is inside the block, aligned, on no marked line, and
    /// disjoint from everything handed out before.
    fn allocations(s) {
        let m = map(s);
        let mut b = block(&m);
        let base = b.base_address();
        let recycled = s.bool();
        if recycled {
            let r = b.recycle();
            ck!(r || !pair_below(&m, LINE_COUNT), "a block with free space is recycled");
        }
        let mut top = BLOCK_SIZE_BYTES;
        let fresh = b.current_hole_size();
        let mut in_first = !recycled;
        for _ in 0..1 + s.below(24) {
            let n = size(s);
            pre!(n > 0);
            let before = b.current_hole_size();
            match b.bump(n) {
                None => ck!(n > before, "an allocation that fits the current hole is served"),
                Some(p) => {
                    let o = (p as usize).wrapping_sub(base);
                    ck!(o < BLOCK_SIZE_BYTES && o + n <= BLOCK_SIZE_BYTES, "memory handed out lies in the block");
                    ck!(o + n <= top, "memory handed out is below all handed out before");
                    ck!(o % 16 == 0, "memory handed out is aligned");
                    top = o;
                    in_first &= n <= before;
                    // until its first hole is used up a new block has no live lines to respect
                    ck!(in_first || (o / LINE..=(o + n - 1) / LINE).all(|k| !m[k]), "memory handed out is on no marked line");
                }
            }
            let _ = fresh;
        }
    }
    /// Marking an object marks every line it touches, and no other.
    fn marks(s) {
        let m = map(s);
        let mut b = block(&m);
        let base = b.base_address();
        let mut want = m.clone();
        for _ in 0..1 + s.below(4) {
            let o = s.below(BLOCK_SIZE_BYTES as u64) as usize;
            let n = 1 + match s.below(3) { 0 => s.below(32), 1 => s.below(600), _ => s.below(32768) } as usize;
            pre!(o < BLOCK_SIZE_BYTES && o + n <= BLOCK_SIZE_BYTES);
            b.mark_region(NonNull::new((base + o) as *mut u8).unwrap(), n);
            for k in o / LINE..=(o + n - 1) / LINE { want[k] = true; }
        }
        let outside = base.wrapping_sub(8 + s.below(64) as usize * 8);
        b.mark_region(NonNull::new(outside as *mut u8).unwrap(), 8);
        b.mark_region(NonNull::new((base + BLOCK_SIZE_BYTES + s.below(64) as usize * 8) as *mut u8).unwrap(), 8);
        let (holes, free, marked) = b.stats();
        ck!(marked == want.iter().filter(|x| **x).count() && free == LINE_COUNT - marked, "exactly the lines touched are marked");
        ck!(holes == (0..LINE_COUNT).filter(|k| !want[*k] && (*k == 0 || want[*k - 1])).count(), "free runs are counted");
        // and none of them is handed out
        if b.recycle() {
            while let Some(p) = b.bump(16) {
                let o = p as usize - base;
                ck!(!want[o / LINE], "a marked line is never handed out");
            }
        }
    }
    /// The largest hole is a hole, and is missing only when there is none.
    fn largest(s) {
        let m = map(s);
        let b = block(&m);
        match b.find_largest_hole() {
            Some((o, n)) => {
                ck!(n > 0 && o % LINE == 0 && n % LINE == 0 && o + n <= BLOCK_SIZE_BYTES, "the largest hole is a range of lines");
                ck!((o / LINE..(o + n) / LINE).all(|k| !m[k]), "no line of the largest hole is marked");
            }
            None => ck!(!pair_below(&m, LINE_COUNT), "free space is found"),
        }
        ck!(b.total_available_space() <= LINE * m.iter().filter(|x| !**x).count(), "available space is free space");
    }
    /// A large object block holds what was asked for.
    fn large(s) {
        let n = match s.below(3) { 0 => s.below(1 << 18), 1 => s.below(1 << 21), _ => s.below(1 << 24) } as usize;
        pre!(n > 0);
        let b = LargeObjectBlock::new(n);
        ck!(b.allocated_size() >= n, "a large object block holds the size asked for");
        ck!(b.can_fit(n) && !b.can_fit(b.allocated_size() + 1), "can_fit agrees with the size");
    }
}

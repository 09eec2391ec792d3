//! Trusted contracts of the nonlinear integer primitives of `core`.
//!
//! A bit-blasted 64-bit multiplier or divider cannot be proved equal to a
//! second copy of itself in reasonable time.  Under Kani the primitives
//! `checked_mul`, `checked_div`, `checked_rem` of i64, u64 and i128 are
//! therefore stubbed by their contracts over one mathematical function each
//! (product, truncated quotient, truncated remainder): a *function* of the
//! arguments, otherwise constrained only by the facts listed below.  Natively
//! the oracle computes the real thing in i128.  What remains trusted is that
//! Rust's primitives are exact or `None`.

#[cfg(kani)]
mod memo {
    #[derive(Clone, Copy)]
    pub struct M {
        pub n: u8,
        pub k: [(i128, i128); 3],
        pub v: [i128; 3],
    }
    pub const EMPTY: M = M { n: 0, k: [(0, 0); 3], v: [0; 3] };
    impl M {
        pub fn get(&self, a: i128, b: i128) -> Option<i128> {
            if self.n > 0 && self.k[0].0 == a && self.k[0].1 == b {
                return Some(self.v[0]);
            }
            if self.n > 1 && self.k[1].0 == a && self.k[1].1 == b {
                return Some(self.v[1]);
            }
            if self.n > 2 && self.k[2].0 == a && self.k[2].1 == b {
                return Some(self.v[2]);
            }
            None
        }
        pub fn put(&mut self, a: i128, b: i128, r: i128) {
            let i = self.n as usize;
            // more distinct calls than the memo holds: outside the contract
            assert!(i < 3, "mock: outside contract (oracle memo)");
            self.k[i] = (a, b);
            self.v[i] = r;
            self.n += 1;
        }
    }
}

fn abs(a: i128) -> u128 {
    a.unsigned_abs()
}

/// Exact product of two integers of at most 65 bits.
#[cfg(kani)]
pub fn prod(a: i128, b: i128) -> Option<i128> {
    static mut MEMO: memo::M = memo::EMPTY;
    #[allow(static_mut_refs)]
    unsafe {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if let Some(r) = MEMO.get(a, b) {
            return Some(r);
        }
        let r: i128 = kani::any();
        // sign and zero laws
        kani::assume((a == 0 || b == 0) == (r == 0));
        kani::assume(r == 0 || ((r < 0) == ((a < 0) != (b < 0))));
        kani::assume(a != 1 || r == b);
        kani::assume(b != 1 || r == a);
        MEMO.put(a, b, r);
        Some(r)
    }
}
#[cfg(not(kani))]
pub fn prod(a: i128, b: i128) -> Option<i128> {
    a.checked_mul(b)
}

/// Truncated quotient and remainder, b != 0.
#[cfg(kani)]
pub fn quot(a: i128, b: i128) -> i128 {
    static mut MEMO: memo::M = memo::EMPTY;
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(r) = MEMO.get(a, b) {
            return r;
        }
        let r: i128 = kani::any();
        kani::assume(abs(b) != 1 || r == if b == 1 { a } else { -a });
        kani::assume(abs(b) < 2 || abs(r) <= abs(a) / 2);
        kani::assume((abs(a) < abs(b)) == (r == 0));
        kani::assume(r == 0 || ((r < 0) == ((a < 0) != (b < 0))));
        MEMO.put(a, b, r);
        r
    }
}
#[cfg(not(kani))]
pub fn quot(a: i128, b: i128) -> i128 {
    a / b
}
#[cfg(kani)]
pub fn rem(a: i128, b: i128) -> i128 {
    static mut MEMO: memo::M = memo::EMPTY;
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(r) = MEMO.get(a, b) {
            return r;
        }
        let r: i128 = kani::any();
        kani::assume(abs(r) < abs(b));
        kani::assume(r == 0 || ((r < 0) == (a < 0)));
        kani::assume(!(abs(a) < abs(b)) || r == a);
        MEMO.put(a, b, r);
        r
    }
}
#[cfg(not(kani))]
pub fn rem(a: i128, b: i128) -> i128 {
    a % b
}

macro_rules! stubs {
    ($m:ident, $t:ident) => {
        /// Contracts of the primitives of one integer type.
        pub mod $m {
            pub fn checked_mul(a: $t, b: $t) -> Option<$t> {
                $t::try_from(super::prod(a as i128, b as i128)?).ok()
            }
            pub fn checked_div(a: $t, b: $t) -> Option<$t> {
                if b == 0 {
                    return None;
                }
                $t::try_from(super::quot(a as i128, b as i128)).ok()
            }
            pub fn checked_rem(a: $t, b: $t) -> Option<$t> {
                // core: None also where the quotient overflows
                if b == 0 || checked_div(a, b).is_none() {
                    return None;
                }
                $t::try_from(super::rem(a as i128, b as i128)).ok()
            }
        }
    };
}
stubs!(i64s, i64);
stubs!(u64s, u64);
stubs!(i128s, i128);

/// Integer powers: a function of the arguments (`None` when out of range).
macro_rules! pows {
    ($m:ident, $t:ident) => {
        pub mod $m {
            #[cfg(kani)]
            pub fn checked_pow(a: $t, e: u32) -> Option<$t> {
                static mut MEMO: Option<($t, u32, Option<$t>)> = None;
                #[allow(static_mut_refs)]
                unsafe {
                    if let Some((x, y, r)) = MEMO {
                        if x == a && y == e {
                            return r;
                        }
                        panic!("mock: outside contract (oracle memo)");
                    }
                    let r: Option<$t> = if kani::any() { Some(kani::any()) } else { None };
                    MEMO = Some((a, e, r));
                    r
                }
            }
            #[cfg(not(kani))]
            pub fn checked_pow(a: $t, e: u32) -> Option<$t> {
                a.checked_pow(e)
            }
        }
    };
}
pows!(i64p, i64);
pows!(u64p, u64);

//! Input sources: the same contract body is discharged by Kani over the whole
//! domain (every draw is `kani::any()`) and evaluated natively on concrete
//! values (replay of a counterexample, or corner-case / pseudo-random search).

/// Outcome of evaluating a contract natively.
#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    /// All postconditions held.
    Ok,
    /// A precondition was false: the input is outside the contract.
    Discard,
    /// A postcondition was false.
    Fail(&'static str),
}

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn bool(&mut self) -> bool;
    fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    fn usize(&mut self) -> usize {
        self.u64() as usize
    }
    fn f64(&mut self) -> f64 {
        f64::from_bits(self.u64())
    }
    /// A value below `n` (n > 0).
    fn below(&mut self, n: u64) -> u64;
    fn char(&mut self) -> char;
}

/// Postcondition.
#[macro_export]
macro_rules! ck {
    ($c:expr, $m:literal) => {{
        let c = $c;
        #[cfg(kani)]
        kani::assert(c, concat!("CONTRACT: ", $m));
        #[cfg(not(kani))]
        if !c {
            return $crate::src::Res::Fail($m);
        }
    }};
    // native only: a message built from the input
    ($c:expr, $m:literal $(, $a:expr)*) => {{
        if !$c {
            return $crate::src::Res::Fail(Box::leak(format!($m $(, $a)*).into_boxed_str()));
        }
    }};
}

/// Precondition.
#[macro_export]
macro_rules! pre {
    ($c:expr) => {{
        let c = $c;
        #[cfg(kani)]
        kani::assume(c);
        #[cfg(not(kani))]
        if !c {
            return $crate::src::Res::Discard;
        }
    }};
}

/// Non-vacuity witness: this point must be reachable.
#[macro_export]
macro_rules! witness {
    ($m:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $m);
    }};
}

/// Declare the contracts of a property: each becomes a generic function, a
/// Kani proof harness and an entry in the native table.  Under Kani `format!`
/// is stubbed: the wording of error messages is outside these contracts.
#[macro_export]
macro_rules! contracts {
    ($( $(#[$a:meta])* fn $name:ident($s:ident) $body:block )*) => {
        $( #[allow(unreachable_code)] pub fn $name<S: $crate::src::Src>($s: &mut S) -> $crate::src::Res { $body; $crate::witness!("end of contract reached"); $crate::src::Res::Ok } )*
        #[cfg(kani)]
        pub mod proofs {
            $( #[kani::proof] #[kani::stub(alloc::fmt::format, $crate::src::format_stub)] $(#[$a])* fn $name() { let mut k = $crate::src::K; let r = super::$name(&mut k); core::mem::forget(r); } )*
        }
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn(&mut $crate::src::N) -> $crate::src::Res)> {
            vec![ $( (stringify!($name), $name::<$crate::src::N>) ),* ]
        }
    };
}

/// As `contracts!`, with `format!` left real.
#[macro_export]
macro_rules! contracts_text {
    ($( $(#[$a:meta])* fn $name:ident($s:ident) $body:block )*) => {
        $( #[allow(unreachable_code)] pub fn $name<S: $crate::src::Src>($s: &mut S) -> $crate::src::Res { $body; $crate::witness!("end of contract reached"); $crate::src::Res::Ok } )*
        #[cfg(kani)]
        pub mod proofs {
            $( #[kani::proof] $(#[$a])* fn $name() { let mut k = $crate::src::K; let r = super::$name(&mut k); core::mem::forget(r); } )*
        }
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn(&mut $crate::src::N) -> $crate::src::Res)> {
            vec![ $( (stringify!($name), $name::<$crate::src::N>) ),* ]
        }
    };
}

#[cfg(kani)]
pub fn format_stub(_: core::fmt::Arguments<'_>) -> String {
    String::new()
}

#[cfg(kani)]
pub struct K;
#[cfg(kani)]
impl Src for K {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn below(&mut self, n: u64) -> u64 {
        let v: u64 = kani::any();
        kani::assume(v < n);
        v
    }
    fn char(&mut self) -> char {
        let v: u32 = kani::any();
        kani::assume(v < 0xD800 || (v > 0xDFFF && v < 0x110000));
        // SAFETY: a Unicode scalar value by the assumption above
        unsafe { char::from_u32_unchecked(v) }
    }
}

/// Native source: either a fixed list of draws (replay), or a generator that
/// mixes corner cases with pseudo-random values.
pub struct N {
    fixed: Option<std::collections::VecDeque<Vec<u8>>>,
    state: u64,
    pub drawn: Vec<Vec<u8>>,
    recent: Vec<u64>,
    /// Where draws are logged as they are made (to find the input of a crash).
    trace: Option<std::fs::File>,
}

const CORNERS: &[u64] = &[
    0,
    1,
    2,
    3,
    5,
    7,
    8,
    10,
    31,
    32,
    33,
    63,
    64,
    65,
    127,
    128,
    255,
    256,
    1000,
    65535,
    65536,
    0x7FFF_FFFF,
    0x8000_0000,
    0xFFFF_FFFF,
    0x1_0000_0000,
    (1 << 53) - 1,
    1 << 53,
    (1 << 53) + 1,
    i64::MAX as u64 - 1,
    i64::MAX as u64,
    1 << 63,
    (1 << 63) + 1,
    u64::MAX - 1,
    u64::MAX,
    -2i64 as u64,
    -3i64 as u64,
    -7i64 as u64,
    -10i64 as u64,
    -63i64 as u64,
    -64i64 as u64,
    i32::MIN as i64 as u64,
    0xBFF0_0000_0000_0000, // -1.0
    0x3FF0_0000_0000_0000, // 1.0
    0x4000_0000_0000_0000, // 2.0
    0x4340_0000_0000_0000, // 2^53
    0x43E0_0000_0000_0000, // 2^63
    0xC3E0_0000_0000_0000, // -2^63
    0x43F0_0000_0000_0000, // 2^64
    0x3FE0_0000_0000_0000, // 0.5
    0xBFE0_0000_0000_0000, // -0.5
    0x4004_0000_0000_0000, // 2.5
    0x8000_0000_0000_0001,
    0x7FEF_FFFF_FFFF_FFFF, // f64::MAX
    0x0000_0000_0000_0001,
    0x7FF0_0000_0000_0000, // inf
    0x7FF8_0000_0000_0000, // nan
];

impl N {
    pub fn replay(vals: Vec<Vec<u8>>) -> N {
        N { fixed: Some(vals.into()), state: 0, drawn: vec![], recent: vec![], trace: None }
    }
    pub fn random(seed: u64) -> N {
        N { fixed: None, state: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03, drawn: vec![], recent: vec![], trace: std::env::var_os("VH_TRACE").and_then(|p| std::fs::File::create(p).ok()) }
    }
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn log(&mut self, b: &[u8]) {
        if let Some(f) = &mut self.trace {
            use std::io::Write;
            let t: String = b.iter().map(|x| format!("{x:02x}")).collect();
            let _ = f.write_all(format!("{}{t}", if self.drawn.is_empty() { "" } else { "," }).as_bytes());
        }
        self.drawn.push(b.to_vec());
    }
    fn raw(&mut self, bytes: usize) -> u64 {
        if let Some(f) = &mut self.fixed {
            let v = f.pop_front().unwrap_or_default();
            let mut b = [0u8; 8];
            for (i, x) in v.iter().take(8).enumerate() {
                b[i] = *x;
            }
            let r = u64::from_le_bytes(b);
            self.drawn.push(r.to_le_bytes()[..bytes].to_vec());
            return r;
        }
        let k = self.next();
        let r = self.next();
        let v = match k % 16 {
            0..=4 => CORNERS[(r % CORNERS.len() as u64) as usize],
            5..=7 => r % 16,
            8 => (r % 64) as i64 as u64,
            9 => ((r % 2048) as i64 - 1024) as u64,
            10 if !self.recent.is_empty() => {
                let x = self.recent[(r % self.recent.len() as u64) as usize];
                x
            }
            11 if !self.recent.is_empty() => {
                let x = self.recent[(r % self.recent.len() as u64) as usize];
                x.wrapping_add((r >> 60).wrapping_sub(8))
            }
            12 => r >> (k >> 32) % 64,
            13 => (((r % 40000) as i64 - 20000) as f64 / 8.0).to_bits(),
            14 => (1u64 << (r % 64)).wrapping_add((r >> 32) % 3).wrapping_sub(1),
            _ => r,
        };
        let v = if bytes == 8 { v } else { v & ((1u64 << (bytes * 8)) - 1) };
        self.recent.push(v);
        self.log(&v.to_le_bytes()[..bytes]);
        v
    }
}

impl Src for N {
    fn u8(&mut self) -> u8 {
        self.raw(1) as u8
    }
    fn u16(&mut self) -> u16 {
        self.raw(2) as u16
    }
    fn u32(&mut self) -> u32 {
        self.raw(4) as u32
    }
    fn u64(&mut self) -> u64 {
        self.raw(8)
    }
    fn bool(&mut self) -> bool {
        self.raw(1) & 1 == 1
    }
    fn below(&mut self, n: u64) -> u64 {
        if self.fixed.is_some() {
            return self.raw(8);
        }
        let k = self.next();
        let r = self.next();
        let v = match k % 8 {
            0 => 0,
            1 => n - 1,
            2 => (r % 4).min(n - 1),
            _ => r % n,
        };
        self.log(&v.to_le_bytes());
        v
    }
    fn char(&mut self) -> char {
        if self.fixed.is_some() {
            return char::from_u32(self.raw(4) as u32).unwrap_or('\u{FFFD}');
        }
        let k = self.next();
        let r = self.next();
        let v = match k % 12 {
            0..=4 => (r % 128) as u32,
            5 => b"\n\r\t\"\\{}'`"[(r % 9) as usize] as u32,
            6 => 0x80 + (r % 0x780) as u32,
            7 => 0x800 + (r % 0x800) as u32,
            8 => 0x10000 + (r % 0x400) as u32,
            9 => 0x1F600 + (r % 64) as u32,
            10 => [0u32, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xFEFF][(r % 11) as usize],
            _ => (r % 0x110000) as u32,
        };
        let c = char::from_u32(v).unwrap_or('\u{FFFD}');
        self.log(&(c as u32).to_le_bytes());
        c
    }
}

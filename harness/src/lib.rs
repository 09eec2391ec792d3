//! Contracts over the real eucalypt crate.  One feature (property) at a time.
#![allow(clippy::all)]
#![allow(warnings)]
extern crate alloc;
#[cfg(feature = "mock")]
pub mod ints;
#[cfg(feature = "mock")]
pub mod mock;
#[cfg(feature = "mock")]
pub mod oracle;
pub mod src;

macro_rules! props {
    ($($f:literal $m:ident)*) => {$(
        #[cfg(feature = $f)]
        pub mod $m;
        #[cfg(all(feature = $f, not(kani)))]
        pub use $m::table;
    )*};
}
props! {
    "P01" p01
    "P02" p02
    "P03" p03
    "P04" p04
    "P05" p05
    "P06" p06
    "P07" p07
    "P08" p08
    "P09" p09
    "P10" p10
}

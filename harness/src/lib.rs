//! Contract harnesses over the compiled enumset crate in /repo. Every contract is one generic
//! function: `requires!` / call / `ensures!`, stated against the specification vocabulary in
//! `fam`. Under Kani the arguments are symbolic; natively they are replayed or generated.
#![allow(clippy::all)]
#![allow(dead_code, unused_imports, unused_macros, non_snake_case, non_camel_case_types)]
#[macro_use]
pub mod nd;
pub mod fam;
pub mod corefn;
#[macro_use]
pub mod types;
#[cfg(feature = "c11")]
#[macro_use]
pub mod numbered;
#[cfg(any(feature = "c14", feature = "c15"))]
pub mod wire;
#[cfg(any(feature = "c14", feature = "c15"))]
#[macro_use]
pub mod wired;

pub struct Entry {
    pub name: &'static str,
    pub f: fn(),
    /// The contract says the call must panic on every input that meets the precondition.
    pub must_panic: bool,
    /// Also has a Kani proof.
    pub kani: bool,
}

/// Instances: `; proved in every run; proved in thorough runs; searched only`.
#[macro_export]
macro_rules! contract {
    (@mp total) => { false };
    (@mp panics) => { true };
    (@proof total $f:ident $t:ident $w:literal $u:literal) => {
        #[kani::proof] #[kani::unwind($u)]
        fn $t() { super::super::$f::<$crate::types::$t, $w>() }
    };
    (@proof panics $f:ident $t:ident $w:literal $u:literal) => {
        #[kani::proof] #[kani::should_panic] #[kani::unwind($u)]
        fn $t() { super::super::$f::<$crate::types::$t, $w>() }
    };
    (@e $f:ident $kind:ident $k:ident $kw:literal $kani:expr) => {
        $crate::Entry { name: concat!(module_path!(), "::", stringify!($k)), f: super::$f::<$crate::types::$k, $kw>,
            must_panic: $crate::contract!(@mp $kind), kani: $kani }
    };
    ($f:ident, $kind:ident, $u:literal; $($k:ident:$kw:literal)*; $($t:ident:$tw:literal)*; $($n:ident:$nw:literal)*) => {
        pub mod $f {
            pub const REG: &[$crate::Entry] = &[
                $($crate::contract!(@e $f $kind $k $kw true),)*
                $($crate::contract!(@e $f $kind $t $tw cfg!(feature = "thorough")),)*
                $($crate::contract!(@e $f $kind $n $nw false),)*
            ];
            #[cfg(kani)]
            mod proofs {
                $( $crate::contract!(@proof $kind $f $k $kw $u); )*
            }
            #[cfg(all(kani, feature = "thorough"))]
            mod more {
                $( $crate::contract!(@proof $kind $f $t $tw $u); )*
            }
        }
    };
}

/// As `contract!` for a total contract, over the enums of another module.
#[macro_export]
macro_rules! contract_in {
    ($m:ident, $f:ident, $u:literal; $($k:ident:$kw:literal)*; $($t:ident:$tw:literal)*; $($n:ident:$nw:literal)*) => {
        pub mod $m {
            pub const REG: &[$crate::Entry] = &[
                $($crate::Entry { name: concat!(module_path!(), "::", stringify!($k)), f: super::$f::<$crate::$m::$k, $kw>, must_panic: false, kani: true },)*
                $($crate::Entry { name: concat!(module_path!(), "::", stringify!($t)), f: super::$f::<$crate::$m::$t, $tw>, must_panic: false, kani: cfg!(feature = "thorough") },)*
                $($crate::Entry { name: concat!(module_path!(), "::", stringify!($n)), f: super::$f::<$crate::$m::$n, $nw>, must_panic: false, kani: false },)*
            ];
            #[cfg(kani)]
            mod proofs {
                $( #[kani::proof] #[kani::unwind($u)] fn $k() { super::super::$f::<$crate::$m::$k, $kw>() } )*
            }
            #[cfg(all(kani, feature = "thorough"))]
            mod more {
                $( #[kani::proof] #[kani::unwind($u)] fn $t() { super::super::$f::<$crate::$m::$t, $tw>() } )*
            }
        }
    };
}

/// A fact about `core` on which the contracts of the Verus layer rest: no enum involved.
#[macro_export]
macro_rules! fact {
    ($f:ident, $u:literal; $($t:ident)*) => {
        pub mod $f {
            pub const REG: &[$crate::Entry] = &[
                $($crate::Entry { name: concat!(module_path!(), "::", stringify!($t)), f: super::$f::<$crate::corefn::$t>, must_panic: false, kani: true },)*
            ];
            #[cfg(kani)]
            mod proofs {
                $( #[kani::proof] #[kani::unwind($u)] fn $t() { super::super::$f::<$crate::corefn::$t>() } )*
            }
        }
    };
}

macro_rules! modules { ($($m:ident $feat:literal)*) => {
    $( #[cfg(feature = $feat)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn registry() -> Vec<&'static Entry> {
        let mut v: Vec<&'static Entry> = Vec::new();
        $( #[cfg(feature = $feat)] for r in $m::ALL { v.extend(r.iter()); } )*
        v
    }
} }
modules! {
    c01 "c01" c02 "c02" c03 "c03" c04 "c04" c05 "c05" c06 "c06" c07 "c07" c08 "c08" c09 "c09"
    c10 "c10" c11 "c11" c12 "c12" c13 "c13" c14 "c14" c15 "c15" c16 "c16" c17 "c17" c18 "c18"
}

//! The nondeterminism layer. Under Kani every value is symbolic (the contract is decided for all
//! of them); natively values come from a replay tape (a verifier counterexample) or from an
//! edge-biased generator (the concrete search).

#[cfg(kani)]
mod imp {
    pub fn u8_() -> u8 { kani::any() }
    pub fn u16_() -> u16 { kani::any() }
    pub fn u32_() -> u32 { kani::any() }
    pub fn u64_() -> u64 { kani::any() }
    pub fn u128_() -> u128 { kani::any() }
    pub fn usize_() -> usize { kani::any() }
    pub fn bool_() -> bool { kani::any() }
    pub fn below(n: usize) -> usize {
        let v: u8 = kani::any();
        kani::assume((v as usize) < n);
        v as usize
    }
    pub fn assume(c: bool) { kani::assume(c) }
    pub fn returned(_m: &'static str) { kani::cover!(true, "returned"); }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    /// Thrown (as a panic payload) when an input violates a precondition.
    pub struct Discard;
    /// Thrown when a call that must panic has returned.
    pub struct Returned(pub &'static str);
    pub fn returned(m: &'static str) { std::panic::panic_any(Returned(m)) }
    pub enum Mode { Tape(VecDeque<Vec<u8>>), Rng(u64) }
    thread_local! {
        pub static MODE: RefCell<Mode> = RefCell::new(Mode::Rng(1));
        pub static LOG: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
    }
    fn next() -> u64 {
        MODE.with(|m| match &mut *m.borrow_mut() {
            Mode::Rng(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = *s;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^ (z >> 31)
            }
            _ => unreachable!(),
        })
    }
    fn get(w: usize, gen: impl FnOnce() -> u128) -> u128 {
        let taped = MODE.with(|m| match &mut *m.borrow_mut() {
            Mode::Tape(t) => Some(t.pop_front().unwrap_or_else(|| vec![0; w])),
            _ => None,
        });
        let bytes = match taped {
            Some(mut b) => { b.resize(w, 0); b }
            None => gen().to_le_bytes()[..w].to_vec(),
        };
        LOG.with(|l| l.borrow_mut().push(bytes.clone()));
        let mut x = [0u8; 16];
        x[..w].copy_from_slice(&bytes);
        u128::from_le_bytes(x)
    }
    fn edge(bits: u32) -> u128 {
        let full = if bits == 128 { !0 } else { (1u128 << bits) - 1 };
        let r = || (next() as u128) << 64 | next() as u128;
        (match next() % 10 {
            0 => 0,
            1 => full,
            2 => 1u128 << (next() as u32 % bits),
            3 => full & !(1u128 << (next() as u32 % bits)),
            4 => (1u128 << (next() as u32 % bits)) | (1u128 << (next() as u32 % bits)),
            5 => (1u128 << (next() as u32 % bits)) - 1,
            6 => r() & r() & r(),
            7 => r() & r(),
            _ => r(),
        }) & full
    }
    pub fn u8_() -> u8 { get(1, || edge(8)) as u8 }
    pub fn u16_() -> u16 { get(2, || edge(16)) as u16 }
    pub fn u32_() -> u32 { get(4, || edge(32)) as u32 }
    pub fn u64_() -> u64 { get(8, || edge(64)) as u64 }
    pub fn u128_() -> u128 { get(16, || edge(128)) }
    pub fn usize_() -> usize { get(8, || edge(64)) as usize }
    pub fn bool_() -> bool { get(1, || next() as u128 & 1) & 1 == 1 }
    pub fn below(n: usize) -> usize {
        assume(n > 0);
        let v = get(1, || (next() % n as u64) as u128) as usize;
        assume(v < n);
        v
    }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Discard) } }
}
pub use imp::*;

/// Values for which a symbolic instance exists.
pub trait Nd: Copy { fn nd() -> Self; }
macro_rules! nd { ($($t:ty, $f:ident;)*) => {$( impl Nd for $t { fn nd() -> Self { $f() } } )*} }
nd! { u8, u8_; u16, u16_; u32, u32_; u64, u64_; u128, u128_; usize, usize_; bool, bool_; }
pub fn any<T: Nd>() -> T { T::nd() }

/// A precondition of the contract under proof.
#[macro_export]
macro_rules! requires { ($c:expr) => { $crate::nd::assume($c) } }
/// A postcondition of the contract under proof; the label names the obligation.
#[macro_export]
macro_rules! ensures { ($c:expr, $m:expr) => { assert!($c, $m) } }
/// A reachability obligation: must be satisfiable, or the contract above it is vacuous.
#[macro_export]
macro_rules! reach {
    ($c:expr) => { #[cfg(kani)] { kani::cover!($c, "reach"); } #[cfg(not(kani))] { let _ = $c; } }
}

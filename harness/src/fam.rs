//! Specification vocabulary: a set is the set of bit numbers of its members, written as words.
use crate::nd::{any, below};
use enumset::{EnumSet, EnumSetType};

/// An enum under test, with its definition restated independently of the derive.
/// `D[i]` is the discriminant `nth(i)` was declared with.
pub trait Fam<const W: usize>: EnumSetType + 'static {
    /// The `i`-th declared variant.
    fn nth(i: usize) -> Self;
    const D: &'static [u32];
    const MASK: [u64; W] = mask::<W>(Self::D);
}

pub const fn mask<const W: usize>(d: &[u32]) -> [u64; W] {
    let mut m = [0u64; W];
    let mut i = 0;
    while i < d.len() {
        m[d[i] as usize / 64] |= 1u64 << (d[i] % 64);
        i += 1;
    }
    m
}

/// The bits of a set, read from its in-memory form.
pub fn raw<T: EnumSetType, const W: usize>(s: EnumSet<T>) -> [u64; W] {
    let n = core::mem::size_of::<EnumSet<T>>();
    let mut out = [0u64; W];
    unsafe {
        core::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out.as_mut_ptr() as *mut u8, if n < W * 8 { n } else { W * 8 });
    }
    out
}
/// The set with the given bits, written through its in-memory form.
pub fn make<T: EnumSetType, const W: usize>(w: &[u64; W]) -> EnumSet<T> {
    let n = core::mem::size_of::<EnumSet<T>>();
    let mut s = core::mem::MaybeUninit::<EnumSet<T>>::zeroed();
    unsafe {
        core::ptr::copy_nonoverlapping(w.as_ptr() as *const u8, s.as_mut_ptr() as *mut u8, if n < W * 8 { n } else { W * 8 });
        s.assume_init()
    }
}

pub fn any_words<const W: usize>() -> [u64; W] {
    let mut w = [0u64; W];
    if W > 32 {
        // Sparse: the words around every power-of-two boundary, and a few others.
        let mut i = 1;
        while i <= W {
            w[i - 1] = any();
            if i < W { w[i] = any(); }
            i *= 2;
        }
        w[W - 1] = any();
        w[below(W)] = any();
        return w;
    }
    let mut i = 0;
    while i < W { w[i] = any(); i += 1; }
    w
}
/// An arbitrary set and its bits.
pub fn any_set<T: Fam<W>, const W: usize>() -> (EnumSet<T>, [u64; W]) {
    let mut w = any_words::<W>();
    let mut i = 0;
    while i < W { w[i] &= T::MASK[i]; i += 1; }
    (make(&w), w)
}
/// An arbitrary variant and its declared discriminant.
pub fn any_variant<T: Fam<W>, const W: usize>() -> (T, u32) {
    let i = below(T::D.len());
    (T::nth(i), T::D[i])
}
pub fn single<const W: usize>(d: u32) -> [u64; W] {
    let mut w = [0u64; W];
    w[d as usize / 64] = 1u64 << (d % 64);
    w
}
pub fn has<const W: usize>(w: &[u64; W], d: u32) -> bool { w[d as usize / 64] >> (d % 64) & 1 == 1 }
pub fn same<const W: usize>(a: &[u64; W], b: &[u64; W]) -> bool {
    let mut i = 0;
    let mut r = true;
    while i < W { r &= a[i] == b[i]; i += 1; }
    r
}
pub fn is_zero<const W: usize>(a: &[u64; W]) -> bool { same(a, &[0; W]) }
pub fn zip<const W: usize>(a: &[u64; W], b: &[u64; W], f: impl Fn(u64, u64) -> u64) -> [u64; W] {
    let mut r = [0u64; W];
    let mut i = 0;
    while i < W { r[i] = f(a[i], b[i]); i += 1; }
    r
}
pub fn or<const W: usize>(a: &[u64; W], b: &[u64; W]) -> [u64; W] { zip(a, b, |x, y| x | y) }
pub fn and<const W: usize>(a: &[u64; W], b: &[u64; W]) -> [u64; W] { zip(a, b, |x, y| x & y) }
pub fn xor<const W: usize>(a: &[u64; W], b: &[u64; W]) -> [u64; W] { zip(a, b, |x, y| x ^ y) }
pub fn sub<const W: usize>(a: &[u64; W], b: &[u64; W]) -> [u64; W] { zip(a, b, |x, y| x & !y) }
/// Number of members: `count_ones` is tied to its definition by `corefn`.
pub fn card<const W: usize>(a: &[u64; W]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < W { n += a[i].count_ones() as usize; i += 1; }
    n
}
pub fn lowest<const W: usize>(a: &[u64; W]) -> Option<u32> {
    let mut i = 0;
    while i < W {
        if a[i] != 0 { return Some(i as u32 * 64 + a[i].trailing_zeros()); }
        i += 1;
    }
    None
}
pub fn highest<const W: usize>(a: &[u64; W]) -> Option<u32> {
    let mut i = W;
    while i > 0 {
        i -= 1;
        if a[i] != 0 { return Some(i as u32 * 64 + 63 - a[i].leading_zeros()); }
    }
    None
}
/// Low 128 bits as an integer, and whether anything lies above bit `bits`.
pub fn low128<const W: usize>(a: &[u64; W]) -> u128 {
    let lo = if W > 0 { a[0] as u128 } else { 0 };
    let hi = if W > 1 { a[1] as u128 } else { 0 };
    lo | hi << 64
}
pub fn above<const W: usize>(a: &[u64; W], bits: u32) -> bool {
    let mut i = 0;
    let mut r = false;
    while i < W {
        let base = i as u32 * 64;
        let over = if base >= bits { a[i] } else if bits - base >= 64 { 0 } else { a[i] >> (bits - base) };
        r |= over != 0;
        i += 1;
    }
    r
}
/// The words of an integer; `None` if it has a bit the `W` words cannot hold.
pub fn words_of<const W: usize>(v: u128) -> Option<[u64; W]> {
    let mut w = [0u64; W];
    if W > 0 { w[0] = v as u64; }
    if W > 1 { w[1] = (v >> 64) as u64; } else if v >> 64 != 0 { return None; }
    Some(w)
}
/// Same, dropping what does not fit.
pub fn words_trunc<const W: usize>(v: u128) -> [u64; W] {
    let mut w = [0u64; W];
    if W > 0 { w[0] = v as u64; }
    if W > 1 { w[1] = (v >> 64) as u64; }
    w
}
pub fn ensure_set<T: Fam<W>, const W: usize>(s: EnumSet<T>, w: &[u64; W]) -> bool { same(&raw(s), w) }
/// `f(n)` with `n` a constant on every path: one case per length instead of a symbolic length.
pub fn case(n: usize, max: usize, mut f: impl FnMut(usize)) {
    let mut k = 0;
    while k <= max {
        if k == n { f(k) }
        k += 1;
    }
}

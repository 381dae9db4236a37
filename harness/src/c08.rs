//! C08: checked array and slice conversions.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

/// Word `i` of a set, 0 beyond its storage.
fn word<const W: usize>(w: &[u64; W], i: usize) -> u64 { if i < W { w[i] } else { 0 } }
fn fits<const W: usize>(w: &[u64; W], len: usize) -> bool {
    let mut i = 0;
    let mut r = true;
    while i < W { r &= i < len || w[i] == 0; i += 1; }
    r
}
fn holds<const W: usize>(w: &[u64; W], b: &[u64]) -> bool {
    let mut i = 0;
    let mut r = true;
    while i < b.len() { r &= b[i] == word(w, i); i += 1; }
    r
}
fn valid<T: Fam<W>, const W: usize>(b: &[u64]) -> bool {
    let mut i = 0;
    let mut r = true;
    while i < b.len() { r &= b[i] & !word(&T::MASK, i) == 0; i += 1; }
    r
}
fn out_n<T: Fam<W>, const W: usize, const O: usize>(a: EnumSet<T>, wa: &[u64; W]) {
    match a.try_as_array::<O>() {
        Some(x) => {
            ensures!(fits(wa, O), "try_as_array is None when a member does not fit");
            ensures!(holds(wa, &x), "try_as_array words");
            ensures!(holds(wa, &a.as_array::<O>()), "as_array words");
        }
        None => ensures!(!fits(wa, O), "try_as_array is Some when every member fits"),
    }
}
pub fn out_array<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    reach!(!is_zero(&wa));
    out_n::<T, W, 0>(a, &wa);
    out_n::<T, W, 1>(a, &wa);
    out_n::<T, W, 2>(a, &wa);
    out_n::<T, W, 3>(a, &wa);
    out_n::<T, W, 5>(a, &wa);
    out_n::<T, W, W>(a, &wa);
    ensures!(same(&raw(a), &wa), "operand unchanged");
}
fn in_n<T: Fam<W>, const W: usize, const O: usize>(seed: &[u64; W], extra: u64) {
    // words the storage has come from `seed`, words beyond it are `extra`
    let mut b = [0u64; O];
    let mut i = 0;
    while i < O { b[i] = if i < W { seed[i] } else { extra }; i += 1; }
    match EnumSet::<T>::try_from_array(b) {
        Some(s) => {
            ensures!(valid::<T, W>(&b), "try_from_array rejects undeclared bits");
            let mut w = [0u64; W];
            let mut i = 0;
            while i < W { w[i] = if i < O { b[i] } else { 0 }; i += 1; }
            ensures!(same(&raw(s), &w), "try_from_array gives exactly the set");
            ensures!(same(&raw(EnumSet::<T>::from_array(b)), &w), "from_array gives exactly the set");
            ensures!(s.contains_all_bits(&w), "try_from_array membership");
        }
        None => ensures!(!valid::<T, W>(&b), "try_from_array accepts declared bits"),
    }
}
trait Members<const W: usize> { fn contains_all_bits(&self, w: &[u64; W]) -> bool; }
impl<T: Fam<W>, const W: usize> Members<W> for EnumSet<T> {
    fn contains_all_bits(&self, w: &[u64; W]) -> bool {
        let (v, d) = any_variant::<T, W>();
        self.contains(v) == has(w, d)
    }
}
/// Mostly-valid words: declared bits, plus undeclared ones in one word if `junk`.
fn input<T: Fam<W>, const W: usize>() -> ([u64; W], u64) {
    let mut w = any_words::<W>();
    let (junk, at, extra) = (bool_(), below(W), u64_());
    let mut i = 0;
    while i < W { if !(junk && i == at) { w[i] &= T::MASK[i]; } i += 1; }
    (w, if bool_() { extra } else { 0 })
}
pub fn in_array<T: Fam<W>, const W: usize>() {
    let (w, extra) = input::<T, W>();
    reach!(extra != 0 && is_zero(&sub(&w, &T::MASK)));
    in_n::<T, W, 0>(&w, extra);
    in_n::<T, W, 1>(&w, extra);
    in_n::<T, W, 2>(&w, extra);
    in_n::<T, W, 3>(&w, extra);
    in_n::<T, W, 5>(&w, extra);
    in_n::<T, W, W>(&w, extra);
}
fn len_upto(max: usize) -> usize { below(max + 1) }
const MAX: usize = 20;
fn cap<const W: usize>() -> usize { if W + 2 < MAX { W + 2 } else { MAX } }
pub fn out_slice<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let fill: u64 = any();
    let len = len_upto(cap::<W>());
    reach!(len > W && !is_zero(&wa));
    case(len, cap::<W>(), |n| out_slice_n(a, &wa, fill, n));
}
fn out_slice_n<T: Fam<W>, const W: usize>(a: EnumSet<T>, wa: &[u64; W], fill: u64, n: usize) {
    let mut buf = [fill; MAX];
    let r = a.try_copy_into_slice(&mut buf[..n]);
    ensures!(r.is_some() == fits(wa, n), "try_copy_into_slice succeeds exactly when every member fits");
    ensures!(r.is_none() || holds(wa, &buf[..n]), "try_copy_into_slice words");
    ensures!(n == MAX || buf[n] == fill, "nothing is written past the slice");
    if fits(wa, n) {
        let mut buf = [fill; MAX];
        a.copy_into_slice(&mut buf[..n]);
        ensures!(holds(wa, &buf[..n]), "copy_into_slice words");
        ensures!(same(&raw(EnumSet::<T>::from_slice(&buf[..n])), wa), "slice out and back is the identity");
    }
}
pub fn in_slice<T: Fam<W>, const W: usize>() {
    let (w, extra) = input::<T, W>();
    let n = len_upto(cap::<W>());
    let mut b = [0u64; MAX];
    let spot = below(MAX);
    let mut i = 0;
    while i < cap::<W>() { b[i] = if i < W { w[i] } else if i == spot { extra } else { 0 }; i += 1; }
    reach!(n > W && valid::<T, W>(&b[..n]));
    case(n, cap::<W>(), |n| in_slice_n::<T, W>(&b[..n]));
}
fn in_slice_n<T: Fam<W>, const W: usize>(b: &[u64]) {
    let n = b.len();
    match EnumSet::<T>::try_from_slice(b) {
        Some(s) => {
            ensures!(valid::<T, W>(b), "try_from_slice rejects undeclared bits");
            let mut x = [0u64; W];
            let mut i = 0;
            while i < W { x[i] = if i < n { b[i] } else { 0 }; i += 1; }
            ensures!(same(&raw(s), &x), "try_from_slice gives exactly the set");
            ensures!(same(&raw(EnumSet::<T>::from_slice(b)), &x), "from_slice gives exactly the set");
        }
        None => ensures!(!valid::<T, W>(b), "try_from_slice accepts declared bits"),
    }
}
fn as_or_return<T: Fam<W>, const W: usize, const O: usize>(a: EnumSet<T>, wa: &[u64; W]) {
    requires!(!fits(wa, O));
    let _ = a.as_array::<O>();
    returned("as_array of a set that does not fit");
}
pub fn out_panics<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    match below(4) {
        0 => as_or_return::<T, W, 0>(a, &wa),
        1 => as_or_return::<T, W, 1>(a, &wa),
        2 => as_or_return::<T, W, 2>(a, &wa),
        _ => {
            let n = len_upto(cap::<W>());
            requires!(!fits(&wa, n));
            case(n, cap::<W>(), |n| {
                let mut buf = [0u64; MAX];
                a.copy_into_slice(&mut buf[..n]);
                returned("copy_into_slice of a set that does not fit");
            });
        }
    }
}
fn from_or_return<T: Fam<W>, const W: usize, const O: usize>(w: &[u64; W], extra: u64) {
    let mut b = [0u64; O];
    let mut i = 0;
    while i < O { b[i] = if i < W { w[i] } else { extra }; i += 1; }
    requires!(!valid::<T, W>(&b));
    let _ = EnumSet::<T>::from_array(b);
    returned("from_array with undeclared bits");
}
pub fn in_panics<T: Fam<W>, const W: usize>() {
    let (w, extra) = input::<T, W>();
    match below(5) {
        0 => from_or_return::<T, W, 1>(&w, extra),
        1 => from_or_return::<T, W, 2>(&w, extra),
        2 => from_or_return::<T, W, 5>(&w, extra),
        3 => from_or_return::<T, W, W>(&w, extra),
        _ => {
            let n = len_upto(cap::<W>());
            let mut b = [0u64; MAX];
            let mut i = 0;
            while i < cap::<W>() { b[i] = if i < W { w[i] } else { extra }; i += 1; }
            requires!(!valid::<T, W>(&b[..n]));
            case(n, cap::<W>(), |n| {
                let _ = EnumSet::<T>::from_slice(&b[..n]);
                returned("from_slice with undeclared bits");
            });
        }
    }
}
/// Lengths and array sizes far beyond the storage.
pub fn long<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let n = usize_() % [20, 70, 300, 1500][below(4)];
    let fill: u64 = any();
    let mut buf = vec![fill; n + 1];
    let r = a.try_copy_into_slice(&mut buf[..n]);
    ensures!(r.is_some() == fits(&wa, n), "try_copy_into_slice succeeds exactly when every member fits (long)");
    ensures!(r.is_none() || holds(&wa, &buf[..n]), "try_copy_into_slice words (long)");
    ensures!(buf[n] == fill, "nothing is written past the slice (long)");
    let mut b: Vec<u64> = (0..n).map(|i| word(&wa, i)).collect();
    ensures!(EnumSet::<T>::try_from_slice(&b).is_some(), "try_from_slice accepts a long valid slice");
    if n > 0 { let at = usize_() % n; b[at] |= 1 << (u32_() % 64); }
    in_slice_n::<T, W>(&b);
    out_n::<T, W, 9>(a, &wa);
    out_n::<T, W, 33>(a, &wa);
    let (w, extra) = input::<T, W>();
    in_n::<T, W, 9>(&w, extra);
    in_n::<T, W, 33>(&w, extra);
    let mut b = [0u64; 300];
    let at = usize_() % 300;
    b[at] = 1 << (u32_() % 64);
    let ok = at < W && b[at] & !T::MASK[at] == 0;
    ensures!(EnumSet::<T>::try_from_array(b).is_some() == ok, "try_from_array with one bit set anywhere");
}
on!(native, long, total, 1);
on!(conv, out_array, total, 40);
on!(conv, in_array, total, 40);
on!(conv, out_slice, total, 40);
on!(conv, in_slice, total, 40);
on!(conv, out_panics, panics, 40);
on!(conv, in_panics, panics, 40);
pub const ALL: &[&[Entry]] = &[out_array::REG, in_array::REG, out_slice::REG, in_slice::REG, out_panics::REG, in_panics::REG, long::REG];

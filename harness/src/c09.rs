//! C09: truncating array and slice conversions, unchecked forms, to_vec.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

fn word<const W: usize>(w: &[u64; W], i: usize) -> u64 { if i < W { w[i] } else { 0 } }
fn holds<const W: usize>(w: &[u64; W], b: &[u64]) -> bool {
    let mut i = 0;
    let mut r = true;
    while i < b.len() { r &= b[i] == word(w, i); i += 1; }
    r
}
fn declared<T: Fam<W>, const W: usize>(b: &[u64]) -> [u64; W] {
    let mut x = [0u64; W];
    let mut i = 0;
    while i < W { x[i] = if i < b.len() { b[i] & T::MASK[i] } else { 0 }; i += 1; }
    x
}
pub fn out_array<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    reach!(!is_zero(&wa));
    ensures!(holds(&wa, &a.as_array_truncated::<0>()), "as_array_truncated<0>");
    ensures!(holds(&wa, &a.as_array_truncated::<1>()), "as_array_truncated<1>");
    ensures!(holds(&wa, &a.as_array_truncated::<2>()), "as_array_truncated<2>");
    ensures!(holds(&wa, &a.as_array_truncated::<3>()), "as_array_truncated<3>");
    ensures!(holds(&wa, &a.as_array_truncated::<4>()), "as_array_truncated<4>");
    ensures!(holds(&wa, &a.as_array_truncated::<5>()), "as_array_truncated<5>");
    ensures!(holds(&wa, &a.as_array_truncated::<W>()), "as_array_truncated<W>");
    ensures!(same(&raw(a), &wa), "operand unchanged");
}
fn in_n<T: Fam<W>, const W: usize, const O: usize>(w: &[u64; W], extra: u64) {
    let mut b = [0u64; O];
    let mut i = 0;
    while i < O { b[i] = if i < W { w[i] } else { extra }; i += 1; }
    ensures!(same(&raw(EnumSet::<T>::from_array_truncated(b)), &declared::<T, W>(&b)), "from_array_truncated keeps exactly the declared bits");
    let mut i = 0;
    while i < O { b[i] &= word(&T::MASK, i); i += 1; }
    ensures!(same(&raw(unsafe { EnumSet::<T>::from_array_unchecked(b) }), &declared::<T, W>(&b)), "from_array_unchecked is exact on valid input");
}
pub fn in_array<T: Fam<W>, const W: usize>() {
    let w = any_words::<W>();
    let extra: u64 = any();
    reach!(extra != 0);
    in_n::<T, W, 0>(&w, extra);
    in_n::<T, W, 1>(&w, extra);
    in_n::<T, W, 2>(&w, extra);
    in_n::<T, W, 3>(&w, extra);
    in_n::<T, W, 4>(&w, extra);
    in_n::<T, W, 5>(&w, extra);
    in_n::<T, W, W>(&w, extra);
}
const MAX: usize = 20;
fn cap<const W: usize>() -> usize { if W + 2 < MAX { W + 2 } else { MAX } }
pub fn out_slice<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let len = below(cap::<W>() + 1);
    let fill: u64 = any();
    reach!(len > W && fill != 0);
    case(len, cap::<W>(), |n| out_slice_n(a, &wa, fill, n));
}
fn out_slice_n<T: Fam<W>, const W: usize>(a: EnumSet<T>, wa: &[u64; W], fill: u64, n: usize) {
    let mut buf = [fill; MAX];
    a.copy_into_slice_truncated(&mut buf[..n]);
    ensures!(holds(wa, &buf[..n]), "copy_into_slice_truncated writes the words that fit and zero-fills the rest");
    ensures!(n == MAX || buf[n] == fill, "nothing is written past the slice");
}
pub fn in_slice<T: Fam<W>, const W: usize>() {
    let len = below(cap::<W>() + 1);
    let mut b = [0u64; MAX];
    let mut i = 0;
    while i < cap::<W>() { b[i] = any(); i += 1; }
    reach!(len > W);
    case(len, cap::<W>(), |n| in_slice_n::<T, W>(b, n));
}
fn in_slice_n<T: Fam<W>, const W: usize>(mut b: [u64; MAX], n: usize) {
    ensures!(same(&raw(EnumSet::<T>::from_slice_truncated(&b[..n])), &declared::<T, W>(&b[..n])), "from_slice_truncated keeps exactly the declared bits");
    let mut i = 0;
    while i < cap::<W>() { b[i] &= word(&T::MASK, i); i += 1; }
    ensures!(same(&raw(unsafe { EnumSet::<T>::from_slice_unchecked(&b[..n]) }), &declared::<T, W>(&b[..n])), "from_slice_unchecked is exact on valid input");
}
pub fn vec<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    reach!(!is_zero(&wa));
    let v = a.to_vec();
    let mut x = [0u64; W];
    let mut i = 0;
    while i < v.len() {
        if i < W { x[i] = v[i]; } else { ensures!(v[i] == 0, "to_vec has no other bits"); }
        i += 1;
    }
    ensures!(same(&x, &wa), "to_vec holds the whole set");
    ensures!(same(&raw(EnumSet::<T>::from_slice(&v)), &wa), "to_vec round-trips through from_slice");
    ensures!(same(&raw(EnumSet::<T>::from_slice_truncated(&v)), &wa), "to_vec round-trips through from_slice_truncated");
}
/// Lengths and array sizes far beyond the storage.
pub fn long<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let n = usize_() % [20, 70, 300, 1500][below(4)];
    let fill: u64 = any();
    let mut buf = vec![fill; n + 1];
    a.copy_into_slice_truncated(&mut buf[..n]);
    ensures!(holds(&wa, &buf[..n]), "copy_into_slice_truncated (long)");
    ensures!(buf[n] == fill, "nothing is written past the slice (long)");
    let b: Vec<u64> = (0..n).map(|i| if i < W || bool_() { any() } else { 0 }).collect();
    ensures!(same(&raw(EnumSet::<T>::from_slice_truncated(&b)), &declared::<T, W>(&b)), "from_slice_truncated (long)");
    ensures!(holds(&wa, &a.as_array_truncated::<9>()), "as_array_truncated<9>");
    ensures!(holds(&wa, &a.as_array_truncated::<33>()), "as_array_truncated<33>");
    let w = any_words::<W>();
    let extra: u64 = any();
    in_n::<T, W, 9>(&w, extra);
    in_n::<T, W, 33>(&w, extra);
}
on!(native, long, total, 1);
on!(conv, out_array, total, 40);
on!(conv, in_array, total, 40);
on!(conv, out_slice, total, 40);
on!(conv, in_slice, total, 40);
on!(conv, vec, total, 40);
pub const ALL: &[&[Entry]] = &[out_array::REG, in_array::REG, out_slice::REG, in_slice::REG, vec::REG, long::REG];

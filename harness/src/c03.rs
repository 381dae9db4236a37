//! C03: equality, ordering, hashing.
use crate::{fam::*, nd::*, Entry};
use crate::corefn::arrays;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use enumset::EnumSet;

pub fn equality<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    reach!(same(&wa, &wb));
    ensures!((a == b) == same(&wa, &wb), "== is extensional");
    ensures!((a != b) == !same(&wa, &wb), "!= is its negation");
}
pub fn equality_variant<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (v, d) = any_variant::<T, W>();
    reach!(same(&wa, &single(d)));
    ensures!((a == v) == same(&wa, &single(d)), "set == variant iff singleton");
    ensures!((a != v) == !same(&wa, &single(d)), "set != variant");
}
pub fn order<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    let (c, _) = any_set::<T, W>();
    reach!(a < b && (b < c || T::D.len() == 1));
    let ab = a.cmp(&b);
    ensures!((ab == Ordering::Equal) == same(&wa, &wb), "cmp is Equal iff equal");
    ensures!(b.cmp(&a) == ab.reverse(), "cmp is antisymmetric");
    ensures!(a.partial_cmp(&b) == Some(ab), "partial_cmp agrees with cmp");
    ensures!((a < b) == (ab == Ordering::Less) && (a > b) == (ab == Ordering::Greater), "< and > agree with cmp");
    ensures!((a <= b) == (ab != Ordering::Greater) && (a >= b) == (ab != Ordering::Less), "<= and >= agree with cmp");
    ensures!(!(ab == Ordering::Less && b.cmp(&c) != Ordering::Greater) || a.cmp(&c) == Ordering::Less, "cmp is transitive");
    ensures!(!(ab == Ordering::Equal) || a.cmp(&c) == b.cmp(&c), "equal sets compare alike");
}

/// Records everything it is fed.
pub struct Rec { pub buf: [u8; 160], pub n: usize }
impl Rec {
    pub fn new() -> Self { Rec { buf: [0; 160], n: 0 } }
    fn put(&mut self, tag: u8, v: u128) {
        let b = v.to_le_bytes();
        if self.n + 3 <= 20 * 8 {
            self.buf[self.n] = tag;
            self.n += 1;
            let mut i = 0;
            while i < 16 && self.n < 160 { self.buf[self.n] = b[i]; self.n += 1; i += 1; if i >= tag as usize { break; } }
        }
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() && self.n < 160 { self.buf[self.n] = b[i]; self.n += 1; i += 1; }
    }
    fn write_u8(&mut self, i: u8) { self.put(1, i as u128) }
    fn write_u16(&mut self, i: u16) { self.put(2, i as u128) }
    fn write_u32(&mut self, i: u32) { self.put(4, i as u128) }
    fn write_u64(&mut self, i: u64) { self.put(8, i as u128) }
    fn write_u128(&mut self, i: u128) { self.put(16, i) }
    fn write_usize(&mut self, i: usize) { self.put(8, i as u128) }
}
fn same_rec(a: &Rec, b: &Rec) -> bool {
    let mut r = a.n == b.n;
    let mut i = 0;
    while i < 160 { r &= i >= a.n || a.buf[i] == b.buf[i]; i += 1; }
    r
}
fn feed<T: Hash>(t: &T) -> Rec { let mut r = Rec::new(); t.hash(&mut r); r }
fn alike<T: Fam<W>, const W: usize>(a: EnumSet<T>, b: EnumSet<T>) -> bool {
    a == b && a.cmp(&b) == Ordering::Equal && same_rec(&feed(&a), &feed(&b))
}
/// One set reached along different routes of the safe API.
pub fn routes<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let junk = any_words::<W>();
    let (v, d) = any_variant::<T, W>();
    reach!(has(&wa, d) && !is_zero(&sub(&junk, &T::MASK)));
    ensures!(alike(a, EnumSet::from_array_truncated(or(&wa, &sub(&junk, &T::MASK)))), "routes: from_array_truncated");
    ensures!(alike(a, !!a), "routes: double complement");
    ensures!(alike(a, EnumSet::all() & a), "routes: all & a");
    ensures!(alike(a, (a - v) | (a & v)), "routes: split and rejoin");
    ensures!(alike(a, a ^ v ^ v), "routes: toggle twice");
    let mut x = a;
    if x.remove(v) { x.insert(v); }
    ensures!(alike(a, x), "routes: remove and insert back");
    ensures!(alike(a, EnumSet::try_from_array(a.as_array::<W>()).unwrap()), "routes: array round trip");
    ensures!(alike(EnumSet::<T>::empty(), a - a) && alike(EnumSet::<T>::all(), a | !a), "routes: empty and all");
}
/// Sets work as keys of ordered and hashed collections.
pub fn keys<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    let mut t = std::collections::BTreeSet::new();
    t.insert(a);
    ensures!(t.contains(&b) == same(&wa, &wb), "BTreeSet key");
    let mut h = std::collections::HashSet::new();
    h.insert(a);
    ensures!(h.contains(&b) == same(&wa, &wb), "HashSet key");
    ensures!(h.contains(&!!a) && t.contains(&!!a), "key found again");
}
/// The provided methods of the comparison, hashing and cloning traits, should the crate come to define them itself.
pub fn provided<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    let (c, _) = any_set::<T, W>();
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    ensures!(a.min(b) == lo && a.max(b) == hi, "min and max agree with cmp");
    ensures!(c.clamp(lo, hi) == if c < lo { lo } else if c > hi { hi } else { c }, "clamp agrees with cmp");
    let mut x = b;
    x.clone_from(&a);
    ensures!(x == a && x.as_array::<W>() == wa && b.as_array::<W>() == wb, "clone_from");
    ensures!(Clone::clone(&a).as_array::<W>() == wa, "clone");
    let (mut r, mut s) = (Rec::new(), Rec::new());
    EnumSet::<T>::hash_slice(&[a, b], &mut r);
    EnumSet::<T>::hash_slice(&[!!a, b & EnumSet::all()], &mut s);
    ensures!(same_rec(&r, &s), "hash_slice");
    ensures!(PartialOrd::lt(&a, &b) == (a.cmp(&b) == Ordering::Less) && PartialOrd::ge(&a, &b) == (a.cmp(&b) != Ordering::Less), "lt and ge");
    let mut v = vec![a, b, c];
    v.sort();
    ensures!(v[0] <= v[1] && v[1] <= v[2], "sort");
}
on!(core, equality, total, 80);
on!(core, equality_variant, total, 80);
on!(core, order, total, 80);
on!(routes, routes, total, 170);
on!(native, keys, total, 1);
on!(native, provided, total, 1);
macro_rules! flipped { ($($t:ident $w:literal;)*) => { $( #[allow(non_snake_case)] pub mod $t {
    use crate::{fam::*, nd::*, types::$t};
    use enumset::EnumSet;
    pub fn flip() {
        let (a, wa) = any_set::<$t, $w>();
        let (v, d) = any_variant::<$t, $w>();
        reach!(same(&wa, &single(d)));
        ensures!((v == a) == same(&wa, &single(d)), "variant == set iff singleton");
        ensures!((v != a) == !same(&wa, &single(d)), "variant != set");
    }
    #[cfg(kani)] #[kani::proof] #[kani::unwind(40)] fn flip_() { flip() }
} )*
pub const FLIP: &[Entry] = &[$( Entry { name: concat!(module_path!(), "::", stringify!($t), "::flip_"), f: $t::flip, must_panic: false, kani: true }, )*];
} }
flipped! { S8 1; S16 1; S32 1; S64 1; X128 2; A1 1; A2 2; A2H 2; A4 4; RU8 4; }
fact!(arrays, 34; W1 W2 W3 W4);
pub const ALL: &[&[Entry]] = &[arrays::REG, equality::REG, equality_variant::REG, order::REG, routes::REG, keys::REG, provided::REG, FLIP];

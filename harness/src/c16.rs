//! C16: collect, extend, sum.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

const MAX: usize = 3;
fn items<T: Fam<W>, const W: usize>() -> ([T; MAX], usize, [u64; W]) {
    let mut a = [T::nth(0); MAX];
    let n = below(MAX + 1);
    let mut u = [0u64; W];
    let mut i = 0;
    while i < MAX {
        let (v, d) = any_variant::<T, W>();
        a[i] = v;
        if i < n { u = or(&u, &single(d)); }
        i += 1;
    }
    (a, n, u)
}
fn sets<T: Fam<W>, const W: usize>() -> ([EnumSet<T>; MAX], usize, [u64; W]) {
    let mut a = [EnumSet::empty(); MAX];
    let n = below(MAX + 1);
    let mut u = [0u64; W];
    let mut i = 0;
    while i < MAX {
        let (s, w) = any_set::<T, W>();
        a[i] = s;
        if i < n { u = or(&u, &w); }
        i += 1;
    }
    (a, n, u)
}
pub fn variants<T: Fam<W>, const W: usize>() {
    let (a, n, u) = items::<T, W>();
    let (s, ws) = any_set::<T, W>();
    reach!(n == MAX);
    ensures!(same(&raw(a[..n].iter().copied().collect::<EnumSet<T>>()), &u), "collect variants");
    let mut x = s; x.extend(a[..n].iter().copied());
    ensures!(same(&raw(x), &or(&ws, &u)), "extend with variants");
    ensures!(same(&raw::<T, W>(a[..n].iter().copied().sum()), &u), "sum of variants");
    ensures!(same(&raw::<T, W>(a[..n].iter().sum()), &u), "sum of references to variants");
}
pub fn of_sets<T: Fam<W>, const W: usize>() {
    let (a, n, u) = sets::<T, W>();
    let (s, ws) = any_set::<T, W>();
    reach!(n == MAX);
    ensures!(same(&raw(a[..n].iter().copied().collect::<EnumSet<T>>()), &u), "collect sets");
    let mut x = s; x.extend(a[..n].iter().copied());
    ensures!(same(&raw(x), &or(&ws, &u)), "extend with sets");
    ensures!(same(&raw::<T, W>(a[..n].iter().copied().sum()), &u), "sum of sets");
    ensures!(same(&raw::<T, W>(a[..n].iter().sum()), &u), "sum of references to sets");
}
/// Long sequences, exact-size and not, natively.
pub fn long<T: Fam<W>, const W: usize>() {
    let n = [0, 1, 2, 7, 40, 130, 255][below(7)];
    let mut v = Vec::new();
    let mut u = [0u64; W];
    for _ in 0..n { let (x, d) = any_variant::<T, W>(); v.push(x); u = or(&u, &single(d)); }
    let (s, ws) = any_set::<T, W>();
    ensures!(same(&raw(v.iter().copied().collect::<EnumSet<T>>()), &u), "collect variants (long)");
    ensures!(same(&raw(v.iter().copied().filter(|_| true).collect::<EnumSet<T>>()), &u), "collect variants of unknown length");
    let mut x = s; x.extend(v.iter().copied());
    ensures!(same(&raw(x), &or(&ws, &u)), "extend with variants (long)");
    let mut x = s; x.extend(v.iter().copied().filter(|_| true));
    ensures!(same(&raw(x), &or(&ws, &u)), "extend with variants of unknown length");
    ensures!(same(&raw::<T, W>(v.iter().copied().sum()), &u) && same(&raw::<T, W>(v.iter().sum()), &u), "sum of variants (long)");
    let mut z = Vec::new();
    let mut u = [0u64; W];
    let m = [0, 1, 2, 7, 40][below(5)];
    for _ in 0..m {
        let (x, w) = if bool_() { any_set::<T, W>() } else { let (v, d) = any_variant::<T, W>(); (EnumSet::only(v), single(d)) };
        z.push(x); u = or(&u, &w);
    }
    ensures!(same(&raw(z.iter().copied().collect::<EnumSet<T>>()), &u), "collect sets (long)");
    let mut x = s; x.extend(z.iter().copied());
    ensures!(same(&raw(x), &or(&ws, &u)), "extend with sets (long)");
    ensures!(same(&raw::<T, W>(z.iter().copied().sum()), &u) && same(&raw::<T, W>(z.iter().sum()), &u), "sum of sets (long)");
    ensures!(same(&raw(s.iter().collect::<EnumSet<T>>()), &ws) && same(&raw(s.iter().rev().collect::<EnumSet<T>>()), &ws), "a set collects back from its own iterator");
}
on!(sample, variants, total, 40);
on!(sample, of_sets, total, 40);
on!(native, long, total, 1);
pub const ALL: &[&[Entry]] = &[variants::REG, of_sets::REG, long::REG];

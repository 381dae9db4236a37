//! C01: set algebra.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

pub fn methods<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    reach!(!is_zero(&wa) && !is_zero(&wb));
    ensures!(same(&raw(a.union(b)), &or(&wa, &wb)), "union");
    ensures!(same(&raw(a.intersection(b)), &and(&wa, &wb)), "intersection");
    ensures!(same(&raw(a.difference(b)), &sub(&wa, &wb)), "difference");
    ensures!(same(&raw(a.symmetrical_difference(b)), &xor(&wa, &wb)), "symmetrical_difference");
    ensures!(same(&raw(a.complement()), &sub(&T::MASK, &wa)), "complement");
    ensures!(same(&raw(a), &wa) && same(&raw(b), &wb), "operands unchanged");
}
pub fn operators<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    reach!(!same(&wa, &wb));
    ensures!(same(&raw(a | b), &or(&wa, &wb)), "set | set");
    ensures!(same(&raw(a & b), &and(&wa, &wb)), "set & set");
    ensures!(same(&raw(a - b), &sub(&wa, &wb)), "set - set");
    ensures!(same(&raw(a ^ b), &xor(&wa, &wb)), "set ^ set");
    ensures!(same(&raw(!a), &sub(&T::MASK, &wa)), "!set");
    let mut x = a; x |= b;
    ensures!(same(&raw(x), &or(&wa, &wb)), "set |= set");
    let mut x = a; x &= b;
    ensures!(same(&raw(x), &and(&wa, &wb)), "set &= set");
    let mut x = a; x -= b;
    ensures!(same(&raw(x), &sub(&wa, &wb)), "set -= set");
    let mut x = a; x ^= b;
    ensures!(same(&raw(x), &xor(&wa, &wb)), "set ^= set");
}
pub fn operators_variant<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (v, d) = any_variant::<T, W>();
    let wv = single::<W>(d);
    reach!(has(&wa, d));
    ensures!(same(&raw(a | v), &or(&wa, &wv)), "set | variant");
    ensures!(same(&raw(a & v), &and(&wa, &wv)), "set & variant");
    ensures!(same(&raw(a - v), &sub(&wa, &wv)), "set - variant");
    ensures!(same(&raw(a ^ v), &xor(&wa, &wv)), "set ^ variant");
    let mut x = a; x |= v;
    ensures!(same(&raw(x), &or(&wa, &wv)), "set |= variant");
    let mut x = a; x &= v;
    ensures!(same(&raw(x), &and(&wa, &wv)), "set &= variant");
    let mut x = a; x -= v;
    ensures!(same(&raw(x), &sub(&wa, &wv)), "set -= variant");
    let mut x = a; x ^= v;
    ensures!(same(&raw(x), &xor(&wa, &wv)), "set ^= variant");
}
/// The same, observed through `contains` only.
pub fn observed<T: Fam<W>, const W: usize>() {
    let (a, _) = any_set::<T, W>();
    let (b, _) = any_set::<T, W>();
    let (v, _) = any_variant::<T, W>();
    let (p, q) = (a.contains(v), b.contains(v));
    reach!(p && !q);
    ensures!((a | b).contains(v) == (p | q) && a.union(b).contains(v) == (p | q), "union membership");
    ensures!((a & b).contains(v) == (p & q) && a.intersection(b).contains(v) == (p & q), "intersection membership");
    ensures!((a - b).contains(v) == (p & !q) && a.difference(b).contains(v) == (p & !q), "difference membership");
    ensures!((a ^ b).contains(v) == (p ^ q) && a.symmetrical_difference(b).contains(v) == (p ^ q), "symmetric difference membership");
    ensures!((!a).contains(v) == !p && a.complement().contains(v) == !p, "complement membership");
    ensures!(!p | EnumSet::<T>::all().contains(v), "only declared variants");
}
on!(core, methods, total, 40);
on!(core, operators, total, 40);
on!(core, operators_variant, total, 40);
on!(core, observed, total, 40);
pub const ALL: &[&[Entry]] = &[methods::REG, operators::REG, operators_variant::REG, observed::REG];

//! C04: cardinality and relations.
use crate::{fam::*, nd::*, Entry};
use crate::corefn::ones;
use enumset::EnumSet;

pub fn cardinality<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    reach!(card(&wa) == 1);
    ensures!(a.len() == card(&wa), "len is the number of members");
    ensures!(a.is_empty() == is_zero(&wa), "is_empty iff no members");
    ensures!(a.is_empty() == (a.len() == 0), "is_empty iff len is 0");
    ensures!(EnumSet::<T>::all().len() == T::D.len(), "all has every variant");
}
pub fn relations<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    reach!(a.is_subset(b) && !same(&wa, &wb));
    ensures!(a.is_subset(b) == is_zero(&sub(&wa, &wb)), "is_subset");
    ensures!(a.is_superset(b) == is_zero(&sub(&wb, &wa)), "is_superset");
    ensures!(a.is_disjoint(b) == is_zero(&and(&wa, &wb)), "is_disjoint");
}
/// Pointwise form, through `contains`.
pub fn pointwise<T: Fam<W>, const W: usize>() {
    let (a, _) = any_set::<T, W>();
    let (b, _) = any_set::<T, W>();
    let (v, _) = any_variant::<T, W>();
    reach!(a.contains(v));
    ensures!(!a.is_subset(b) || !a.contains(v) || b.contains(v), "subset: every member is in the other");
    ensures!(!a.is_superset(b) || !b.contains(v) || a.contains(v), "superset: contains every member of the other");
    ensures!(!a.is_disjoint(b) || !a.contains(v) || !b.contains(v), "disjoint: no variant in both");
    ensures!(a.is_subset(a) && a.is_superset(a) && a.is_subset(EnumSet::all()) && EnumSet::empty().is_subset(a), "reflexive, bounded");
    ensures!(a.is_disjoint(EnumSet::empty()) && a.is_disjoint(!a), "disjoint from the empty set and the complement");
    ensures!(!a.contains(v) || !a.is_empty(), "a set with a member is not empty");
}
on!(core, cardinality, total, 80);
on!(core, relations, total, 80);
on!(core, pointwise, total, 80);
fact!(ones, 2; u8 u16 u32 u64 u128);
pub const ALL: &[&[Entry]] = &[cardinality::REG, relations::REG, pointwise::REG, ones::REG];

//! C11: derived numbering.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

pub fn numbering<T: Fam<W>, const W: usize>() {
    let i = below(T::D.len());
    let j = below(T::D.len());
    let (v, d) = (T::nth(i), T::D[i]);
    let (u, e) = (T::nth(j), T::D[j]);
    reach!(i == j);
    let s = EnumSet::only(v);
    ensures!(same(&raw(s), &single::<W>(d)), "a variant is the bit numbered with its discriminant");
    ensures!(d >= 128 || s.try_as_u128() == Some(1u128 << d), "the integer form of a singleton is 1 << discriminant");
    let t = make::<T, W>(&single(e));
    ensures!(t.contains(v) == (i == j), "a bit is the variant numbered with it");
    let mut it = t.iter();
    let back = it.next();
    ensures!(back == Some(u), "converting a bit back gives that variant");
    ensures!((back == Some(v)) == (i == j), "and no other");
    ensures!(it.next().is_none(), "one bit is one variant");
    ensures!(t.iter().next_back() == Some(u), "from either end");
    ensures!((v == u) == (i == j) && (v != u) == (i != j), "derived comparison: equal exactly when the same variant");
    ensures!(Clone::clone(&v) == v && same(&raw(EnumSet::only(v.clone())), &single::<W>(d)), "derived clone is the same variant");
}
pub fn constants<T: Fam<W>, const W: usize>() {
    let mut top = 0;
    let mut i = 0;
    while i < T::D.len() { if T::D[i] + 1 > top { top = T::D[i] + 1; } i += 1; }
    reach!(true);
    ensures!(same(&raw::<T, W>(EnumSet::all()), &T::MASK), "all() has exactly the declared variants");
    ensures!(EnumSet::<T>::variant_count() as usize == T::D.len(), "variant_count is the number of variants");
    ensures!(EnumSet::<T>::bit_width() == top, "bit_width is one more than the largest discriminant");
    ensures!(EnumSet::<T>::all().len() == T::D.len(), "all().len() is the number of variants");
}
pub fn empty_enum<T: Fam<W>, const W: usize>() {
    reach!(true);
    ensures!(EnumSet::<T>::variant_count() == 0 && EnumSet::<T>::bit_width() == 0, "no variants: count 0, width 0");
    ensures!(EnumSet::<T>::all().is_empty() && EnumSet::<T>::all().iter().next().is_none(), "no variants: all() is empty");
}
pub mod nums { pub use super::numbering as f; use crate::contract_in; use super::numbering; on_numbered!(numbering); }
pub mod consts { use crate::contract_in; use super::constants; on_numbered!(constants); }
on!(number, numbering, total, 70);
on!(number, constants, total, 70);
contract!(empty_enum, total, 8; Empty:1;;);
pub const ALL: &[&[Entry]] = &[numbering::REG, constants::REG, nums::numbered::REG, consts::numbered::REG, empty_enum::REG];

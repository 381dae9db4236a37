//! C12, run-time side: storage fits and is sized as documented (accept/reject is decided by the
//! contracts on the derive's own functions, see verus/ and tools/).
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

pub fn sized<T: Fam<W>, const W: usize>() {
    let n = core::mem::size_of::<EnumSet<T>>() * 8;
    let top = EnumSet::<T>::bit_width() as usize;
    let (v, d) = any_variant::<T, W>();
    reach!(true);
    ensures!(n >= top && n > d as usize, "the storage has a bit for every declared discriminant");
    ensures!(EnumSet::only(v).contains(v) && EnumSet::<T>::all().contains(v), "every declared variant can be stored");
}
pub fn smallest<T: Fam<W>, const W: usize>() {
    let mut top = 0;
    let mut i = 0;
    while i < T::D.len() { if T::D[i] > top { top = T::D[i]; } i += 1; }
    let want = if top < 8 { 1 } else if top < 16 { 2 } else if top < 32 { 4 } else { 8 };
    reach!(true);
    ensures!(top >= 64 || core::mem::size_of::<EnumSet<T>>() == want, "automatic integer storage is the smallest that fits");
}
on!(number, sized, total, 40);
contract!(smallest, total, 70; D8:1 S8:1 S16:1 D16:1 S32:1 S64:1 D64:1 One0:1 One9:1 RI16:1 RC:1 I8:1 I64:1;; RU64:1 A2:2 L9:9);
pub const ALL: &[&[Entry]] = &[sized::REG, smallest::REG];

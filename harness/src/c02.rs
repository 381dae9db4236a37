//! C02: membership updates.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

pub fn insert_remove<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (v, d) = any_variant::<T, W>();
    let wv = single::<W>(d);
    reach!(!has(&wa, d));
    ensures!(a.contains(v) == has(&wa, d), "contains");
    let mut x = a;
    let changed = x.insert(v);
    ensures!(same(&raw(x), &or(&wa, &wv)), "insert adds exactly the variant");
    ensures!(changed == !has(&wa, d), "insert reports whether membership changed");
    ensures!(x.contains(v), "inserted variant is contained");
    let mut y = a;
    let present = y.remove(v);
    ensures!(same(&raw(y), &sub(&wa, &wv)), "remove drops exactly the variant");
    ensures!(present == has(&wa, d), "remove reports whether the variant was present");
    ensures!(!y.contains(v), "removed variant is not contained");
    ensures!(same(&raw(a), &wa), "original unchanged");
}
pub fn bulk<T: Fam<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (b, wb) = any_set::<T, W>();
    reach!(!is_zero(&and(&wa, &wb)));
    let mut x = a; x.insert_all(b);
    ensures!(same(&raw(x), &or(&wa, &wb)), "insert_all");
    let mut x = a; x.remove_all(b);
    ensures!(same(&raw(x), &sub(&wa, &wb)), "remove_all");
    let mut x = a; x.clear();
    ensures!(is_zero(&raw::<T, W>(x)), "clear");
}
pub fn constructors<T: Fam<W>, const W: usize>() {
    let (v, d) = any_variant::<T, W>();
    let (u, e) = any_variant::<T, W>();
    reach!(d == e);
    let s = EnumSet::only(v);
    ensures!(same(&raw(s), &single::<W>(d)), "only");
    ensures!(same(&raw(EnumSet::from(v)), &single::<W>(d)), "From<variant>");
    ensures!(s.contains(u) == (d == e), "singleton contains exactly its variant");
    ensures!(is_zero(&raw::<T, W>(EnumSet::new())), "new");
    ensures!(is_zero(&raw::<T, W>(EnumSet::empty())), "empty");
    ensures!(is_zero(&raw::<T, W>(EnumSet::default())), "default");
    ensures!(!EnumSet::<T>::empty().contains(v), "empty contains nothing");
    ensures!(same(&raw::<T, W>(EnumSet::all()), &T::MASK), "all");
    #[allow(deprecated)]
    {
        ensures!(same(&raw::<T, W>(EnumSet::ALL), &T::MASK) && is_zero(&raw::<T, W>(EnumSet::EMPTY)), "ALL and EMPTY");
    }
    ensures!(EnumSet::<T>::all().contains(v), "all contains everything");
}
/// A history of updates against a model set.
pub fn history<T: Fam<W>, const W: usize>() {
    let mut s = EnumSet::<T>::empty();
    let mut m = [0u64; W];
    for _ in 0..3 {
        let (v, d) = any_variant::<T, W>();
        if bool_() {
            ensures!(s.insert(v) == !has(&m, d), "insert result in a history");
            m = or(&m, &single(d));
        } else {
            ensures!(s.remove(v) == has(&m, d), "remove result in a history");
            m = sub(&m, &single(d));
        }
    }
    let (v, d) = any_variant::<T, W>();
    reach!(has(&m, d));
    ensures!(s.contains(v) == has(&m, d), "membership after a history");
    ensures!(same(&raw(s), &m), "contents after a history");
}
on!(core, insert_remove, total, 40);
on!(core, bulk, total, 40);
on!(core, constructors, total, 40);
on!(sample, history, total, 40);
/// The enum without variants.
pub fn none<T: Fam<W>, const W: usize>() {
    let s = EnumSet::<T>::all();
    reach!(true);
    ensures!(s.is_empty() && s == EnumSet::empty() && s == !s && s.len() == 0, "no variants: all is empty");
    ensures!(s.iter().next().is_none(), "no variants: iteration is empty");
}
contract!(none, total, 8; Empty:1;;);
pub const ALL: &[&[Entry]] = &[insert_remove::REG, bulk::REG, constructors::REG, history::REG, none::REG];

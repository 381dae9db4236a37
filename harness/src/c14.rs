//! C14: serialized form and round trip.
use crate::{fam::*, nd::*, wire::*, Entry};
use enumset::EnumSet;
use serde::{Deserialize, Serialize};

fn ser<T: Wired<W>, const W: usize>(a: EnumSet<T>) -> Rec {
    match a.serialize(Ser) {
        Ok(r) => r,
        Err(_) => { ensures!(false, "serialization succeeds"); rec(0) }
    }
}
fn de<T: Wired<W>, const W: usize>(r: &Rec, hint: bool) -> Option<EnumSet<T>> {
    EnumSet::<T>::deserialize(De { rec: r, hint }).ok()
}
pub fn form<T: Wired<W>, const W: usize>() {
    let (a, w) = any_set::<T, W>();
    let r = ser::<T, W>(a);
    reach!(!is_zero(&w));
    match T::FORM {
        Form::Int(bits) => {
            ensures!(r.kind == bits, "one integer of the documented type");
            ensures!(!above(&w, bits) && r.int == low128(&w), "equal to the set's integer value");
        }
        Form::Array => {
            ensures!(r.kind == SEQ, "array form is a sequence");
            ensures!(r.n == 0 || r.elem_kind == 64, "of u64 words");
            let mut i = 0;
            while i < CAP {
                let want = if i < W { w[i] } else { 0 };
                ensures!(if i < r.n { r.key[i] == want } else { want == 0 }, "holding the array representation");
                i += 1;
            }
            ensures!(r.declared.is_none() || r.declared == Some(r.n), "declared length is the real one");
        }
        Form::List | Form::Map => {
            let map = T::FORM == Form::Map;
            ensures!(r.kind == if map { MAP } else { SEQ }, "list is a sequence, map is a map");
            let mut m = w;
            let mut i = 0;
            while i < T::D.len() {
                match lowest(&m) {
                    Some(b) => {
                        ensures!(i < r.n && r.key[i] == b as u64, "the members in increasing bit order");
                        ensures!(!map || r.val[i], "a map entry of true per member");
                        m = sub(&m, &single(b));
                    }
                    None => ensures!(i >= r.n, "no entry for a non-member"),
                }
                i += 1;
            }
            ensures!(r.n == card(&w), "one entry per member");
            ensures!(r.declared.is_none() || r.declared == Some(r.n), "declared length is the real one");
        }
    }
}
pub fn round_trip<T: Wired<W>, const W: usize>() {
    let (a, w) = any_set::<T, W>();
    let r = ser::<T, W>(a);
    reach!(!is_zero(&w));
    match de::<T, W>(&r, bool_()) {
        Some(b) => ensures!(same(&raw(b), &w), "deserializing what was serialized gives back the same set"),
        None => ensures!(false, "deserializing what was serialized succeeds"),
    }
}
/// Any list or map of variants: order and repeats do not matter, false entries do not add.
pub fn entries<T: Wired<W>, const W: usize>() {
    let map = T::FORM == Form::Map;
    let mut r = rec(if map { MAP } else { SEQ });
    r.elem_kind = 32;
    r.n = below(4);
    let mut u = [0u64; W];
    let mut i = 0;
    while i < 3 {
        let (_, d) = any_variant::<T, W>();
        let on = bool_();
        r.key[i] = d as u64;
        r.val[i] = on;
        if i < r.n && (on || !map) { u = or(&u, &single(d)); }
        i += 1;
    }
    reach!(r.n == 3);
    match de::<T, W>(&r, bool_()) {
        Some(s) => ensures!(same(&raw(s), &u), "a list or map reads back as its (true) entries"),
        None => ensures!(false, "a list or map of variants is accepted"),
    }
}
/// Words in the array form are read back word for word, at any length the data has.
pub fn words<T: Wired<W>, const W: usize>() {
    let (_, w) = any_set::<T, W>();
    let mut r = rec(SEQ);
    r.elem_kind = 64;
    r.n = below(if W < CAP { W + 1 } else { CAP });
    let mut want = [0u64; W];
    let mut i = 0;
    while i < r.n { r.key[i] = w[i]; want[i] = w[i]; i += 1; }
    reach!(r.n == W);
    let hint = bool_();
    case(r.n, W, |n| {
        r.n = n;
        match de::<T, W>(&r, hint) {
            Some(s) => ensures!(same(&raw(s), &want), "array data reads back word for word"),
            None => ensures!(false, "array data with declared bits is accepted"),
        }
    });
}
/// Long lists and maps, natively.
pub fn entries_long<T: Wired<W>, const W: usize>() {
    let map = T::FORM == Form::Map;
    if !map && T::FORM != Form::List { return; }
    let mut r = rec(if map { MAP } else { SEQ });
    r.elem_kind = 32;
    r.n = below(CAP + 1);
    let mut u = [0u64; W];
    let few = bool_();
    for i in 0..r.n {
        let (_, d) = any_variant::<T, W>();
        let on = if few { i % 50 == 3 } else { bool_() };
        r.key[i] = d as u64;
        r.val[i] = on;
        if on || !map { u = or(&u, &single(d)); }
    }
    match de::<T, W>(&r, bool_()) {
        Some(s) => ensures!(same(&raw(s), &u), "a long list or map reads back as its (true) entries"),
        None => ensures!(false, "a long list or map of variants is accepted"),
    }
}
pub mod ell { use super::entries_long; on_wired!(native, entries_long); }
pub mod f { use super::form; on_wired!(all, form); }
// For the sequence and map forms, `form` and `words`/`entries` compose to the round trip: what is
// recorded is exactly the words (entries) of the set, and any such words (entries) read back as the
// set. The composed statement is proved directly for integers and searched for all forms.
pub mod r { use super::round_trip; on_wired!(int, round_trip); }
pub mod rn { use super::round_trip; on_wired!(native, round_trip); }
pub mod el { use super::entries; on_wired!(list, entries); }
pub mod em { use super::entries; on_wired!(map, entries); }
pub mod w { use super::words; on_wired!(array, words); }
pub const ALL: &[&[Entry]] = &[f::wired::REG, r::wired::REG, rn::wired::REG, el::wired::REG, em::wired::REG, w::wired::REG, ell::wired::REG];

//! C15: unknown bits in serialized data.
use crate::{fam::*, nd::*, wire::*, Entry};
use enumset::EnumSet;
use serde::Deserialize;

fn policy<T: Wired<W>, const W: usize>(r: &Rec, known: [u64; W], unknown: bool) {
    match EnumSet::<T>::deserialize(De { rec: r, hint: bool_() }) {
        Ok(s) => {
            ensures!(!(T::DENY && unknown), "serialize_deny_unknown rejects unknown bits");
            ensures!(same(&raw(s), &known), "the result is exactly the declared variants whose bits are set");
        }
        Err(_) => {
            ensures!(T::DENY, "without serialize_deny_unknown the data is accepted");
            ensures!(unknown, "serialize_deny_unknown accepts data with declared bits only");
        }
    }
}
pub fn integers<T: Wired<W>, const W: usize>() {
    let bits = match T::FORM { Form::Int(b) => b, _ => 8 };
    let v: u128 = if bool_() { any() } else { let (_, w) = any_set::<T, W>(); low128(&w) ^ (if bool_() { 1u128 << below(128) } else { 0 }) };
    let v = if bits == 128 { v } else { v & ((1u128 << bits) - 1) };
    let mut r = rec(bits);
    r.int = v;
    let w = words_trunc::<W>(v);
    let known = and(&w, &T::MASK);
    let lost = v ^ low128(&known);
    reach!(lost == 0 && v != 0);
    policy::<T, W>(&r, known, lost != 0);
}
pub fn arrays<T: Wired<W>, const W: usize>() {
    let mut r = rec(SEQ);
    r.elem_kind = 64;
    let max = if W + 2 < CAP { W + 2 } else { CAP };
    r.n = below(max + 1);
    let mut known = [0u64; W];
    let mut unknown = false;
    let (junk, at) = (bool_(), below(max));
    let mut i = 0;
    while i < max {
        let x: u64 = any();
        let mask = if i < W { T::MASK[i] } else { 0 };
        let x = if junk && i == at { x } else { x & mask };
        if i < r.n {
            r.key[i] = x;
            unknown |= x & !mask != 0;
            if i < W { known[i] = x & mask; }
        }
        i += 1;
    }
    reach!(r.n > W && !unknown);
    case(r.n, max, |n| { r.n = n; policy::<T, W>(&r, known, unknown) });
}
/// The same with every word arbitrary.
pub fn arrays_any<T: Wired<W>, const W: usize>() {
    let mut r = rec(SEQ);
    r.elem_kind = 64;
    let max = if W + 2 < CAP { W + 2 } else { CAP };
    r.n = below(max + 1);
    let mut known = [0u64; W];
    let mut unknown = false;
    let mut i = 0;
    while i < max {
        let x: u64 = any();
        let mask = if i < W { T::MASK[i] } else { 0 };
        if i < r.n {
            r.key[i] = x;
            unknown |= x & !mask != 0;
            if i < W { known[i] = x & mask; }
        }
        i += 1;
    }
    reach!(unknown);
    case(r.n, max, |n| { r.n = n; policy::<T, W>(&r, known, unknown) });
}
/// Data of any length up to `CAP`, natively: valid words and at most two stray bits anywhere.
pub fn arrays_long<T: Wired<W>, const W: usize>() {
    if T::FORM != Form::Array { return; }
    let mut r = rec(SEQ);
    r.elem_kind = 64;
    r.n = below(CAP + 1);
    let (_, w) = any_set::<T, W>();
    let n = if r.n < W { r.n } else { W };
    r.key[..n].copy_from_slice(&w[..n]);
    if r.n > 0 {
        for _ in 0..below(3) { r.key[below(r.n)] |= 1u64 << below(64); }
    }
    let (mut known, mut unknown) = ([0u64; W], false);
    for i in 0..r.n {
        let mask = if i < W { T::MASK[i] } else { 0 };
        if i < W { known[i] = r.key[i] & mask; }
        unknown |= r.key[i] & !mask != 0;
    }
    policy::<T, W>(&r, known, unknown);
}
pub mod al { use super::arrays_long; on_wired!(native, arrays_long); }
pub mod i { use super::integers; on_wired!(int, integers); }
pub mod a { use super::arrays; on_wired!(array, arrays); }
pub mod aa { use super::arrays_any; on_wired!(array, arrays_any); }
pub const ALL: &[&[Entry]] = &[i::wired::REG, a::wired::REG, aa::wired::REG, al::wired::REG];

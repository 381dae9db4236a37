//! C05: iteration.
use crate::{fam::*, nd::*, Entry};
use crate::corefn::zeros;
use enumset::EnumSet;

fn bit_of<T: Fam<W>, const W: usize>(v: T) -> u32 {
    let w = raw::<T, W>(EnumSet::only(v));
    match lowest(&w) { Some(b) => b, None => 0 }
}
/// One step taken from each end of a fresh iterator.
pub fn ends<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    reach!(card(&w) == 2 || T::D.len() < 2);
    let mut it = s.iter();
    ensures!(it.len() == card(&w) && it.size_hint() == (card(&w), Some(card(&w))), "fresh size_hint is exact");
    let f = it.next().map(bit_of::<T, W>);
    ensures!(f == lowest(&w), "next yields the lowest member");
    let m = match f { Some(b) => sub(&w, &single(b)), None => w };
    ensures!(it.len() == card(&m), "size_hint after next");
    ensures!(same(&raw(s), &w), "iterating leaves the set alone");
    let mut it = s.iter();
    let b = it.next_back().map(bit_of::<T, W>);
    ensures!(b == highest(&w), "next_back yields the highest member");
    let m = match b { Some(b) => sub(&w, &single(b)), None => w };
    ensures!(it.size_hint() == (card(&m), Some(card(&m))), "size_hint after next_back");
}
fn walk<T: Fam<W>, const W: usize>(steps: usize, dir: impl Fn(usize) -> bool) {
    let (s, w) = any_set::<T, W>();
    reach!(is_zero(&sub(&T::MASK, &w)));
    let mut it = s.iter();
    let mut m = w;
    for k in 0..steps {
        ensures!(it.size_hint() == (card(&m), Some(card(&m))), "size_hint counts the members still to come");
        let (got, want) = if dir(k) { (it.next(), lowest(&m)) } else { (it.next_back(), highest(&m)) };
        ensures!(got.map(bit_of::<T, W>) == want, "each step yields the next member from its end");
        if let Some(b) = want { m = sub(&m, &single(b)); }
    }
    ensures!(it.len() == card(&m), "len counts the members still to come");
}
pub fn forward<T: Fam<W>, const W: usize>() { walk::<T, W>(T::D.len() + 2, |_| true) }
pub fn backward<T: Fam<W>, const W: usize>() { walk::<T, W>(T::D.len() + 2, |_| false) }
pub fn interleaved<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    let mut it = s.iter();
    let mut m = w;
    let n = if T::D.len() + 1 < 24 { T::D.len() + 1 } else { 24 };
    for _ in 0..n {
        let front = bool_();
        let (got, want) = if front { (it.next(), lowest(&m)) } else { (it.next_back(), highest(&m)) };
        ensures!(got.map(bit_of::<T, W>) == want, "each interleaved step yields the next member from its end");
        if let Some(b) = want { m = sub(&m, &single(b)); }
        ensures!(it.size_hint() == (card(&m), Some(card(&m))), "size_hint counts the members still to come (interleaved)");
    }
    reach!(is_zero(&m));
}
/// Every storage, every variant: a long random interleaving run to exhaustion and past it.
pub fn full<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    let mut it = s.into_iter();
    let mut m = w;
    let bias = below(4);
    for k in 0..T::D.len() + 3 {
        let front = match bias { 0 => true, 1 => false, 2 => k % 2 == 0, _ => bool_() };
        let (got, want) = if front { (it.next(), lowest(&m)) } else { (it.next_back(), highest(&m)) };
        ensures!(got.map(bit_of::<T, W>) == want, "each step yields the next member from its end (full)");
        if let Some(b) = want { m = sub(&m, &single(b)); }
        ensures!(it.size_hint() == (card(&m), Some(card(&m))) && it.len() == card(&m), "size_hint counts the members still to come (full)");
        if k % 5 == 0 {
            let mut c = it.clone();
            ensures!(c.next().map(bit_of::<T, W>) == lowest(&m), "clone continues from the same place");
            let _ = c.next_back();
            ensures!(it.len() == card(&m), "advancing a clone leaves the iterator alone");
        }
    }
    ensures!(it.next().is_none() && it.next_back().is_none() && it.next().is_none() && it.len() == 0, "stays exhausted");
    ensures!(same(&raw(s), &w), "iterating leaves the set alone (full)");
}
pub fn clones<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    reach!(card(&w) >= 2 || T::D.len() < 2);
    let it = s.iter();
    let mut c = it.clone();
    let _ = c.next();
    let _ = c.next_back();
    ensures!(it.len() == card(&w), "advancing a clone leaves the iterator alone");
    let mut it = it;
    ensures!(it.next().map(bit_of::<T, W>) == lowest(&w), "the original starts from the first member");
    ensures!(same(&raw(s), &w), "the set is unaffected");
}
/// The provided methods that skip members: `nth` and `nth_back`, from a fresh or a started iterator.
pub fn skipping<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    let mut it = s.iter();
    let mut m = w;
    if bool_() {
        it.next();
        if let Some(b) = lowest(&m) { m = sub(&m, &single(b)); }
    }
    let n = below(4);
    let front = bool_();
    case(n, 3, |n| {
        let mut x = it.clone();
        let mut m = m;
        for _ in 0..n { if let Some(b) = if front { lowest(&m) } else { highest(&m) } { m = sub(&m, &single(b)); } }
        let want = if front { lowest(&m) } else { highest(&m) };
        let got = if front { x.nth(n) } else { x.nth_back(n) };
        ensures!(got.map(bit_of::<T, W>) == want, "nth and nth_back yield the member after the skipped ones");
        if let Some(b) = want { m = sub(&m, &single(b)); }
        ensures!(x.len() == card(&m), "what remains after nth");
        ensures!(x.next().map(bit_of::<T, W>) == lowest(&m), "iteration continues after nth");
    });
    reach!(n == 1 && card(&m) > 1 || T::D.len() < 2);
}
/// The provided methods that consume the iterator.
pub fn folding<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    let mut it = s.iter();
    let mut m = w;
    if bool_() {
        it.next_back();
        if let Some(b) = highest(&m) { m = sub(&m, &single(b)); }
    }
    reach!(card(&m) == 2 || T::D.len() < 2);
    let step = |(mut left, ok): ([u64; W], bool), want: Option<u32>, t: T| {
        let b = bit_of::<T, W>(t);
        if has(&left, b) { left = sub(&left, &single(b)); }
        (left, ok && want == Some(b))
    };
    let (left, ok) = it.clone().fold((m, true), |a, t| { let w = lowest(&a.0); step(a, w, t) });
    ensures!(ok && is_zero(&left), "fold sees every member, in order");
    let (left, ok) = it.clone().rfold((m, true), |a, t| { let w = highest(&a.0); step(a, w, t) });
    ensures!(ok && is_zero(&left), "rfold sees every member, in reverse order");
    ensures!(it.clone().count() == card(&m), "count is the number of members to come");
    ensures!(it.last().map(bit_of::<T, W>) == highest(&m), "last is the highest member");
}
/// Provided and overridable adaptor methods agree with stepping.
pub fn adaptors<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    let members: Vec<u32> = (0..W as u32 * 64).filter(|&b| has(&w, b)).collect();
    let skip = below(4);
    let back = below(3);
    let at = |i: &enumset::EnumSetIter<T>| i.clone();
    let mut it = s.iter();
    let mut m = members.clone();
    for _ in 0..skip { it.next(); if !m.is_empty() { m.remove(0); } }
    for _ in 0..back { it.next_back(); m.pop(); }
    let bits = |v: Vec<T>| -> Vec<u32> { v.into_iter().map(bit_of::<T, W>).collect() };
    ensures!(bits(at(&it).collect()) == m, "collect");
    let mut r = m.clone(); r.reverse();
    ensures!(bits(at(&it).rev().collect()) == r, "rev");
    ensures!(at(&it).count() == m.len(), "count");
    ensures!(at(&it).last().map(bit_of::<T, W>) == m.last().copied(), "last");
    let n = below(6);
    let mut x = at(&it);
    ensures!(x.nth(n).map(bit_of::<T, W>) == m.get(n).copied(), "nth");
    ensures!(bits(x.collect()) == m.get(n + 1..).unwrap_or(&[]).to_vec(), "rest after nth");
    let mut x = at(&it);
    ensures!(x.nth_back(n).map(bit_of::<T, W>) == r.get(n).copied(), "nth_back");
    ensures!(x.count() == m.len().saturating_sub(n + 1), "rest after nth_back");
    let mut v = Vec::new();
    at(&it).for_each(|t| v.push(t));
    ensures!(bits(v) == m, "for_each");
    let mut v = Vec::new();
    at(&it).rfold((), |(), t| v.push(t));
    ensures!(bits(v) == r, "rfold");
    let mut v = Vec::new();
    at(&it).fold((), |(), t| v.push(t));
    ensures!(bits(v) == m, "fold");
    if !m.is_empty() {
        let k = usize_() % m.len();
        let is = |t: &T| bit_of::<T, W>(*t) == m[k];
        let mut x = at(&it);
        ensures!(x.find(is).map(bit_of::<T, W>) == Some(m[k]) && bits(x.collect()) == m[k + 1..], "find and what follows it");
        let mut x = at(&it);
        ensures!(x.rfind(is).map(bit_of::<T, W>) == Some(m[k]) && bits(x.collect()) == m[..k], "rfind and what precedes it");
        let mut x = at(&it);
        ensures!(x.position(|t| is(&t)) == Some(k) && x.len() == m.len() - k - 1, "position");
        ensures!(at(&it).rposition(|t| is(&t)) == Some(k), "rposition");
        let mut x = at(&it);
        ensures!(x.any(|t| is(&t)) && x.next().map(bit_of::<T, W>) == m.get(k + 1).copied(), "any");
        let mut x = at(&it);
        ensures!(!x.all(|t| !is(&t)) && x.next_back().map(bit_of::<T, W>) == if k + 1 < m.len() { m.last().copied() } else { None }, "all");
        ensures!(bits(at(&it).skip(k).collect()) == m[k..] && bits(at(&it).take(k).collect()) == m[..k], "skip and take");
        ensures!(bits(at(&it).rev().skip(k).collect()) == r[k..], "rev and skip");
    }
    ensures!(at(&it).find(|_| false).is_none() && !at(&it).any(|_| false) && at(&it).all(|_| true), "searches that find nothing");
    ensures!(at(&it).max_by_key(|v| bit_of::<T, W>(*v)).map(bit_of::<T, W>) == m.last().copied(), "max");
    let (p, q): (Vec<T>, Vec<T>) = at(&it).partition(|v| bit_of::<T, W>(*v) % 2 == 0);
    ensures!(p.len() + q.len() == m.len() && bits(p).iter().all(|b| b % 2 == 0), "partition");
    ensures!(at(&it).zip(at(&it).rev()).map(|(a, b)| (bit_of::<T, W>(a), bit_of::<T, W>(b))).collect::<Vec<_>>() == m.iter().copied().zip(r.iter().copied()).collect::<Vec<_>>(), "zip with the reverse");
    let mut v = Vec::new();
    for t in s { v.push(t) }
    ensures!(bits(v) == members, "for loop");
    ensures!(at(&it).skip(1).step_by(2).map(bit_of::<T, W>).collect::<Vec<_>>() == m.iter().copied().skip(1).step_by(2).collect::<Vec<_>>(), "skip/step_by");
    ensures!(at(&it).min_by_key(|v| bit_of::<T, W>(*v)).map(bit_of::<T, W>) == m.first().copied(), "min");
}
on!(ends, ends, total, 20);
/// Three steps in any directions from a fresh iterator over several words.
pub fn three<T: Fam<W>, const W: usize>() {
    let (s, w) = any_set::<T, W>();
    let mut it = s.iter();
    let mut m = w;
    for _ in 0..3 {
        let front = bool_();
        let (got, want) = if front { (it.next(), lowest(&m)) } else { (it.next_back(), highest(&m)) };
        ensures!(got.map(bit_of::<T, W>) == want, "each of three steps yields the next member from its end");
        if let Some(b) = want { m = sub(&m, &single(b)); }
        ensures!(it.size_hint() == (card(&m), Some(card(&m))), "size_hint counts the members still to come (three steps)");
    }
    reach!(is_zero(&m) && card(&w) == 2);
}
on!(iter, forward, total, 9);
on!(iter, backward, total, 9);
on!(iter, interleaved, total, 9);
on!(iter, clones, total, 9);
on!(iter, skipping, total, 9);
on!(iter, folding, total, 9);
on!(iterw, three, total, 6);
on!(native, full, total, 1);
on!(native, adaptors, total, 1);
fact!(zeros, 2; u8 u16 u32 u64 u128);
pub const ALL: &[&[Entry]] = &[ends::REG, forward::REG, backward::REG, interleaved::REG, clones::REG, skipping::REG, folding::REG, three::REG, full::REG, adaptors::REG, zeros::REG];

verus! {
/// enumset_derive/src/lib.rs: the serialize/deserialize code written for each serialize_repr, and set.rs's impls.
/// serde's traits are given by the declarations at the top (assumed contracts, serde's documented data model).
pub mod serde {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
use super::ty::*;
use super::set::{EnumSet, repr_has, set_ext, facts, one_is, v_bitor, Into};
use super::setiter::*;
use super::conv::only_declared;
use super::convarr::declared_words;
use super::collect::{any, any_push};
use core::marker::PhantomData;
broadcast use repr_has;

/// A value of serde's data model, as far as it is used here.
pub enum Data {
    Variant(int), Bool(bool), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    /// a sequence of u64
    Words(Seq<u64>),
    /// elements handed over one by one, with the length announced for them
    List(Option<usize>, Seq<Data>), Map(Option<usize>, Seq<(Data, Data)>),
}
pub trait Datum { spec fn data(&self) -> Data; }
impl<T: EnumSetType> Datum for T { open spec fn data(&self) -> Data { Data::Variant(self.disc()) } }
pub trait Serialize: Datum {
    fn serialize<S: Serializer>(&self, ser: S) -> (r: Result<S::Ok, S::Error>)
        ensures ser.gives(self.data(), r), r is Err ==> ser.failing();
}
@for t V in (u8,U8) (u16,U16) (u32,U32) (u64,U64) (u128,U128) (bool,Bool)
impl Datum for %t% { open spec fn data(&self) -> Data { Data::%V%(*self) } }
impl Serialize for %t% {
    #[verifier::external_body] fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
@endfor
impl Datum for &[u64] { open spec fn data(&self) -> Data { Data::Words(self@) } }
impl Serialize for &[u64] {
    #[verifier::external_body] fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type Seq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type Map: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    /// r is what handing over d, and nothing else, results in
    spec fn gives(self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool;
    /// some call on the serializer may report an error
    spec fn failing(self) -> bool;
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::Seq, Self::Error>)
        ensures
            r is Err ==> self.failing(),
            r is Ok ==> r->Ok_0.written() == Seq::<Data>::empty() && r->Ok_0.announced() == len && r->Ok_0.failing() == self.failing()
                && forall|d: Data, x: Result<Self::Ok, Self::Error>| #[trigger] r->Ok_0.gives(d, x) == self.gives(d, x);
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::Map, Self::Error>)
        ensures
            r is Err ==> self.failing(),
            r is Ok ==> r->Ok_0.written() == Seq::<(Data, Data)>::empty() && r->Ok_0.announced() == len && r->Ok_0.failing() == self.failing()
                && forall|d: Data, x: Result<Self::Ok, Self::Error>| #[trigger] r->Ok_0.gives(d, x) == self.gives(d, x);
}
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn written(&self) -> Seq<Data>;
    spec fn announced(&self) -> Option<usize>;
    spec fn failing(&self) -> bool;
    spec fn gives(&self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_element<X: Datum>(&mut self, x: &X) -> (r: Result<(), Self::Error>)
        ensures
            final(self).announced() == old(self).announced(), final(self).failing() == old(self).failing(),
            forall|d: Data, x: Result<Self::Ok, Self::Error>| #[trigger] final(self).gives(d, x) == old(self).gives(d, x),
            r is Ok ==> final(self).written() == old(self).written().push(x.data()),
            r is Err ==> old(self).failing();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures self.gives(Data::List(self.announced(), self.written()), r), r is Err ==> self.failing();
}
pub trait SerializeMap: Sized {
    type Ok;
    type Error;
    spec fn written(&self) -> Seq<(Data, Data)>;
    spec fn announced(&self) -> Option<usize>;
    spec fn failing(&self) -> bool;
    spec fn gives(&self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_entry<K: Datum, V: Datum>(&mut self, k: &K, v: &V) -> (r: Result<(), Self::Error>)
        ensures
            final(self).announced() == old(self).announced(), final(self).failing() == old(self).failing(),
            forall|d: Data, x: Result<Self::Ok, Self::Error>| #[trigger] final(self).gives(d, x) == old(self).gives(d, x),
            r is Ok ==> final(self).written() == old(self).written().push((k.data(), v.data())),
            r is Err ==> old(self).failing();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures self.gives(Data::Map(self.announced(), self.written()), r), r is Err ==> self.failing();
}
/// serde::de. A deserializer's content, read as an X: what deserializing an X from it yields, None for an error.
pub trait Error: Sized { fn custom(msg: &str) -> Self; }
pub trait Deserialize: Sized {
    fn deserialize<D: Deserializer>(de: D) -> (r: Result<Self, D::Error>)
        ensures match de.content::<Self>() { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err };
}
@for t in (u8) (u16) (u32) (u64) (u128) (bool)
impl Deserialize for %t% { #[verifier::external_body] fn deserialize<D: Deserializer>(de: D) -> Result<Self, D::Error> { unimplemented!() } }
@endfor
pub trait Deserializer: Sized {
    type Error: Error;
    spec fn content<X>(self) -> Option<X>;
    /// Hands the visitor the elements the input holds.
    fn deserialize_seq<V: VisitSeq>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        requires v.usable(),
        ensures
            r is Ok ==> self.content::<Seq<V::Elem>>() is Some && V::builds(self.content::<Seq<V::Elem>>()->0, r->Ok_0),
            self.content::<Seq<V::Elem>>() is Some && V::accepts(self.content::<Seq<V::Elem>>()->0) ==> r is Ok;
    fn deserialize_map<V: VisitMap>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures
            r is Ok ==> self.content::<Seq<(V::Key, V::Val)>>() is Some && V::builds(self.content::<Seq<(V::Key, V::Val)>>()->0, r->Ok_0),
            self.content::<Seq<(V::Key, V::Val)>>() is Some && V::accepts(self.content::<Seq<(V::Key, V::Val)>>()->0) ==> r is Ok;
}
/// A sequence being read: the elements still to come, and whether reading may report an error.
pub trait SeqAccess: Sized {
    type Error: Error;
    spec fn rest<X>(&self) -> Seq<X>;
    spec fn failing(&self) -> bool;
    fn next_element<X>(&mut self) -> (r: Result<Option<X>, Self::Error>)
        ensures
            final(self).failing() == old(self).failing(),
            match r {
                Ok(Some(x)) => old(self).rest::<X>().len() > 0 && x == old(self).rest::<X>()[0] && final(self).rest::<X>() == old(self).rest::<X>().drop_first(),
                Ok(None) => old(self).rest::<X>().len() == 0 && final(self).rest::<X>() == old(self).rest::<X>(),
                Err(_) => old(self).failing(),
            };
}
pub trait MapAccess: Sized {
    type Error: Error;
    spec fn rest<K, V>(&self) -> Seq<(K, V)>;
    spec fn failing(&self) -> bool;
    fn next_entry<K, V>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
        ensures
            final(self).failing() == old(self).failing(),
            match r {
                Ok(Some(x)) => old(self).rest::<K, V>().len() > 0 && x == old(self).rest::<K, V>()[0] && final(self).rest::<K, V>() == old(self).rest::<K, V>().drop_first(),
                Ok(None) => old(self).rest::<K, V>().len() == 0 && final(self).rest::<K, V>() == old(self).rest::<K, V>(),
                Err(_) => old(self).failing(),
            };
}
/// A Visitor, by the one method of it that the deserializer calls: what the elements must be, and what comes of them.
pub trait VisitSeq: Sized {
    type Value;
    type Elem;
    spec fn usable(self) -> bool;
    spec fn accepts(s: Seq<Self::Elem>) -> bool;
    spec fn builds(s: Seq<Self::Elem>, v: Self::Value) -> bool;
    fn visit_seq<__A: SeqAccess>(self, seq: __A) -> (r: Result<Self::Value, __A::Error>)
        requires self.usable(),
        ensures
            r is Ok ==> Self::builds(seq.rest(), r->Ok_0),
            !seq.failing() && Self::accepts(seq.rest()) ==> r is Ok;
}
pub trait VisitMap: Sized {
    type Value;
    type Key;
    type Val;
    spec fn accepts(s: Seq<(Self::Key, Self::Val)>) -> bool;
    spec fn builds(s: Seq<(Self::Key, Self::Val)>, v: Self::Value) -> bool;
    fn visit_map<__A: MapAccess>(self, map: __A) -> (r: Result<Self::Value, __A::Error>)
        ensures
            r is Ok ==> Self::builds(map.rest(), r->Ok_0),
            !map.failing() && Self::accepts(map.rest()) ==> r is Ok;
}
/// What the bits of v say about a set.
pub open spec fn same_members<T: EnumSetType, R: Bits>(s: EnumSet<T>, v: R) -> bool { forall|i: int| #![trigger s.has(i)] #![trigger v.has(i)] s.has(i) == v.has(i) }
pub open spec fn declared_part<T: EnumSetType, R: Bits>(s: EnumSet<T>, v: R) -> bool { forall|i: int| #[trigger] s.has(i) == (v.has(i) && T::declared(i)) }
pub open spec fn declared_words_part<T: EnumSetType>(s: EnumSet<T>, v: Seq<u64>) -> bool { forall|i: int| #[trigger] s.has(i) == (wbit(v, i) && T::declared(i)) }
// ---- serialize_repr = "uN"
@for t V w in (u8,U8,8) (u16,U16,16) (u32,U32,32) (u64,U64,64) (u128,U128,128)
pub mod int_%t% {
use super::*;
broadcast use repr_has;
proof fn unknown(mask: %t%)
    ensures forall|v: %t%| (#[trigger] (v & !mask) == 0) == (forall|i: int| #[trigger] v.has(i) ==> mask.has(i)),
{
    assert forall|v: %t%| (#[trigger] (v & !mask) == 0) == (forall|i: int| #[trigger] v.has(i) ==> mask.has(i)) by {
        ops_%t%(v, mask); iszero_%t%(v & !mask);
        assert(forall|i: int| #[trigger] (v & !mask).has(i) == (v.has(i) && !mask.has(i)));
        if v & !mask == 0 { assert forall|i: int| #[trigger] v.has(i) implies mask.has(i) by { assert(!(v & !mask).has(i)); } }
    }
}
pub struct Ops<T>(pub PhantomData<T>);
impl<T: EnumSetType> Ops<T> {
@auto proof { T::laws(); T::Repr::laws(); facts::<T>(); }
@props C14
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::%V% | * | serialize | pub | path=serde::%t%::
@interp to_fn @ SerdeRepr::%V%
@rewrite maybe #repr ==> T::Repr
@spec
requires forall|i: int| #[trigger] T::declared(i) ==> i < %w%, set.wf(),
ensures
    exists|v: %t%| same_members(set, v) && #[trigger] ser.gives(Data::%V%(v), r),
    r is Err ==> ser.failing(),
@end
@for D k policy in (deny,0,only_declared) (allow,1,-)
@props C14 C15
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::%V% | * | deserialize | pub | path=serde::%t%::%D%_ | as=deserialize_%D%
@interp from_fn @ SerdeRepr::%V%
@interp serialize_repr @ SerdeRepr::%V%
@interp check_unknown %k% | if info.serialize_deny_unknown {
@rewrite maybe use Error; ==>
@rewrite maybe #repr ==> T::Repr
@rewrite maybe #all_variants ==> T::ALL_BITS()
@rewrite maybe !#mask ==> !mask
@rewrite sig de: __D ==> de: __D, mask: %t%
@rewrite maybe sig < 'de , __D : Deserializer < 'de >> ==> <__D: Deserializer>
@spec
requires forall|i: int| #[trigger] mask.has(i) == T::declared(i), 
ensures
    match de.content::<%t%>() {
        None => r is Err,
        Some(v) => (r is Ok <==> (%k% == 1 || only_declared::<T, %t%>(v))) && (r is Ok ==> declared_part(r->Ok_0, v)),
    },
@pre
proof { unknown(mask); }
@end
@endfor
}
}
@endfor
// ---- serialize_repr = "list"
pub open spec fn list_data<T: EnumSetType>(v: Seq<T>) -> Seq<Data> { v.map_values(|t: T| Data::Variant(t.disc())) }
pub proof fn list_push<T: EnumSetType>(v: Seq<T>, x: T)
    ensures list_data(v.push(x)) == list_data(v).push(Data::Variant(x.disc())),
{ assert(list_data(v.push(x)) =~= list_data(v).push(Data::Variant(x.disc()))); }
pub open spec fn map_data<T: EnumSetType>(v: Seq<T>) -> Seq<(Data, Data)> { v.map_values(|t: T| (Data::Variant(t.disc()), Data::Bool(true))) }
pub proof fn map_push<T: EnumSetType>(v: Seq<T>, x: T)
    ensures map_data(v.push(x)) == map_data(v).push((Data::Variant(x.disc()), Data::Bool(true))),
{ assert(map_data(v.push(x)) =~= map_data(v).push((Data::Variant(x.disc()), Data::Bool(true)))); }
@for m V seq data push in (list,List,seq,list_data,list_push) (map,Map,map,map_data,map_push)
pub mod ser_%m% {
use super::*;
broadcast use repr_has;
pub struct Ops<T>(pub PhantomData<T>);
impl<T: EnumSetType> Ops<T> {
@auto proof { T::laws(); T::Repr::laws(); facts::<T>(); }
@props C14
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::%V% | * | serialize | pub | path=serde::%m%::
@rewrite maybe use Serialize%V%; ==>
@rewrite maybe use SerializeSeq; ==>
@rewrite for bit in set { ==> let mut it_ = set.into_iter(); let ghost mut done: Seq<T> = Seq::empty(); let ghost w = T::Repr::width() as int; proof { card_view(set, it_, w); assert(%seq%.written() =~= %data%(done)); } loop invariant split(set, done, it_), done.len() + card(it_, w) == card(set, w), w == T::Repr::width(), %seq%.written() == %data%(done), %seq%.announced() == Some(card(set, w) as usize), %seq%.failing() == ser.failing(), forall|d: Data, x: Result<__S::Ok, __S::Error>| #[trigger] %seq%.gives(d, x) == ser.gives(d, x), decreases card(it_, w) { let ghost a_ = it_; let bit = match it_.next() { None => { proof { split_next(set, done, a_, it_, None); card_zero(a_, w); card_zero(it_, w); a_.only_members(); } break; } Some(v) => v }; proof { T::laws(); a_.only_members(); split_next(set, done, a_, it_, Some(bit)); card_step(a_, it_, bit.disc(), w); %push%(done, bit); done = done.push(bit); }
@spec
requires set.wf(),
ensures
    r is Ok ==> exists|v: Seq<T>| listing(set, v) && v.len() <= u32::MAX && #[trigger] ser.gives(Data::%V%(Some(v.len() as usize), %data%(v)), r),
    r is Err ==> ser.failing(),
@before %seq%.end()
proof { card_bound(set, w); assert(done.len() == card(set, w)); }
@end
}
}
@endfor
pub mod de_list {
use super::*;
broadcast use repr_has;
pub struct __Visitor<T>(pub PhantomData<T>);
impl<T: EnumSetType> VisitSeq for __Visitor<T> {
    type Value = EnumSet<T>;
    type Elem = T;
    open spec fn usable(self) -> bool { true }
    open spec fn accepts(s: Seq<T>) -> bool { true }
    open spec fn builds(s: Seq<T>, v: EnumSet<T>) -> bool { forall|i: int| #[trigger] v.has(i) == any::<EnumSet<T>, T>(s, i) }
@auto proof { T::laws(); T::Repr::laws(); facts::<T>(); }
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::List | * | visit_seq | path=serde::list::
@rewrite maybe sig SeqAccess < 'de > ==> SeqAccess
@rewrite while let Some(val) = seq.next_element::<T>()? { ==> let ghost mut done: Seq<T> = Seq::empty(); loop invariant done + seq_.rest::<T>() =~= seq.rest::<T>(), seq_.failing() == seq.failing(), forall|i: int| #[trigger] accum.has(i) == any::<EnumSet<T>, T>(done, i), decreases seq_.rest::<T>().len() { let ghost rest_ = seq_.rest::<T>(); let val = match seq_.next_element::<T>()? { Some(val) => val, None => { proof { assert(done =~= seq.rest::<T>()); } break; } }; proof { assert(rest_ =~= seq![val] + seq_.rest::<T>()); one_is(val); any_push::<EnumSet<T>, T>(done, val); done = done.push(val); }
@end
}
pub struct Ops<T>(pub PhantomData<T>);
impl<T: EnumSetType> Ops<T> {
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::List | * | deserialize | pub | path=serde::list:: | noitems
@rewrite maybe sig < 'de , __D : Deserializer < 'de >> ==> <__D: Deserializer>
@rewrite maybe __Visitor ==> __Visitor::<T>(PhantomData)
@spec
ensures match de.content::<Seq<T>>() { None => r is Err, Some(s) => r is Ok && forall|i: int| #[trigger] r->Ok_0.has(i) == any::<EnumSet<T>, T>(s, i) },
@end
}
}
pub mod de_map {
use super::*;
broadcast use repr_has;
/// Some entry says true for bit i.
pub open spec fn any_true<T: EnumSetType>(s: Seq<(T, bool)>, i: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.disc() == i && s[k].1 }
pub proof fn true_push<T: EnumSetType>(s: Seq<(T, bool)>, x: (T, bool))
    ensures forall|i: int| #[trigger] any_true(s.push(x), i) == (any_true(s, i) || x.0.disc() == i && x.1),
{
    assert forall|i: int| any_true(s.push(x), i) == (any_true(s, i) || x.0.disc() == i && x.1) by {
        let w = s.push(x);
        if any_true(s, i) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.disc() == i && s[k].1; assert(w[k].1); }
        if x.0.disc() == i && x.1 { assert(w[s.len() as int].1); }
        if any_true(w, i) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).0.disc() == i && w[k].1; if k < s.len() { assert(s[k].1); } }
    }
}
pub struct __Visitor<T>(pub PhantomData<T>);
impl<T: EnumSetType> VisitMap for __Visitor<T> {
    type Value = EnumSet<T>;
    type Key = T;
    type Val = bool;
    open spec fn accepts(s: Seq<(T, bool)>) -> bool { true }
    open spec fn builds(s: Seq<(T, bool)>, v: EnumSet<T>) -> bool { forall|i: int| #[trigger] v.has(i) == any_true(s, i) }
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::Map | * | visit_map | path=serde::map::
@rewrite maybe sig MapAccess < 'de > ==> MapAccess
@rewrite while let Some((val, is_present)) = map.next_entry::<T, bool>()? { ==> let ghost mut done: Seq<(T, bool)> = Seq::empty(); loop invariant done + map_.rest::<T, bool>() =~= map.rest::<T, bool>(), map_.failing() == map.failing(), forall|i: int| #[trigger] accum.has(i) == any_true(done, i), decreases map_.rest::<T, bool>().len() { let ghost rest_ = map_.rest::<T, bool>(); let (val, is_present) = match map_.next_entry::<T, bool>()? { Some(val) => val, None => { proof { assert(done =~= map.rest::<T, bool>()); } break; } }; proof { assert(rest_ =~= seq![(val, is_present)] + map_.rest::<T, bool>()); one_is(val); true_push::<T>(done, (val, is_present)); done = done.push((val, is_present)); }
@end
}
pub struct Ops<T>(pub PhantomData<T>);
impl<T: EnumSetType> Ops<T> {
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::Map | * | deserialize | pub | path=serde::map:: | noitems
@rewrite maybe sig < 'de , __D : Deserializer < 'de >> ==> <__D: Deserializer>
@rewrite maybe __Visitor ==> __Visitor::<T>(PhantomData)
@spec
ensures match de.content::<Seq<(T, bool)>>() { None => r is Err, Some(s) => r is Ok && forall|i: int| #[trigger] r->Ok_0.has(i) == any_true(s, i) },
@end
}
}
// ---- serialize_repr = "array"
/// The words of the set, with some of the zero words at the end left out.
pub open spec fn words_of<T: EnumSetType>(s: EnumSet<T>, w: Seq<u64>) -> bool {
    w.len() <= T::Repr::words() && forall|i: int| #[trigger] wbit(w, i) == s.has(i)
}
pub fn prefix<const N: usize>(a: &[u64; N], end: usize) -> (r: &[u64])
    requires end <= N,
    ensures r@ == a@.subrange(0, end as int),
{ slice_subrange(a.as_slice(), 0, end) }
pub mod ser_array {
use super::*;
broadcast use repr_has;
/// Leaving out zero words at the end changes no bit.
pub proof fn trimmed(a: Seq<u64>, end: int)
    requires 0 <= end <= a.len(), forall|k: int| end <= k < a.len() ==> #[trigger] a[k] == 0,
    ensures forall|i: int| #[trigger] wbit(a.subrange(0, end), i) == wbit(a, i),
{
    iszero_u64(0);
    assert forall|i: int| #[trigger] wbit(a.subrange(0, end), i) == wbit(a, i) by {
        if 0 <= i < 64 * a.len() { if i / 64 < end { assert(a.subrange(0, end)[i / 64] == a[i / 64]); } else { assert(a[i / 64] == 0); } }
    }
}
pub struct Ops<T>(pub PhantomData<T>);
impl<T: EnumSetType> Ops<T> {
@props C14
@check enumset_derive/src/lib.rs | let preferred_size = quote! { <<#name as #internal::EnumSetTypePrivate>::Repr as #internal::EnumSetTypeRepr>::PREFERRED_ARRAY_LEN };
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::Array | * | serialize | pub | path=serde::array:: | attr=allow_complex_invariants
@rewrite sig <__S: Serializer> ==> <__S: Serializer, const N: usize>
@rewrite set.as_array::<{ #preferred_size }> ==> set.as_array__total::<N>
@rewrite maybe &array[..end] ==> &prefix(&array, end)
@rewrite for i in #core::iter::Iterator::rev(0..array.len()) { ==> let mut n_: usize = array.len(); while n_ > 0 invariant_except_break n_ <= end, end <= N, forall|k: int| n_ <= k < N ==> #[trigger] array@[k] == 0, ensures end <= N, forall|k: int| end <= k < N ==> #[trigger] array@[k] == 0, decreases n_ { n_ -= 1; let i = n_;
@spec
requires set.wf(), N == T::Repr::words(),
ensures
    exists|w: Seq<u64>| words_of(set, w) && #[trigger] ser.gives(Data::Words(w), r),
    r is Err ==> ser.failing(),
@before Serialize::serialize
proof { trimmed(array@, end as int); assert(words_of(set, array@.subrange(0, end as int))); }
@end
}
}
/// A word beyond the storage has no declared bit.
pub proof fn extra<T: EnumSetType>(all: Seq<u64>, j: int, v: u64)
    requires T::Repr::words() <= j < all.len(), v == all[j],
    ensures v != 0 ==> !declared_words::<T>(all),
{
    T::laws(); T::Repr::laws();
    if v != 0 {
        iszero_u64(v);
        let b = choose|b: int| #[trigger] v.has(b);
        let i = 64 * j + b;
        assert(i / 64 == j && i % 64 == b);
        assert(wbit(all, i));
    }
}
/// The words read into an array of the storage's size, filled up with zeros.
pub proof fn gathered<T: EnumSetType>(all: Seq<u64>, acc: Seq<u64>)
    requires
        acc.len() == T::Repr::words(),
        forall|k: int| 0 <= k < acc.len() ==> #[trigger] acc[k] == if k < all.len() { all[k] } else { 0 },
    ensures
        forall|i: int| #[trigger] wbit(acc, i) == (wbit(all, i) && i < 64 * acc.len()),
        forall|i: int| T::declared(i) ==> #[trigger] wbit(acc, i) == wbit(all, i),
        (forall|k: int| acc.len() <= k < all.len() ==> #[trigger] all[k] == 0) ==> forall|i: int| #[trigger] wbit(acc, i) == wbit(all, i),
{
    T::laws(); T::Repr::laws(); iszero_u64(0);
    assert forall|i: int| #[trigger] wbit(acc, i) == (wbit(all, i) && i < 64 * acc.len()) by {
        if 0 <= i < 64 * acc.len() { assert(acc[i / 64] == if i / 64 < all.len() { all[i / 64] } else { 0 }); }
    }
    if forall|k: int| acc.len() <= k < all.len() ==> #[trigger] all[k] == 0 {
        assert forall|i: int| #[trigger] wbit(acc, i) == wbit(all, i) by {
            if 64 * acc.len() <= i < 64 * all.len() { assert(all[i / 64] == 0); }
        }
    }
}
pub proof fn same_words<T: EnumSetType>(a: Seq<u64>, b: Seq<u64>)
    requires forall|i: int| #![trigger wbit(a, i)] #![trigger wbit(b, i)] wbit(a, i) == wbit(b, i),
    ensures declared_words::<T>(a) == declared_words::<T>(b),
{
    if declared_words::<T>(a) { assert forall|i: int| #[trigger] wbit(b, i) implies T::declared(i) by { assert(wbit(a, i)); } }
    if declared_words::<T>(b) { assert forall|i: int| #[trigger] wbit(a, i) implies T::declared(i) by { assert(wbit(b, i)); } }
}
@for D k in (deny,0) (allow,1)
pub mod de_array_%D% {
use super::*;
broadcast use repr_has;
pub struct __Visitor<T, const N: usize>(pub PhantomData<T>);
impl<T: EnumSetType, const N: usize> VisitSeq for __Visitor<T, N> {
    type Value = EnumSet<T>;
    type Elem = u64;
    open spec fn usable(self) -> bool { N == T::Repr::words() }
    open spec fn accepts(s: Seq<u64>) -> bool { %k% == 1 || declared_words::<T>(s) }
    open spec fn builds(s: Seq<u64>, v: EnumSet<T>) -> bool {
        (%k% == 1 || declared_words::<T>(s)) && declared_words_part(v, s)
    }
@props C14 C15
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::Array | * | visit_seq | path=serde::array::%D%_ | attr=allow_complex_invariants
@interp check_extra %k% | if info.serialize_deny_unknown {
@interp convert_array %k% | if info.serialize_deny_unknown {
@rewrite maybe sig SeqAccess < 'de > ==> SeqAccess
@rewrite [0; #preferred_size] ==> [0u64; N]
@rewrite maybe match EnumSet::<T>::try_from_array(accum) ==> proof { same_words::<T>(accum@, all); } match EnumSet::<T>::try_from_array(accum)
@rewrite while let Some(val) = seq.next_element::<u64>()? { ==> let ghost all = seq.rest::<u64>(); loop invariant 0 < N, i < N, i <= all.len(), seq_.rest::<u64>() =~= all.skip(i as int), seq_.failing() == seq.failing(), forall|k: int| 0 <= k < i ==> #[trigger] accum@[k] == all[k], forall|k: int| i <= k < N ==> #[trigger] accum@[k] == 0, ensures i <= N, i <= all.len(), seq_.rest::<u64>() =~= all.skip(i as int), seq_.failing() == seq.failing(), i == N || i == all.len(), forall|k: int| 0 <= k < i ==> #[trigger] accum@[k] == all[k], forall|k: int| i <= k < N ==> #[trigger] accum@[k] == 0, decreases N - i { let val = match seq_.next_element::<u64>()? { Some(val) => val, None => break };
@rewrite while let Some(_val) = seq.next_element::<u64>()? { ==> let ghost mut j = i as int; loop invariant i <= j <= all.len(), seq_.rest::<u64>() =~= all.skip(j), seq_.failing() == seq.failing(), %k% == 1 || forall|k: int| i <= k < j ==> #[trigger] all[k] == 0, ensures j == all.len(), forall|i: int| T::declared(i) ==> #[trigger] wbit(accum@, i) == wbit(all, i), %k% == 1 || forall|i: int| #![trigger wbit(accum@, i)] #![trigger wbit(all, i)] wbit(accum@, i) == wbit(all, i), decreases all.len() - j { let _val = match seq_.next_element::<u64>()? { Some(val) => val, None => { proof { gathered::<T>(all, accum@); } break; } }; proof { extra::<T>(all, j, _val); j = j + 1; }
@end
}
pub struct Ops<T, const N: usize>(pub PhantomData<T>);
impl<T: EnumSetType, const N: usize> Ops<T, N> {
@fn enumset_derive/src/lib.rs#arm:serde_ops:SerdeRepr::Array | * | deserialize | pub | path=serde::array::%D%_ | noitems
@rewrite maybe sig < 'de , __D : Deserializer < 'de >> ==> <__D: Deserializer>
@rewrite maybe __Visitor ==> __Visitor::<T, N>(PhantomData)
@spec
requires N == T::Repr::words(),
ensures
    match de.content::<Seq<u64>>() {
        None => r is Err,
        Some(s) => (r is Ok <==> (%k% == 1 || declared_words::<T>(s))) && (r is Ok ==> declared_words_part(r->Ok_0, s)),
    },
@end
}
}
@endfor
// ---- set.rs: the impls, which leave it to the enum
pub trait SerdeEnum: EnumSetType {
    spec fn ser_gives<S: Serializer>(set: EnumSet<Self>, ser: S, r: Result<S::Ok, S::Error>) -> bool;
    spec fn de_gives<D: Deserializer>(de: D, r: Result<EnumSet<Self>, D::Error>) -> bool;
    fn serialize<S: Serializer>(set: EnumSet<Self>, ser: S) -> (r: Result<S::Ok, S::Error>)
        requires set.wf(),
        ensures Self::ser_gives(set, ser, r);
    fn deserialize<D: Deserializer>(de: D) -> (r: Result<EnumSet<Self>, D::Error>)
        ensures Self::de_gives(de, r);
}
impl<T: SerdeEnum> EnumSet<T> {
@props C14 C15
@fn enumset/src/set.rs | impl<T: EnumSetType> Serialize for EnumSet<T> | serialize | pub | path=EnumSet::
@rewrite maybe sig S: serde::Serializer ==> S: Serializer
@spec
requires self.wf(),
ensures T::ser_gives(*self, serializer, r),
@end
@fn enumset/src/set.rs | impl<'de, T: EnumSetType> Deserialize<'de> for EnumSet<T> | deserialize | pub | path=EnumSet::
@rewrite maybe sig D: serde::Deserializer<'de>> ==> D: Deserializer>
@spec
ensures T::de_gives(deserializer, r),
@end
}
@auto
/// Reading back what was written gives the same set.
pub proof fn round_trips<T: EnumSetType>()
    ensures
@for t in (u8) (u16) (u32) (u64) (u128)
        forall|a: EnumSet<T>, b: EnumSet<T>, v: %t%| a.wf() && #[trigger] same_members(a, v) && #[trigger] declared_part(b, v) ==> a == b && only_declared::<T, %t%>(v),
@endfor
        forall|a: EnumSet<T>, b: EnumSet<T>, v: Seq<u64>| a.wf() && #[trigger] words_of(a, v) && #[trigger] declared_words_part(b, v) ==> a == b && declared_words::<T>(v),
{
@for t in (u8) (u16) (u32) (u64) (u128)
    assert forall|a: EnumSet<T>, b: EnumSet<T>, v: %t%| a.wf() && #[trigger] same_members(a, v) && #[trigger] declared_part(b, v) implies a == b && only_declared::<T, %t%>(v) by { set_ext(a, b); }
@endfor
    assert forall|a: EnumSet<T>, b: EnumSet<T>, v: Seq<u64>| a.wf() && #[trigger] words_of(a, v) && #[trigger] declared_words_part(b, v) implies a == b && declared_words::<T>(v) by { set_ext(a, b); }
}
pub proof fn round_trip_list<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>, v: Seq<T>)
    requires listing(a, v), forall|i: int| #[trigger] b.has(i) == any::<EnumSet<T>, T>(v, i),
    ensures a == b,
{
    assert forall|i: int| #[trigger] a.has(i) == b.has(i) by {
        if any::<EnumSet<T>, T>(v, i) { let k = choose|k: int| 0 <= k < v.len() && super::collect::Member::<EnumSet<T>>::adds(#[trigger] v[k], i); assert(v[k].disc() == i); }
        if a.has(i) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).disc() == i; assert(super::collect::Member::<EnumSet<T>>::adds(v[k], i)); }
    }
    set_ext(a, b);
}
pub proof fn round_trip_map<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>, v: Seq<T>)
    requires listing(a, v), forall|i: int| #[trigger] b.has(i) == de_map::any_true(v.map_values(|t: T| (t, true)), i),
    ensures a == b,
{
    let w = v.map_values(|t: T| (t, true));
    assert forall|i: int| #[trigger] a.has(i) == b.has(i) by {
        if a.has(i) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).disc() == i; assert(w[k].1); }
        if de_map::any_true(w, i) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).0.disc() == i && w[k].1; assert(v[k].disc() == i); }
    }
    set_ext(a, b);
}
}
}

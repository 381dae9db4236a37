verus! {
/// enumset_derive/src/lib.rs: the decisions of the derive macro. What it asks of syn, proc_macro2 and darling is
/// given by the declarations at the top (opaque types, assumed contracts); the functions are the repository's.
pub mod derive {
use super::*;
use super::repr::*;
use super::bits::*;
broadcast use {bit_facts, word_number};

#[verifier::external_body] pub struct Span { x: u8 }
impl Copy for Span {}
impl Clone for Span { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Span { #[verifier::external_body] pub fn call_site() -> Self { unimplemented!() } }
#[verifier::external_body] pub struct Visibility { x: u8 }
impl Visibility { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Ident { x: u8 }
impl Ident {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.name() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn new(s: &str, p: Span) -> (r: Self) ensures r.name() == s@ { unimplemented!() }
}
#[verifier::external_body] pub struct Error { x: u8 }
impl Error { #[verifier::external_body] pub fn new<M: Display>(s: Span, m: M) -> Self { unimplemented!() } }
pub type Result<T> = core::result::Result<T, Error>;
pub trait Display {}
impl Display for &str {}
impl Display for String {}
#[verifier::external_body] pub fn message() -> String { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct HashSet<K> { x: core::marker::PhantomData<K> }
impl<K: View> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.view()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.view()), r == !old(self)@.contains(k.view()) { unimplemented!() }
}
pub struct Variant { pub ident: Ident, pub fields: Fields, pub discriminant: Option<(Other, Expr)> }
impl Variant { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
#[verifier::external_body] pub struct Other { x: u8 }
pub enum Fields { Named(Other), Unnamed(Other), Unit }
pub enum Expr { Lit(ExprLit), Unary(ExprUnary), Group(ExprGroup), Other(Other) }
/// An expression that came through a macro: the same expression in invisible brackets.
pub struct ExprGroup { pub attrs: Other, pub expr: Box<Expr> }
pub open spec fn bare(e: Expr) -> Expr
    decreases e
{
    match e { Expr::Group(g) => bare(*g.expr), _ => e }
}
impl Expr { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
pub struct ExprLit { pub attrs: Other, pub lit: Lit }
pub struct ExprUnary { pub attrs: Other, pub op: UnOp, pub expr: Other }
pub enum UnOp { Deref(Other), Not(Other), Neg(Other) }
pub enum Lit { Int(LitInt), Other(Other) }
#[verifier::external_body] pub struct LitInt { x: u8 }
impl LitInt {
    /// The literal's value.
    pub uninterp spec fn value(&self) -> nat;
    #[verifier::external_body] pub fn base10_parse(&self) -> (r: core::result::Result<u32, Error>)
        ensures match r { Ok(v) => v == self.value(), Err(_) => self.value() > u32::MAX } { unimplemented!() }
}
pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U)
    where F: core::marker::Destruct, U: core::marker::Destruct
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
/// syn::DeriveInput and darling's result, as far as the macro looks at them.
pub struct DeriveInput { pub attrs: Vec<Attribute>, pub vis: Visibility, pub ident: Ident, pub generics: Generics, pub data: Data }
impl DeriveInput { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
pub struct Generics { pub params: Params }
impl Generics { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
#[verifier::external_body] pub struct Params { x: u8 }
impl Params {
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.count() == 0) { unimplemented!() }
}
pub enum Data { Struct(Other), Enum(DataEnum), Union(Other) }
pub struct DataEnum { pub variants: Vec<Variant> }
#[verifier::external_body] pub struct Path { x: u8 }
impl Path {
    pub uninterp spec fn ident(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == (self.ident() == Some(s@)) { unimplemented!() }
}
#[verifier::external_body] pub struct Attribute { x: u8 }
impl Attribute {
    pub uninterp spec fn spath(&self) -> Path;
    /// The arguments, when they are a single identifier.
    pub uninterp spec fn arg(&self) -> Option<Ident>;
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures *r == self.spath() { unimplemented!() }
    #[verifier::external_body] pub fn parse_args(&self) -> (r: Result<Ident>)
        ensures match r { Ok(i) => self.arg() == Some(i), Err(_) => self.arg() is None } { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
}
pub struct SpannedValue<T> { pub value: T }
impl<T> SpannedValue<T> {
    pub fn get(&self) -> (r: &T) ensures *r == self.value { &self.value }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
}
@props C12
@item enumset_derive/src/lib.rs | struct EnumsetAttrs

// Trusted: a string is its characters (vstd has no such axiom).
pub axiom fn str_ext(a: &str, b: &str) requires a@ == b@ ensures a == b;
pub proof fn lits()
    ensures
        forall|a: &str| #[trigger] a@ == "C"@ ==> a == "C",
        forall|a: &str| #[trigger] a@ == "Rust"@ ==> a == "Rust",
        forall|a: &str| #[trigger] a@ == "u8"@ ==> a == "u8",
        forall|a: &str| #[trigger] a@ == "u16"@ ==> a == "u16",
        forall|a: &str| #[trigger] a@ == "u32"@ ==> a == "u32",
        forall|a: &str| #[trigger] a@ == "u64"@ ==> a == "u64",
        forall|a: &str| #[trigger] a@ == "u128"@ ==> a == "u128",
        forall|a: &str| #[trigger] a@ == "usize"@ ==> a == "usize",
        forall|a: &str| #[trigger] a@ == "i8"@ ==> a == "i8",
        forall|a: &str| #[trigger] a@ == "i16"@ ==> a == "i16",
        forall|a: &str| #[trigger] a@ == "i32"@ ==> a == "i32",
        forall|a: &str| #[trigger] a@ == "i64"@ ==> a == "i64",
        forall|a: &str| #[trigger] a@ == "i128"@ ==> a == "i128",
        forall|a: &str| #[trigger] a@ == "isize"@ ==> a == "isize",
{
    assert forall|a: &str| #[trigger] a@ == "C"@ implies a == "C" by { str_ext(a, "C"); }
    assert forall|a: &str| #[trigger] a@ == "Rust"@ implies a == "Rust" by { str_ext(a, "Rust"); }
    assert forall|a: &str| #[trigger] a@ == "u8"@ implies a == "u8" by { str_ext(a, "u8"); }
    assert forall|a: &str| #[trigger] a@ == "u16"@ implies a == "u16" by { str_ext(a, "u16"); }
    assert forall|a: &str| #[trigger] a@ == "u32"@ implies a == "u32" by { str_ext(a, "u32"); }
    assert forall|a: &str| #[trigger] a@ == "u64"@ implies a == "u64" by { str_ext(a, "u64"); }
    assert forall|a: &str| #[trigger] a@ == "u128"@ implies a == "u128" by { str_ext(a, "u128"); }
    assert forall|a: &str| #[trigger] a@ == "usize"@ implies a == "usize" by { str_ext(a, "usize"); }
    assert forall|a: &str| #[trigger] a@ == "i8"@ implies a == "i8" by { str_ext(a, "i8"); }
    assert forall|a: &str| #[trigger] a@ == "i16"@ implies a == "i16" by { str_ext(a, "i16"); }
    assert forall|a: &str| #[trigger] a@ == "i32"@ implies a == "i32" by { str_ext(a, "i32"); }
    assert forall|a: &str| #[trigger] a@ == "i64"@ implies a == "i64" by { str_ext(a, "i64"); }
    assert forall|a: &str| #[trigger] a@ == "i128"@ implies a == "i128" by { str_ext(a, "i128"); }
    assert forall|a: &str| #[trigger] a@ == "isize"@ implies a == "isize" by { str_ext(a, "isize"); }
}
pub proof fn is_lit(a: &str, b: &str) ensures (a == b) == (a@ == b@) { if a@ == b@ { str_ext(a, b); } }

@props C12
@fn enumset_derive/src/lib.rs | - | error | path=derive::
@spec
ensures r is Err,
@end

@props C11 C12
@item enumset_derive/src/lib.rs | enum InternalRepr
@item enumset_derive/src/lib.rs | enum SerdeRepr
@item enumset_derive/src/lib.rs | struct EnumSetValue
@item enumset_derive/src/lib.rs | struct EnumSetInfo
@check enumset_derive/src/lib.rs | #[derive(Copy, Clone)] enum InternalRepr
@check enumset_derive/src/lib.rs | #[derive(Copy, Clone)] enum SerdeRepr
@for R in (InternalRepr) (SerdeRepr)
impl Copy for %R% {}
impl Clone for %R% { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
@endfor
impl InternalRepr {
    /// How many bits the storage has.
    pub open spec fn bits(self) -> nat {
        match self { InternalRepr::U8 => 8, InternalRepr::U16 => 16, InternalRepr::U32 => 32, InternalRepr::U64 => 64, InternalRepr::U128 => 128, InternalRepr::Array(n) => (64 * n) as nat }
    }
    pub open spec fn small(self) -> bool { self is Array ==> 1 <= self->Array_0 <= 0x400_0000 }
@props C11 C12
@fn enumset_derive/src/lib.rs | impl InternalRepr | supported_variants | path=InternalRepr::
@spec
requires self.small(),
ensures r == self.bits(),
@end
}
impl SerdeRepr {
    pub open spec fn bits(self) -> Option<usize> {
        match self { SerdeRepr::U8 => Some(8), SerdeRepr::U16 => Some(16), SerdeRepr::U32 => Some(32), SerdeRepr::U64 => Some(64), SerdeRepr::U128 => Some(128), _ => None }
    }
@props C12 C14
@fn enumset_derive/src/lib.rs | impl SerdeRepr | supported_variants | path=SerdeRepr::
@spec
ensures r == self.bits(),
@end
}
pub open spec fn is_variant(vs: Seq<EnumSetValue>, i: int) -> bool { exists|k: int| 0 <= k < vs.len() && (#[trigger] vs[k]).variant_repr == i }
pub proof fn variant_push(s: Seq<EnumSetValue>, x: EnumSetValue)
    ensures forall|i: int| #[trigger] is_variant(s.push(x), i) == (is_variant(s, i) || i == x.variant_repr), is_variant(s.push(x), x.variant_repr as int),
{
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    assert forall|i: int| #[trigger] is_variant(t, i) == (is_variant(s, i) || i == x.variant_repr) by {
        if is_variant(s, i) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).variant_repr == i; assert(t[k] == s[k]); }
        if is_variant(t, i) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).variant_repr == i; if k < s.len() { assert(t[k] == s[k]); } }
    }
}
/// The discriminant the language gives a variant that is declared after `next - 1`; None if it is none the derive takes.
pub open spec fn rust_disc(v: Variant, next: nat) -> Option<nat> {
    match v.discriminant {
        None => Some(next),
        Some((_, e)) => match bare(e) { Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => Some(i.value()), _ => None },
    }
}
@props C11 C12
@fn enumset_derive/src/lib.rs | - | ungroup | path=derive::
@spec
ensures *r == bare(*expr),
decreases *expr,
@end
impl EnumSetInfo {
    pub open spec fn inv(&self) -> bool {
        &&& forall|k: int| 0 <= k < self.variants@.len() ==> (#[trigger] self.variants@[k]).variant_repr <= self.max_discrim
        &&& self.variants@.len() > 0 ==> is_variant(self.variants@, self.max_discrim as int)
        &&& self.variants@.len() == 0 ==> self.max_discrim == 0
        &&& self.max_discrim < 0xFFFFFFC0
        &&& self.cur_discrim <= 0xFFFFFFC0
        &&& forall|d: u32| #[trigger] self.used_discriminants@.contains(d) == is_variant(self.variants@, d as int)
        &&& !(self.explicit_internal_repr is Some && self.explicit_internal_repr->0 is Array)
    }
    /// The storage.
    pub open spec fn storage(&self) -> InternalRepr {
        match self.explicit_internal_repr {
            Some(x) => x,
            None => if self.internal_repr_force_array || self.max_discrim >= 64 { InternalRepr::Array(((self.max_discrim / 64) + 1) as usize) }
                else if self.max_discrim < 8 { InternalRepr::U8 } else if self.max_discrim < 16 { InternalRepr::U16 } else if self.max_discrim < 32 { InternalRepr::U32 } else { InternalRepr::U64 },
        }
    }
    pub open spec fn serial(&self) -> SerdeRepr {
        match self.explicit_serde_repr {
            Some(x) => x,
            None => if self.max_discrim < 8 { SerdeRepr::U8 } else if self.max_discrim < 16 { SerdeRepr::U16 } else if self.max_discrim < 32 { SerdeRepr::U32 }
                else if self.max_discrim < 64 { SerdeRepr::U64 } else if self.max_discrim < 128 { SerdeRepr::U128 } else { SerdeRepr::Array },
        }
    }
    /// What validate accepts: room for every declared discriminant in memory and in the serialized integer.
    pub open spec fn fits(&self) -> bool {
        self.storage().bits() > self.max_discrim && (self.serial().bits() is Some ==> self.serial().bits()->0 > self.max_discrim)
    }
    /// Is `v` a variant the derive takes next, and with which discriminant?
    pub open spec fn takes(&self, v: Variant) -> Option<nat> {
        match rust_disc(v, self.cur_discrim as nat) {
            Some(d) => if v.fields is Unit && d <= 0xFFFFFFBF && !self.used_variant_names@.contains(v.ident.name()) && !is_variant(self.variants@, d as int) { Some(d) } else { None },
            None => None,
        }
    }
@props C11 C12
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | new | path=EnumSetInfo::
@rewrite maybe .map(|x| Ident::new(x, Span::call_site())) ==> .map(|x: &String| -> (y: Ident) { Ident::new(x.as_str(), Span::call_site()) })
@spec
ensures
    r.inv(),
    r.variants@ == Seq::<EnumSetValue>::empty(), r.cur_discrim == 0,
    r.used_variant_names@ == Set::<Seq<char>>::empty(),
    r.explicit_internal_repr is None, !r.internal_repr_force_array, r.explicit_serde_repr is None,
    r.name == input.ident, r.no_ops == attrs.no_ops, r.no_super_impls == attrs.no_super_impls, r.serialize_deny_unknown == attrs.serialize_deny_unknown,
@end
@props C12 C14
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | push_serialize_repr | path=EnumSetInfo:: | ret=res
@rewrite maybe format!("`{}` is not a valid serialized representation.", ty) ==> message()
@spec
ensures
    *final(self) == (EnumSetInfo { explicit_serde_repr: final(self).explicit_serde_repr, ..*old(self) }),
    match ty@ {
@for s V in ("u8",U8) ("u16",U16) ("u32",U32) ("u64",U64) ("u128",U128) ("list",List) ("map",Map) ("array",Array)
        x if x == %s%@ => res is Ok && final(self).explicit_serde_repr == Some(SerdeRepr::%V%),
@endfor
        _ => res is Err,
    },
@pre
proof {
    reveal_strlit("u8"); is_lit(ty, "u8");
    reveal_strlit("u16"); is_lit(ty, "u16");
    reveal_strlit("u32"); is_lit(ty, "u32");
    reveal_strlit("u64"); is_lit(ty, "u64");
    reveal_strlit("u128"); is_lit(ty, "u128");
    reveal_strlit("list"); is_lit(ty, "list");
    reveal_strlit("map"); is_lit(ty, "map");
    reveal_strlit("array"); is_lit(ty, "array");
    assert("u8"@ != "u16"@) by { assert("u8"@.len() != "u16"@.len() || "u8"@[1] != "u16"@[1]); }
    assert("u16"@ != "u32"@) by { assert("u16"@.len() != "u32"@.len() || "u16"@[1] != "u32"@[1]); }
    assert("u16"@ != "u64"@) by { assert("u16"@.len() != "u64"@.len() || "u16"@[1] != "u64"@[1]); }
    assert("u32"@ != "u64"@) by { assert("u32"@.len() != "u64"@.len() || "u32"@[1] != "u64"@[1]); }
    assert("u128"@ != "list"@) by { assert("u128"@.len() != "list"@.len() || "u128"@[0] != "list"@[0]); }
    assert("list"@ != "map"@) by { assert("list"@.len() != "map"@.len() || "list"@[0] != "map"@[0]); }
    assert("map"@ != "u16"@) by { assert("map"@.len() != "u16"@.len() || "map"@[0] != "u16"@[0]); }
    assert("map"@ != "u32"@) by { assert("map"@.len() != "u32"@.len() || "map"@[0] != "u32"@[0]); }
    assert("map"@ != "u64"@) by { assert("map"@.len() != "u64"@.len() || "map"@[0] != "u64"@[0]); }
}
@end
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | push_repr | path=EnumSetInfo:: | ret=res
@rewrite maybe format!("`{}` is not a valid internal enumset representation.", ty) ==> message()
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    *final(self) == (EnumSetInfo { explicit_internal_repr: final(self).explicit_internal_repr, internal_repr_force_array: final(self).internal_repr_force_array, ..*old(self) }),
    match ty@ {
@for s V in ("u8",U8) ("u16",U16) ("u32",U32) ("u64",U64) ("u128",U128)
        x if x == %s%@ => res is Ok && final(self).explicit_internal_repr == Some(InternalRepr::%V%) && final(self).internal_repr_force_array == old(self).internal_repr_force_array,
@endfor
        x if x == "array"@ => res is Ok && final(self).explicit_internal_repr == old(self).explicit_internal_repr && final(self).internal_repr_force_array,
        _ => res is Err,
    },
@pre
proof {
    reveal_strlit("u8"); is_lit(ty, "u8");
    reveal_strlit("u16"); is_lit(ty, "u16");
    reveal_strlit("u32"); is_lit(ty, "u32");
    reveal_strlit("u64"); is_lit(ty, "u64");
    reveal_strlit("u128"); is_lit(ty, "u128");
    reveal_strlit("list"); is_lit(ty, "list");
    reveal_strlit("map"); is_lit(ty, "map");
    reveal_strlit("array"); is_lit(ty, "array");
    assert("u8"@ != "u16"@) by { assert("u8"@.len() != "u16"@.len() || "u8"@[1] != "u16"@[1]); }
    assert("u16"@ != "u32"@) by { assert("u16"@.len() != "u32"@.len() || "u16"@[1] != "u32"@[1]); }
    assert("u16"@ != "u64"@) by { assert("u16"@.len() != "u64"@.len() || "u16"@[1] != "u64"@[1]); }
    assert("u32"@ != "u64"@) by { assert("u32"@.len() != "u64"@.len() || "u32"@[1] != "u64"@[1]); }
    assert("u128"@ != "list"@) by { assert("u128"@.len() != "list"@.len() || "u128"@[0] != "list"@[0]); }
    assert("list"@ != "map"@) by { assert("list"@.len() != "map"@.len() || "list"@[0] != "map"@[0]); }
    assert("map"@ != "u16"@) by { assert("map"@.len() != "u16"@.len() || "map"@[0] != "u16"@[0]); }
    assert("map"@ != "u32"@) by { assert("map"@.len() != "u32"@.len() || "map"@[0] != "u32"@[0]); }
    assert("map"@ != "u64"@) by { assert("map"@.len() != "u64"@.len() || "map"@[0] != "u64"@[0]); }
}
@end
@props C11 C12
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | push_variant | path=EnumSetInfo::
@spec
requires old(self).inv(),
ensures
    r is Ok <==> old(self).takes(*variant) is Some,
    r is Ok ==> {
        let d = old(self).takes(*variant)->0;
        &&& final(self).inv()
        &&& final(self).variants@ == old(self).variants@.push(EnumSetValue { name: variant.ident, variant_repr: d as u32 })
        &&& final(self).cur_discrim == d + 1
        &&& final(self).used_variant_names@ == old(self).used_variant_names@.insert(variant.ident.name())
        &&& final(self).explicit_internal_repr == old(self).explicit_internal_repr
        &&& final(self).internal_repr_force_array == old(self).internal_repr_force_array
        &&& final(self).explicit_serde_repr == old(self).explicit_serde_repr
        &&& final(self).serialize_deny_unknown == old(self).serialize_deny_unknown
        &&& final(self).no_ops == old(self).no_ops
        &&& final(self).no_super_impls == old(self).no_super_impls
        &&& final(self).name == old(self).name
    },
@pre
proof {
    if self.takes(*variant) is Some {
        variant_push(self.variants@, EnumSetValue { name: variant.ident, variant_repr: self.takes(*variant)->0 as u32 });
    }
}
@end
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | internal_repr | path=EnumSetInfo::
@spec
requires self.inv(),
ensures r == self.storage(), r.small(),
@end
@props C12 C14
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | serde_repr | path=EnumSetInfo::
@spec
ensures r == self.serial(),
@end
@props C12
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | validate | path=EnumSetInfo::
@spec
requires self.inv(),
ensures r is Ok <==> self.fits(),
@end
@props C11
@fn enumset_derive/src/lib.rs | impl EnumSetInfo | variant_map | path=EnumSetInfo::
@spec
requires self.inv(),
ensures
    forall|i: int| #[trigger] wbit(r@, i) == is_variant(self.variants@, i),
    1 <= r@.len() <= self.max_discrim / 64 + 1,
@prev 0
proof { iszero_u64(0); }
@loop 0 | for variant in &self.variants
    invariant
        1 <= vec@.len() <= self.max_discrim / 64 + 1,
        forall|i: int| #[trigger] wbit(vec@, i) == is_variant(self.variants@.take(it0.index()), i),
@in 0
proof { assert(self.variants@[it0.index()] == *variant); }
let ghost seen = self.variants@.take(it0.index());
@loop 1 | while idx >= vec.len()
    invariant
        1 <= vec@.len() <= self.max_discrim / 64 + 1,
        forall|i: int| #[trigger] wbit(vec@, i) == is_variant(seen, i),
    decreases idx + 1 - vec@.len()
@prev 1
assert(idx <= self.max_discrim / 64);
@in 1
let ghost before = vec@;
@out 1
proof {
    iszero_u64(0);
    assert forall|i: int| #[trigger] wbit(vec@, i) == wbit(before, i) by {
        if 0 <= i < 64 * before.len() { assert(vec@[i / 64] == before[i / 64]); }
        if 64 * before.len() <= i < 64 * vec@.len() { assert(vec@[i / 64] == 0); }
    }
}
@post 1
let ghost before = vec@;
@out 0
proof {
    one_u64(0, bit as u64);
    assert forall|i: int| #[trigger] wbit(vec@, i) == (wbit(before, i) || i == variant.variant_repr) by {
        if 0 <= i < 64 * vec@.len() && i / 64 != idx { assert(vec@[i / 64] == before[i / 64]); }
    }
    let next = self.variants@.take(it0.index() + 1);
    assert(next == seen.push(*variant));
    variant_push(seen, *variant);
}
@post 0
proof { assert(self.variants@.take(self.variants@.len() as int) == self.variants@); }
@end
}
// ---- derive_enum_set_type_0: the enums the macro accepts
pub open spec fn repr_ok(a: Attribute) -> bool {
    a.spath().ident() == Some("repr"@) ==> match a.arg() {
        None => false,
        Some(id) => { let n = id.name(); n == "C"@ || n == "Rust"@ || n == "u8"@ || n == "u16"@ || n == "u32"@ || n == "u64"@ || n == "u128"@ || n == "usize"@ || n == "i8"@ || n == "i16"@ || n == "i32"@ || n == "i64"@ || n == "i128"@ || n == "isize"@ },
    }
}
/// What the repr option asks for: the storage and whether it must be an array.
pub open spec fn repr_choice(o: Option<String>) -> Option<(Option<InternalRepr>, bool)> {
    match o {
        None => Some((None, false)),
        Some(s) => match s@ {
@for s V in ("u8",U8) ("u16",U16) ("u32",U32) ("u64",U64) ("u128",U128)
            x if x == %s%@ => Some((Some(InternalRepr::%V%), false)),
@endfor
            x if x == "array"@ => Some((None, true)),
            _ => None,
        },
    }
}
/// What serialize_repr and the legacy options ask for.
pub open spec fn serde_choice(o: Option<String>, map: bool, list: bool) -> Option<Option<SerdeRepr>> {
    let named = match o {
        None => Some(None),
        Some(s) => match s@ {
@for s V in ("u8",U8) ("u16",U16) ("u32",U32) ("u64",U64) ("u128",U128) ("list",List) ("map",Map) ("array",Array)
            x if x == %s%@ => Some(Some(SerdeRepr::%V%)),
@endfor
            _ => None,
        },
    };
    if named is None { None } else if list { Some(Some(SerdeRepr::List)) } else if map { Some(Some(SerdeRepr::Map)) } else { named }
}
/// The discriminants the language gives the first n variants; None if one is not a non-negative integer literal.
pub open spec fn discs(vs: Seq<Variant>, n: int) -> Option<Seq<nat>>
    decreases n
{
    if n <= 0 { Some(Seq::empty()) } else {
        match discs(vs, n - 1) {
            Some(s) => match rust_disc(vs[n - 1], if n == 1 { 0 } else { s.last() + 1 }) { Some(d) => Some(s.push(d)), None => None },
            None => None,
        }
    }
}
pub proof fn discs_prefix(vs: Seq<Variant>, n: int, k: int)
    requires 0 <= k <= n <= vs.len(), discs(vs, n) is Some,
    ensures discs(vs, k) is Some, discs(vs, n)->0.len() == n, discs(vs, k)->0 == discs(vs, n)->0.take(k),
    decreases n
{
    if n > 0 {
        discs_prefix(vs, n - 1, if k < n { k } else { n - 1 });
    }
    assert(discs(vs, k)->0 =~= discs(vs, n)->0.take(k));
}
/// The variants the derive takes: unit variants with different names, whose discriminants are literals (or follow
/// from the one before), at most 0xFFFFFFBF and all different.
pub open spec fn variants_ok(vs: Seq<Variant>) -> bool {
    &&& discs(vs, vs.len() as int) is Some
    &&& forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).fields is Unit
    &&& forall|k: int| 0 <= k < vs.len() ==> #[trigger] discs(vs, vs.len() as int)->0[k] <= 0xFFFFFFBF
    &&& forall|j: int, k: int| 0 <= j < k < vs.len() ==> #[trigger] discs(vs, vs.len() as int)->0[j] != #[trigger] discs(vs, vs.len() as int)->0[k]
    &&& forall|j: int, k: int| 0 <= j < k < vs.len() ==> (#[trigger] vs[j]).ident.name() != (#[trigger] vs[k]).ident.name()
}
/// `info` describes the declared variants and the options.
pub open spec fn describes(info: EnumSetInfo, vs: Seq<Variant>, attrs: EnumsetAttrs) -> bool {
    &&& info.inv()
    &&& info.variants@.len() == vs.len()
    &&& forall|k: int| 0 <= k < vs.len() ==> (#[trigger] info.variants@[k]).name == vs[k].ident && info.variants@[k].variant_repr == discs(vs, vs.len() as int)->0[k]
    &&& repr_choice(attrs.repr.value) == Some((info.explicit_internal_repr, info.internal_repr_force_array))
    &&& serde_choice(attrs.serialize_repr.value, attrs.serialize_as_map.value, attrs.serialize_as_list.value) == Some(info.explicit_serde_repr)
    &&& info.no_ops == attrs.no_ops && info.no_super_impls == attrs.no_super_impls && info.serialize_deny_unknown == attrs.serialize_deny_unknown
}
pub open spec fn acceptable(input: DeriveInput, attrs: EnumsetAttrs) -> bool {
    &&& input.generics.params.count() == 0
    &&& input.data is Enum
    &&& forall|k: int| 0 <= k < input.attrs@.len() ==> repr_ok(#[trigger] input.attrs@[k])
    &&& repr_choice(attrs.repr.value) is Some
    &&& serde_choice(attrs.serialize_repr.value, attrs.serialize_as_map.value, attrs.serialize_as_list.value) is Some
    &&& variants_ok(input.data->Enum_0.variants@)
}
@props C11 C12
@fn enumset_derive/src/lib.rs | - | derive_enum_set_type_0 | path=derive::
@rewrite sig Result<TokenStream> ==> Result<EnumSetInfo>
@rewrite Ok(enum_set_type_impl(info, warnings).into()) ==> Ok(info)
@rewrite maybe format!("`#[repr({})]` cannot be used on enumset variants.", x) ==> message()
@rewrite maybe &*attrs.repr ==> attrs.repr.get()
@rewrite maybe &*attrs.serialize_repr ==> attrs.serialize_repr.get()
@rewrite maybe if *attrs. ==> if *attrs.
@rewrite maybe *attrs.serialize_as_map ==> *attrs.serialize_as_map.get()
@rewrite maybe *attrs.serialize_as_list ==> *attrs.serialize_as_list.get()
@spec
ensures
    r is Ok ==> acceptable(input, attrs) && describes(r->Ok_0, input.data->Enum_0.variants@, attrs) && r->Ok_0.fits(),
    acceptable(input, attrs) && r is Err ==> exists|info: EnumSetInfo| describes(info, input.data->Enum_0.variants@, attrs) && !info.fits(),
@loop 0 | for attr in &input.attrs
    invariant
        forall|k: int| 0 <= k < it0.index() ==> repr_ok(#[trigger] input.attrs@[k]),
@in 0
proof { assert(input.attrs@[it0.index()] == *attr); }
@loop 1 | for variant in &data.variants
    invariant
        info.inv(),
        info.variants@.len() == it1.index(),
        discs(data.variants@, it1.index()) is Some,
        discs(data.variants@, it1.index())->0.len() == it1.index(),
        it1.index() > 0 ==> info.cur_discrim == discs(data.variants@, it1.index())->0.last() + 1,
        it1.index() == 0 ==> info.cur_discrim == 0,
        forall|k: int| 0 <= k < it1.index() ==> (#[trigger] info.variants@[k]).name == data.variants@[k].ident && info.variants@[k].variant_repr == discs(data.variants@, it1.index())->0[k],
        forall|k: int| 0 <= k < it1.index() ==> (#[trigger] data.variants@[k]).fields is Unit,
        forall|j: int, k: int| 0 <= j < k < it1.index() ==> (#[trigger] info.variants@[j]).variant_repr != (#[trigger] info.variants@[k]).variant_repr,
        forall|j: int, k: int| 0 <= j < k < it1.index() ==> (#[trigger] data.variants@[j]).ident.name() != (#[trigger] data.variants@[k]).ident.name(),
        forall|n: Seq<char>| #[trigger] info.used_variant_names@.contains(n) == exists|k: int| 0 <= k < it1.index() && (#[trigger] data.variants@[k]).ident.name() == n,
        repr_choice(attrs.repr.value) == Some((info.explicit_internal_repr, info.internal_repr_force_array)),
        serde_choice(attrs.serialize_repr.value, attrs.serialize_as_map.value, attrs.serialize_as_list.value) == Some(info.explicit_serde_repr),
        info.no_ops == attrs.no_ops && info.no_super_impls == attrs.no_super_impls && info.serialize_deny_unknown == attrs.serialize_deny_unknown,
@in 1
proof { assert(data.variants@[it1.index()] == *variant); }
proof {
    let vs = data.variants@;
    let k = it1.index();
    if acceptable(input, attrs) {
        discs_prefix(vs, vs.len() as int, k + 1);
        discs_prefix(vs, vs.len() as int, k);
        let all = discs(vs, vs.len() as int)->0;
        let d = rust_disc(*variant, info.cur_discrim as nat)->0;
        assert(discs(vs, k + 1)->0.last() == all[k]);
        assert(d == all[k]);
        if is_variant(info.variants@, d as int) {
            let j = choose|j: int| 0 <= j < info.variants@.len() && (#[trigger] info.variants@[j]).variant_repr == d;
            assert(discs(vs, k)->0[j] == all[j]);
            assert(all[j] != all[k]);
        }
        assert(info.takes(*variant) is Some);
    }
}
@post 1
proof {
    let vs = data.variants@;
    let all = discs(vs, vs.len() as int)->0;
    assert forall|k: int| 0 <= k < vs.len() implies #[trigger] all[k] <= 0xFFFFFFBF by { assert(info.variants@[k].variant_repr == all[k]); }
    assert forall|j: int, k: int| 0 <= j < k < vs.len() implies #[trigger] all[j] != #[trigger] all[k] by {
        assert(info.variants@[j].variant_repr == all[j]); assert(info.variants@[k].variant_repr == all[k]);
    }
    assert(describes(info, vs, attrs));
}
@pre
proof { lits(); }
@end
/// What acceptance means for the storage: a bit for every variant, an explicit integer type as asked for, and
/// otherwise the smallest integer for discriminants below 64.
pub proof fn storage_covers(info: EnumSetInfo, vs: Seq<Variant>, attrs: EnumsetAttrs)
    requires describes(info, vs, attrs), info.fits(), variants_ok(vs),
    ensures
        forall|k: int| 0 <= k < vs.len() ==> #[trigger] discs(vs, vs.len() as int)->0[k] < info.storage().bits(),
        forall|i: int| #[trigger] is_variant(info.variants@, i) ==> 0 <= i < info.storage().bits(),
        info.explicit_internal_repr is Some ==> info.storage() == info.explicit_internal_repr->0,
        info.explicit_internal_repr is None && !info.internal_repr_force_array && info.max_discrim < 64 ==> info.storage().bits() == 8 || info.max_discrim >= info.storage().bits() / 2,
        vs.len() <= u32::MAX,
{
    let all = discs(vs, vs.len() as int)->0;
    assert forall|k: int| 0 <= k < vs.len() implies #[trigger] all[k] < info.storage().bits() by { assert(info.variants@[k].variant_repr == all[k]); }
    let s = Seq::new(vs.len(), |k: int| all[k] as int);
    assert(s.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
            if a < b { assert(all[a] != all[b]); } else { assert(all[b] != all[a]); }
        }
    }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, 0xFFFFFFC0);
    assert forall|x: int| #[trigger] s.to_set().contains(x) implies vstd::set_lib::set_int_range(0, 0xFFFFFFC0).contains(x) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
        assert(all[k] <= 0xFFFFFFBF);
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, 0xFFFFFFC0));
}
// ---- enum_set_type_impl: what it puts into the generated impl
/// A literal token: its value.
#[verifier::external_body] pub struct Literal { x: u8 }
impl Literal {
    pub uninterp spec fn value(&self) -> u128;
    #[verifier::external_body] pub fn u64_unsuffixed(v: u64) -> (r: Self) ensures r.value() == v { unimplemented!() }
    #[verifier::external_body] pub fn u128_unsuffixed(v: u128) -> (r: Self) ensures r.value() == v { unimplemented!() }
}
/// The tokens of the storage type, and of the constant ALL_BITS.
pub enum ReprTokens { U8, U16, U32, U64, U128, ArrayRepr(usize) }
pub enum MaskTokens { Int(Literal), ArrayRepr(usize, Vec<Literal>) }
pub open spec fn literals(v: Seq<Literal>) -> Seq<u64> { v.map_values(|l: Literal| l.value() as u64) }
impl MaskTokens {
    pub open spec fn has(&self, i: int) -> bool {
        match self { MaskTokens::Int(l) => l.value().has(i), MaskTokens::ArrayRepr(n, v) => wbit(literals(v@), i) }
    }
    /// The tokens are an expression of this type.
    pub open spec fn of(&self, t: InternalRepr) -> bool {
        match self {
            MaskTokens::Int(l) => !(t is Array) && forall|i: int| #[trigger] l.value().has(i) ==> i < t.bits(),
            MaskTokens::ArrayRepr(n, v) => t == InternalRepr::Array(*n) && v@.len() == *n && forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).value() <= u64::MAX,
        }
    }
}
@props C11 C12
@check enumset_derive/src/lib.rs | let variant_map = info.variant_map();
@check enumset_derive/src/lib.rs | type Repr = #repr; const ALL_BITS: #repr = #all_variants; const BIT_WIDTH: u32 = #bit_width; const VARIANT_COUNT: u32 = #variant_count;
@let enumset_derive/src/lib.rs | enum_set_type_impl | repr | as=storage_type
@sig fn storage_type(info: &EnumSetInfo) -> ReprTokens
@rewrite maybe quote! { u8 } ==> ReprTokens::U8
@rewrite maybe quote! { u16 } ==> ReprTokens::U16
@rewrite maybe quote! { u32 } ==> ReprTokens::U32
@rewrite maybe quote! { u64 } ==> ReprTokens::U64
@rewrite maybe quote! { u128 } ==> ReprTokens::U128
@rewrite maybe quote! { #internal::ArrayRepr<{ #size }> } ==> ReprTokens::ArrayRepr(size)
@spec
requires info.inv(),
ensures
    match info.storage() {
        InternalRepr::U8 => r == ReprTokens::U8, InternalRepr::U16 => r == ReprTokens::U16, InternalRepr::U32 => r == ReprTokens::U32,
        InternalRepr::U64 => r == ReprTokens::U64, InternalRepr::U128 => r == ReprTokens::U128, InternalRepr::Array(n) => r == ReprTokens::ArrayRepr(n),
    },
@end
@let enumset_derive/src/lib.rs | enum_set_type_impl | all_variants | as=all_bits
@sig fn all_bits(info: &EnumSetInfo, variant_map: &Vec<u64>) -> MaskTokens
@rewrite maybe quote! { #lit } ==> MaskTokens::Int(lit)
@rewrite maybe quote! { #internal::ArrayRepr::<{ #size }>([#(#new,)*]) } ==> MaskTokens::ArrayRepr(size, new)
@rewrite maybe let mut new = Vec::new(); ==> let mut new: Vec<Literal> = Vec::new();
@closure 0 |x|
|x: &u64| -> (y: u128) ensures y == (*x as u128) << 64,
@spec
requires
    info.inv(), info.fits(),
    forall|i: int| #[trigger] wbit(variant_map@, i) == is_variant(info.variants@, i),
    1 <= variant_map@.len() <= info.max_discrim / 64 + 1,
ensures
    r.of(info.storage()),
    forall|i: int| #[trigger] r.has(i) == is_variant(info.variants@, i),
@pre
proof { iszero_u64(0); iszero_u128(0); }
@loop 0 | for i in 0..size
    invariant
        new@.len() == it0.index(),
        forall|k: int| 0 <= k < it0.index() ==> (#[trigger] new@[k]).value() == if k < variant_map@.len() { variant_map@[k] } else { 0 },
@result
proof {
    let vm = variant_map@;
    let hi: u64 = if vm.len() > 1 { vm[1] } else { 0 };
    match &res {
        MaskTokens::Int(l) => {
            assert forall|i: int| #[trigger] l.value().has(i) == is_variant(info.variants@, i) by {
                assert(wbit(vm, i) == is_variant(info.variants@, i));
                assert((vm[0] as u128).has(i) == vm[0].has(i));
                assert(((hi as u128) << 64).has(i) == (64 <= i < 128 && (hi as u128).has(i - 64)));
                assert((hi as u128).has(i - 64) == hi.has(i - 64));
                assert((0u128 << 64) == 0) by (bit_vector);
                assert((vm[0] as u128 | 0) == vm[0] as u128) by { let x = vm[0] as u128; assert(x | 0 == x) by (bit_vector); }
                assert((vm[0] as u128 | ((hi as u128) << 64)).has(i) == ((vm[0] as u128).has(i) || ((hi as u128) << 64).has(i)));
                if vm.len() == 1 { assert(!wbit(vm, i) || i < 64); } else { assert(vm.len() == 2); }
            }
        },
        MaskTokens::ArrayRepr(n, v) => {
            let ls = literals(v@);
            assert forall|k: int| 0 <= k < ls.len() implies #[trigger] ls[k] == (if k < vm.len() { vm[k] } else { 0u64 }) by { assert(ls[k] == v@[k].value() as u64); }
            assert forall|i: int| #[trigger] wbit(ls, i) == is_variant(info.variants@, i) by {
                assert(wbit(vm, i) == is_variant(info.variants@, i));
                if 0 <= i < 64 * ls.len() { assert(ls[i / 64] == (if i / 64 < vm.len() { vm[i / 64] } else { 0u64 })); }
            }
        },
    }
}
@end
@let enumset_derive/src/lib.rs | enum_set_type_impl | bit_width | as=bit_width
@sig fn bit_width(info: &EnumSetInfo) -> u32
@spec
requires info.inv(),
ensures info.variants@.len() == 0 ==> r == 0, info.variants@.len() > 0 ==> r == info.max_discrim + 1,
@end
@let enumset_derive/src/lib.rs | enum_set_type_impl | variant_count | as=variant_count
@sig fn variant_count(info: &EnumSetInfo) -> u32
@spec
requires info.inv(), info.variants@.len() <= u32::MAX,
ensures r == info.variants@.len(),
@end
@props C15
@let enumset_derive/src/lib.rs | enum_set_type_impl | mask | as=known_bits
@sig fn known_bits(info: &EnumSetInfo, variant_map: &Vec<u64>) -> Literal
@rewrite maybe map_or(0, |x| (*x as u128) << 64) ==> map_or(0, |x: &u64| -> (y: u128) ensures y == (*x as u128) << 64, { (*x as u128) << 64 })
@spec
requires
    info.inv(), info.fits(), info.serial().bits() is Some,
    forall|i: int| #[trigger] wbit(variant_map@, i) == is_variant(info.variants@, i),
    1 <= variant_map@.len() <= info.max_discrim / 64 + 1,
ensures
    forall|i: int| #[trigger] r.value().has(i) == is_variant(info.variants@, i),
    forall|i: int| #[trigger] r.value().has(i) ==> i < info.serial().bits()->0,
@result
proof {
    let vm = variant_map@;
    let hi: u64 = if vm.len() > 1 { vm[1] } else { 0 };
    iszero_u64(0); iszero_u128(0);
    assert forall|i: int| #[trigger] res.value().has(i) == is_variant(info.variants@, i) by {
        assert(wbit(vm, i) == is_variant(info.variants@, i));
        assert((vm[0] as u128).has(i) == vm[0].has(i));
        assert(((hi as u128) << 64).has(i) == (64 <= i < 128 && (hi as u128).has(i - 64)));
        assert((hi as u128).has(i - 64) == hi.has(i - 64));
        assert((0u128 << 64) == 0) by (bit_vector);
        assert((vm[0] as u128 | 0) == vm[0] as u128) by { let x = vm[0] as u128; assert(x | 0 == x) by (bit_vector); }
        assert((vm[0] as u128 | ((hi as u128) << 64)).has(i) == ((vm[0] as u128).has(i) || ((hi as u128) << 64).has(i)));
        if vm.len() == 1 { assert(!wbit(vm, i) || i < 64); } else { assert(vm.len() == 2); }
    }
}
@end
/// The literal read as an integer of the serialized type: the mask the generated deserialize is proved with.
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
pub proof fn known_%t%(m: u128)
    requires forall|i: int| #[trigger] m.has(i) ==> i < %w%,
    ensures forall|i: int| #[trigger] (m as %t%).has(i) == m.has(i), (m as %t%) as u128 == m,
{
    cast_u128_%t%(m);
    cast_%t%_u128(m as %t%);
    ext_u128(m, (m as %t%) as u128);
}
@endfor
}
}

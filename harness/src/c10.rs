//! C10: explicit integer representation.
use crate::{fam::*, nd::*, types::*, Entry};
use enumset::{EnumSet, EnumSetType};

/// An enum with `repr = "<int>"`, its integer widened to u128.
pub trait Explicit<const W: usize>: Fam<W> {
    const SIZE: usize;
    const ALIGN: usize;
    fn cast(v: u128) -> u128;
    fn as_repr(s: EnumSet<Self>) -> u128;
    fn from_repr(v: u128) -> EnumSet<Self>;
    fn try_from_repr(v: u128) -> Option<EnumSet<Self>>;
    fn truncated(v: u128) -> EnumSet<Self>;
    fn unchecked(v: u128) -> EnumSet<Self>;
    fn mem_out(s: EnumSet<Self>) -> u128;
    fn mem_in(v: u128) -> EnumSet<Self>;
    fn unit_out(s: EnumSet<Self>) -> u128 { Self::mem_out(s) }
}
macro_rules! explicit { ($($t:ident $w:literal $p:ident;)*) => { $(
    impl Explicit<$w> for $t {
        const SIZE: usize = core::mem::size_of::<$p>();
        const ALIGN: usize = core::mem::align_of::<$p>();
        fn cast(v: u128) -> u128 { v as $p as u128 }
        fn as_repr(s: EnumSet<Self>) -> u128 { let r: $p = s.as_repr(); r as u128 }
        fn from_repr(v: u128) -> EnumSet<Self> { EnumSet::<$t>::from_repr(v as $p) }
        fn try_from_repr(v: u128) -> Option<EnumSet<Self>> { EnumSet::<$t>::try_from_repr(v as $p) }
        fn truncated(v: u128) -> EnumSet<Self> { EnumSet::<$t>::from_repr_truncated(v as $p) }
        fn unchecked(v: u128) -> EnumSet<Self> { unsafe { EnumSet::<$t>::from_repr_unchecked(v as $p) } }
        fn mem_out(s: EnumSet<Self>) -> u128 { unsafe { core::mem::transmute::<EnumSet<$t>, $p>(s) as u128 } }
        fn mem_in(v: u128) -> EnumSet<Self> { unsafe { core::mem::transmute::<$p, EnumSet<$t>>(v as $p) } }
    }
    const _: () = {
        assert!(core::mem::size_of::<EnumSet<$t>>() == core::mem::size_of::<$p>());
        assert!(core::mem::align_of::<EnumSet<$t>>() == core::mem::align_of::<$p>());
        const E: EnumSet<$t> = EnumSet::all();
        assert!(E.as_repr() as u128 == low128_const(&<$t as Fam<$w>>::MASK));
    };
)* } }
const fn low128_const<const W: usize>(a: &[u64; W]) -> u128 { (a[0] as u128) | if W > 1 { (a[1] as u128) << 64 } else { 0 } }
explicit! { R8 1 u8; R16 1 u16; R32 1 u32; R64 1 u64; R128 2 u128; X128 2 u128; F128 2 u128;
    R8C 1 u8; R16C 1 u16; R32C 1 u32; R64C 1 u64; R128C 2 u128; }

fn valid<T: Fam<W>, const W: usize>(v: u128) -> bool { v & !low128(&T::MASK) == 0 }

pub fn layout<T: Explicit<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let (v, d) = any_variant::<T, W>();
    reach!(has(&wa, d));
    ensures!(core::mem::size_of::<EnumSet<T>>() == T::SIZE && core::mem::align_of::<EnumSet<T>>() == T::ALIGN, "size and alignment of the integer");
    ensures!(T::mem_out(a) >> d & 1 == a.contains(v) as u128, "bit n of the memory form is membership of discriminant n");
    ensures!(T::mem_out(a) & !low128(&T::MASK) == 0, "no other bit is set in the memory form");
    ensures!(T::as_repr(a) == T::mem_out(a), "as_repr is the memory form");
    let mut b = EnumSet::<T>::empty();
    b.insert(v);
    ensures!(T::as_repr(b) == 1 << d, "as_repr of a singleton");
    ensures!(T::as_repr(T::from_repr(T::as_repr(a))) == T::as_repr(a), "as_repr and back is the identity");
}
pub fn from<T: Explicit<W>, const W: usize>() {
    let bits = T::cast(any());
    let (v, d) = any_variant::<T, W>();
    let ok = valid::<T, W>(bits);
    reach!(ok && bits != 0);
    match T::try_from_repr(bits) {
        Some(s) => {
            ensures!(ok, "try_from_repr rejects undeclared bits");
            ensures!(T::mem_out(s) == bits, "try_from_repr gives exactly the set");
            ensures!(s.contains(v) == (bits >> d & 1 == 1), "try_from_repr membership");
            ensures!(T::mem_out(T::from_repr(bits)) == bits, "from_repr gives exactly the set");
            ensures!(T::mem_out(T::unchecked(bits)) == bits, "from_repr_unchecked is the identity on valid values");
            ensures!(T::mem_in(bits) == s, "a transmuted integer is the set");
        }
        None => ensures!(!ok, "try_from_repr accepts valid values"),
    }
    ensures!(T::mem_out(T::truncated(bits)) == bits & low128(&T::MASK), "from_repr_truncated keeps exactly the valid bits");
}
pub fn from_valid<T: Explicit<W>, const W: usize>() {
    let (a, wa) = any_set::<T, W>();
    let bits = low128(&wa);
    ensures!(T::try_from_repr(bits) == Some(a) && T::from_repr(bits) == a && T::unchecked(bits) == a && T::truncated(bits) == a, "every valid value is accepted unchanged");
}
pub fn from_panics<T: Explicit<W>, const W: usize>() {
    let bits = T::cast(any());
    requires!(!valid::<T, W>(bits));
    let _ = T::from_repr(bits);
    returned("from_repr of an invalid value");
}
on!(repr, layout, total, 40);
on!(repr, from, total, 40);
on!(repr, from_valid, total, 40);
contract!(from_panics, panics, 40; R8:1 R16:1 R32:1 R64:1 R128:2 X128:2;; R8C:1 R16C:1 R32C:1 R64C:1 R128C:2);
pub const ALL: &[&[Entry]] = &[layout::REG, from::REG, from_valid::REG, from_panics::REG];

verus! {
@for t w m n k P in (u8,8,7,1,0,prim_u8) (u16,16,15,1,1,prim_u16) (u32,32,31,1,2,prim_u32) (u64,64,63,1,3,prim_u64) (u128,128,127,2,4,prim_u128)
/// repr/primitive.rs: prim!(%t%, ..)
pub mod prim_%t% {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
broadcast use {super::bits::bit_facts, super::bits::shift_facts};

@props C01 C02 C03 C04 C05 C06 C07 C08 C09 C10
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | * | lo | path=%t%::
@spec
ensures forall|i: int| #[trigger] r.has(i) == (v.has(i) && i < 64),
@pre
proof { cast_%t%_u64(v); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | * | hi | path=%t%::
@spec
ensures forall|i: int| #[trigger] r.has(i) == (0 <= i < 64 && v.has(i + 64)), (r == 0) == (forall|i: int| #[trigger] v.has(i) ==> i < 64),
@pre
proof {
    cast_%t%_u128(v);
    let x = v as u128;
    cast_u128_u64(x >> 64);
    assert forall|i: int| #[trigger] ((x >> 64) as u64).has(i) == (0 <= i < 64 && v.has(i + 64)) by {
        if 0 <= i < 64 {
            let k = i as u128;
            assert((((x >> 64) >> k) & 1 == 1) == ((x >> add(k, 64)) & 1 == 1)) by (bit_vector) requires k < 64;
            assert((x >> 64).has(i) == x.has(i + 64));
        }
    }
    let h = (x >> 64) as u64;
    iszero_u64(h);
    if h == 0 {
        assert forall|i: int| #[trigger] v.has(i) implies i < 64 by {
            if i >= 64 { assert(!h.has(i - 64)); assert(h.has(i - 64) == (0 <= i - 64 < 64 && v.has(i - 64 + 64))); }
        }
    } else {
        let k = choose|k: int| h.has(k);
        assert(h.has(k));
        assert(v.has(k + 64));
    }
}
@end

impl EnumSetTypeRepr for %t% {
    open spec fn width() -> nat { %w% }
    open spec fn words() -> nat { %n% }
    open spec fn empty() -> Self { 0 }
    open spec fn ok() -> bool { true }
    proof fn laws() {
        let z: %t% = 0;
        assert forall|i: int| !(#[trigger] z.has(i)) by {
            if 0 <= i < %w% { let k = i as %t%; assert((0 as %t% >> k) & 1 == 0) by (bit_vector); }
        }
        assert forall|a: Self, b: Self, i: int| #[trigger] BitAndSpec::bitand_spec(a, b).has(i) == (a.has(i) && b.has(i)) by { ops_%t%(a, b); assert((a & b).has(i) == (a.has(i) && b.has(i))); }
        assert forall|a: Self, b: Self, i: int| #[trigger] BitOrSpec::bitor_spec(a, b).has(i) == (a.has(i) || b.has(i)) by { ops_%t%(a, b); assert((a | b).has(i) == (a.has(i) || b.has(i))); }
        assert forall|a: Self, b: Self, i: int| #[trigger] BitXorSpec::bitxor_spec(a, b).has(i) == (a.has(i) != b.has(i)) by { ops_%t%(a, b); assert((a ^ b).has(i) == (a.has(i) != b.has(i))); }
        assert forall|a: Self, i: int| #[trigger] NotSpec::not_spec(a).has(i) == (0 <= i < %w% && !a.has(i)) by { ops_%t%(a, a); assert((!a).has(i) == (0 <= i < %w% && !a.has(i))); }
    }
    proof fn ext(a: Self, b: Self) { ext_%t%(a, b); }
    proof fn single(i: int) { one_%t%(0, i as %t%); assert(is_single((1 as %t%) << (i as %t%), i)); }
@const enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | WIDTH | path=%t%::
@end
@const enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | EMPTY | path=%t%::
@pre
proof { Self::laws(); }
@end
@const enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | PREFERRED_ARRAY_LEN | path=%t%::
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | is_empty | path=%t%::
@pre
proof { iszero_%t%(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | add_bit | path=%t%::
@pre
proof {
    one_%t%(*old(self), bit as %t%);
    ops_%t%(*old(self), (1 as %t%) << (bit as %t%));
}
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | remove_bit | path=%t%::
@pre
proof {
    one_%t%(*old(self), bit as %t%);
    ops_%t%(*old(self), (1 as %t%) << (bit as %t%));
}
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | has_bit | path=%t%::
@rewrite maybe ( self & ==> ( * self &
@pre
proof { one_%t%(*self, bit as %t%); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | count_ones | path=%t%::
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | leading_zeros | path=%t%::
@pre
proof { zeros_%t%(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | trailing_zeros | path=%t%::
@pre
proof { zeros_%t%(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | and_not | path=%t%::
@pre
proof { ops_%t%(*self, other); }
@end
@for u v in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_%u% | path=%t%::
@pre
proof { cast_%u%_%t%(v); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_%u% | path=%t%::
@pre
proof { cast_%t%_%u%(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_%u%_opt | path=%t%::
@pre
proof { refl_%t%(v as %t%); fits_%u%_%t%(v); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_%u%_opt | path=%t%::
@pre
proof { refl_%t%(*self); fits_%t%_%u%(*self); }
@end
@endfor
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_usize | path=%t%::
@pre
proof { cast_u64_%t%(v as u64); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_usize | path=%t%::
@pre
proof { cast_%t%_u64(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_usize_opt | path=%t%::
@pre
proof { fits_u64_%t%(v as u64); cast_usize_u64(v); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_usize_opt | path=%t%::
@pre
proof { fits_%t%_u64(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_u64_array | path=%t%::
@pre
proof { iszero_u64(0); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_u64_array_opt | path=%t%::
@pre
proof { iszero_%t%(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_u64_array | path=%t%::
@pre
proof {
    words2(v@);
    let z: %t% = 0;
    iszero_%t%(z);
    if O > 1 { join(v[0], v[1]); }
}
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_u64_array_opt | path=%t%::
@pre
proof {
    words2(v@);
    let z: %t% = 0;
    iszero_%t%(z);
    if O > 1 { join(v[0], v[1]); }
    if O > 1 && (forall|j: int| 2 <= j < v@.len() ==> #[trigger] v@[j] == 0) {
        zeros_from(v@, 2);
        let x = v[0] as u128 | ((v[1] as u128) << 64);
        assert forall|i: int| #[trigger] wbit(v@, i) == x.has(i) by { }
    }
}
@loop 0 | for i in 2..O
    invariant forall|j: int| 2 <= j < 2 + it0.index() ==> #[trigger] v@[j] == 0,
@in 0
proof { if v@[i as int] != 0 { word_out(v@, i as int); } }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_u64_slice | path=%t%::
@loop 0 | for i in %n%..out.len()
    invariant
        out@.len() == old(out)@.len(),
        forall|j: int| %n% <= j < %n% + it0.index() ==> #[trigger] out@[j] == 0,
        out@.len() > 0 ==> (forall|k: int| #[trigger] out@[0].has(k) == (self.has(k) && k < 64)),
        %n% == 2 && out@.len() > 1 ==> (forall|k: int| #[trigger] out@[1].has(k) == (0 <= k < 64 && self.has(k + 64))),
@post 0
proof {
    words2(out@);
    zeros_from(out@, %n%);
    assert forall|i: int| #[trigger] wbit(out@, i) == (self.has(i) && i < 64 * out@.len()) by {
        if 64 <= i < 128 && 1 < out@.len() { assert(out@[1].has(i - 64) == (0 <= i - 64 < 64 && self.has(i - 64 + 64)) || %n% == 1); }
    }
}
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | to_u64_slice_opt | path=%t%::
@pre
proof { iszero_%t%(*self); }
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_u64_slice | path=%t%::
@pre
proof {
    words2(v@);
    let z: %t% = 0;
    iszero_%t%(z);
    if v@.len() > 1 { join(v@[0], v@[1]); }
}
@end
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | from_u64_slice_opt | path=%t%::
@pre
proof {
    words2(v@);
    let z: %t% = 0;
    iszero_%t%(z);
    if v@.len() > 1 { join(v@[0], v@[1]); }
    if v@.len() > 1 && (forall|j: int| 2 <= j < v@.len() ==> #[trigger] v@[j] == 0) {
        zeros_from(v@, 2);
        let x = v@[0] as u128 | ((v@[1] as u128) << 64);
        assert forall|i: int| #[trigger] wbit(v@, i) == x.has(i) by { }
    }
}
@loop 0 | for i in 2..v.len()
    invariant forall|j: int| 2 <= j < 2 + it0.index() ==> #[trigger] v@[j] == 0,
@in 0
proof { if v@[i as int] != 0 { word_out(v@, i as int); } }
@end
}
}
@endfor
}

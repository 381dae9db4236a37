verus! {
/// Facts about the machine integers, each proved by the bit-vector solver.
pub mod bits {
use super::*;
use super::repr::*;
broadcast use {axiom_u8_leading_zeros, axiom_u16_leading_zeros, axiom_u32_leading_zeros, axiom_u64_leading_zeros,
    axiom_u8_trailing_zeros, axiom_u16_trailing_zeros, axiom_u32_trailing_zeros, axiom_u64_trailing_zeros};

// Trusted: what core's bit-counting functions return.
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
pub assume_specification [%t%::count_ones] (x: %t%) -> (r: u32)
    ensures r == card(x, %w%);
@endfor
pub assume_specification [u128::leading_zeros] (x: u128) -> (r: u32)
    ensures r <= 128, r < 128 ==> x.has(127 - r), forall|i: int| 128 - r <= i ==> !(#[trigger] x.has(i));
pub assume_specification [u128::trailing_zeros] (x: u128) -> (r: u32)
    ensures r <= 128, r < 128 ==> x.has(r as int), forall|i: int| i < r ==> !(#[trigger] x.has(i));

@for t w m in (u8,8,7) (u16,16,15) (u32,32,31) (u64,64,63)
pub proof fn zeros_%t%(x: %t%)
    ensures
        0 <= %t%_leading_zeros(x) <= %w%,
        %t%_leading_zeros(x) < %w% ==> x.has(%m% - %t%_leading_zeros(x)),
        forall|i: int| %w% - %t%_leading_zeros(x) <= i ==> !(#[trigger] x.has(i)),
        0 <= %t%_trailing_zeros(x) <= %w%,
        %t%_trailing_zeros(x) < %w% ==> x.has(%t%_trailing_zeros(x) as int),
        forall|i: int| i < %t%_trailing_zeros(x) ==> !(#[trigger] x.has(i)),
{
    axiom_%t%_leading_zeros(x);
    axiom_%t%_trailing_zeros(x);
    let l = %t%_leading_zeros(x);
    let t = %t%_trailing_zeros(x);
    if l < %w% {
        let k = (%m% - l) as %t%;
        assert((x >> k) & 1 == 0 || (x >> k) & 1 == 1) by (bit_vector);
    }
    if t < %w% {
        let k = t as %t%;
        assert((x >> k) & 1 == 0 || (x >> k) & 1 == 1) by (bit_vector);
    }
    assert forall|i: int| %w% - l <= i implies !(#[trigger] x.has(i)) by {
        if i < %w% { let k = i as %t%; assert((x >> k) & 1 == 0); }
    }
    assert forall|i: int| i < t implies !(#[trigger] x.has(i)) by {
        if 0 <= i { let k = i as %t%; assert((x >> k) & 1 == 0); }
    }
}
@endfor
pub proof fn zeros_u128(x: u128) {}

@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
pub proof fn ext_%t%(a: %t%, b: %t%)
    requires forall|i: int| 0 <= i < %w% ==> #[trigger] a.has(i) == b.has(i),
    ensures a == b
{
    ext_step_%t%(a, b, %w%);
    let c: %t% = a ^ b;
    assert(c == 0 ==> a == b) by (bit_vector) requires c == a ^ b;
    assert(%w% == 0 || c << 0 == c) by (bit_vector);
}
/// The low n bits of a and b agree.
proof fn ext_step_%t%(a: %t%, b: %t%, n: %t%)
    requires n <= %w%, forall|i: int| 0 <= i < %w% ==> #[trigger] a.has(i) == b.has(i),
    ensures n == 0 || ((a ^ b) << ((%w% - n) as %t%)) == 0
    decreases n
{
    if n > 0 {
        let m = (n - 1) as %t%;
        ext_step_%t%(a, b, m);
        assert(a.has(m as int) == b.has(m as int));
        let s = (%w% - n) as %t%;
        assert((a >> m) & 1 == 1 <==> (b >> m) & 1 == 1);
        assert(((a ^ b) << s) == 0) by (bit_vector)
            requires 0 < n, n <= %w%, m == n - 1, s == %w% - n, m == 0 || ((a ^ b) << add(s, 1)) == 0, (a >> m) & 1 == 1 <==> (b >> m) & 1 == 1;
    }
}
pub proof fn ops_%t%(a: %t%, b: %t%)
    ensures
        forall|i: int| #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)),
        forall|i: int| #[trigger] (a | b).has(i) == (a.has(i) || b.has(i)),
        forall|i: int| #[trigger] (a ^ b).has(i) == (a.has(i) != b.has(i)),
        forall|i: int| #[trigger] (!a).has(i) == (0 <= i < %w% && !a.has(i)),
        forall|i: int| #[trigger] (a & !b).has(i) == (a.has(i) && !b.has(i)),
{
    assert forall|i: int| 0 <= i < %w% implies
        #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)) && (a | b).has(i) == (a.has(i) || b.has(i))
        && (a ^ b).has(i) == (a.has(i) != b.has(i)) && (!a).has(i) == !a.has(i)
        && (a & !b).has(i) == (a.has(i) && !b.has(i)) by
    {
        let k = i as %t%;
        assert((((a & b) >> k) & 1 == 1) == ((a >> k) & 1 == 1 && (b >> k) & 1 == 1)) by (bit_vector);
        assert((((a | b) >> k) & 1 == 1) == ((a >> k) & 1 == 1 || (b >> k) & 1 == 1)) by (bit_vector);
        assert((((a ^ b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) != ((b >> k) & 1 == 1))) by (bit_vector);
        assert((((!a) >> k) & 1 == 1) == !((a >> k) & 1 == 1)) by (bit_vector) requires k < %w%;
        assert((((a & !b) >> k) & 1 == 1) == ((a >> k) & 1 == 1 && !((b >> k) & 1 == 1))) by (bit_vector) requires k < %w%;
    }
    assert forall|i: int| #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)) by { if 0 <= i < %w% { } }
    assert forall|i: int| #[trigger] (a | b).has(i) == (a.has(i) || b.has(i)) by { if 0 <= i < %w% { assert((a & b).has(i) == (a.has(i) && b.has(i))); } }
    assert forall|i: int| #[trigger] (a ^ b).has(i) == (a.has(i) != b.has(i)) by { if 0 <= i < %w% { assert((a & b).has(i) == (a.has(i) && b.has(i))); } }
    assert forall|i: int| #[trigger] (!a).has(i) == (0 <= i < %w% && !a.has(i)) by { if 0 <= i < %w% { assert((a & b).has(i) == (a.has(i) && b.has(i))); } }
    assert forall|i: int| #[trigger] (a & !b).has(i) == (a.has(i) && !b.has(i)) by { if 0 <= i < %w% { assert((a & b).has(i) == (a.has(i) && b.has(i))); } }
}
/// 1 << b has exactly bit b, however it is then combined.
pub proof fn one_%t%(x: %t%, b: %t%)
    requires b < %w%,
    ensures
        forall|i: int| #[trigger] ((1 as %t%) << b).has(i) == (i == b),
        ((x & ((1 as %t%) << b)) != 0) == x.has(b as int),
{
    let o = (1 as %t%) << b;
    assert forall|i: int| #[trigger] o.has(i) == (i == b) by {
        if 0 <= i < %w% {
            let k = i as %t%;
            assert(((((1 as %t%) << b) >> k) & 1 == 1) == (k == b)) by (bit_vector) requires k < %w%, b < %w%;
        }
    }
    assert(((x & ((1 as %t%) << b)) != 0) == ((x >> b) & 1 == 1)) by (bit_vector) requires b < %w%;
}
pub proof fn zero_%t%()
    ensures forall|i: int| !(#[trigger] (0 as %t%).has(i)),
{
    assert forall|i: int| !(#[trigger] (0 as %t%).has(i)) by {
        if 0 <= i < %w% { let k = i as %t%; assert((0 as %t% >> k) & 1 == 0) by (bit_vector); }
    }
}
pub proof fn iszero_%t%(x: %t%)
    ensures (x == 0) == (forall|i: int| !(#[trigger] x.has(i))),
{
    let z: %t% = 0;
    assert forall|i: int| !(#[trigger] z.has(i)) by {
        if 0 <= i < %w% { let k = i as %t%; assert((0 as %t% >> k) & 1 == 0) by (bit_vector); }
    }
    if forall|i: int| !(#[trigger] x.has(i)) {
        assert forall|i: int| 0 <= i < %w% implies #[trigger] x.has(i) == z.has(i) by { assert(!z.has(i)); }
        ext_%t%(x, z);
    }
}
@for u v in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
pub proof fn cast_%t%_%u%(x: %t%)
    ensures forall|i: int| #[trigger] (x as %u%).has(i) == (x.has(i) && i < %v%),
{
    let y = x as %u%;
    assert forall|i: int| #[trigger] y.has(i) == (x.has(i) && i < %v%) by {
        if 0 <= i < %v% {
            let k = i as %u%;
            if i < %w% {
                let j = i as %t%;
                assert((((x as %u%) >> k) & 1 == 1) == ((x >> j) & 1 == 1)) by (bit_vector) requires k == j, k < %v%, j < %w%;
            } else {
                assert(((x as %u%) >> k) & 1 == 0) by (bit_vector) requires k >= %w%, k < %v%;
            }
        }
    }
}
/// x fits %u% exactly when no bit above %u%'s is set; the value is then kept.
pub proof fn fits_%t%_%u%(x: %t%)
    ensures
        (x as int <= %u%::MAX) == (forall|i: int| #[trigger] x.has(i) ==> i < %v%),
        x as int <= %u%::MAX ==> (forall|i: int| #[trigger] (x as %u%).has(i) == x.has(i)),
{
    cast_%t%_%u%(x);
    cast_%u%_%t%(x as %u%);
    let y = (x as %u%) as %t%;
    assert(%v% >= %w% ==> x as int <= %u%::MAX);
    if forall|i: int| #[trigger] x.has(i) ==> i < %v% {
        assert forall|i: int| 0 <= i < %w% implies #[trigger] x.has(i) == y.has(i) by {
            assert(y.has(i) == ((x as %u%).has(i) && i < %w%));
            assert((x as %u%).has(i) == (x.has(i) && i < %v%));
        }
        ext_%t%(x, y);
        assert(x as int <= %u%::MAX);
    }
    if x as int <= %u%::MAX {
        assert forall|i: int| #[trigger] x.has(i) implies i < %v% by {
            if %v% <= i < %w% {
                assert(y == x);
                assert(y.has(i) == ((x as %u%).has(i) && i < %w%));
            }
        }
    }
}
@endfor
// Trusted: From<T> for T is the identity.
pub axiom fn refl_%t%(v: %t%)
    ensures <%t% as vstd::std_specs::convert::FromSpec<%t%>>::from_spec(v) == v, <%t% as vstd::std_specs::convert::FromSpec<%t%>>::obeys_from_spec();
@endfor
/// The same facts in the form the solver uses without being told where.
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
pub broadcast proof fn b_and_%t%(a: %t%, b: %t%, i: int) ensures #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)) { ops_%t%(a, b); }
pub broadcast proof fn b_or_%t%(a: %t%, b: %t%, i: int) ensures #[trigger] (a | b).has(i) == (a.has(i) || b.has(i)) { ops_%t%(a, b); }
pub broadcast proof fn b_xor_%t%(a: %t%, b: %t%, i: int) ensures #[trigger] (a ^ b).has(i) == (a.has(i) != b.has(i)) { ops_%t%(a, b); }
pub broadcast proof fn b_not_%t%(a: %t%, i: int) ensures #[trigger] (!a).has(i) == (0 <= i < %w% && !a.has(i)) { ops_%t%(a, a); }
pub broadcast proof fn b_zero_%t%(i: int) ensures !(#[trigger] (0 as %t%).has(i)) { zero_%t%(); }
@endfor
pub broadcast proof fn b_widen(x: u64, i: int) ensures #[trigger] (x as u128).has(i) == x.has(i) { cast_u64_u128(x); }
pub broadcast proof fn b_narrow(x: u128, i: int) ensures #[trigger] (x as u64).has(i) == (x.has(i) && i < 64) { cast_u128_u64(x); }
pub broadcast proof fn b_shl64(y: u128, i: int) ensures #[trigger] (y << 64).has(i) == (64 <= i < 128 && y.has(i - 64))
{
    if 0 <= i < 128 {
        let k = i as u128;
        if i < 64 {
            assert(((y << 64) >> k) & 1 == 0) by (bit_vector) requires k < 64;
        } else {
            assert((((y << 64) >> k) & 1 == 1) == ((y >> sub(k, 64)) & 1 == 1)) by (bit_vector) requires 64 <= k, k < 128;
        }
    }
}
pub broadcast proof fn b_shr64(y: u128, i: int) ensures #[trigger] (y >> 64).has(i) == (0 <= i < 64 && y.has(i + 64))
{
    if 0 <= i < 128 {
        let k = i as u128;
        if i < 64 {
            assert((((y >> 64) >> k) & 1 == 1) == ((y >> add(k, 64)) & 1 == 1)) by (bit_vector) requires k < 64;
        } else {
            assert(((y >> 64) >> k) & 1 == 0) by (bit_vector) requires 64 <= k, k < 128;
        }
    }
}
/// Word and bit number by shift and mask instead of division and remainder.
@for t in (u32) (usize) (u64)
pub broadcast proof fn shr6_%t%(x: %t%) ensures #[trigger] (x >> 6) == x / 64 { assert(x >> 6 == x / 64) by (bit_vector); }
pub broadcast proof fn mask6_%t%(x: %t%) ensures #[trigger] (x & 63) == x % 64 { assert(x & 63 == x % 64) by (bit_vector); }
pub broadcast proof fn shl6_%t%(x: %t%) requires x < 0x4000000 ensures #[trigger] (x << 6) == x * 64 { assert(x < 0x4000000 ==> x << 6 == x * 64) by (bit_vector); }
@endfor
@for t in (u32) (u64) (usize)
pub broadcast proof fn or6_%t%(a: %t%, b: %t%) requires a < 0x4000000, b < 64 ensures #[trigger] ((a << 6) | b) == a * 64 + b
{ assert(a < 0x4000000 && b < 64 ==> (a << 6) | b == a * 64 + b) by (bit_vector); }
@endfor
/// A word with one bit, and a bit tested through it.
@for t in (u32) (u64) (usize)
pub broadcast proof fn onebit_%t%(n: %t%, i: int) requires n < 64 ensures #[trigger] (1u64 << n).has(i) == (i == n as int)
{
    if 0 <= i < 64 {
        let k = i as u64; let m = n as u64;
        assert((1u64 << n) == (1u64 << m)) by (bit_vector) requires m == n as u64, n < 64;
        assert((((1u64 << m) >> k) & 1 == 1) == (k == m)) by (bit_vector) requires k < 64, m < 64;
    }
}
pub broadcast proof fn testbit_%t%(a: u64, n: %t%) requires n < 64 ensures (#[trigger] (a & (1u64 << n)) != 0) == a.has(n as int)
{
    let m = n as u64;
    assert((1u64 << n) == (1u64 << m)) by (bit_vector) requires m == n as u64, n < 64;
    assert(((a & (1u64 << m)) != 0) == ((a >> m) & 1 == 1)) by (bit_vector) requires m < 64;
}
@endfor
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
pub broadcast proof fn shifted_%t%(a: %t%, n: u32) requires n < %w% ensures #[trigger] ((a >> n) & 1) == (if a.has(n as int) { 1 as %t% } else { 0 as %t% })
{
    let m = n as %t%;
    assert((a >> n) == (a >> m)) by (bit_vector) requires m == n as %t%, n < %w%;
    assert((a >> m) & 1 == 1 || (a >> m) & 1 == 0) by (bit_vector);
}
@endfor
pub broadcast group word_bits {
@for t in (u32) (u64) (usize)
    or6_%t%, onebit_%t%, testbit_%t%,
@endfor
}
pub broadcast group word_number { shr6_u32, mask6_u32, shl6_u32, shr6_usize, mask6_usize, shl6_usize, shr6_u64, mask6_u64, shl6_u64 }
pub broadcast group shift_facts {
@for t in (u8) (u16) (u32) (u64) (u128)
    shifted_%t%,
@endfor
}
pub broadcast group bit_facts { 
@for t in (u8) (u16) (u32) (u64) (u128)
    b_and_%t%, b_or_%t%, b_xor_%t%, b_not_%t%, b_zero_%t%,
@endfor
    b_widen, b_narrow, b_shl64, b_shr64,
}
/// Words and bits.
pub proof fn words2(s: Seq<u64>)
    ensures
        forall|i: int| #[trigger] wbit(s, i) ==> 0 <= i < 64 * s.len(),
        s.len() > 0 ==> forall|i: int| 0 <= i < 64 ==> #[trigger] wbit(s, i) == s[0].has(i),
        s.len() > 1 ==> forall|i: int| 64 <= i < 128 ==> #[trigger] wbit(s, i) == s[1].has(i - 64),
        s.len() > 0 ==> forall|k: int| 0 <= k < 64 ==> wbit(s, k) == #[trigger] s[0].has(k),
        s.len() > 1 ==> forall|k: int| 0 <= k < 64 ==> wbit(s, 64 + k) == #[trigger] s[1].has(k),
{
}
pub proof fn word_at(s: Seq<u64>, w: int)
    requires 0 <= w < s.len(),
    ensures forall|i: int| 64 * w <= i < 64 * w + 64 ==> #[trigger] wbit(s, i) == s[w].has(i - 64 * w),
{
}
pub proof fn word_out(s: Seq<u64>, w: int)
    requires 0 <= w < s.len(), s[w] != 0,
    ensures exists|i: int| #[trigger] wbit(s, i) && 64 * w <= i < 64 * w + 64,
{
    iszero_u64(s[w]);
    word_at(s, w);
    let k = choose|k: int| s[w].has(k);
    assert(s[w].has(k));
    assert(wbit(s, 64 * w + k));
}
pub proof fn zeros_from(s: Seq<u64>, n: int)
    requires forall|j: int| n <= j < s.len() ==> #[trigger] s[j] == 0, n >= 0,
    ensures forall|i: int| #[trigger] wbit(s, i) ==> i < 64 * n,
{
    assert forall|i: int| #[trigger] wbit(s, i) implies i < 64 * n by {
        if i >= 64 * n {
            assert(s[i / 64] == 0);
            iszero_u64(s[i / 64]);
        }
    }
}
pub proof fn join(a: u64, b: u64)
    ensures
        forall|i: int| #[trigger] (a as u128 | ((b as u128) << 64)).has(i) == (if i < 64 { a.has(i) } else { b.has(i - 64) }),
{
    let x = a as u128;
    let y = (b as u128) << 64;
    cast_u64_u128(a);
    cast_u64_u128(b);
    ops_u128(x, y);
    assert forall|i: int| #[trigger] (x | y).has(i) == (if i < 64 { a.has(i) } else { b.has(i - 64) }) by {
        if 0 <= i < 128 {
            let k = i as u128;
            assert((x | y).has(i) == (x.has(i) || y.has(i)));
            assert(x.has(i) == (a.has(i) && i < 128));
            if i < 64 {
                assert((((b as u128) << 64) >> k) & 1 == 0) by (bit_vector) requires k < 64;
            } else {
                assert(((((b as u128) << 64) >> k) & 1 == 1) == (((b as u128) >> sub(k, 64)) & 1 == 1)) by (bit_vector) requires 64 <= k, k < 128;
                assert((b as u128).has(i - 64) == (b.has(i - 64) && i - 64 < 128));
            }
        }
    }
}
pub proof fn high_u128(v: u128)
    ensures
        forall|i: int| #[trigger] ((v >> 64) as u64).has(i) == (0 <= i < 64 && v.has(i + 64)),
        ((v >> 64) == 0) == (forall|i: int| #[trigger] v.has(i) ==> i < 64),
{
    let h = v >> 64;
    cast_u128_u64(h);
    assert forall|i: int| #[trigger] (h as u64).has(i) == (0 <= i < 64 && v.has(i + 64)) by {
        if 0 <= i < 64 {
            let k = i as u128;
            assert((((v >> 64) >> k) & 1 == 1) == ((v >> add(k, 64)) & 1 == 1)) by (bit_vector) requires k < 64;
            assert(h.has(i) == v.has(i + 64));
        }
    }
    assert(h <= u64::MAX) by (bit_vector) requires h == v >> 64;
    iszero_u64(h as u64);
    if h == 0 {
        assert forall|i: int| #[trigger] v.has(i) implies i < 64 by {
            if i >= 64 { assert((h as u64).has(i - 64) == (0 <= i - 64 < 64 && v.has(i - 64 + 64))); }
        }
    } else {
        let k = choose|k: int| #[trigger] (h as u64).has(k);
        assert((h as u64).has(k));
        assert(v.has(k + 64));
    }
}
pub proof fn cast_usize_u64(x: usize)
    ensures forall|i: int| #![trigger (x as u64).has(i)] #![trigger x.has(i)] (x as u64).has(i) == x.has(i),
{}
}
}

#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
SET='enumset/src/set.rs'; ARR='enumset/src/repr/array.rs'; PRIM='enumset/src/repr/primitive.rs'
MOD='enumset/src/repr/mod.rs'; DER='enumset_derive/src/lib.rs'; MAC='enumset/src/macros.rs'; TR='enumset/src/traits.rs'

p('C01','Set algebra is exact',
 "For any two sets of the same enum, union, intersection, difference and symmetric difference (named methods, the operators | & - ^ and their assigning forms, with a set or a single variant on the right) contain exactly the variants the mathematical operation on their members gives. Complement (and unary !) contains exactly the declared variants that are absent from the operand. None of these operations ever introduces anything that is not a declared variant, changes an operand it only reads, or panics.",
 ['inputs','configurations'],
 "every pair of sets, of every enum (dense or sparse, any number of variants), on every storage (u8..u128 and arrays of any length)",
 "Tests combine a few fixed sets of 3-6 low variants; a fault confined to one storage width, one word of an array, or one bit position is never sampled.",
 [SET,ARR,PRIM,MOD],
 [('EnumSet::{union,intersection,difference,symmetrical_difference,complement} and operator impls',SET),
  ('ArrayRepr bitand/bitor/bitxor/not/and_not word loops',ARR),('prim! and_not',PRIM)],
 ['EnumSet methods and operators','contains() on the result','integer/array view of the result'])
p('C02','Membership updates touch exactly the named variants',
 "After inserting (removing) a variant the set contains (does not contain) it and every other variant's membership is unchanged, and the returned bool says whether membership changed for insert and whether the variant was present for remove. insert_all and remove_all add and remove exactly the members of the other set, clear empties the set, and only / From build the singleton. contains answers true exactly for members; new / empty / default have no members and all has every declared variant.",
 ['inputs','histories','configurations'],
 "every set, every variant of every enum on every storage, and therefore every sequence of updates",
 "Tests insert and remove a handful of the lowest variants; the frame condition over all other variants and word/bit boundaries (63/64, 127/128) is not sampled.",
 [SET,ARR,PRIM],
 [('EnumSet::{insert,remove,insert_all,remove_all,clear,only,contains}',SET),
  ('add_bit/remove_bit/has_bit, split_bit',ARR),('prim! add_bit/remove_bit/has_bit',PRIM)],
 ['EnumSet methods','returned bool','contains() for all variants'])
p('C03','Equality, ordering and hashing agree with membership',
 "Two sets are equal exactly when they have the same members, however each of them was produced by the safe API; a set equals a variant (in either order) exactly when it is that variant's singleton. cmp and partial_cmp agree and form a total order whose Equal case is exactly equality, so sets work as keys of ordered collections. Equal sets feed identical data to any hasher.",
 ['inputs','histories','configurations'],
 "every pair and triple of sets, on every storage, whatever safe operations built them",
 "Tests only compare sets expected to be equal and use two small collections; equality of unequal sets, order laws and stray bits after each producing operation are not explored.",
 [SET,ARR,DER],
 [('derived PartialEq/Eq, PartialOrd/Ord/Hash/PartialEq<T> impls',SET),('ArrayRepr derives',ARR),
  ('canonical-bits invariant: ALL_BITS masking in every constructor',SET),('PartialEq<EnumSet> for the enum',DER)],
 ['==, cmp, partial_cmp, hash'])
p('C04','Cardinality and set relations are exact',
 "len is the number of members and is_empty is true exactly when it is zero. is_subset, is_superset and is_disjoint hold exactly when every member of one is in the other, respectively when no variant is in both, including for empty, full and equal sets.",
 ['inputs','configurations'],
 "every pair of sets of every enum on every storage",
 "Tests evaluate these on four fixed pairs; a wrong answer needing members in different storage words or only in a high word is missed.",
 [SET,ARR,PRIM],
 [('EnumSet::{len,is_empty,is_disjoint,is_superset,is_subset}',SET),('ArrayRepr is_empty/count_ones',ARR)],
 ['EnumSet methods'])
p('C05','Iteration is complete, ordered, exact and double-ended',
 "Iterating a set yields each member exactly once, in increasing bit order from the front and decreasing from the back, under any interleaving of front and back steps; it never yields a non-member, and stays exhausted once exhausted. At every point size_hint and len give exactly the number of members still to come, and advancing an iterator affects neither the set nor clones of the iterator.",
 ['inputs','histories','configurations'],
 "every set of every enum on every storage, every interleaving of next and next_back, at every step",
 "Tests run the two pure directions on a few sets; mixed directions, array sets with empty words in between, and cloned iterators are not covered.",
 [SET,ARR,PRIM,DER],
 [('EnumSetIter next/next_back/size_hint',SET),('ArrayIter idx_f/idx_r/done cursor',ARR),
  ('PrimitiveIter next/next_back',PRIM),('generated enum_from_u32',DER)],
 ['iter(), into_iter(), next/next_back/size_hint/len, clone'])
p('C06','Checked integer conversions are exact and invertible',
 "A set's integer value (u8..u128, usize) is the sum of 1 << discriminant over its members: the try_as_* form is Some of it exactly when it fits the type, the as_* form returns it or panics when it does not fit. The try_from_* form accepts an integer exactly when every set bit belongs to a declared variant and then gives exactly that set, and from_* panics otherwise. So converting out and back is the identity in both directions.",
 ['inputs','configurations'],
 "every set and every integer value of each of the six integer types, for every storage (narrower or wider than the integer)",
 "Tests convert a few masks per type; the 6 types x all storages x all values product, and rejection of each single invalid bit, is not covered.",
 [SET,ARR,PRIM],
 [('conversion_impls!',SET),('from_*_opt/to_*_opt',ARR),('prim! from_*_opt/to_*_opt',PRIM)],
 ['as_*, try_as_*, from_*, try_from_*'])
p('C07','Truncating integer conversions drop exactly what does not fit',
 "as_*_truncated returns the low bits of the set's integer value that fit the type (u8..u128, usize) and never fails. from_*_truncated yields exactly the declared variants whose bits are set in the integer, ignoring every other bit, and never fails; from_*_unchecked agrees with it on integers whose bits are all valid.",
 ['inputs','configurations'],
 "every set and every integer value of each integer type, for every storage",
 "Tests use a couple of oversized masks per type.",
 [SET,ARR,PRIM],
 [('conversion_impls! *_truncated/*_unchecked',SET),('from_*/to_*',ARR),('prim! casts',PRIM)],
 ['as_*_truncated, from_*_truncated, from_*_unchecked'])
p('C08','Checked array and slice conversions are exact and invertible',
 "In the [u64] form, a variant with discriminant n is bit n % 64 of word n / 64 and all other bits, including all extra words of a longer buffer, are zero; try_as_array / try_copy_into_slice succeed exactly when every member fits in the given length and as_array / copy_into_slice panic otherwise. try_from_array / try_from_slice accept exactly the inputs (of any length) whose set bits all belong to declared variants and give exactly that set, and from_array / from_slice panic otherwise. Converting out and back is the identity.",
 ['inputs','configurations'],
 "every set, every array/slice length (shorter, equal, longer than the storage, zero) and every content, prior contents of the output buffer included",
 "Tests use lengths 0-5 with one or two bit patterns into zeroed buffers; stale buffer contents, high words and each invalid bit are not explored.",
 [SET,ARR,PRIM],
 [('as_array/try_as_array/from_array/try_from_array/copy_into_slice/from_slice',SET),
  ('to_u64_array_opt/from_u64_array_opt/to_u64_slice_opt/from_u64_slice_opt',ARR),('prim! array/slice methods',PRIM)],
 ['EnumSet array/slice methods','output buffer contents'])
p('C09','Truncating array and slice conversions and to_vec are exact',
 "as_array_truncated and copy_into_slice_truncated write exactly the words that fit, zero-fill the rest of the buffer and never fail; to_vec (with the alloc feature) holds the whole set and round-trips through from_slice. from_array_truncated and from_slice_truncated yield exactly the declared variants whose bits are set, ignoring everything else at any length, without failing; the unchecked forms agree with them on inputs whose bits are all valid.",
 ['inputs','configurations'],
 "every set, every buffer length and content, every storage",
 "Tests truncate two fixed patterns into zeroed arrays; to_vec and the unchecked forms are never run.",
 [SET,ARR,PRIM],
 [('as_array_truncated/copy_into_slice_truncated/from_array_truncated/from_slice_truncated/*_unchecked/to_vec',SET),
  ('to_u64_array/to_u64_slice/from_u64_array/from_u64_slice',ARR),('prim! array/slice methods',PRIM)],
 ['EnumSet array/slice methods'])
p('C10','Explicit representation is the guaranteed memory form',
 "With repr = \"u8\"..\"u128\" the in-memory form of a set is exactly that integer type (same size and alignment), with bit n set exactly when the variant with discriminant n is a member, and as_repr returns it. try_from_repr accepts exactly the values whose set bits all belong to declared variants, from_repr panics otherwise, from_repr_truncated keeps exactly the valid bits, and from_repr_unchecked is the identity on valid values.",
 ['inputs','configurations'],
 "every value of each of the five representation types and every enum annotated with it",
 "One test makes a single u16 set; rejection, truncation and the layout of the other four types are untested.",
 [SET,TR,DER],
 [('repr(transparent) EnumSet, as_repr/from_repr*/try_from_repr',SET),('EnumSetTypeWithRepr impl',DER)],
 ['as_repr/from_repr family, size_of/align_of/transmute'])
p('C11','Derived numbering matches the enum definition',
 "For every enum accepted by the derive, a variant is represented by the bit numbered with its Rust discriminant (explicit, or one more than the previous variant, in any order, whatever #[repr] the enum has), and converting a bit back gives that variant. all() has exactly the declared variants, variant_count is their number, and bit_width is one more than the largest discriminant (0 for an enum without variants). The derived comparison makes two variant values equal exactly when they are the same variant, and the derived clone returns the same variant.",
 ['programs','inputs'],
 "every enum definition the derive accepts and every variant of it",
 "Tests have about fifteen enums, mostly dense and ascending; order of explicit discriminants, boundaries and enum reprs are hardly varied.",
 [DER,SET,TR],
 [('EnumSetInfo::push_variant/variant_map/max_discrim',DER),('enum_into_u32/enum_from_u32 templates',DER),
  ('ALL_BITS/BIT_WIDTH/VARIANT_COUNT',DER)],
 ['all(), bit_width(), variant_count(), integer form of singletons, iter()'])
p('C12','The derive accepts exactly the documented enums and sizes storage to fit',
 "The derive rejects, at compile time, structs, unions, generic types, enums with a variant that carries data, discriminants that are negative, not integer literals or above 0xFFFFFFBF, and a repr or serialize_repr that is unknown or too small for the largest discriminant; it accepts every other enum of unit variants whose #[repr], if any, is an integer type, C or Rust. Whatever representation is chosen or requested, the storage has a bit for every declared discriminant, an explicit integer repr is used exactly as requested, and automatically chosen integer storage is the smallest that fits for largest discriminants below 64.",
 ['programs','configurations'],
 "every enum definition and every combination of repr / serialize_repr / discriminants",
 "trybuild has 13 rejected definitions with a few values; off-by-one at each of the size thresholds is only partly sampled.",
 [DER],
 [('EnumSetInfo::{push_variant,push_repr,push_serialize_repr,validate,internal_repr,serde_repr,supported_variants}',DER)],
 ['compile success/failure','size_of::<EnumSet<T>>()'])
p('C13','Constant macros equal the run-time operations',
 "enum_set!, enum_set_union!, enum_set_intersection!, enum_set_difference!, enum_set_complement! and enum_set_symmetric_difference! give, in constant and run-time contexts and for any number of operands, exactly the set that the corresponding run-time operations applied from left to right give, for variants and sets as operands and on every storage. The results contain declared variants only and compare equal to sets built at run time.",
 ['inputs','programs','configurations'],
 "every operand value (variant or set), every arity, every enum on integer and array storage",
 "Tests evaluate each macro on one fixed pair of constants per enum.",
 [MAC,DER,SET],
 [('enum_set*! macros',MAC),('const_only/const_union/const_intersection/const_symmetric_difference/const_complement templates (integer and array)',DER)],
 ['macro results'])
p('C14','Serialized form is as documented and round-trips',
 "With the serde feature, deserializing what was serialized gives back the same set for every serialize_repr and every default choice. Integer forms serialize as one integer of the documented type equal to the set's integer value; array as u64 words in the array representation; list as the members in increasing bit order; map as one true entry per member; and a map entry of false does not add the variant.",
 ['inputs','configurations'],
 "every set of every enum, every serialize_repr (u8..u128, array, list, map, default) combined with every storage",
 "Tests round-trip nine fixed sets of 8-variant enums in two formats.",
 [DER,SET],
 [('SerdeRepr and the serialize/deserialize templates',DER),('Serialize/Deserialize impls',SET)],
 ['data model calls made on the Serializer', 'value returned by deserialize'])
p('C15','Deserializing unknown bits follows the declared policy',
 "By default, integer and array data containing bits that belong to no declared variant (extra array words included) deserializes without error or panic to exactly the declared variants whose bits are set. With serialize_deny_unknown such data is rejected with an error, while data with only valid bits is accepted unchanged; no input ever causes a panic or a set with undeclared bits.",
 ['inputs','configurations'],
 "every integer value and every u64 sequence of any length, for every integer/array serialize_repr, every storage, with and without serialize_deny_unknown",
 "One test rejects !0u128 and one accepts it, for an 8-variant enum; array data with unknown bits and array-backed enums with the deny option are not tested at all (both were broken: see known_findings.txt).",
 [DER],
 [('check_unknown, check_extra and convert_array templates',DER)],
 ['result of deserialize'])
p('C16','Collecting, extending and summing give the union of the items',
 "Collecting an iterator of variants or of sets into a set, extending a set with one, or summing an iterator of (references to) variants or sets gives exactly the union of all items (and of the prior contents, for extend), for any number of items, repeats included, in any order; empty iterators give the empty set (or leave the set unchanged).",
 ['inputs','histories','configurations'],
 "every finite sequence of variants or sets, every prior set, every storage",
 "Tests collect one list of six items; repeats, empty input and non-empty prior contents are not combined.",
 [SET],
 [('Extend/FromIterator/Sum impls (four Sum forms)',SET)],
 ['collect/extend/sum results'])
p('C17','Debug and Display list exactly the members in order',
 "Formatting a set with Display writes the Display text of each member exactly once, in increasing bit order, separated by \" | \" and nothing else (the empty set writes nothing). Debug writes the same list using each member's Debug text between \"EnumSet(\" and \")\", and an error from the underlying writer is returned rather than swallowed.",
 ['inputs','configurations','fault_sequences'],
 "every set of every enum, every formatter, a writer failing at any point",
 "Two fixed three-member sets are formatted; the empty set, singletons and failing writers are not.",
 [SET],
 [('Debug and Display impls of EnumSet',SET)],
 ['text written, result returned'])
p('C18','Operators on bare variants equal operators on singletons',
 "For any variants and sets of an enum, the derived |, &, -, ^ with a variant on the left and a variant or set on the right, unary !, and == against a set, give exactly what the same operation gives with the left variant replaced by its singleton set.",
 ['inputs','configurations'],
 "every variant on the left, every variant or set on the right, every enum and storage",
 "Tests use fixed low variants, and never - or & with a set on the right of a variant.",
 [DER,SET],
 [('derived Sub/BitAnd/BitOr/BitXor/Not/PartialEq templates',DER),('From<T> for EnumSet<T>',SET)],
 ['operator results'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')

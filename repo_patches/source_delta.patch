From c1adda1788bff3e2d6e5ce354e4094ca18fee56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 1/9] fix: ignore unknown bits when deserializing the array
 representation

The array deserializer called EnumSet::from_array, which panics when a bit
that does not correspond to a variant is set, although unknown bits are
documented to be silently removed by default.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 51c0e5a..77f8ad2 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -581,7 +581,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 )
             } else {
                 (quote! {}, quote! {
-                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array(accum))
+                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array_truncated(accum))
                 })
             };
             quote! {
-- 
2.43.0


From 4659f7a8c730f7480be6f5ff8d4f66c9e01a0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 2/9] fix: make serialize_deny_unknown compile with the array
 serde representation

The generated visitor referred to the deserializer's type parameter, which is
not in scope there, and returned a bare EnumSet where a Result is expected.
---
 enumset_derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 77f8ad2..ffcaab0 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -566,15 +566,19 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits",
+                                )
                             )
                         }
                     },
                     quote! {
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
-                            Some(x) => x,
-                            None => #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                            #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
+                            #core::prelude::v1::None => #core::prelude::v1::Err(
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits",
+                                )
                             ),
                         }
                     },
-- 
2.43.0


From ea5d9d2ac2c45dfe7573c0e18264491748ce2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 3/9] fix: make serialize_deny_unknown compile for array-backed
 sets serialized as integers

The unknown bit check combined the deserialized integer with an ArrayRepr.
---
 enumset_derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index ffcaab0..f959530 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -441,8 +441,12 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 _ => unreachable!(),
             };
             let check_unknown = if info.serialize_deny_unknown {
+                // `all_variants` may be an `ArrayRepr`, so an integer mask is needed here.
+                let mask = Literal::u128_unsuffixed(
+                    variant_map[0] as u128 | variant_map.get(1).map_or(0, |x| (*x as u128) << 64),
+                );
                 quote! {
-                    if value & !#all_variants != 0 {
+                    if value & !#mask != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
                             D::Error::custom("enumset contains unknown bits")
-- 
2.43.0


From b4c7ee2e47e8128a5036a09c1b0f451fe799deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 4/9] fix: report a bit width of 0 for enums without variants

EnumSet::bit_width is documented to be the same as EnumSet::variant_count for
enums without sparse variants, but it returned 1 for an empty enum.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index f959530..eb166e9 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -925,7 +925,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         });
     }
 
-    let bit_width = info.max_discrim + 1;
+    let bit_width = if info.variants.is_empty() { 0 } else { info.max_discrim + 1 };
     let variant_count = info.variants.len() as u32;
     let vis = &info.vis;
     quote! {
-- 
2.43.0


From cb2e81a58c2c301e7ff3307f0af81f3831e1474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 5/9] fix: avoid name clashes between derived code and the
 user's enum

An enum named O, or S, D, A or Visitor with the serde feature, was rejected with
confusing errors because its name was shadowed by generic parameters or helper
types of the generated code; so was any enum next to a user type named Into.
---
 enumset_derive/src/lib.rs | 112 +++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index eb166e9..bf8385c 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -383,30 +383,30 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     } else {
         quote! {
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: O) -> Self::Output {
+                fn sub(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: O) -> Self::Output {
+                fn bitand(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: O) -> Self::Output {
+                fn bitor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: O) -> Self::Output {
+                fn bitxor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
@@ -449,7 +449,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     if value & !#mask != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
-                            D::Error::custom("enumset contains unknown bits")
+                            __D::Error::custom("enumset contains unknown bits")
                         )
                     }
                 }
@@ -457,16 +457,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 quote! {}
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     let value =
                         <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&set.__priv_repr);
                     #serde::Serialize::serialize(&value, ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
                     let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;
                     #check_unknown
                     let value = <#repr as #enumset::__internal::EnumSetTypeRepr>::#from_fn(value);
@@ -479,9 +479,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         SerdeRepr::List => {
             let expecting_str = format!("a list of {}", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeSeq;
                     let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -489,21 +489,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     seq.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
@@ -512,16 +512,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
         SerdeRepr::Map => {
             let expecting_str = format!("a map from {} to bool", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeMap;
                     let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -529,21 +529,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     map.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_map<A>(
-                            mut self, mut map: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::MapAccess<'de>
+                        fn visit_map<__A>(
+                            mut self, mut map: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::MapAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some((val, is_present)) =
@@ -556,7 +556,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_map(Visitor)
+                    de.deserialize_map(__Visitor)
                 }
             }
         }
@@ -570,7 +570,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits",
                                 )
                             )
@@ -580,7 +580,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
                             #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
                             #core::prelude::v1::None => #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits",
                                 )
                             ),
@@ -593,9 +593,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 })
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     // read the enum as an array
                     let array = set.as_array::<{ #preferred_size }>();
 
@@ -611,21 +611,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     // serialize the array
                     #serde::Serialize::serialize(&array[..end], ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, "a list of u64")
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = [0; #preferred_size];
 
@@ -645,7 +645,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #convert_array
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
-- 
2.43.0


From 017e35dc5a12231f9ec07394b7f0e1595260814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 6/9] fix: let enum_set!() be used without importing EnumSet

---
 enumset/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset/src/macros.rs b/enumset/src/macros.rs
index a2bfabb..32e5489 100644
--- a/enumset/src/macros.rs
+++ b/enumset/src/macros.rs
@@ -42,7 +42,7 @@ pub mod __internal {
 #[macro_export]
 macro_rules! enum_set {
     ($(|)*) => {
-        EnumSet::empty()
+        $crate::EnumSet::empty()
     };
     ($value:path $(|)*) => {
         {
-- 
2.43.0


From 10519ec680da230bd49d2ebe7f4b3428e14c69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 7/9] fix: accept variants named Repr or Output

The generated code said Self::Repr and Self::Output, which is ambiguous
(deny-by-default ambiguous_associated_items) when the enum has a variant of
that name.
---
 enumset_derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index bf8385c..c1b7f84 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -385,35 +385,35 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: __O) -> Self::Output {
+                fn sub(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: __O) -> Self::Output {
+                fn bitand(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: __O) -> Self::Output {
+                fn bitor(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: __O) -> Self::Output {
+                fn bitxor(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
             #[automatically_derived]
             impl #core::ops::Not for #name {
                 type Output = #typed_enumset;
-                fn not(self) -> Self::Output {
+                fn not(self) -> #typed_enumset {
                     !#enumset::EnumSet::only(self)
                 }
             }
@@ -955,7 +955,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 const CONST_HELPER_INSTANCE: __EnumSetConstHelper = __EnumSetConstHelper;
 
                 type Repr = #repr;
-                const ALL_BITS: Self::Repr = #all_variants;
+                const ALL_BITS: #repr = #all_variants;
                 const BIT_WIDTH: u32 = #bit_width;
                 const VARIANT_COUNT: u32 = #variant_count;
 
-- 
2.43.0


From 285496e4cef58f705f875ba9bb1bd73cf50b7846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 8/9] fix: keep the generated code independent of macros and
 traits in scope

write! and panic! could be a user's own macros, and (0..n).rev() needs
Iterator in scope, so an enum next to such a definition, or in a module
without the prelude, was not accepted.
---
 enumset_derive/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index c1b7f84..c8dc867 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -498,7 +498,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            formatter.write_str(#expecting_str)
                         }
                         fn visit_seq<__A>(
                             mut self, mut seq: __A,
@@ -538,7 +538,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            formatter.write_str(#expecting_str)
                         }
                         fn visit_map<__A>(
                             mut self, mut map: __A,
@@ -601,7 +601,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
 
                     // find the last non-zero value in the array
                     let mut end = array.len();
-                    for i in (0..array.len()).rev() {
+                    for i in #core::iter::Iterator::rev(0..array.len()) {
                         if array[i] != 0 {
                             break;
                         }
@@ -620,7 +620,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, "a list of u64")
+                            formatter.write_str("a list of u64")
                         }
                         fn visit_seq<__A>(
                             mut self, mut seq: __A,
@@ -659,10 +659,10 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     let into_impl = if is_uninhabited {
         quote! {
             fn enum_into_u32(self) -> u32 {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited."))
             }
             unsafe fn enum_from_u32(val: u32) -> Self {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited."))
             }
         }
     } else if is_zst {
@@ -717,7 +717,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     };
 
     let eq_impl = if is_uninhabited {
-        quote!(panic!(concat!(stringify!(#name), " is uninhabited.")))
+        quote!(#core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited.")))
     } else {
         quote!((*self as u32) == (*other as u32))
     };
-- 
2.43.0


From 9361cae25cb3bd6193482b5d40b6c53acce46cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:40 +0000
Subject: [PATCH 9/9] fix: accept discriminants that a macro passes on as a
 fragment

A `$x:literal` or `$x:expr` fragment reaches the derive in an invisible
group, so `enum E { A = $x }` was rejected as not being a literal.
---
 enumset_derive/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index c8dc867..3371984 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -16,6 +16,14 @@ fn error<T>(span: Span, message: impl Display) -> Result<T> {
     Err(Error::new(span, message))
 }
 
+/// Removes the invisible groups around an expression that a macro by example passed on.
+fn ungroup(expr: &Expr) -> &Expr {
+    match expr {
+        Expr::Group(group) => ungroup(&group.expr),
+        _ => expr,
+    }
+}
+
 /// Decodes the custom attributes for our custom derive.
 #[derive(FromDeriveInput, Default)]
 #[darling(attributes(enumset), default)]
@@ -206,6 +214,7 @@ impl EnumSetInfo {
         } else if let Fields::Unit = variant.fields {
             // Parse the discriminant.
             if let Some((_, expr)) = &variant.discriminant {
+                let expr = ungroup(expr);
                 if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = expr {
                     match i.base10_parse() {
                         Ok(val) => self.cur_discrim = val,
-- 
2.43.0


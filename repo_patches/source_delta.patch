From 4da471fced2295b05fa92a77a800fd25e4db9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 01/15] fix: return errors instead of panicking in
 deserialize_any, _ignored_any, _str, _bytes

---
 dlhn/src/de.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..d6967b7 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom(
+            "the format is not self-describing: deserialize_any is not supported",
+        ))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -200,11 +202,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +238,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +380,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom(
+            "the format is not self-describing: deserialize_ignored_any is not supported",
+        ))
     }
 
     #[inline]
-- 
2.43.0


From 12d3e01fdf9572b9e96f06dcf1f966b0e4ff83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 02/15] fix: read variant indices as the u32 they are written
 as

---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index d6967b7..7706454 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -373,7 +373,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From fe132ee716e54a3644008378d648b045f2af0c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 03/15] fix: refuse encoded dates whose year or ordinal
 overflows

---
 dlhn/src/date.rs        | 8 ++++----
 dlhn/src/format/date.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..d26793f 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -60,12 +60,12 @@ impl<'de> Visitor<'de> for DateVisitor {
     {
         let year = seq
             .next_element::<i32>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .and_then(|year| year.checked_add(DATE_YEAR_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .and_then(|ordinal| ordinal.checked_add(DATE_ORDINAL_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..dd7764e 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -24,12 +24,12 @@ impl<'de> Visitor<'de> for DateVisitor {
     {
         let year = seq
             .next_element::<i32>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .and_then(|year| year.checked_add(DATE_YEAR_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .and_then(|ordinal| ordinal.checked_add(DATE_ORDINAL_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From 526aa900bb9df38f72f7e6af2a8198cf2238bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 04/15] fix: refuse encoded date-times beyond the representable
 range

---
 dlhn/src/date_time.rs        | 5 +++--
 dlhn/src/format/date_time.rs | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..ced468a 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -24,8 +24,9 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
         OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+            .ok()
+            .and_then(|v| v.checked_add((self.nanosecond as i64).nanoseconds()))
+            .ok_or(())
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..2b798f7 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
-            .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+        OffsetDateTime::from_unix_timestamp(unix_timestamp)
+            .ok()
+            .and_then(|v| v.checked_add((nanosecond as i64).nanoseconds()))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))
     }
 }
 
-- 
2.43.0


From 6aa9dab01abd2c11958db9e6cb6a830f74522896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 05/15] fix: refuse headers with more entries than their count
 can hold

---
 dlhn/src/header/ser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..e47d87f 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,8 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    convert::TryFrom,
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,9 +294,13 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        let len = u16::try_from(inner.len()).or(Err(Error::new(
+            ErrorKind::InvalidInput,
+            "a header cannot have more than 65535 entries",
+        )))?;
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
-        let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
+        let size = len.encode_prefix_varint(&mut buf);
         writer.write_all(&buf[..size])?;
         for v in inner {
             v.serialize(writer)?
-- 
2.43.0


From 03c88cc8b89f7c9b01b392246ee1c7cf440c9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 06/15] fix: do not reserve memory for an array length taken
 from the input

---
 dlhn/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..846b49a 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -113,7 +113,7 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                let mut buf = Vec::new();
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
-- 
2.43.0


From ef2726a0489e9ee56b1184c41bd9f08a36f64084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 07/15] fix: do not reserve memory for header entry counts
 taken from the input

---
 dlhn/src/header/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index e0002c9..6c54ade 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -41,7 +41,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::TUPLE_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut vec = Vec::with_capacity(size as usize);
+                let mut vec = Vec::new();
                 for _ in 0..size {
                     vec.push(self.deserialize_header()?);
                 }
@@ -61,7 +61,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::ENUM_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let mut buf = Vec::new();
                 for _ in 0..size {
                     buf.push(self.deserialize_header()?);
                 }
-- 
2.43.0


From d86a2773b7b2743371b54a6df3a15f3a20dae448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 08/15] fix: read the scale after any non-empty digits of a
 decimal

---
 dlhn/src/format/big_decimal.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..11f6fd5 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,12 +21,11 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        let digits = BigInt::from_signed_bytes_le(signed_bytes.as_slice());
+        if signed_bytes.is_empty() {
             Ok(BigDecimal::from(digits))
         } else {
             Ok(BigDecimal::new(
-- 
2.43.0


From d4b5d0729b4c110f1642346639d546b1cc3d6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 09/15] fix: map keys are serialized as non-human-readable like
 everything else

---
 dlhn/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index f33e10e..3d28782 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -572,6 +572,11 @@ impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(Error::UnsupportedKeyType)
     }
+
+    #[inline]
+    fn is_human_readable(&self) -> bool {
+        false
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From cf126b7e5c648f8bc74d3b51e02a19388bc41eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 10/15] fix: honour skip attributes on the fields of enum
 variants in derived headers

---
 dlhn_derive/src/lib.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..09ddd58 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -7,7 +7,10 @@ use proc_macro::TokenStream;
 use proc_macro2::{Delimiter, Group, Span};
 use quote::{quote, ToTokens};
 use std::{slice::Iter, str::FromStr};
-use syn::{parse_macro_input, Attribute, DeriveInput, Meta, NestedMeta};
+use syn::{
+    parse_macro_input, punctuated::Punctuated, token::Comma, Attribute, DeriveInput, Field, Meta,
+    NestedMeta,
+};
 
 const TUPLE_CODE: u8 = 21;
 // const STRUCT_CODE: u8 = 22;
@@ -67,12 +70,17 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             gen.into()
         }
-        syn::Data::Enum(data) => {
+        syn::Data::Enum(mut data) => {
             let mut outers = Vec::new();
             let mut inners = Vec::new();
 
-            for variant in data.variants.iter() {
-                if has_skip_serializing_if(variant.attrs.iter()) {
+            for variant in data.variants.iter_mut() {
+                if has_skip_serializing_if(variant.attrs.iter())
+                    || variant
+                        .fields
+                        .iter()
+                        .any(|field| has_skip_serializing_if(field.attrs.iter()))
+                {
                     return syn::Error::new(
                         Span::call_site(),
                         "skip_serializing_if is not supported",
@@ -81,6 +89,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
+                match &mut variant.fields {
+                    syn::Fields::Named(fields) => retain_serialized(&mut fields.named),
+                    syn::Fields::Unnamed(fields) => retain_serialized(&mut fields.unnamed),
+                    syn::Fields::Unit => {}
+                }
+
                 if !is_skip_field(variant.attrs.iter()) {
                     if variant.fields.is_empty() {
                         outers.push(
@@ -187,6 +201,13 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     }
 }
 
+fn retain_serialized(fields: &mut Punctuated<Field, Comma>) {
+    *fields = std::mem::take(fields)
+        .into_iter()
+        .filter(|field| !is_skip_field(field.attrs.iter()))
+        .collect();
+}
+
 fn is_skip_field(mut attributes: Iter<Attribute>) -> bool {
     attributes.any(|attribute| {
         attribute.path.get_ident().map(ToString::to_string) == Some(SERDE_ATTRIBUTE.to_string())
-- 
2.43.0


From 0072c9105652e8b92163294cf6774b146fdd8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 11/15] fix: refuse to derive headers with more entries than
 their count can hold

---
 dlhn_derive/src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 09ddd58..9a570d3 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -44,6 +44,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
             }
 
+            if types.len() > usize::from(u16::MAX) {
+                return syn::Error::new(Span::call_site(), "too many fields")
+                    .to_compile_error()
+                    .into();
+            }
+
             let fields_count = (types.len() as u16)
                 .encode_prefix_varint_vec()
                 .iter()
@@ -95,6 +101,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     syn::Fields::Unit => {}
                 }
 
+                if variant.fields.len() > usize::from(u16::MAX) {
+                    return syn::Error::new(Span::call_site(), "too many fields")
+                        .to_compile_error()
+                        .into();
+                }
+
                 if !is_skip_field(variant.attrs.iter()) {
                     if variant.fields.is_empty() {
                         outers.push(
@@ -167,6 +179,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
             }
 
+            if outers.len() > usize::from(u16::MAX) {
+                return syn::Error::new(Span::call_site(), "too many variants")
+                    .to_compile_error()
+                    .into();
+            }
+
             let variants_count = (outers.len() as u16)
                 .encode_prefix_varint_vec()
                 .iter()
-- 
2.43.0


From def6a3d5cbfc3aec3a3a7e0fb9a100395d042faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 12/15] fix: refuse sequences and maps of unknown length
 instead of writing them without a count

---
 dlhn/src/big_decimal.rs        |  4 ++--
 dlhn/src/big_int.rs            |  4 ++--
 dlhn/src/big_uint.rs           |  4 ++--
 dlhn/src/format/big_decimal.rs |  4 ++--
 dlhn/src/format/big_int.rs     |  4 ++--
 dlhn/src/format/big_uint.rs    |  4 ++--
 dlhn/src/format/date_time.rs   |  4 ++--
 dlhn/src/ser.rs                | 12 ++++++------
 8 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 34fe7a7..3f87aa0 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -46,7 +46,7 @@ impl Serialize for BigDecimal {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(2)?;
 
         if self.signed_bytes == [] {
             seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/big_int.rs b/dlhn/src/big_int.rs
index 7406693..5601798 100644
--- a/dlhn/src/big_int.rs
+++ b/dlhn/src/big_int.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,7 +33,7 @@ impl Serialize for BigInt {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(1)?;
 
         seq.serialize_element(&self.0)?;
 
diff --git a/dlhn/src/big_uint.rs b/dlhn/src/big_uint.rs
index 14a84de..ca4871c 100644
--- a/dlhn/src/big_uint.rs
+++ b/dlhn/src/big_uint.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,7 +33,7 @@ impl Serialize for BigUint {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(1)?;
 
         seq.serialize_element(&self.0)?;
 
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 11f6fd5..134329d 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -4,7 +4,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -38,7 +38,7 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
 }
 
 pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(2)?;
 
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/big_int.rs b/dlhn/src/format/big_int.rs
index 7391d11..cc875b6 100644
--- a/dlhn/src/format/big_int.rs
+++ b/dlhn/src/format/big_int.rs
@@ -3,7 +3,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,7 +28,7 @@ impl<'de> Visitor<'de> for BigIntVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_int: &BigInt, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(1)?;
 
     if big_int.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/big_uint.rs b/dlhn/src/format/big_uint.rs
index 2e59501..6d1c6cc 100644
--- a/dlhn/src/format/big_uint.rs
+++ b/dlhn/src/format/big_uint.rs
@@ -3,7 +3,7 @@ use num_bigint::BigUint;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,7 +28,7 @@ impl<'de> Visitor<'de> for BigUintVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_uint: &BigUint, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(1)?;
 
     if big_uint.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 2b798f7..2ecf2af 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -1,7 +1,7 @@
 use crate::de::Error;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 use time::{ext::NumericalDuration, OffsetDateTime};
@@ -36,7 +36,7 @@ pub fn serialize<T: Serializer>(
     date_time: &OffsetDateTime,
     serializer: T,
 ) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(2)?;
     seq.serialize_element(&date_time.unix_timestamp())?;
     seq.serialize_element(&date_time.time().nanosecond())?;
     seq.end()
diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index 3d28782..a3dec1b 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -203,9 +203,9 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        let len =
+            len.ok_or_else(|| ser::Error::custom("a sequence of unknown length is not supported"))?;
+        len.serialize(&mut *self)?;
         Ok(self)
     }
 
@@ -233,9 +233,9 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        let len =
+            len.ok_or_else(|| ser::Error::custom("a map of unknown length is not supported"))?;
+        len.serialize(&mut *self)?;
         Ok(self)
     }
 
-- 
2.43.0


From 5faac27cf82b12f62af1ad5b7eeb8bdc068d45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 13/15] fix: describe the field of a derived newtype struct
 that is marked to be skipped

---
 dlhn_derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 9a570d3..42e478d 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -28,6 +28,9 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     match item.data {
         syn::Data::Struct(data) => {
             let mut types = Vec::new();
+            // serde serializes the field of a newtype struct even if it is marked to be skipped
+            let is_newtype =
+                matches!(&data.fields, syn::Fields::Unnamed(fields) if fields.unnamed.len() == 1);
 
             for field in data.fields.iter() {
                 if has_skip_serializing_if(field.attrs.iter()) {
@@ -39,7 +42,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
-                if !is_skip_field(field.attrs.iter()) {
+                if is_newtype || !is_skip_field(field.attrs.iter()) {
                     types.push(field.ty.to_token_stream());
                 }
             }
-- 
2.43.0


From a3cd4b6decf3a0af94f3efce259f6ba900a7565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:54 +0000
Subject: [PATCH 14/15] fix: refuse to derive headers for untagged and
 internally tagged representations

---
 dlhn_derive/src/lib.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 42e478d..726bfec 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -19,12 +19,28 @@ const SERDE_ATTRIBUTE: &str = "serde";
 const SKIP_ATTRIBUTE: &str = "skip";
 const SKIP_SERIALIZING_ATTRIBUTE: &str = "skip_serializing";
 const SKIP_SERIALIZING_IF_ATTRIBUTE: &str = "skip_serializing_if";
+const TAG_ATTRIBUTE: &str = "tag";
+const CONTENT_ATTRIBUTE: &str = "content";
+const UNTAGGED_ATTRIBUTE: &str = "untagged";
 
 #[proc_macro_derive(SerializeHeader, attributes(serde))]
 pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     let item = parse_macro_input!(input as DeriveInput);
     let type_name = item.ident;
 
+    // an adjacently tagged enum is encoded like an externally tagged one
+    if has_attribute(item.attrs.iter(), UNTAGGED_ATTRIBUTE)
+        || (has_attribute(item.attrs.iter(), TAG_ATTRIBUTE)
+            && !has_attribute(item.attrs.iter(), CONTENT_ATTRIBUTE))
+    {
+        return syn::Error::new(
+            Span::call_site(),
+            "untagged and internally tagged representations are not supported",
+        )
+        .to_compile_error()
+        .into();
+    }
+
     match item.data {
         syn::Data::Struct(data) => {
             let mut types = Vec::new();
@@ -98,6 +114,15 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
+                if has_attribute(variant.attrs.iter(), UNTAGGED_ATTRIBUTE) {
+                    return syn::Error::new(
+                        Span::call_site(),
+                        "untagged variants are not supported",
+                    )
+                    .to_compile_error()
+                    .into();
+                }
+
                 match &mut variant.fields {
                     syn::Fields::Named(fields) => retain_serialized(&mut fields.named),
                     syn::Fields::Unnamed(fields) => retain_serialized(&mut fields.unnamed),
@@ -261,3 +286,16 @@ fn has_skip_serializing_if(mut attributes: Iter<Attribute>) -> bool {
             }
     })
 }
+
+fn has_attribute(mut attributes: Iter<Attribute>, name: &str) -> bool {
+    attributes.any(|attribute| {
+        attribute.path.is_ident(SERDE_ATTRIBUTE)
+            && match attribute.parse_meta() {
+                Ok(Meta::List(v)) => v.nested.iter().any(|v| match v {
+                    NestedMeta::Meta(v) => v.path().is_ident(name),
+                    _ => false,
+                }),
+                _ => false,
+            }
+    })
+}
-- 
2.43.0


From 7dca94cdcd7fd3c2a6011d620974f032141257e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:54 +0000
Subject: [PATCH 15/15] fix: derive the header of the type that serde converts
 into

---
 dlhn_derive/src/lib.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 726bfec..13835c2 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -8,8 +8,8 @@ use proc_macro2::{Delimiter, Group, Span};
 use quote::{quote, ToTokens};
 use std::{slice::Iter, str::FromStr};
 use syn::{
-    parse_macro_input, punctuated::Punctuated, token::Comma, Attribute, DeriveInput, Field, Meta,
-    NestedMeta,
+    parse_macro_input, punctuated::Punctuated, token::Comma, Attribute, DeriveInput, Field, Lit,
+    Meta, NestedMeta, Type,
 };
 
 const TUPLE_CODE: u8 = 21;
@@ -22,12 +22,26 @@ const SKIP_SERIALIZING_IF_ATTRIBUTE: &str = "skip_serializing_if";
 const TAG_ATTRIBUTE: &str = "tag";
 const CONTENT_ATTRIBUTE: &str = "content";
 const UNTAGGED_ATTRIBUTE: &str = "untagged";
+const INTO_ATTRIBUTE: &str = "into";
 
 #[proc_macro_derive(SerializeHeader, attributes(serde))]
 pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     let item = parse_macro_input!(input as DeriveInput);
     let type_name = item.ident;
 
+    // what serde encodes is the type the value is converted into
+    if let Some(into) = into_type(item.attrs.iter()) {
+        let gen = quote! {
+            impl dlhn::header::ser::SerializeHeader for #type_name {
+                fn serialize_header<W: std::io::Write>(writer: &mut W) -> std::io::Result<()> {
+                    <#into>::serialize_header(writer)
+                }
+            }
+        };
+
+        return gen.into();
+    }
+
     // an adjacently tagged enum is encoded like an externally tagged one
     if has_attribute(item.attrs.iter(), UNTAGGED_ATTRIBUTE)
         || (has_attribute(item.attrs.iter(), TAG_ATTRIBUTE)
@@ -299,3 +313,24 @@ fn has_attribute(mut attributes: Iter<Attribute>, name: &str) -> bool {
             }
     })
 }
+
+fn into_type(mut attributes: Iter<Attribute>) -> Option<Type> {
+    attributes.find_map(|attribute| {
+        if !attribute.path.is_ident(SERDE_ATTRIBUTE) {
+            return None;
+        }
+
+        match attribute.parse_meta() {
+            Ok(Meta::List(v)) => v.nested.iter().find_map(|v| match v {
+                NestedMeta::Meta(Meta::NameValue(v)) if v.path.is_ident(INTO_ATTRIBUTE) => {
+                    match &v.lit {
+                        Lit::Str(v) => v.parse().ok(),
+                        _ => None,
+                    }
+                }
+                _ => None,
+            }),
+            _ => None,
+        }
+    })
+}
-- 
2.43.0


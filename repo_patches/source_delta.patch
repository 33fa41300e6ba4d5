From 061f640dc4c92f434c052066bb9c35f8cb943994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 01/45] fix: check the length of BOOLEAN contents before
 reading them in DER constraints

---
 src/asn1_types/boolean.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/boolean.rs b/src/asn1_types/boolean.rs
index e23d8fd..9db1a9f 100644
--- a/src/asn1_types/boolean.rs
+++ b/src/asn1_types/boolean.rs
@@ -74,7 +74,10 @@ impl<'i> DerParser<'i> for Boolean {
 
 impl CheckDerConstraints for Boolean {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
@@ -135,7 +138,10 @@ impl_tryfrom_any!(bool);
 
 impl CheckDerConstraints for bool {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
-- 
2.43.0


From e37dae02c902040f4f77ec3290d76289341f1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 02/45] fix: reject REAL exponents that overflow and read the
 REAL mantissa as unsigned

---
 src/asn1_types/real.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f28c756..4e7428e 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -258,9 +258,13 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             // base 2
             0 => e,
             // base 8
-            1 => e * 3,
+            1 => e.checked_mul(3).ok_or_else(|| {
+                InnerError::invalid_value(header.tag, "Exponent too large (REAL)")
+            })?,
             // base 16
-            2 => e * 4,
+            2 => e.checked_mul(4).ok_or_else(|| {
+                InnerError::invalid_value(header.tag, "Exponent too large (REAL)")
+            })?,
             _ => return Err(InnerError::invalid_value(header.tag, "Illegal REAL base")),
         };
         if rem.len() > 8 {
@@ -269,12 +273,11 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
                 "Mantissa too large (REAL)",
             ));
         }
+        // the mantissa is an unsigned integer, the sign is encoded in the first octet
         let mut p = 0;
         for b in rem {
-            p = (p << 8) | (*b as i64);
+            p = (p << 8) | (*b as u64);
         }
-        // sign bit
-        let p = if first & 0x40 != 0 { -p } else { p };
         // scale bits
         let sf = (first >> 2) & 0x03;
         let p = match sf {
@@ -285,6 +288,8 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
                 (p as f64) * scale
             }
         };
+        // sign bit
+        let p = if first & 0x40 != 0 { -p } else { p };
         Ok(Real::Binary {
             mantissa: p,
             base: 2,
-- 
2.43.0


From ffe934b74386ff628e0ac8c266467d00e331c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 03/45] fix: BmpString and UniversalString: decode constructed
 (not primitive) contents as segments

---
 src/asn1_types/strings/bmpstring.rs       | 2 +-
 src/asn1_types/strings/universalstring.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index c53ee4f..7b7b76f 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for BmpString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 3da718c..ce40d2c 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for UniversalString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
-- 
2.43.0


From c366da21a627c3f0d34a836baa1f0f1289f1c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 04/45] fix: UniversalString: content length counts characters,
 not UTF-8 bytes

---
 src/asn1_types/strings/universalstring.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index ce40d2c..88d7280 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -137,7 +137,7 @@ const _: () = {
 
         fn ber_content_len(&self) -> Length {
             // UCS-4: 4 bytes per character
-            let sz = self.data.len() * 4;
+            let sz = self.data.chars().count() * 4;
             Length::Definite(sz)
         }
 
@@ -145,7 +145,7 @@ const _: () = {
             self.data
                 .chars()
                 .try_for_each(|c| target.write_all(&(c as u32).to_be_bytes()[..]))?;
-            Ok(self.data.len() * 4)
+            Ok(self.data.chars().count() * 4)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From 949c9fd56c8dc99fb0daefbe171b8c81401782e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 05/45] fix: length of the length field for contents of 16 MB
 and more

---
 src/to_ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index fb6482b..932178a 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -174,8 +174,10 @@ pub fn ber_length_length(length: Length) -> Result<usize, InnerError> {
             0..=0x7f => Ok(1),
             0x80..=0xff => Ok(2),
             0x100..=0xffff => Ok(3),
-            0x1_0000..=0xffff_ffff => Ok(4),
-            _ => Err(InnerError::InvalidLength),
+            0x1_0000..=0xff_ffff => Ok(4),
+            0x100_0000..=0xffff_ffff => Ok(5),
+            // first byte, then as many bytes as required for the value
+            l => Ok(1 + ((usize::BITS - l.leading_zeros() + 7) / 8) as usize),
         },
     }
 }
-- 
2.43.0


From cd158f6e75abe5ef638ddc261c981034ce1ea580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 06/45] fix: reject tag numbers that do not fit 32 bits

---
 src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 1be4e9a..387a246 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -522,6 +522,11 @@ pub(crate) fn parse_header(
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
 
+            // the most significant bits must not be lost
+            if c > (u32::MAX >> 7) {
+                return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+            }
+
             c = (c << 7) | (u32::from(b) & 0x7f);
             let done = b & 0x80 == 0;
             tag_byte_count += 1;
-- 
2.43.0


From 9d9605ee347471f557c146079af517328bc4d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:48 +0000
Subject: [PATCH 07/45] fix: BIT STRING: check that padding bits are zero in
 parse_der

---
 src/asn1_types/bitstring.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index f7e93f6..c2fbf77 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -136,6 +136,17 @@ impl<'i> DerParser<'i> for BitString {
         // Encoding shall be primitive (X.690: 10.2)
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
+        // Check that padding bits are all 0 (X.690 section 11.2.1)
+        let (_, data) = ber_get_content(header, input.clone())?;
+        if let [unused_bits, .., last_byte] = data.as_bytes2() {
+            if last_byte.trailing_zeros() < u32::from(*unused_bits) {
+                return Err(BerError::nom_err_input(
+                    &data,
+                    InnerError::DerConstraintFailed(DerConstraint::UnusedBitsNotZero),
+                ));
+            }
+        }
+
         <BitString>::from_ber_content(header, input)
     }
 }
-- 
2.43.0


From 340497e314297530344ca07008ed4a97eac22800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:18 +0000
Subject: [PATCH 08/45] fix: Option<T> content decoders must not extract the
 content a second time

parse_ber of an optional object with an indefinite length always failed, and parse_der used the BER rules to delimit the content
---
 src/asn1_types/optional.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 49cb61a..85ce1bf 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -70,9 +70,7 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_ber_content(header, data).map_err(Err::convert)?;
+        let (rem, obj) = T::from_ber_content(header, input).map_err(Err::convert)?;
         Ok((rem, Some(obj)))
     }
 }
@@ -100,7 +98,7 @@ where
             }
             // NOTE: end
             let (rem, data) =
-                BerMode::get_object_content(&header, rem, MAX_RECURSION).map_err(Err::convert)?;
+                DerMode::get_object_content(&header, rem, MAX_RECURSION).map_err(Err::convert)?;
             let (_, obj) = Self::from_der_content(&header, data).map_err(Err::convert)?;
             Ok((rem, obj))
         })(input)
@@ -114,9 +112,7 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_der_content(header, data).map_err(Err::convert)?;
+        let (rem, obj) = T::from_der_content(header, input).map_err(Err::convert)?;
         Ok((rem, Some(obj)))
     }
 }
-- 
2.43.0


From 42fde25cb701dfab385586ac3029067636fba878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 09/45] fix: VisibleString must not accept DEL (0x7f)

---
 src/asn1_types/strings/visiblestring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/visiblestring.rs b/src/asn1_types/strings/visiblestring.rs
index 13c6ca8..9112561 100644
--- a/src/asn1_types/strings/visiblestring.rs
+++ b/src/asn1_types/strings/visiblestring.rs
@@ -9,7 +9,7 @@ impl TestValidCharset for VisibleString<'_> {
     fn test_valid_charset(i: &[u8]) -> Result<()> {
         #[allow(clippy::trivially_copy_pass_by_ref)]
         fn is_visible(b: &u8) -> bool {
-            0x20 <= *b && *b <= 0x7f
+            0x20 <= *b && *b <= 0x7e
         }
         if !i.iter().all(is_visible) {
             return Err(Error::StringInvalidCharset);
-- 
2.43.0


From 196e1fec2dfc4b82d2f448a83ec7834c060d9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 10/45] fix: BmpString must reject contents with an odd number
 of bytes

---
 src/asn1_types/strings/bmpstring.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index 7b7b76f..9f72413 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -70,6 +70,14 @@ impl<'i> BerParser<'i> for BmpString<'i> {
             (rem, s)
         };
 
+        // each character is encoded using two octets (X.690: 8.23.7)
+        if data.len() % 2 != 0 {
+            return Err(BerError::nom_err_input(
+                &rem,
+                InnerError::StringInvalidCharset,
+            ));
+        }
+
         // read slice as big-endian UTF-16 string
         let v = data
             .as_ref()
-- 
2.43.0


From bf53a15f2ed9fd6c9de807b0a9c2c316d8bf5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 11/45] fix: Any::iter_elements must use the requested encoding
 rules

---
 src/asn1_types/any.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 8c4285f..688f12c 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -137,8 +137,8 @@ impl<'a> Any<'a> {
     ///
     /// This makes sense only if `Self` is constructed, but the constructed bit is
     /// _not_ checked by this function.
-    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, BerMode> {
-        AnyIterator::<BerMode>::new(self.data.clone())
+    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, Mode> {
+        AnyIterator::<Mode>::new(self.data.clone())
     }
 }
 
-- 
2.43.0


From ed3934ebc370cebc9ecec3c2aded337acb197a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 12/45] fix: SequenceIteratorInput must check the tag of items

---
 src/asn1_types/sequence/iterator.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 122867b..3fe33f8 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -142,6 +142,12 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => Some(Err(BerError::unexpected_tag(
+                any.data,
+                None,
+                any.header.tag,
+            )
+            .into())),
             Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
@@ -173,6 +179,12 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => Some(Err(BerError::unexpected_tag(
+                any.data,
+                None,
+                any.header.tag,
+            )
+            .into())),
             Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
-- 
2.43.0


From c64ab9ebc964a927e9813a84cc79e27d108b043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 13/45] fix: reject long-form tags with a leading zero group

---
 src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 387a246..4ed379a 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -527,6 +527,11 @@ pub(crate) fn parse_header(
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
 
+            // bits 7 to 1 of the first subsequent octet shall not all be zero (X.690: 8.1.2.4.2)
+            if tag_byte_count == 1 && b == 0x80 {
+                return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+            }
+
             c = (c << 7) | (u32::from(b) & 0x7f);
             let done = b & 0x80 == 0;
             tag_byte_count += 1;
-- 
2.43.0


From 96447fc42c49a6224b3addc1e46015b90e4a3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 14/45] fix: only the octets 00 00 mark the end of an
 indefinite-length object

An empty object with another class (like 80 00) was taken as the end of contents, and the content was truncated by two bytes when the end was written in a longer form
---
 src/ber/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a12a84e..ab29435 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -93,7 +93,9 @@ fn ber_skip_object_content<'a>(
     }
     match hdr.length {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag == Tag::EndOfContent {
+            // only the universal, primitive object with tag 0 marks the end of contents
+            // (an empty object with a tag like `[0]` does not)
+            if l == 0 && hdr.tag == Tag::EndOfContent && hdr.is_universal() && hdr.is_primitive() {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
@@ -106,9 +108,13 @@ fn ber_skip_object_content<'a>(
             // this is recursive
             let mut i = i;
             loop {
-                let (i2, header2) = Header::parse_ber(i)?;
+                let (i2, header2) = Header::parse_ber(i.clone())?;
                 let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 if eoc {
+                    // end-of-contents octets are exactly two zero octets (X.690: 8.1.5)
+                    if i3.span().start - i.span().start != 2 {
+                        return Err(BerError::nom_err_input(&i, InnerError::InvalidLength));
+                    }
                     // return false, since top object was not EndOfContent
                     return Ok((i3, false));
                 }
-- 
2.43.0


From b9308e91cff7b8068f09d4594979b3e4a6dab513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 15/45] fix: tuples must reject primitive encodings

---
 src/asn1_types/sequence/tuple.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/sequence/tuple.rs b/src/asn1_types/sequence/tuple.rs
index f6f6b35..959849f 100644
--- a/src/asn1_types/sequence/tuple.rs
+++ b/src/asn1_types/sequence/tuple.rs
@@ -16,9 +16,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_ber_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_ber(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
@@ -35,9 +39,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_der_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_der(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
-- 
2.43.0


From 7d88a7c5e3a4d7a5f5cb4bb6fdf6b6a160e5e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 16/45] fix: check the primitive/constructed form of EMBEDDED
 PDV and end-of-contents

---
 src/asn1_types/embedded_pdv.rs   | 7 ++++++-
 src/asn1_types/end_of_content.rs | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 364fab3..0821448 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -43,9 +43,14 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
     type Error = BerError<Input<'i>>;
 
     fn from_ber_content(
-        _header: &'_ Header<'i>,
+        header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
+        // Encoding shall be constructed (X.690: 8.17)
+        header
+            .assert_constructed_input(&input)
+            .map_err(Err::Error)?;
+
         // AUTOMATIC TAGS means all values will be tagged (IMPLICIT)
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
diff --git a/src/asn1_types/end_of_content.rs b/src/asn1_types/end_of_content.rs
index df114c9..18db401 100644
--- a/src/asn1_types/end_of_content.rs
+++ b/src/asn1_types/end_of_content.rs
@@ -34,6 +34,8 @@ impl<'i> BerParser<'i> for EndOfContent {
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
+        // X.690 section 8.1.5: the octets are 00 00 (primitive, zero-length)
+        header.assert_primitive_input(&input).map_err(Err::Error)?;
         if !header.length.is_null() {
             return Err(Err::Error(BerError::new(input, InnerError::InvalidLength)));
         }
-- 
2.43.0


From 23da790773f7707eac37d4b2c720dd7f9d3c9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:39 +0000
Subject: [PATCH 17/45] fix: Vec, SequenceOf and SetOf from_der must reject
 primitive encodings

---
 src/asn1_types/sequence/sequence_of.rs | 3 +++
 src/asn1_types/sequence/vec.rs         | 3 +++
 src/asn1_types/set/set_of.rs           | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/asn1_types/sequence/sequence_of.rs b/src/asn1_types/sequence/sequence_of.rs
index 6814286..a210858 100644
--- a/src/asn1_types/sequence/sequence_of.rs
+++ b/src/asn1_types/sequence/sequence_of.rs
@@ -185,6 +185,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index 1a67883..095d011 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -166,6 +166,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let v = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 396fc87..c4375ef 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -187,6 +187,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SetIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
-- 
2.43.0


From 22bac699362b3a7f8fb3886ebd5a08e3d26d4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:41 +0000
Subject: [PATCH 18/45] fix: INTEGER and ENUMERATED must reject empty contents

---
 src/asn1_types/integer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index ffc581e..bfd1423 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -41,6 +41,10 @@ fn trim_slice(bytes: &[u8]) -> &[u8] {
 /// Decode an unsigned integer into a byte array of the requested size
 /// containing a big endian integer.
 fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+    if bytes.is_empty() {
+        return Err(Error::InvalidLength);
+    }
     if is_highest_bit_set(bytes) {
         return Err(Error::IntegerNegative);
     }
@@ -61,6 +65,10 @@ fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn decode_array_int<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+    if bytes.is_empty() {
+        return Err(Error::InvalidLength);
+    }
     if bytes.len() > N {
         return Err(Error::IntegerTooLarge);
     }
-- 
2.43.0


From 8f742306fd6d1a8cfee8e619b0e24101f6f5b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:41 +0000
Subject: [PATCH 19/45] fix: length of the REAL exponent (long form when
 decoding, sign bit when encoding)

---
 src/asn1_types/real.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 4e7428e..f5b2762 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -213,7 +213,8 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         // binary encoding (X.690 section 8.5.6)
         // format of exponent
         let (n, rem) = match first & 0x03 {
-            4 => {
+            // the number of exponent octets is encoded in the second octet
+            3 => {
                 let (b, rem) = rem
                     .split_first()
                     .ok_or_else(|| Error::Incomplete(Needed::new(1)))?;
@@ -221,13 +222,12 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             }
             b => (b as usize + 1, rem),
         };
-        if n >= rem.len() {
+        if n == 0 || n >= rem.len() {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Invalid float value(exponent)",
             ));
         }
-        // n cannot be 0 (see the +1 above)
         let (eo, rem) = rem.split_at(n);
         // so 'eo' cannot be empty
         let mut e = if eo[0] & 0x80 != 0 { -1 } else { 0 };
@@ -428,10 +428,11 @@ const _: () = {
                     }
                     first |= sf << 2;
                     // exponent length and bytes
-                    let len_e = match e.abs() {
-                        0..=0xff => 1,
-                        0x100..=0xffff => 2,
-                        0x1_0000..=0xff_ffff => 3,
+                    // (the exponent is encoded as a signed number)
+                    let len_e = match e {
+                        -0x80..=0x7f => 1,
+                        -0x8000..=0x7fff => 2,
+                        -0x80_0000..=0x7f_ffff => 3,
                         // e is an `i32` so it can't be longer than 4 bytes
                         // use 4, so `first` is ORed with 3
                         _ => 4,
-- 
2.43.0


From 8628ccdc88042e10724f62c907841654a7278787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:53 +0000
Subject: [PATCH 20/45] fix: OID: reject truncated and non-minimal
 sub-identifiers

---
 src/asn1_types/oid.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8f83713..39255e3 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -59,7 +59,27 @@ impl<'i> BerParser<'i> for Oid<'i> {
         }
 
         let (rem, data) = input.take_split(input.len());
-        Ok((rem, Oid::new(Cow::Borrowed(data.as_bytes2()))))
+        let bytes = data.as_bytes2();
+
+        // The last octet of a sub-identifier has bit 8 clear, and its first octet is not 0x80 (X.690: 8.19.2)
+        let mut start = true;
+        for &b in bytes {
+            if start && b == 0x80 {
+                return Err(BerError::nom_err_input(
+                    &data,
+                    InnerError::invalid_value(Tag::Oid, "Invalid sub-identifier"),
+                ));
+            }
+            start = b & 0x80 == 0;
+        }
+        if !start {
+            return Err(BerError::nom_err_input(
+                &data,
+                InnerError::invalid_value(Tag::Oid, "Invalid sub-identifier"),
+            ));
+        }
+
+        Ok((rem, Oid::new(Cow::Borrowed(bytes))))
     }
 }
 
-- 
2.43.0


From af2f710d5256a79028c8fb95418de153d88b3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:53 +0000
Subject: [PATCH 21/45] fix: RELATIVE-OID is decoded as a relative Oid

---
 src/asn1_types/oid.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 39255e3..bfd37aa 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -79,7 +79,12 @@ impl<'i> BerParser<'i> for Oid<'i> {
             ));
         }
 
-        Ok((rem, Oid::new(Cow::Borrowed(bytes))))
+        let oid = if header.tag() == Tag::RelativeOid {
+            Oid::new_relative(Cow::Borrowed(bytes))
+        } else {
+            Oid::new(Cow::Borrowed(bytes))
+        };
+        Ok((rem, oid))
     }
 }
 
-- 
2.43.0


From 01eae2c5791a34cbcd3d25c932c17107babe0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:11 +0000
Subject: [PATCH 22/45] fix: UTCTime and GeneralizedTime without seconds may
 have a time differential

---
 src/asn1_types/generalizedtime.rs | 2 ++
 src/asn1_types/utctime.rs         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 949c6f8..093f179 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -45,6 +45,8 @@ impl GeneralizedTime {
         }
         // check for seconds
         let (second, rem) = match rem {
+            // no seconds, local time differential
+            [b'+' | b'-', ..] => (0, rem),
             [sec1, sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index e45b9b3..6fdcf2e 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -41,6 +41,8 @@ impl UtcTime {
         }
         // check for seconds
         let (second, rem) = match rem {
+            // no seconds, local time differential
+            [b'+' | b'-', ..] => (0, rem),
             [sec1, sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
-- 
2.43.0


From 8d29c4a580a7bc132028bba1d2336c1efe8e6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:20 +0000
Subject: [PATCH 23/45] fix: UTCTime and GeneralizedTime: month and day start
 at 1

---
 src/asn1_types/generalizedtime.rs | 7 ++++++-
 src/asn1_types/utctime.rs         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 093f179..ab0f111 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -53,7 +53,12 @@ impl GeneralizedTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             // eprintln!("GeneralizedTime: time checks failed");
             // eprintln!(" month:{}", month);
             // eprintln!(" day:{}", day);
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 6fdcf2e..afcf5ab 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -49,7 +49,12 @@ impl UtcTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             return Err(Self::TAG.invalid_value("time components with invalid values"));
         }
         if rem.is_empty() {
-- 
2.43.0


From ad43887cf5f697c9f3a9a59db88de3aa03be2356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:35 +0000
Subject: [PATCH 24/45] fix: time differentials: check the range, keep the sign
 when less than one hour

---
 src/asn1_types/generalizedtime.rs | 20 ++++++++++++--------
 src/asn1_types/utctime.rs         | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index ab0f111..445cae8 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -146,15 +146,18 @@ impl GeneralizedTime {
         }
         let tz = match rem {
             [b'Z'] => ASN1TimeZone::Z,
-            [b'+', h1, h2, m1, m2] => {
+            [sign @ (b'+' | b'-'), h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
-            }
-            [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                if hh > 23 || mm > 59 {
+                    return Err(Self::TAG.invalid_value("time zone with invalid values"));
+                }
+                match (*sign, hh) {
+                    (b'+', _) => ASN1TimeZone::Offset(hh as i8, mm as i8),
+                    // less than one hour: the sign is carried by the minutes
+                    (_, 0) => ASN1TimeZone::Offset(0, -(mm as i8)),
+                    _ => ASN1TimeZone::Offset(-(hh as i8), mm as i8),
+                }
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -274,7 +277,8 @@ impl fmt::Display for GeneralizedTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}{:02}{:02}",
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index afcf5ab..61a85cb 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -62,15 +62,18 @@ impl UtcTime {
         }
         let tz = match rem {
             [b'Z'] => ASN1TimeZone::Z,
-            [b'+', h1, h2, m1, m2] => {
+            [sign @ (b'+' | b'-'), h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
-            }
-            [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                if hh > 23 || mm > 59 {
+                    return Err(Self::TAG.invalid_value("time zone with invalid values"));
+                }
+                match (*sign, hh) {
+                    (b'+', _) => ASN1TimeZone::Offset(hh as i8, mm as i8),
+                    // less than one hour: the sign is carried by the minutes
+                    (_, 0) => ASN1TimeZone::Offset(0, -(mm as i8)),
+                    _ => ASN1TimeZone::Offset(-(hh as i8), mm as i8),
+                }
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -207,7 +210,8 @@ impl fmt::Display for UtcTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{:02}{:02}",
-- 
2.43.0


From e48c7278a971b3581ad853ed925406dba8452e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:42 +0000
Subject: [PATCH 25/45] fix: GeneralizedTime: milliseconds are written as a
 decimal fraction

---
 src/asn1_types/generalizedtime.rs | 19 ++++---------------
 src/datetime.rs                   | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 445cae8..0217725 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -1,7 +1,5 @@
+use crate::datetime::fractional_seconds;
 use crate::*;
-use alloc::format;
-#[cfg(not(feature = "std"))]
-use alloc::string::String;
 use core::fmt;
 use nom::{AsBytes, Input as _};
 #[cfg(feature = "datetime")]
@@ -261,10 +259,7 @@ impl<'i> DerParser<'i> for GeneralizedTime {
 impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
-        let fsec = match self.0.millisecond {
-            Some(v) => format!(".{v}"),
-            None => String::new(),
-        };
+        let fsec = fractional_seconds(dt.millisecond);
         match dt.tz {
             ASN1TimeZone::Undefined => write!(
                 f,
@@ -325,19 +320,13 @@ const _: () = {
             // - (variable) the fractional part, without trailing zeros, with a point "."
             // - 1 for the character Z in DER (X.690 section 11.7.1)
             // data length: 15 + fractional part
-            let num_digits = match self.0.millisecond {
-                None => 0,
-                Some(v) => 1 + v.to_string().len(),
-            };
+            let num_digits = fractional_seconds(self.0.millisecond).len();
 
             Length::Definite(15 + num_digits)
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = match self.0.millisecond {
-                None => "".to_string(),
-                Some(v) => format!(".{v}"),
-            };
+            let fractional = fractional_seconds(self.0.millisecond);
             let num_digits = fractional.len();
             write!(
                 target,
diff --git a/src/datetime.rs b/src/datetime.rs
index 03f5a1d..4ab8605 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1,7 +1,7 @@
 use crate::{Result, Tag};
 use alloc::format;
 #[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use alloc::string::{String, ToString};
 use core::fmt;
 #[cfg(feature = "datetime")]
 use time::OffsetDateTime;
@@ -87,10 +87,7 @@ impl ASN1DateTime {
 
 impl fmt::Display for ASN1DateTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let fractional = match self.millisecond {
-            None => "".to_string(),
-            Some(v) => format!(".{v}"),
-        };
+        let fractional = fractional_seconds(self.millisecond);
         write!(
             f,
             "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
@@ -99,6 +96,14 @@ impl fmt::Display for ASN1DateTime {
     }
 }
 
+/// Fractional part of the seconds: decimal point and digits, without trailing zeros (X.690: 11.7.3)
+pub(crate) fn fractional_seconds(millisecond: Option<u16>) -> String {
+    match millisecond {
+        None | Some(0) => String::new(),
+        Some(v) => format!(".{v:03}").trim_end_matches('0').to_string(),
+    }
+}
+
 /// Decode 2-digit decimal value
 pub(crate) fn decode_decimal(tag: Tag, hi: u8, lo: u8) -> Result<u8> {
     if hi.is_ascii_digit() && lo.is_ascii_digit() {
-- 
2.43.0


From 1e7c1ea878d0f277e193e667abe20b9fd21d3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 26/45] fix: GeneralizedTime: a decimal mark requires at least
 one digit

---
 src/asn1_types/generalizedtime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 0217725..bf36b37 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -105,7 +105,8 @@ impl GeneralizedTime {
                             // cannot overflow, max 4 digits will be read
                             fsecond = fsecond * 10 + (rem[0] - b'0') as u16;
                         }
-                        b'Z' | b'+' | b'-' => {
+                        // at least one digit is required after dot or comma
+                        b'Z' | b'+' | b'-' if idx > 0 => {
                             digits = idx;
                             break;
                         }
-- 
2.43.0


From 4efbecdb9374aa2f93263746b3284bd51560005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:32 +0000
Subject: [PATCH 27/45] fix: Option: tag information is that of the value
 inside, an absent value has length 0

---
 src/asn1_types/optional.rs | 47 +++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 85ce1bf..237ed26 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -152,11 +152,24 @@ impl<T> DynTagged for Option<T>
 where
     T: DynTagged,
 {
+    fn class(&self) -> Class {
+        match self {
+            Some(t) => t.class(),
+            None => Class::Universal,
+        }
+    }
+
+    fn constructed(&self) -> bool {
+        match self {
+            Some(t) => t.constructed(),
+            None => false,
+        }
+    }
+
     fn tag(&self) -> Tag {
-        if self.is_some() {
-            self.tag()
-        } else {
-            Tag(0)
+        match self {
+            Some(t) => t.tag(),
+            None => Tag(0),
         }
     }
 
@@ -182,6 +195,14 @@ const _: () = {
             }
         }
 
+        fn ber_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.ber_total_len(),
+                // nothing is written
+                None => Length::Definite(0),
+            }
+        }
+
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.ber_write_content(target),
@@ -190,7 +211,10 @@ const _: () = {
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.ber_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
         }
 
         fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -214,6 +238,14 @@ const _: () = {
             }
         }
 
+        fn der_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.der_total_len(),
+                // nothing is written
+                None => Length::Definite(0),
+            }
+        }
+
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.der_write_content(target),
@@ -222,7 +254,10 @@ const _: () = {
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.der_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
         }
 
         fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-- 
2.43.0


From ef68e53bd97dc4d442ccc62a73baeeb59e2af251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 28/45] fix: TaggedParser: DynTagged returns the class and form
 of the header

---
 src/asn1_types/tagged/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/tagged/parser.rs b/src/asn1_types/tagged/parser.rs
index 922f0eb..27f2f07 100644
--- a/src/asn1_types/tagged/parser.rs
+++ b/src/asn1_types/tagged/parser.rs
@@ -72,6 +72,14 @@ where
 }
 
 impl<TagKind, T, E> DynTagged for TaggedParser<'_, TagKind, T, E> {
+    fn class(&self) -> Class {
+        self.class()
+    }
+
+    fn constructed(&self) -> bool {
+        self.header.constructed
+    }
+
     fn tag(&self) -> Tag {
         self.tag()
     }
-- 
2.43.0


From 8877c74c4fac2ed30af62949c806956fc9b16b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 29/45] fix: implicit TaggedParser is encoded with the form of
 the value inside

---
 src/asn1_types/tagged/implicit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index aab89e9..cfb9630 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -357,7 +357,9 @@ const _: () = {
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // the form is the one of the value inside as it will be encoded (X.690 section 8.14.3)
+            let (_, constructed, _) = self.inner.ber_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 
@@ -376,7 +378,9 @@ const _: () = {
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // the form is the one of the value inside as it will be encoded (X.690 section 8.14.3)
+            let (_, constructed, _) = self.inner.der_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 };
-- 
2.43.0


From 9ce4961a626845143639add177dc55a7c1a4b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:18 +0000
Subject: [PATCH 30/45] fix: explicit TaggedValue: content length is the total
 length of the value inside

---
 src/asn1_types/tagged/explicit.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 69cff8b..cdd66f6 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -179,9 +179,7 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn ber_content_len(&self) -> Length {
-            let content_len = self.inner.ber_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            self.inner.ber_total_len()
         }
 
         fn ber_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -201,9 +199,7 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn der_content_len(&self) -> Length {
-            let content_len = self.inner.der_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            self.inner.der_total_len()
         }
 
         fn der_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
-- 
2.43.0


From 8c9fc16cedd17fb0b1c11f988c72658738714f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:51 +0000
Subject: [PATCH 31/45] fix: derive: length of the header of IMPLICIT fields
 depends on the content length

---
 derive/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e78c045..aae43ad 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -539,7 +539,7 @@ impl Container {
                     let tag = u32::from(tag);
                     quote! {
                         #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
+                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#content_len()).unwrap_or_default()
                             + #bi.#content_len()
                     }
                 }
-- 
2.43.0


From 398943ca7c4f85b7b9b55c9088bfad33935fb810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:54 +0000
Subject: [PATCH 32/45] fix: derive: an absent tagged OPTIONAL field is not
 encoded

---
 derive/src/container.rs | 48 ++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index aae43ad..10f3b36 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -517,18 +517,16 @@ impl Container {
         let content_len = asn1_type.content_len_tokens();
 
         let body = s.fold(quote! {asn1_rs::Length::Definite(0)}, |acc, bi| {
+            let field = get_field(&self.fields, bi.ast().ident.as_ref());
             // check if binding has a 'tag_explicit' or 'tag_implicit' attribute
-            let tag_kind = get_field(&self.fields, bi.ast().ident.as_ref())
-                .map(|f| f.tag)
-                .flatten();
+            let tag_kind = field.and_then(|f| f.tag);
 
-            match tag_kind {
+            let len = match tag_kind {
                 Some((Asn1TagKind::Explicit, _class, tag)) => {
                     // TAGGED EXPLICIT: add length required to encode tag header
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
+                        asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
                             + #bi.#total_len()
                     }
                 }
@@ -538,14 +536,22 @@ impl Container {
                     // (implicit tag, object tag) is long and the other is not
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#content_len()).unwrap_or_default()
+                        asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#content_len()).unwrap_or_default()
                             + #bi.#content_len()
                     }
                 }
-                None => quote! {
-                    #acc + #bi.#total_len()
-                },
+                None => quote! { #bi.#total_len() },
+            };
+            if field.is_some_and(FieldInfo::is_tagged_option) {
+                // nothing is written if value is absent
+                quote! {
+                    #acc + match #bi {
+                        Some(#bi) => #len,
+                        None => asn1_rs::Length::Definite(0),
+                    }
+                }
+            } else {
+                quote! { #acc + #len }
             }
         });
 
@@ -608,12 +614,11 @@ impl Container {
         // we can't just use `s.fold()` because we need to add a footer `Ok(num_bytes)`
         let body = s.variants().iter().map(|vi| {
             let encode = vi.bindings().iter().map(|bi| {
+                let field = get_field(&self.fields, bi.ast().ident.as_ref());
                 // check if binding has a 'tag_explicit' or 'tag_implicit' attribute
-                let tag_kind = get_field(&self.fields, bi.ast().ident.as_ref())
-                    .map(|f| f.tag)
-                    .flatten();
+                let tag_kind = field.and_then(|f| f.tag);
 
-                match tag_kind {
+                let write = match tag_kind {
                     Some((Asn1TagKind::Explicit, class, tag)) => {
                         let tk_class = class.class_tokens();
                         let tag = u32::from(tag);
@@ -629,6 +634,12 @@ impl Container {
                         }
                     }
                     None => quote! { num_bytes += #bi.#encode(writer)?; },
+                };
+                if field.is_some_and(FieldInfo::is_tagged_option) {
+                    // write nothing if value is absent
+                    quote! { if let Some(#bi) = #bi { #write } }
+                } else {
+                    write
                 }
             });
             let pat = vi.pat();
@@ -707,6 +718,13 @@ pub struct FieldInfo {
     pub encode: Option<Expr>,
 }
 
+impl FieldInfo {
+    /// Return true if field is a tagged `Option` (an optional field without default value)
+    fn is_tagged_option(&self) -> bool {
+        self.tag.is_some() && self.optional && self.default.is_none()
+    }
+}
+
 impl TryFrom<&Field> for FieldInfo {
     type Error = syn::Error;
 
-- 
2.43.0


From ea6c519a7341d9788aaaf8c41542e15abd7c589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 33/45] fix: Option: tagged encoding of an absent value writes
 nothing

---
 src/asn1_types/optional.rs | 48 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 237ed26..f2eac4c 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -223,6 +223,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn ber_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn ber_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 
     impl<T> ToDer for Option<T>
@@ -266,6 +290,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn der_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn der_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 };
 
-- 
2.43.0


From c26c0babbd470c6e0d0b6bc9863bac2662d98b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 34/45] fix: references are encoded like the value they refer
 to

---
 src/to_ber.rs | 30 ++++++++++++++++++++++++++++++
 src/to_der.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index 932178a..5547ad7 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -143,6 +143,36 @@ where
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).ber_write_content(target)
     }
+
+    fn ber_total_len(&self) -> Length {
+        (*self).ber_total_len()
+    }
+
+    fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_write_header(target)
+    }
+
+    fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_encode(target)
+    }
+
+    fn ber_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn ber_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- helper functions
diff --git a/src/to_der.rs b/src/to_der.rs
index 1000391..b523135 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -177,6 +177,36 @@ where
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).der_write_content(target)
     }
+
+    fn der_total_len(&self) -> Length {
+        (*self).der_total_len()
+    }
+
+    fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_write_header(target)
+    }
+
+    fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_encode(target)
+    }
+
+    fn der_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn der_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- Macros
-- 
2.43.0


From aa2de46d45a6e425cb5c3fa3e3890e3391817429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:00 +0000
Subject: [PATCH 35/45] fix: encode the unused bits of a BitString as zero

---
 src/asn1_types/bitstring.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index c2fbf77..5429466 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -209,8 +209,11 @@ const _: () = {
             // ignored bits
             let ignored = (8 * data.len()) - self.len();
             target.write_all(&[ignored as u8])?;
-            // content
-            target.write_all(data)?;
+            // content: unused bits shall be set to zero (X.690: 11.2.1)
+            if let Some((last, init)) = data.split_last() {
+                target.write_all(init)?;
+                target.write_all(&[*last & (0xff_u8 << ignored)])?;
+            }
 
             Ok(1 + data.len())
         }
-- 
2.43.0


From 0b518aa37bdd1cdba704dbabdd48f59dd2c55b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:00 +0000
Subject: [PATCH 36/45] fix: align the bits of a BitString built from a
 BitSlice

---
 src/asn1_types/bitstring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 5429466..8bd4c4c 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -78,7 +78,9 @@ impl_tryfrom_any!(BitString);
 
 impl From<&BitSlice<u8, Msb0>> for BitString {
     fn from(slice: &BitSlice<u8, Msb0>) -> Self {
-        let bitvec = BitVec::from_bitslice(slice);
+        let mut bitvec = BitVec::from_bitslice(slice);
+        // the slice may begin inside an octet
+        bitvec.force_align();
         Self { bitvec }
     }
 }
-- 
2.43.0


From dfac02759e4b453531d121772dae6ce0fb64ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:06 +0000
Subject: [PATCH 37/45] fix: write two digits of the year of a UtcTime

---
 src/asn1_types/utctime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 61a85cb..d4fd286 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -254,7 +254,12 @@ const _: () = {
             write!(
                 target,
                 "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                self.0.year, self.0.month, self.0.day, self.0.hour, self.0.minute, self.0.second,
+                self.0.year % 100,
+                self.0.month,
+                self.0.day,
+                self.0.hour,
+                self.0.minute,
+                self.0.second,
             )?;
             // write_fmt returns (), see above for length value
             Ok(13)
-- 
2.43.0


From 8b9988750e2f8a068b3552958491e6212bcb31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:57 +0000
Subject: [PATCH 38/45] fix: derived SEQUENCE and SET decoders reject primitive
 objects

---
 derive/src/container.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 10f3b36..5ff8cb4 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -185,6 +185,7 @@ impl Container {
             quote! {
                 use asn1_rs::nom::*;
                 any.tag().assert_eq(Self::TAG)?;
+                any.header.assert_constructed()?;
 
                 // no need to parse sequence, we already have content
                 let i = any.data.as_bytes2();
@@ -481,6 +482,7 @@ impl Container {
             quote! {
                 let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                 any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                any.header.assert_constructed().map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 let i = any.data.as_bytes2();
                 //
                 #parse_content
-- 
2.43.0


From a58c09f3885cc58f520fef45341770351bc70f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:57 +0000
Subject: [PATCH 39/45] fix: derived OPTIONAL tagged fields are recognised by
 class and number

---
 derive/src/container.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 5ff8cb4..0a3597d 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -892,6 +892,7 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
     };
     if let Some((tag_kind, class, n)) = f.tag {
         let tag = Literal::u16_unsuffixed(n);
+        let tk_class = class.class_tokens();
         // test if tagged + optional
         if f.optional {
             return quote! {
@@ -900,7 +901,7 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
                         (i, None)
                     } else {
                         let (_, header): (_, asn1_rs::Header) = #from(i)#map_err?;
-                        if header.tag().0 == #tag {
+                        if header.class() == #tk_class && header.tag().0 == #tag {
                             let (i, t): (_, asn1_rs::TaggedValue::<_, _, #tag_kind, {#class}, #tag>) = #from(i)#map_err?;
                             (i, Some(t.into_inner()))
                         } else {
@@ -984,6 +985,7 @@ fn get_field_berparser(f: &FieldInfo, asn1_type: Asn1Type) -> TokenStream {
 
     if let Some((tag_kind, class, n)) = f.tag {
         let tag = Literal::u16_unsuffixed(n);
+        let tk_class = class.class_tokens();
 
         // test if tagged + optional
         if f.optional {
@@ -997,7 +999,7 @@ fn get_field_berparser(f: &FieldInfo, asn1_type: Asn1Type) -> TokenStream {
                         // clone rem, #map_err may consume it
                         let rem_copy = rem.clone();
                         let (_, obj_header): (_, asn1_rs::Header) = #from(rem_copy)#map_err?;
-                        if obj_header.tag().0 == #tag {
+                        if obj_header.class() == #tk_class && obj_header.tag().0 == #tag {
                             let (rem, t): (_, asn1_rs::TaggedValue::<
                                 _,
                                 <#f_ty as asn1_rs::#parser>::Error,
-- 
2.43.0


From ee70b4c316b3948fcc6f743270fb2d2c579e8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:57 +0000
Subject: [PATCH 40/45] fix: derived tagged CHOICE decoders check the class of
 the tag

---
 derive/src/choice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index b4d839c..9f81976 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -262,6 +262,11 @@ impl<'s> DeriveChoice<'s> {
                 gen impl<#lft> asn1_rs::#parser<#lft> for @Self where #(#where_predicates)+* {
                     type Error = #error;
                     fn #from_ber_content(header: &'_ asn1_rs::Header<#lft>, input: asn1_rs::Input<#lft>) -> asn1_rs::nom::IResult<asn1_rs::Input<#lft>, Self, Self::Error> {
+                        if header.class() != asn1_rs::Class::ContextSpecific {
+                            return Err(asn1_rs::nom::Err::Error(
+                                asn1_rs::BerError::unexpected_class(input, Some(asn1_rs::Class::ContextSpecific), header.class()).into()
+                            ));
+                        }
                         #assert_constructed
                         let rem = input.clone();
                         match header.tag().0 {
-- 
2.43.0


From 000750ee17894833f50da8eadd549ca734dc5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:09 +0000
Subject: [PATCH 41/45] fix: AnySequence, AnySet and SetOf are constructed

---
 src/asn1_types/sequence/any_sequence.rs | 1 +
 src/asn1_types/set/any_set.rs           | 1 +
 src/asn1_types/set/set_of.rs            | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/asn1_types/sequence/any_sequence.rs b/src/asn1_types/sequence/any_sequence.rs
index cc05c01..aec1f33 100644
--- a/src/asn1_types/sequence/any_sequence.rs
+++ b/src/asn1_types/sequence/any_sequence.rs
@@ -54,6 +54,7 @@ impl<'a> AnySequence<'a> {
 }
 
 impl Tagged for AnySequence<'_> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Sequence;
 }
 
diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 9ac666e..90477c9 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -59,6 +59,7 @@ impl<'a, S: BuildHasher> AnySet<'a, S> {
 }
 
 impl<S> Tagged for AnySet<'_, S> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index c4375ef..63af243 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -201,6 +201,7 @@ where
 }
 
 impl<T> Tagged for SetOf<T> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
-- 
2.43.0


From 1c0a668297a731609823ad039fbe485b34f5e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:29 +0000
Subject: [PATCH 42/45] fix: read the first two arcs of an OID from the whole
 first sub-identifier

The first sub-identifier (40 * X + Y) can take several octets, and X is at
most 2 (X.690: 8.19.4): 2.40 and above were read as other arcs.
---
 src/asn1_types/oid.rs | 67 +++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index bfd37aa..2b198a6 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -293,14 +293,8 @@ impl<'a> Oid<'a> {
     /// Returns `None` if at least one arc does not fit into `u64`.
     pub fn iter(&'_ self) -> Option<impl FusedIterator<Item = u64> + ExactSizeIterator + '_> {
         // Check that every arc fits into u64
-        let bytes = if self.relative {
-            &self.asn1
-        } else if self.asn1.is_empty() {
-            &[]
-        } else {
-            &self.asn1[1..]
-        };
-        let max_bits = bytes
+        let max_bits = self
+            .asn1
             .iter()
             .fold((0usize, 0usize), |(max, cur), c| {
                 let is_end = (c >> 7) == 0u8;
@@ -345,8 +339,8 @@ impl<'a> Oid<'a> {
     }
 }
 
-trait Repr: Num + Shl<usize, Output = Self> + From<u8> {}
-impl<N> Repr for N where N: Num + Shl<usize, Output = N> + From<u8> {}
+trait Repr: Num + PartialOrd + Shl<usize, Output = Self> + From<u8> {}
+impl<N> Repr for N where N: Num + PartialOrd + Shl<usize, Output = N> + From<u8> {}
 
 struct SubIdentifierIterator<'a, N: Repr> {
     oid: &'a Oid<'a>,
@@ -355,12 +349,28 @@ struct SubIdentifierIterator<'a, N: Repr> {
     n: PhantomData<&'a N>,
 }
 
+impl<N: Repr> SubIdentifierIterator<'_, N> {
+    /// Decode the sub-identifier at the current position, and return it with the position after it
+    fn sub_identifier(&self) -> (N, usize) {
+        // decode objet sub-identifier according to the asn.1 standard
+        let mut res = N::zero();
+        let mut pos = self.pos;
+        for o in self.oid.asn1[self.pos..].iter() {
+            pos += 1;
+            res = (res << 7) + (o & 0b111_1111).into();
+            let flag = o >> 7;
+            if flag == 0u8 {
+                break;
+            }
+        }
+        (res, pos)
+    }
+}
+
 impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
     type Item = N;
 
     fn next(&mut self) -> Option<Self::Item> {
-        use num_traits::identities::Zero;
-
         if self.pos == self.oid.asn1.len() {
             return None;
         }
@@ -368,25 +378,32 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
             if !self.first {
                 debug_assert!(self.pos == 0);
                 self.first = true;
-                return Some((self.oid.asn1[0] / 40).into());
+                // The first sub-identifier is 40 * X + Y, with X at most 2 (X.690: 8.19.4)
+                let (res, _) = self.sub_identifier();
+                return Some(if res < 40.into() {
+                    0.into()
+                } else if res < 80.into() {
+                    1.into()
+                } else {
+                    2.into()
+                });
             } else if self.pos == 0 {
-                self.pos += 1;
+                let (res, pos) = self.sub_identifier();
+                self.pos = pos;
                 if self.oid.asn1[0] == 0 && self.oid.asn1.len() == 1 {
                     return None;
                 }
-                return Some((self.oid.asn1[0] % 40).into());
-            }
-        }
-        // decode objet sub-identifier according to the asn.1 standard
-        let mut res = <N as Zero>::zero();
-        for o in self.oid.asn1[self.pos..].iter() {
-            self.pos += 1;
-            res = (res << 7) + (o & 0b111_1111).into();
-            let flag = o >> 7;
-            if flag == 0u8 {
-                break;
+                return Some(if res < 40.into() {
+                    res
+                } else if res < 80.into() {
+                    res - 40.into()
+                } else {
+                    res - 80.into()
+                });
             }
         }
+        let (res, pos) = self.sub_identifier();
+        self.pos = pos;
         Some(res)
     }
 }
-- 
2.43.0


From a1b843c3564f29cef0d972e09aa3a90a9f5fcee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:33 +0000
Subject: [PATCH 43/45] fix: number of arcs left in the OID iterator

len() skipped the second octet and did not take into account the arcs
already yielded; size_hint() must agree with it.
---
 src/asn1_types/oid.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 2b198a6..d2e7b79 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -406,28 +406,32 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
         self.pos = pos;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
 
 impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {
     fn len(&self) -> usize {
-        if self.oid.relative {
-            self.oid.asn1.iter().filter(|o| (*o >> 7) == 0u8).count()
-        } else if self.oid.asn1.is_empty() {
-            0
-        } else if self.oid.asn1.len() == 1 {
-            if self.oid.asn1[0] == 0 {
-                1
-            } else {
-                2
-            }
-        } else {
-            2 + self.oid.asn1[2..]
-                .iter()
-                .filter(|o| (*o >> 7) == 0u8)
-                .count()
+        // Number of sub-identifiers left
+        let n = self.oid.asn1[self.pos..]
+            .iter()
+            .filter(|o| (*o >> 7) == 0u8)
+            .count();
+        if self.oid.relative || self.pos > 0 || n == 0 {
+            return n;
         }
+        // The first sub-identifier stands for two arcs
+        let arcs = if self.oid.asn1[0] == 0 && self.oid.asn1.len() == 1 {
+            1
+        } else {
+            n + 1
+        };
+        arcs - usize::from(self.first)
     }
 }
 
-- 
2.43.0


From 5815e50d2bf3389942e0ef49f53492c7e32450dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:34 +0000
Subject: [PATCH 44/45] fix: yield the arcs of an OID that take 64 bits

The first octet of a sub-identifier was counted as 7 bits, so arcs above
2^63 - 1 were said not to fit.
---
 src/asn1_types/oid.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index d2e7b79..4f2276a 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -298,10 +298,16 @@ impl<'a> Oid<'a> {
             .iter()
             .fold((0usize, 0usize), |(max, cur), c| {
                 let is_end = (c >> 7) == 0u8;
+                // the first octet only counts from its highest bit set
+                let bits = if cur == 0 {
+                    8 - (c & 0b111_1111).leading_zeros() as usize
+                } else {
+                    7
+                };
                 if is_end {
-                    (max.max(cur + 7), 0)
+                    (max.max(cur + bits), 0)
                 } else {
-                    (max, cur + 7)
+                    (max, cur + bits)
                 }
             })
             .0;
-- 
2.43.0


From 55cf04e0acf5ac0713f08378dc563ecace1d20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:35 +0000
Subject: [PATCH 45/45] fix: build OIDs from arcs without truncating the first
 sub-identifier

First arcs above 2 do not exist, and were truncated to 8 bits; second arcs
of 40 and above are valid when the first is 2.
---
 src/asn1_types/oid.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 4f2276a..892c253 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -18,8 +18,8 @@ pub enum OidParseError {
     /// Encoded data length too short
     TooShort,
     /** Signalizes that the first or second component is too large.
-     * The first must be within the range 0 to 6 (inclusive).
-     * The second component must be less than 40.
+     * The first must be within the range 0 to 2 (inclusive).
+     * The second component must be less than 40 if the first is 0 or 1.
      */
     FirstComponentsTooLarge,
     /// a
@@ -190,12 +190,14 @@ impl<'a> Oid<'a> {
             }
             return Err(OidParseError::TooShort);
         }
-        if s[0] >= 7 || s[1] >= 40 {
+        if s[0] > 2 || (s[0] < 2 && s[1] >= 40) {
             return Err(OidParseError::FirstComponentsTooLarge);
         }
-        let asn1_encoded: Vec<u8> = [(s[0] * 40 + s[1]) as u8]
-            .iter()
-            .copied()
+        // The first sub-identifier stands for the first two components (X.690: 8.19.4)
+        let first = s[1]
+            .checked_add(s[0] * 40)
+            .ok_or(OidParseError::FirstComponentsTooLarge)?;
+        let asn1_encoded: Vec<u8> = encode_relative(&[first])
             .chain(encode_relative(&s[2..]))
             .collect();
         Ok(Oid {
-- 
2.43.0


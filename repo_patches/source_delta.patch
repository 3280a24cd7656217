From b54dc51e624ad1becdd0935c9cc87a48edfc1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 01/96] fix: encode the lower bound of an INTEGER whose range
 exceeds 64K

---
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..41f9ed4 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -93,7 +93,7 @@ pub(super) fn encode_constrained_whole_number(
     } else {
         let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
-- 
2.43.0


From 71cfe9ec153db81ad3de68d18609c9645b03a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 02/96] fix: number of octets for an INTEGER range is that of
 ub - lb, not ub - lb + 1

---
 codecs/src/aper/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..7a94d74 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -372,7 +372,8 @@ impl AperCodecData {
 }
 
 fn bytes_needed_for_range(range: i128) -> u8 {
-    let bits_needed: u8 = 128 - range.leading_zeros() as u8;
+    // The largest value to be represented is `ub - lb`, ie. `range - 1`.
+    let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
     if bits_needed % 8 != 0 {
         bytes_needed += 1
-- 
2.43.0


From 0d2faf54dd08e51230371c46da53579c9e9af3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 03/96] fix: encode semi-constrained INTEGER offsets as
 unsigned octets

---
 codecs/src/aper/encode/encode_internal.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 41f9ed4..9c40bdb 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -41,7 +41,15 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    let value = value.checked_sub(lb).ok_or_else(|| {
+        AperCodecError::new("Cannot encode integer - offset from the lower bound too large")
+    })?;
+    // Non-negative-binary-integer encoding in the minimum number of octets (10.7.4).
+    let bytes = value.to_be_bytes();
+    let first = bytes.iter().position(|x| *x != 0).unwrap_or(15);
+    encode_length_determinent(data, None, None, false, 16 - first)?;
+    data.append_bits(bytes[first..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From 1adc99f2b8563f0622a9cc2a2c8f4840b37e9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 04/96] fix: reject a constrained whole number beyond its upper
 bound on decode

---
 codecs/src/aper/decode/decode_internal.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..ebbb6b1 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -198,7 +198,16 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
-        Ok(value + lb)
+        let value = value
+            .checked_add(lb)
+            .ok_or_else(|| AperCodecError::new("Decoded integer too large."))?;
+        if value > ub {
+            return Err(AperCodecError::new(format!(
+                "Decoded integer {} is greater than upper bound {}",
+                value, ub
+            )));
+        }
+        Ok(value)
     }
 }
 
-- 
2.43.0


From eac417493c44e7800100791a04bfe85b73773485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 05/96] fix: decoding a semi-constrained INTEGER must not
 overflow

---
 codecs/src/aper/decode/decode_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index ebbb6b1..84b4192 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -152,7 +152,8 @@ pub(super) fn decode_semi_constrained_whole_number(
     let bits = length * 8;
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    val.checked_add(lb)
+        .ok_or_else(|| AperCodecError::new("Decoded integer too large."))
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
-- 
2.43.0


From 03400c1873cfacc059cb008e5087fad35a925e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 06/96] fix: an INTEGER range that does not fit i128 is an
 error, not an overflow

---
 codecs/src/aper/decode/decode_internal.rs | 5 ++++-
 codecs/src/aper/encode/encode_internal.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 84b4192..276e158 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -166,7 +166,10 @@ pub(super) fn decode_constrained_whole_number(
 ) -> Result<i128, AperCodecError> {
     log::trace!("decode_constrained_whole_number: lb: {}, ub: {}", lb, ub,);
 
-    let range = ub - lb + 1;
+    let range = ub
+        .checked_sub(lb)
+        .and_then(|r| r.checked_add(1))
+        .ok_or_else(|| AperCodecError::new("Range for the Integer Constraint is too large."))?;
     if range <= 0 {
         Err(AperCodecError::new(
             "Range for the Integer Constraint is negative.",
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 9c40bdb..cb8a7df 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -72,7 +72,10 @@ pub(super) fn encode_constrained_whole_number(
         )));
     }
 
-    let range = ub - lb + 1;
+    let range = ub
+        .checked_sub(lb)
+        .and_then(|r| r.checked_add(1))
+        .ok_or_else(|| AperCodecError::new("Range for the Integer Constraint is too large."))?;
     let value = value - lb;
 
     if range <= 256 {
-- 
2.43.0


From 4af0f1690c3999943c76a43de2fbf39410909ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 07/96] fix: integers that do not fit an i128 are a decode
 error, not a panic or a negative value

---
 codecs/src/aper/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 7a94d74..011a4a8 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -23,6 +23,7 @@ pub trait AperCodec {
 }
 
 use bitvec::prelude::*;
+use std::convert::TryFrom;
 
 /// Structure representing an APER Codec.
 ///
@@ -116,9 +117,17 @@ impl AperCodecData {
             let value = if !signed {
                 if bits == 0 {
                     0_i128
+                } else if bits > 128 {
+                    return Err(AperCodecError::new(format!(
+                        "AperCodec:DecodeError:Integers of {} bits are not supported",
+                        bits
+                    )));
                 } else {
-                    self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>()
-                        as i128
+                    let inner =
+                        self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>();
+                    i128::try_from(inner).map_err(|_| {
+                        AperCodecError::new("AperCodec:DecodeError:Integer value is too large")
+                    })?
                 }
             } else {
                 match bits {
-- 
2.43.0


From 71fef488b36e79bf74d914421ed058ccc207022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 08/96] fix: remove stray output when decoding a 56 bit INTEGER

---
 codecs/src/aper/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 011a4a8..35e3af8 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -183,7 +183,6 @@ impl AperCodecData {
                         inner as i128
                     }
                     56 => {
-                        eprintln!("{}", self.decode_offset);
                         let inner = self.bits[self.decode_offset..self.decode_offset + bits]
                             .load_be::<u64>() as u64;
                         let inner = if self.bits[self.decode_offset] {
-- 
2.43.0


From 81b55e795be4a5bda4e77db719caec05e506988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 09/96] fix: decode unconstrained INTEGER values of 9 to 15
 octets

---
 codecs/src/aper/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 35e3af8..4d12583 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -199,6 +199,12 @@ impl AperCodecData {
                             .load_be::<u128>() as i64;
                         inner as i128
                     }
+                    72 | 80 | 88 | 96 | 104 | 112 | 120 => {
+                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                            .load_be::<u128>();
+                        // Sign extend from `bits` to 128 bits.
+                        ((inner << (128 - bits)) as i128) >> (128 - bits)
+                    }
                     128 => {
                         let inner = self.bits[self.decode_offset..self.decode_offset + bits]
                             .load_be::<u128>() as i128;
-- 
2.43.0


From e404f4a783c08afed2088acbc8b4b4b92da843e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 10/96] fix: aligning past the end of the data is a decode
 error, not a panic

---
 codecs/src/aper/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 4d12583..3cb1def 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -65,6 +65,12 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if self.decode_offset + remaining > self.bits.len() {
+            return Err(AperCodecError::new(
+                "AperCodec:DecodeError:End of Bitstream reached while aligning.",
+            ));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
-- 
2.43.0


From 5ecd2d3e92bf1d9e10c8c7d13a0ac103c08e76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 11/96] fix: length_in_bytes of an empty encoding must not
 underflow

---
 codecs/src/aper/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 3cb1def..5d891b4 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -379,7 +379,7 @@ impl AperCodecData {
     /// Get the length of the data in bytes
     /// This is useful when encoding an open type.
     pub fn length_in_bytes(&self) -> usize {
-        ((self.bits.len() - 1) / 8) + 1
+        (self.bits.len() + 7) / 8
     }
 
     /// Append one encoding to another preserving byte alignment.
-- 
2.43.0


From 153098db1fa9300f5b9d757a802e70310a4cecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 12/96] fix: honour the upper bound of an INTEGER without a
 lower bound

---
 codecs/src/aper/decode/mod.rs | 9 ++++++++-
 codecs/src/aper/encode/mod.rs | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..2ef37ce 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -115,7 +115,14 @@ pub fn decode_integer(
             None =>
             // 12.2.4
             {
-                decode_unconstrained_whole_number(data)?
+                let value = decode_unconstrained_whole_number(data)?;
+                if matches!(ub, Some(ub) if value > ub) {
+                    return Err(AperCodecError::new(format!(
+                        "Decoded integer {} is greater than the upper bound",
+                        value
+                    )));
+                }
+                value
             }
             Some(lb) => {
                 match ub {
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..8dcc89a 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -106,6 +106,12 @@ pub fn encode_integer(
     }
 
     let _ = match (lb, ub) {
+        (None, Some(ub)) if value > ub => {
+            return Err(AperCodecError::new(format!(
+                "Cannot encode integer {} - greater than upper bound {}",
+                value, ub,
+            )))
+        }
         (None, _) => encode_unconstrained_whole_number(data, value)?,
         (Some(lb), None) => encode_semi_constrained_whole_number(data, lb, value)?,
         (Some(lb), Some(ub)) => encode_constrained_whole_number(data, lb, ub, value)?,
-- 
2.43.0


From 1cc8fad3097798b7e937d308f8cee87418be754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 13/96] fix: a size-constrained string of 16384 or more units
 is not a fragment

---
 codecs/src/aper/decode/mod.rs | 5 +++--
 codecs/src/aper/mod.rs        | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 2ef37ce..e6f1475 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -3,6 +3,7 @@ use bitvec::prelude::*;
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
+use crate::aper::is_constrained_size;
 
 mod decode_internal;
 use decode_internal::*;
@@ -233,7 +234,7 @@ pub fn decode_bitstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if length >= 16384 && (is_extended || !is_constrained_size(ub)) {
             continue;
         } else {
             break;
@@ -283,7 +284,7 @@ pub fn decode_octetstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if length >= 16384 && (is_extended || !is_constrained_size(ub)) {
             continue;
         } else {
             break;
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 5d891b4..3e81c3d 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -391,6 +391,11 @@ impl AperCodecData {
     }
 }
 
+/// Is the length determinant for this size a constrained whole number (and hence never fragmented)?
+fn is_constrained_size(ub: Option<i128>) -> bool {
+    matches!(ub, Some(ub) if ub < 65_536)
+}
+
 fn bytes_needed_for_range(range: i128) -> u8 {
     // The largest value to be represented is `ub - lb`, ie. `range - 1`.
     let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
-- 
2.43.0


From 860f38a93d2bfc05a6c0c01a36d50209bca5a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 14/96] fix: check the size constraint of a decoded BIT STRING
 or OCTET STRING

---
 codecs/src/aper/decode/mod.rs | 10 +++++++++-
 codecs/src/aper/mod.rs        | 12 ++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index e6f1475..14d50e3 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -3,7 +3,7 @@ use bitvec::prelude::*;
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
-use crate::aper::is_constrained_size;
+use crate::aper::{check_size, is_constrained_size};
 
 mod decode_internal;
 use decode_internal::*;
@@ -241,6 +241,10 @@ pub fn decode_bitstring(
         }
     }
 
+    if !is_extended {
+        check_size(bv.len(), lb, ub)?;
+    }
+
     data.dump();
 
     Ok(bv)
@@ -291,6 +295,10 @@ pub fn decode_octetstring(
         }
     }
 
+    if !is_extended {
+        check_size(octets.len(), lb, ub)?;
+    }
+
     data.dump();
 
     Ok(octets)
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 3e81c3d..1b907c3 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -396,6 +396,18 @@ fn is_constrained_size(ub: Option<i128>) -> bool {
     matches!(ub, Some(ub) if ub < 65_536)
 }
 
+/// Check that a decoded size is within the bounds.
+fn check_size(size: usize, lb: Option<i128>, ub: Option<i128>) -> Result<(), AperCodecError> {
+    let size = size as i128;
+    if size < lb.unwrap_or(0) || matches!(ub, Some(ub) if size > ub) {
+        return Err(AperCodecError::new(format!(
+            "Decoded size {} is outside the size constraint",
+            size
+        )));
+    }
+    Ok(())
+}
+
 fn bytes_needed_for_range(range: i128) -> u8 {
     // The largest value to be represented is `ub - lb`, ie. `range - 1`.
     let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
-- 
2.43.0


From ae89202ffced15f7628838d59d8d182f1a4278e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 15/96] fix: decode character strings correctly at positions
 that are not octet aligned

---
 codecs/src/aper/decode/decode_charstrings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..f00cdc2 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -84,7 +84,7 @@ fn decode_string(
     let bits = data.get_bitvec(length)?;
     let bytes = bits
         .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
+        .map(|c| c.load_be::<u8>())
         .collect::<Vec<u8>>();
 
     data.dump();
-- 
2.43.0


From 9350f9440a515a9cd2c7f36a9ea1fb38fbd9f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 16/96] fix: decode all fragments of a character string

---
 codecs/src/aper/decode/decode_charstrings.rs | 39 +++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index f00cdc2..6f156b8 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -3,6 +3,7 @@ use bitvec::field::BitField;
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
+use crate::aper::{check_size, is_constrained_size};
 
 use super::decode_internal::decode_length_determinent;
 
@@ -70,22 +71,32 @@ fn decode_string(
         false
     };
 
-    let length = if is_extended {
-        decode_length_determinent(data, None, None, false)?
-    } else {
-        decode_length_determinent(data, lb, ub, false)?
-    };
+    let mut bytes = Vec::new();
+    loop {
+        let length = if is_extended {
+            decode_length_determinent(data, None, None, false)?
+        } else {
+            decode_length_determinent(data, lb, ub, false)?
+        };
 
-    let num_bits = 8;
-    let length = length * num_bits;
-    if length > 16 {
-        data.decode_align()?;
+        let num_bits = 8;
+        let bit_length = length * num_bits;
+        if bit_length > 16 {
+            data.decode_align()?;
+        }
+        let bits = data.get_bitvec(bit_length)?;
+        bytes.extend(bits.chunks_exact(num_bits).map(|c| c.load_be::<u8>()));
+
+        // Fragmented, so get the chunks in multiples of 16384.
+        if length >= 16384 && (is_extended || !is_constrained_size(ub)) {
+            continue;
+        } else {
+            break;
+        }
+    }
+    if !is_extended {
+        check_size(bytes.len(), lb, ub)?;
     }
-    let bits = data.get_bitvec(length)?;
-    let bytes = bits
-        .chunks_exact(num_bits)
-        .map(|c| c.load_be::<u8>())
-        .collect::<Vec<u8>>();
 
     data.dump();
 
-- 
2.43.0


From e4e94ad59cbb4860a17fd9b9503991c611065643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 17/96] fix: octet align the contents of short strings of
 variable size

---
 codecs/src/aper/decode/decode_charstrings.rs |  4 ++--
 codecs/src/aper/decode/mod.rs                |  6 +++---
 codecs/src/aper/encode/mod.rs                |  7 ++++---
 codecs/src/aper/mod.rs                       | 14 ++++++++++++++
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 6f156b8..f438add 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -3,7 +3,7 @@ use bitvec::field::BitField;
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
-use crate::aper::{check_size, is_constrained_size};
+use crate::aper::{check_size, is_aligned_string, is_constrained_size};
 
 use super::decode_internal::decode_length_determinent;
 
@@ -81,7 +81,7 @@ fn decode_string(
 
         let num_bits = 8;
         let bit_length = length * num_bits;
-        if bit_length > 16 {
+        if length > 0 && (is_extended || is_aligned_string(lb, ub)) {
             data.decode_align()?;
         }
         let bits = data.get_bitvec(bit_length)?;
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 14d50e3..bb1b990 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -3,7 +3,7 @@ use bitvec::prelude::*;
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
-use crate::aper::{check_size, is_constrained_size};
+use crate::aper::{check_size, is_constrained_size, is_fixed_size};
 
 mod decode_internal;
 use decode_internal::*;
@@ -227,7 +227,7 @@ pub fn decode_bitstring(
         };
 
         if length > 0 {
-            if length > 16 {
+            if length > 16 || is_extended || !is_fixed_size(lb, ub) {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
@@ -281,7 +281,7 @@ pub fn decode_octetstring(
         };
 
         if length > 0 {
-            if length > 2 {
+            if length > 2 || is_extended || !is_fixed_size(lb, ub) {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 8dcc89a..fe94c14 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -2,6 +2,7 @@
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
+use crate::aper::{is_aligned_string, is_fixed_size};
 use bitvec::prelude::*;
 mod encode_internal;
 use bitvec::view::AsBits;
@@ -205,7 +206,7 @@ pub fn encode_bitstring(
 
     encode_length_determinent(data, lb, ub, false, length)?;
     if length > 0 {
-        if length > 16 {
+        if length > 16 || !is_fixed_size(lb, ub) {
             data.align();
         }
         data.append_bits(bit_string);
@@ -254,7 +255,7 @@ pub fn encode_octetstring(
     encode_length_determinent(data, lb, ub, false, length)?;
 
     if length > 0 {
-        if length > 2 {
+        if length > 2 || !is_fixed_size(lb, ub) {
             data.align();
         }
         data.append_bits(octet_string.view_bits());
@@ -337,7 +338,7 @@ fn encode_string(
         data.encode_bool(extended);
     }
     encode_length_determinent(data, lb, ub, false, value.len())?;
-    if value.len() > 2 {
+    if !value.is_empty() && is_aligned_string(lb, ub) {
         data.align();
     }
     data.append_bits(value.as_bits());
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 1b907c3..b183135 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -396,6 +396,20 @@ fn is_constrained_size(ub: Option<i128>) -> bool {
     matches!(ub, Some(ub) if ub < 65_536)
 }
 
+/// Is the number of units fixed, so that no length determinant is encoded?
+fn is_fixed_size(lb: Option<i128>, ub: Option<i128>) -> bool {
+    is_constrained_size(ub) && lb.unwrap_or(0) == ub.unwrap_or(0)
+}
+
+/// Are the contents of a character string with 8 bits per character octet aligned (27.5.6, 27.5.7)?
+fn is_aligned_string(lb: Option<i128>, ub: Option<i128>) -> bool {
+    match ub {
+        Some(ub) if is_fixed_size(lb, Some(ub)) => ub > 2,
+        Some(ub) if is_constrained_size(Some(ub)) => ub >= 2,
+        _ => true,
+    }
+}
+
 /// Check that a decoded size is within the bounds.
 fn check_size(size: usize, lb: Option<i128>, ub: Option<i128>) -> Result<(), AperCodecError> {
     let size = size as i128;
-- 
2.43.0


From d13699961c5803357797205b762e2b6accbc7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 18/96] fix: the size constraint of a UTF8String is not
 PER-visible

---
 codecs/src/aper/decode/decode_charstrings.rs |  7 ++++++-
 codecs/src/aper/encode/mod.rs                | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index f438add..351424c 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -56,7 +56,12 @@ pub fn decode_utf8_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    // The size constraint of a UTF8String counts characters and is not PER-visible.
+    let value = decode_string(data, None, None, false)?;
+    if !is_extensible {
+        check_size(value.chars().count(), lb, ub)?;
+    }
+    Ok(value)
 }
 
 fn decode_string(
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index fe94c14..25fa564 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -407,7 +407,16 @@ pub fn encode_utf8_string(
         extended
     );
 
-    encode_string(data, lb, ub, is_extensible, value, extended)
+    // The size constraint of a UTF8String counts characters and is not PER-visible (27.6).
+    let size = value.chars().count() as i128;
+    if !is_extensible && (size < lb.unwrap_or(0) || matches!(ub, Some(ub) if size > ub)) {
+        return Err(AperCodecError::new(format!(
+            "Cannot encode string of {} characters - not allowed by the size constraint",
+            size,
+        )));
+    }
+
+    encode_string(data, None, None, false, value, extended)
 }
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 5488ab3b5738b50a556fba64e832618a918142c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 19/96] fix: normally small lengths up to 64 use the short
 form, and zero is refused

---
 codecs/src/aper/encode/encode_internal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index cb8a7df..dbda0d2 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -140,7 +140,12 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "Cannot encode zero as a normally small length",
+        ));
+    }
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From 659c3ba33e4dda7d731896c62d46784e2eb8bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 20/96] fix: a normally small length of zero is invalid

---
 codecs/src/aper/decode/decode_internal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 276e158..367f573 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -31,7 +31,11 @@ fn decode_normally_small_length_determinent(
     if !is_small {
         Ok(data.decode_bits_as_integer(6, false)? as usize + 1_usize)
     } else {
-        decode_indefinite_length_determinent(data)
+        let length = decode_indefinite_length_determinent(data)?;
+        if length == 0 {
+            return Err(AperCodecError::new("A normally small length is never zero"));
+        }
+        Ok(length)
     }
 }
 
-- 
2.43.0


From 662f5dae2c41aa8a2fa4908fb4ca5592158445df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 21/96] fix: refuse non-ASCII characters in VisibleString and
 PrintableString

---
 codecs/src/aper/decode/decode_charstrings.rs | 10 +++++++---
 codecs/src/aper/encode/mod.rs                |  4 +++-
 codecs/src/aper/mod.rs                       | 11 +++++++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 351424c..bc89199 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -3,7 +3,7 @@ use bitvec::field::BitField;
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
-use crate::aper::{check_size, is_aligned_string, is_constrained_size};
+use crate::aper::{check_ascii, check_size, is_aligned_string, is_constrained_size};
 
 use super::decode_internal::decode_length_determinent;
 
@@ -21,7 +21,9 @@ pub fn decode_visible_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    let value = decode_string(data, lb, ub, is_extensible)?;
+    check_ascii(&value)?;
+    Ok(value)
 }
 
 /// Decode a PrintableString CharacterString Type.
@@ -37,7 +39,9 @@ pub fn decode_printable_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    let value = decode_string(data, lb, ub, is_extensible)?;
+    check_ascii(&value)?;
+    Ok(value)
 }
 
 // UTF-8 String is always - indefinite length case as it's not a fixed character width string. It's
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 25fa564..cbdee83 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -2,7 +2,7 @@
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
-use crate::aper::{is_aligned_string, is_fixed_size};
+use crate::aper::{check_ascii, is_aligned_string, is_fixed_size};
 use bitvec::prelude::*;
 mod encode_internal;
 use bitvec::view::AsBits;
@@ -365,6 +365,7 @@ pub fn encode_visible_string(
         extended
     );
 
+    check_ascii(value)?;
     encode_string(data, lb, ub, is_extensible, value, extended)
 }
 
@@ -386,6 +387,7 @@ pub fn encode_printable_string(
         extended
     );
 
+    check_ascii(value)?;
     encode_string(data, lb, ub, is_extensible, value, extended)
 }
 
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index b183135..9d6fedc 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -410,6 +410,17 @@ fn is_aligned_string(lb: Option<i128>, ub: Option<i128>) -> bool {
     }
 }
 
+/// Check that a VisibleString or PrintableString value has one octet per character.
+fn check_ascii(value: &str) -> Result<(), AperCodecError> {
+    if value.is_ascii() {
+        Ok(())
+    } else {
+        Err(AperCodecError::new(
+            "Character not allowed in this string type",
+        ))
+    }
+}
+
 /// Check that a decoded size is within the bounds.
 fn check_size(size: usize, lb: Option<i128>, ub: Option<i128>) -> Result<(), AperCodecError> {
     let size = size as i128;
-- 
2.43.0


From aea77caee708ac6bdcadd2d175b2ae402317d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:09 +0000
Subject: [PATCH 22/96] fix: an open type occupies exactly the octets given by
 its length

---
 codecs_derive/src/aper/open.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..d0c7170 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -40,9 +40,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?;
+                let contents = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
 
-                log::trace!("open type: decoded length: {}", length);
+                log::trace!("open type: decoded length: {}", contents.len());
 
                 if data.get_key().is_none() {
                     return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
@@ -50,6 +50,10 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
 
                 let key = data.get_key().unwrap();
 
+                // The contents are decoded on their own, so that decoding always continues after
+                // them and a key inside them does not replace the key outside.
+                let data = &mut asn1_codecs::aper::AperCodecData::from_slice(&contents);
+
                 match key {
                     #(#variant_decode_tokens)*
                     _ => Err(asn1_codecs::aper::AperCodecError::new(format!("Key {} Not Found", key).as_str()))
-- 
2.43.0


From 18c72c1eb20f77ee8b13793dcd40e8098c69478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:10 +0000
Subject: [PATCH 23/96] fix: the empty encoding in an open type is a single
 zero octet

---
 codecs_derive/src/aper/open.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index d0c7170..202820b 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -22,6 +22,10 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
                 let _ = match self {
                     #(#variant_encode_tokens)*
                 };
+                if inner.length_in_bytes() == 0 {
+                    // An empty encoding is sent as a single zero octet (10.1.3).
+                    asn1_codecs::aper::encode::encode_bool(&mut inner, false)?;
+                }
                 let length = inner.length_in_bytes();
                 let _ = asn1_codecs::aper::encode::encode_length_determinent(data, None, None, false, length)?;
                 data.append_aligned(&mut inner);
-- 
2.43.0


From d4fd14c929aa0c60b15711e1def2ac89e697d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:10 +0000
Subject: [PATCH 24/96] fix: skip unknown extension additions of a SEQUENCE

---
 codecs/src/aper/decode/mod.rs | 20 ++++++++++++++++++++
 codecs_derive/src/aper/seq.rs |  8 ++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index bb1b990..bdb4198 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -75,6 +75,26 @@ pub fn decode_sequence_header(
     Ok((bitmap, extended))
 }
 
+/// Skip the extension additions of a Sequence
+///
+/// To be called after the last root component, when the header says that `extensions` are present.
+/// Every addition is an open type, so those not known can be skipped (18.7 to 18.9).
+pub fn skip_sequence_extensions(data: &mut AperCodecData) -> Result<(), AperCodecError> {
+    let count = decode_length_determinent(data, None, None, true)?;
+    if count >= 16384 {
+        return Err(AperCodecError::new(
+            "16384 or more extension additions are not supported",
+        ));
+    }
+    let bitmap = data.get_bitvec(count)?;
+    for _ in bitmap.iter_ones() {
+        let _ = decode_octetstring(data, None, None, false)?;
+    }
+
+    data.dump();
+    Ok(())
+}
+
 /// Decode an Integer
 ///
 /// Given an Integer Specification with PER Visible Constraints, decode an Integer Value to obtain
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 896c83e..bdd38d1 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -30,8 +30,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let (bitmap, _extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
-                Ok(Self{#(#fld_decode_tokens)*})
+                let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let decoded = Self{#(#fld_decode_tokens)*};
+                if extensions_present {
+                    asn1_codecs::aper::decode::skip_sequence_extensions(data)?;
+                }
+                Ok(decoded)
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From 84b37e63d548636229cbadb944783639fc09d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:10 +0000
Subject: [PATCH 25/96] fix: a nested key does not replace the key of the
 enclosing SEQUENCE

---
 codecs_derive/src/aper/seq.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index bdd38d1..14fc9fb 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -31,6 +31,8 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                #[allow(unused_mut, unused_variables, unused_assignments)]
+                let mut key: Option<i128> = None;
                 let decoded = Self{#(#fld_decode_tokens)*};
                 if extensions_present {
                     asn1_codecs::aper::decode::skip_sequence_extensions(data)?;
@@ -70,6 +72,7 @@ fn generate_seq_field_codec_tokens_using_attrs(
     let mut decode_tokens = vec![];
     let mut encode_tokens = vec![];
     let mut hdr_encode_tokens = vec![];
+    let mut restore_key = quote! {};
 
     let mut errors: Vec<syn::Error> = vec![];
     if let syn::Data::Struct(ref data) = ast.data {
@@ -106,6 +109,7 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                             {
                                             let present = bitmap[#optidx];
                                             if present {
+                                                #restore_key
                                                 Some(#ty_ident::decode(data)?)
                                             } else {
                                                 None
@@ -125,13 +129,21 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                 if !is_key_field {
                                     quote! {
                                         {
+                                        #restore_key
                                         #ty_ident::decode(data)?
                                         }
                                     }
                                 } else {
+                                    // Components decoded later may themselves have a key field.
+                                    restore_key = quote! {
+                                        if let Some(key) = key {
+                                            data.set_key(key);
+                                        }
+                                    };
                                     quote! {
                                         {
                                         let value = #ty_ident::decode(data)?;
+                                        key = Some(value.0 as i128);
                                         let _ = data.set_key(value.0 as i128);
                                         value
                                         }
-- 
2.43.0


From 67cb544e389e364f08e7a3570a2838052eb7e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 26/96] fix: decode an empty SEQUENCE OF

---
 codecs_derive/src/aper/seqof.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..dc8cde3 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -47,12 +47,9 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
 
                 let mut items = vec![];
                 let mut count = 0;
-                loop {
+                while count < length {
                     items.push(#ty::decode(data)?);
                     count += 1;
-                    if count == length {
-                        break;
-                    }
                 }
 
                 Ok(Self(items))
-- 
2.43.0


From af8e954ea6470f28aba760678492f2e13d090d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 27/96] fix: refuse to encode a SEQUENCE OF with a count that
 cannot be encoded

---
 codecs_derive/src/aper/seqof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index dc8cde3..6716a8a 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -58,7 +58,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From d85105ef93d7505423f26017fd3f8feae1fa79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 28/96] fix: an extensible size of a SEQUENCE OF is encoded
 with an extension bit

---
 codecs_derive/src/aper/seqof.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 6716a8a..1c96679 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -43,7 +43,13 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                // The extension bit tells whether the count is outside the root of the size constraint.
+                let (sz_lb, sz_ub): (Option<i128>, Option<i128>) = if #sz_ext && asn1_codecs::aper::decode::decode_bool(data)? {
+                    (None, None)
+                } else {
+                    (#sz_lb, #sz_ub)
+                };
+                let length = asn1_codecs::aper::decode::decode_length_determinent(data, sz_lb, sz_ub, false)?;
 
                 let mut items = vec![];
                 let mut count = 0;
@@ -58,7 +64,10 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len())?;
+                if #sz_ext {
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From e2e32c41651a7b6659b8eefacf74027e3bd0ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 29/96] fix: refuse fragments and counts outside the size
 constraint when decoding a SEQUENCE OF

---
 codecs_derive/src/aper/seqof.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 1c96679..55f5671 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -50,6 +50,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
                     (#sz_lb, #sz_ub)
                 };
                 let length = asn1_codecs::aper::decode::decode_length_determinent(data, sz_lb, sz_ub, false)?;
+                if sz_ub.map_or(true, |ub| ub >= 65_536) && length >= 16384 {
+                    return Err(asn1_codecs::aper::AperCodecError::new("Decode of fragmented SEQUENCE OF not yet implemented"));
+                }
+                if (length as i128) < sz_lb.unwrap_or(0) || sz_ub.map_or(false, |ub| length as i128 > ub) {
+                    return Err(asn1_codecs::aper::AperCodecError::new("Decoded count is outside the size constraint"));
+                }
 
                 let mut items = vec![];
                 let mut count = 0;
-- 
2.43.0


From ad108ef07386568aaf196c83528444d6332beafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 30/96] fix: a CHOICE addition is never selected by an index in
 the root

---
 codecs_derive/src/aper/choice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index 4706881..99007c6 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -91,7 +91,10 @@ fn generate_choice_variant_decode_tokens_using_attrs(
                                     v.encode(data)
                                 }
                             };
-                            decode_tokens.push(variant_decode_token);
+                            // Indices of additions are not indices in the root.
+                            if !extended.map_or(false, |e| e.value()) {
+                                decode_tokens.push(variant_decode_token);
+                            }
                             encode_tokens.push(variant_encode_token);
                         } else {
                             errors.push(syn::Error::new_spanned(
-- 
2.43.0


From fdc4a489b5c5592f160c8395cdec74628cdcb976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 31/96] fix: an ENUMERATED addition is never decoded as a root
 item

---
 codecs_derive/src/aper/enumerated.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..d811ad5 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -44,6 +44,9 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
+                if decoded.1 {
+                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
+                }
                 Ok(Self(decoded.0 as #ty))
             }
 
-- 
2.43.0


From d2585604d84daed522ec7196e88d35e0f21e5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 32/96] fix: a decoded INTEGER or ENUMERATED value that does
 not fit its Rust type is an error

---
 codecs_derive/src/aper/enumerated.rs | 4 +++-
 codecs_derive/src/aper/integer.rs    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index d811ad5..de14c4d 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -47,7 +47,9 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
                 if decoded.1 {
                     return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
                 }
-                Ok(Self(decoded.0 as #ty))
+                <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0)
+                    .map(Self)
+                    .map_err(|_| asn1_codecs::aper::AperCodecError::new(format!("Decoded value {} is too large", decoded.0)))
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..bb0f85f 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,9 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0)
+                    .map(Self)
+                    .map_err(|_| asn1_codecs::aper::AperCodecError::new(format!("Decoded value {} is too large", decoded.0)))
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From 60f9dd0826f0acfee05dcdf9a6ee6dcd8b8a1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 33/96] fix: PLUS-INFINITY is a reserved word

---
 asn-compiler/src/tokenizer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 2164273..0aaa07c 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -65,7 +65,7 @@ const KEYWORDS: &[&str] = &[
     "OPTIONAL",
     "PATTERN",
     "PDV",
-    "Plus-Infinity",
+    "PLUS-INFINITY",
     "PRESENT",
     "PrintableString",
     "PRIVATE",
-- 
2.43.0


From ac370a440ed530b99d23043f99bb5165c8cb94cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 34/96] fix: the tokenizer reports unsupported input as an
 error instead of panicking

---
 asn-compiler/src/tokenizer/mod.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 0aaa07c..d96c9f7 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -690,12 +690,12 @@ fn get_seq_extension_or_square_brackets_token(
     begin: usize,
 ) -> Result<(Token, usize), Error> {
     let (token_type, consumed) = if chars[0] == '[' {
-        if chars[1] == '[' {
+        if chars.get(1) == Some(&'[') {
             (TokenType::AdditionGroupsBegin, 2)
         } else {
             (TokenType::SquareBegin, 1)
         }
-    } else if chars[1] == ']' {
+    } else if chars.get(1) == Some(&']') {
         (TokenType::AdditionGroupsEnd, 2)
     } else {
         (TokenType::SquareEnd, 1)
@@ -753,7 +753,7 @@ fn get_maybe_comment_token(
     line: usize,
     begin: usize,
 ) -> Result<(Option<Token>, usize), Error> {
-    if chars[1] != '-' {
+    if chars.get(1) != Some(&'-') {
         return Ok((None, 0));
     }
     let mut consumed = 2; // initial "--"
@@ -808,13 +808,16 @@ where
     let mut line = 1;
     let mut tokens: Vec<Token> = Vec::new();
     let mut buffer = Vec::new();
-    let _ = input.read_to_end(&mut buffer).unwrap();
-    let buffer = String::from_utf8(buffer).unwrap();
+    let _ = input
+        .read_to_end(&mut buffer)
+        .map_err(|e| parse_error!("Error reading the input: {}", e))?;
+    let buffer = String::from_utf8(buffer)
+        .map_err(|e| parse_error!("The input is not valid UTF-8: {}", e))?;
     let chars: Vec<char> = buffer.chars().collect();
     let mut column = 0_usize;
     let mut processed = 0;
     let total_read = chars.len();
-    loop {
+    while processed < total_read {
         let c = chars[processed];
         match c {
             ' ' | '\t' => {
@@ -918,15 +921,7 @@ where
             '\u{feff}' => {
                 processed += 1;
             }
-            _ => {
-                panic!(
-                    "Unsupported First character for a token: '{:?}'. Line: {}, Column: {}",
-                    chars[processed], line, column
-                );
-            }
-        }
-        if processed == total_read {
-            break;
+            _ => return Err(Error::TokenizeError(22, line, column)),
         }
     }
     Ok(tokens)
-- 
2.43.0


From ee630bc361731968fb24e23e90f401dca4c9b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 35/96] fix: carriage return, vertical tab and form feed are
 white space

---
 asn-compiler/src/tokenizer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index d96c9f7..4722529 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -820,7 +820,7 @@ where
     while processed < total_read {
         let c = chars[processed];
         match c {
-            ' ' | '\t' => {
+            ' ' | '\t' | '\r' | '\u{b}' | '\u{c}' => {
                 processed += 1;
                 column += 1;
             }
-- 
2.43.0


From 48e965b0fdfa52a51369fdfbfa800b05bbb229e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 36/96] fix: a number is made of ASCII digits, at least one of
 them

---
 asn-compiler/src/tokenizer/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 4722529..54af10b 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -524,13 +524,18 @@ fn get_number_token(chars: &[char], line: usize, begin: usize) -> Result<(Token,
     }
 
     let mut consumed = neg;
-    let last = chars[neg..].iter().position(|&x| !x.is_numeric());
+    let last = chars[neg..].iter().position(|&x| !x.is_ascii_digit());
     if let Some(lst) = last {
         consumed += lst;
     } else {
         consumed += chars[neg..].len();
     }
 
+    // A free standing '-' is not a number.
+    if consumed == neg {
+        return Err(Error::TokenizeError(23, line, begin));
+    }
+
     Ok((
         Token {
             r#type: TokenType::NumberInt,
-- 
2.43.0


From a68b2c469404d08ca04abd17a8dbd810a6262f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 37/96] fix: a comment may follow an identifier directly

---
 asn-compiler/src/tokenizer/mod.rs | 40 ++++++++++++++-----------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 54af10b..a3fa20b 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -479,6 +479,22 @@ fn get_bit_or_hex_string_token(
     ))
 }
 
+// Length of the identifier (or list of identifiers, when '.' is allowed) at the start of `chars`.
+//
+// A "--" is never a part of an identifier, it starts a comment.
+fn identifier_length(chars: &[char], dot: bool) -> usize {
+    let mut length = 0;
+    while length < chars.len() {
+        let c = chars[length];
+        let comment = c == '-' && chars.get(length + 1) == Some(&'-');
+        if comment || !(c.is_ascii_alphanumeric() || c == '-' || (dot && c == '.')) {
+            break;
+        }
+        length += 1;
+    }
+    length
+}
+
 // Get at and component ID list something like @.id or @component.id
 fn get_at_component_id_list(
     chars: &[char],
@@ -489,15 +505,7 @@ fn get_at_component_id_list(
         return Err(Error::TokenizeError(12, line, begin));
     }
 
-    let mut consumed = 1;
-    let last = chars[1..]
-        .iter()
-        .position(|&x| !(x.is_ascii_alphanumeric() || x == '-' || x == '.'));
-    if let Some(lst) = last {
-        consumed += lst;
-    } else {
-        consumed += chars[1..].len();
-    }
+    let consumed = 1 + identifier_length(&chars[1..], true);
 
     // Identifier should not end with a '-'
     if ['.', '-'].iter().any(|&c| c == chars[consumed - 1]) {
@@ -565,16 +573,7 @@ fn get_identifier_or_keyword_token(
         return Err(Error::TokenizeError(15, line, begin));
     }
 
-    let mut consumed = and;
-    let last = chars[and..]
-        .iter()
-        .position(|&x| !(x.is_ascii_alphanumeric() || x == '-'));
-
-    if let Some(lst) = last {
-        consumed += lst;
-    } else {
-        consumed += chars[and..].len();
-    }
+    let consumed = and + identifier_length(&chars[and..], false);
 
     // Identifier should not end with a '-'
     if chars[consumed - 1] == '-' {
@@ -587,9 +586,6 @@ fn get_identifier_or_keyword_token(
     }
 
     let text = chars[..consumed].iter().collect::<String>();
-    if text.contains("--") {
-        return Err(Error::TokenizeError(18, line, begin));
-    }
 
     let token_type = if and > 0 {
         TokenType::AndIdentifier
-- 
2.43.0


From 6728254efeaf12e4c3e43d1d4cb90accc8428390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 38/96] fix: columns after a string that spans lines count
 characters

---
 asn-compiler/src/tokenizer/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index a3fa20b..bc6beb5 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -388,7 +388,7 @@ fn get_string_token(
     let lines = text.lines().count() - 1;
     let last_line = text.lines().last().unwrap();
     let end_column = if lines > 0 {
-        last_line.len()
+        last_line.chars().count()
     } else {
         begin + consumed
     };
@@ -446,9 +446,9 @@ fn get_bit_or_hex_string_token(
     let lines = text.lines().count() - 1;
     let last_line = text.lines().last().unwrap();
     let end_column = if lines > 0 {
-        last_line.len()
+        last_line.chars().count() + 1 // last 'h' or 'b'
     } else {
-        begin + consumed
+        begin + consumed + 1
     };
     text = text.replace(char::is_whitespace, "");
 
@@ -469,7 +469,7 @@ fn get_bit_or_hex_string_token(
             r#type: token_type,
             span: Span::new(
                 LineColumn::new(line, begin),
-                LineColumn::new(line + lines, end_column), // FIXME: This span may be wrong, but ignore right now
+                LineColumn::new(line + lines, end_column),
             ),
             text,
         },
-- 
2.43.0


From f15e3160ffffca7d340242704baf772a39d2ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 39/96] fix: the parser reports a malformed component instead
 of looping forever

---
 .../parser/asn/types/constructed/choice.rs    |  85 ++++-------
 .../src/parser/asn/types/constructed/seq.rs   | 136 ++++++++----------
 2 files changed, 92 insertions(+), 129 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..1d12889 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,42 +32,17 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
-        let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-            Ok(result) => (Some(result.0), result.1),
-            Err(_) => (None, 0),
-        };
-        if let Some(c) = component {
-            // We have a component that needs to be added in the `additions` list and not in the
-            // `root_components`. All such components that are not part of `ChoiceAdditionGroup`
-            // (ie. one without `version`, are pulled into one `ChoiceAdditionGroup` with version
-            // as `None`. And are added separately.
-            if extension_markers > 0 {
-                no_ver_additions_components.push(c);
-            } else {
-                root_components.push(c);
-            }
-            consumed += component_consumed;
-        }
-
         if expect_token(&tokens[consumed..], Token::is_addition_groups_begin)? {
             if extension_markers != 1 {
                 return Err(parse_error!(
                     "Addition Component can only be present after an Extension Marker!"
                 ));
-            } else {
-                let (addition_group, addition_group_consumed) =
-                    parse_choice_addition_group(&tokens[consumed..])?;
-                additions.push(addition_group);
-                consumed += addition_group_consumed;
             }
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
-        }
-
-        // Consume extension marker and next comma if present
-        if expect_token(&tokens[consumed..], Token::is_extension)? {
+            let (addition_group, addition_group_consumed) =
+                parse_choice_addition_group(&tokens[consumed..])?;
+            additions.push(addition_group);
+            consumed += addition_group_consumed;
+        } else if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_markers += 1;
             if extension_markers > 1 {
                 return Err(parse_error!(
@@ -75,14 +50,23 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
                 ));
             }
             consumed += 1;
-            if expect_token(&tokens[consumed..], Token::is_comma)? {
-                consumed += 1;
+        } else {
+            let (component, component_consumed) = parse_component(&tokens[consumed..])?;
+            if extension_markers > 0 {
+                no_ver_additions_components.push(component);
+            } else {
+                root_components.push(component);
             }
+            consumed += component_consumed;
         }
 
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        if expect_token(&tokens[consumed..], Token::is_comma)? {
+            consumed += 1;
+        } else if expect_token(&tokens[consumed..], Token::is_curly_end)? {
             consumed += 1;
             break;
+        } else {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
     }
 
@@ -130,36 +114,27 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
-        let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-            Ok(result) => (Some(result.0), result.1),
-            Err(_) => (None, 0),
-        };
-
-        if let Some(c) = component {
-            components.push(c);
-        }
+        let (component, component_consumed) = parse_component(&tokens[consumed..])?;
+        components.push(component);
         consumed += component_consumed;
 
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
+        } else if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
             consumed += 1;
             break;
+        } else {
+            return Err(unexpected_token!("',' or ']]'", tokens[consumed]));
         }
     }
-    if components.is_empty() {
-        Err(parse_error!("Additional Components cannot be empty!"))
-    } else {
-        Ok((
-            ChoiceAdditionGroup {
-                _version,
-                components,
-            },
-            consumed,
-        ))
-    }
+
+    Ok((
+        ChoiceAdditionGroup {
+            _version,
+            components,
+        },
+        consumed,
+    ))
 }
 
 #[cfg(test)]
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..74de7e1 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -43,18 +43,14 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
-        let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
-            Ok(result) => result,
-            Err(_) => (None, 0),
-        };
-        if let Some(root_comp) = component {
-            root_components.push(root_comp);
+        if expect_token(&tokens[consumed..], Token::is_curly_end)? && root_components.is_empty() {
+            consumed += 1;
+            break;
         }
-        consumed += component_consumed;
 
-        // Add to additional group only if first extension marker is found.
-        // after second extension marker, we cannot add additional groups.
         if expect_token(&tokens[consumed..], Token::is_addition_groups_begin)? {
+            // Add to additional group only if first extension marker is found.
+            // after second extension marker, we cannot add additional groups.
             if ext_marker_found == 1 {
                 let (ext_group, ext_group_consumed) =
                     parse_seq_addition_group(&tokens[consumed..])?;
@@ -65,23 +61,27 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
                     "Addition groups can only be added between first and second extension markers!"
                 ));
             }
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_extension)? {
+        } else if expect_token(&tokens[consumed..], Token::is_extension)? {
             ext_marker_found += 1;
-            consumed += 1;
-            if expect_token(&tokens[consumed..], Token::is_comma)? {
-                consumed += 1;
+            if ext_marker_found > 2 {
+                return Err(parse_error!(
+                    "At most two Extension Markers are allowed in a 'SEQUENCE'"
+                ));
             }
+            consumed += 1;
+        } else {
+            let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
+            root_components.push(component);
+            consumed += component_consumed;
         }
 
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        if expect_token(&tokens[consumed..], Token::is_comma)? {
+            consumed += 1;
+        } else if expect_token(&tokens[consumed..], Token::is_curly_end)? {
             consumed += 1;
             break;
+        } else {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
     }
 
@@ -126,49 +126,42 @@ fn parse_sequence_of_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Err
     ))
 }
 
-fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize), Error> {
+fn parse_seq_component(tokens: &[Token]) -> Result<(SeqComponent, usize), Error> {
     let mut consumed = 0;
 
-    let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-        Ok(result) => (Some(result.0), result.1),
-        Err(_) => (None, 0),
-    };
+    let (component, component_consumed) = parse_component(&tokens[consumed..])?;
     consumed += component_consumed;
 
-    if let Some(component) = component {
-        let optional = if expect_keyword(&tokens[consumed..], "OPTIONAL")? {
-            consumed += 1;
-            true
-        } else {
-            false
-        };
-
-        let _default = if expect_keyword(&tokens[consumed..], "DEFAULT")? {
-            consumed += 1;
-            let (value, value_consumed) = parse_value(&tokens[consumed..])?;
-            consumed += value_consumed;
-            Some(value)
-        } else {
-            None
-        };
-
-        if _default.is_some() && optional {
-            return Err(parse_error!(
-                "Both OPTIONAL and DEFAULT not allowed for a value!"
-            ));
-        }
+    let optional = if expect_keyword(&tokens[consumed..], "OPTIONAL")? {
+        consumed += 1;
+        true
+    } else {
+        false
+    };
 
-        Ok((
-            Some(SeqComponent {
-                component,
-                optional,
-                _default,
-            }),
-            consumed,
-        ))
+    let _default = if expect_keyword(&tokens[consumed..], "DEFAULT")? {
+        consumed += 1;
+        let (value, value_consumed) = parse_value(&tokens[consumed..])?;
+        consumed += value_consumed;
+        Some(value)
     } else {
-        Ok((None, 0))
+        None
+    };
+
+    if _default.is_some() && optional {
+        return Err(parse_error!(
+            "Both OPTIONAL and DEFAULT not allowed for a value!"
+        ));
     }
+
+    Ok((
+        SeqComponent {
+            component,
+            optional,
+            _default,
+        },
+        consumed,
+    ))
 }
 
 fn parse_seq_addition_group(tokens: &[Token]) -> Result<(SeqAdditionGroup, usize), Error> {
@@ -199,31 +192,26 @@ fn parse_seq_addition_group(tokens: &[Token]) -> Result<(SeqAdditionGroup, usize
     let mut components = vec![];
     loop {
         let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
-        if component.is_none() {
-            break;
-        }
-        components.push(component.unwrap());
+        components.push(component);
         consumed += component_consumed;
 
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
+        } else if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
+            consumed += 1;
+            break;
+        } else {
+            return Err(unexpected_token!("',' or ']]'", tokens[consumed]));
         }
     }
 
-    if components.is_empty() {
-        Err(parse_error!("Empty Addition Groups not allowed!"))
-    } else if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
-        consumed += 1;
-        Ok((
-            SeqAdditionGroup {
-                _version,
-                components,
-            },
-            consumed,
-        ))
-    } else {
-        Err(unexpected_token!("']]'", tokens[consumed]))
-    }
+    Ok((
+        SeqAdditionGroup {
+            _version,
+            components,
+        },
+        consumed,
+    ))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 240c51b90439a9c5e9990ca72d6191b519cfc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 40/96] fix: the parser reports a malformed actual parameter
 instead of looping forever

---
 asn-compiler/src/parser/asn/types/int.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 470acae..b08dec2 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -193,6 +193,9 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
     consumed += 1;
 
     let mut params = vec![];
+    if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        return Ok((params, consumed + 1));
+    }
     loop {
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
@@ -212,22 +215,24 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             };
             consumed += 1;
             params.push(ActualParam::Set(param));
-        }
-
-        if expect_one_of_tokens(
+        } else if expect_one_of_tokens(
             &tokens[consumed..],
             &[Token::is_numeric, Token::is_identifier],
         )? {
             let param = tokens[consumed].text.clone();
             consumed += 1;
             params.push(ActualParam::Single(param));
+        } else {
+            return Err(unexpected_token!("'Actual Parameter'", tokens[consumed]));
         }
+
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-        }
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        } else if expect_token(&tokens[consumed..], Token::is_curly_end)? {
             consumed += 1;
             break;
+        } else {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
     }
     Ok((params, consumed))
-- 
2.43.0


From 5f9b9e6b10df99ef913df7bb27990578b8c10cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 41/96] fix: the parser reports a malformed object set instead
 of looping forever

---
 asn-compiler/src/parser/asn/types/ioc.rs | 69 ++++++++++--------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d81941c..50921b7 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -314,62 +314,51 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
     loop {
+        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+            // Empty Object Sets (and trailing separators) permitted
+            consumed += 1;
+            break;
+        }
+
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
                 return Err(parse_error!("More than one extension markers found!"));
             }
             consumed += 1;
-            if expect_token(&tokens[consumed..], Token::is_comma)? {
+        } else {
+            let element = if expect_one_of_tokens(
+                &tokens[consumed..],
+                &[Token::is_object_set_reference, Token::is_object_reference],
+            )? {
+                // It may be a reference to an object or an object set, allowed
+                let token = &tokens[consumed];
                 consumed += 1;
-            }
-        }
-
-        let element = match parse_set_ish_value(&tokens[consumed..]) {
-            Ok(result) => {
-                let (value, value_consumed) = result;
-
-                consumed += value_consumed;
-                Some(ObjectSetElement::Object(Asn1ObjectValue::Input(value)))
-            }
-            Err(_) => {
-                // It may be a reference to an object set, allowed
-                if expect_one_of_tokens(
-                    &tokens[consumed..],
-                    &[Token::is_object_set_reference, Token::is_object_reference],
-                )? {
-                    let token = &tokens[consumed];
-                    consumed += 1;
-                    if token.is_object_reference() {
-                        Some(ObjectSetElement::ObjectReference(token.text.clone()))
-                    } else {
-                        Some(ObjectSetElement::ObjectSetReference(token.text.clone()))
-                    }
+                if token.is_object_reference() {
+                    ObjectSetElement::ObjectReference(token.text.clone())
                 } else {
-                    None
+                    ObjectSetElement::ObjectSetReference(token.text.clone())
                 }
-            } // Empty Values permitted
-        };
+            } else {
+                let (value, value_consumed) = parse_set_ish_value(&tokens[consumed..])?;
+                consumed += value_consumed;
+                ObjectSetElement::Object(Asn1ObjectValue::Input(value))
+            };
 
-        if let Some(ele) = element {
             if extension_token_count == 0 {
-                root_elements.push(ele);
+                root_elements.push(element);
             } else {
-                additional_elements.push(ele);
+                additional_elements.push(element);
             }
         }
 
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
+        if expect_one_of_tokens(
+            &tokens[consumed..],
+            &[Token::is_comma, Token::is_set_union],
+        )? {
             consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_set_union)? {
-            consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
-            consumed += 1;
-            break;
+        } else if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
+            return Err(unexpected_token!("',' or '|' or '}'", tokens[consumed]));
         }
     }
     Ok((
-- 
2.43.0


From ea32af5ecfe4c67799e1309da9aa91d079c6928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 42/96] fix: OCTET and CHARACTER are followed by STRING

---
 asn-compiler/src/parser/asn/types/int.rs | 26 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index b08dec2..6ed797e 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -43,14 +43,26 @@ pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
             )
         }
 
-        "OCTET" => (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2),
+        "OCTET" => {
+            if !expect_keywords(&tokens[consumed..], &["OCTET", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
 
-        "CHARACTER" => (
-            Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
-                str_type: "CHARACTER-STRING".to_string(),
-            }),
-            2,
-        ),
+            (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2)
+        }
+
+        "CHARACTER" => {
+            if !expect_keywords(&tokens[consumed..], &["CHARACTER", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
+
+            (
+                Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
+                    str_type: "CHARACTER-STRING".to_string(),
+                }),
+                2,
+            )
+        }
 
         "ENUMERATED" => {
             let (enum_type, enum_type_consumed) = parse_enumerated_type(tokens)?;
-- 
2.43.0


From 0d60d53dbaf24f37261dd72448feea8ff939495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 43/96] fix: an unresolvable INTEGER value is an error instead
 of a panic

---
 asn-compiler/src/resolver/asn/values.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 08914f1..b5e667c 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -25,7 +25,9 @@ pub(crate) fn resolve_value(
             match typeref {
                 Asn1ResolvedType::Base(ref b) => match b {
                     ResolvedBaseType::Integer(ref _i) => {
-                        let value = value.parse::<BaseInteger>().unwrap();
+                        let value = value.parse::<BaseInteger>().map_err(|_| {
+                            resolve_error!("'{}' is not a value of an INTEGER Type!", value)
+                        })?;
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
                             Asn1ResolvedIntegerValue {
                                 typeref: typeref.clone(),
-- 
2.43.0


From 2ec022218bc4eb41a1a60a71c3f43ce442939ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 44/96] fix: a named bit that does not fit in a u8 is an error
 instead of a panic

---
 asn-compiler/src/resolver/asn/types/base/bitstring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index cb0f510..92eed05 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -37,7 +37,9 @@ impl Asn1ResolvedBitString {
             let mut named_values = HashMap::new();
             for nb in b.named_bits.as_ref().unwrap() {
                 if let NamedValue::Number(ref v) = nb.1 {
-                    let parsed = v.parse::<u8>().unwrap(); // Let it panic if it does not fit in u8.
+                    let parsed = v.parse::<u8>().map_err(|_| {
+                        resolve_error!("Named bit '{}({})' does not fit in a u8!", nb.0, v)
+                    })?;
                     named_values.insert(nb.0.clone(), parsed);
                 }
             }
-- 
2.43.0


From 876755f50192306b5f7979f26b5d304e7e905843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 45/96] fix: components after the extension marker of a
 SEQUENCE are not in its root

---
 asn-compiler/src/parser/asn/structs/types/constructed.rs | 1 +
 asn-compiler/src/parser/asn/types/constructed/seq.rs     | 4 +++-
 asn-compiler/src/resolver/asn/types/constructed.rs       | 4 ++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2ca0ad8..ddfba8b 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -20,6 +20,7 @@ pub(crate) struct SeqComponent {
     pub(crate) component: Component,
     pub(crate) optional: bool,
     pub(crate) _default: Option<String>, // FIXME: Should be Asn1Value later on
+    pub(crate) addition: bool, // Whether the component follows the first extension marker.
 }
 
 impl SeqComponent {
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 74de7e1..f2a047e 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -70,7 +70,8 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             }
             consumed += 1;
         } else {
-            let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
+            let (mut component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
+            component.addition = ext_marker_found == 1;
             root_components.push(component);
             consumed += component_consumed;
         }
@@ -159,6 +160,7 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(SeqComponent, usize), Error>
             component,
             optional,
             _default,
+            addition: false,
         },
         consumed,
     ))
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ebf433c..755260c 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -100,6 +100,10 @@ fn resolve_sequence_type(
                 return resolve_sequence_classfield_components(sequence, resolver);
             }
         };
+        if c.addition {
+            // Extension additions are not part of the root (and are not generated for now).
+            continue;
+        }
         let component = ResolvedComponent {
             id: c.component.id.clone(),
             ty,
-- 
2.43.0


From 27224c8ce3e2f28f0b1cf008193e661b7fce2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 46/96] fix: a component with a DEFAULT value has a presence
 bit

---
 asn-compiler/src/resolver/asn/types/constructed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 755260c..61430d4 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -110,7 +110,7 @@ fn resolve_sequence_type(
         };
         let seq_component = ResolvedSeqComponent {
             component,
-            optional: c.optional,
+            optional: c.optional || c._default.is_some(),
             class_field_type: None,
             key_field: false,
         };
-- 
2.43.0


From 224d06dccb565deb95c77a2af5ec19d5a930e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 47/96] fix: TRUE and FALSE are values

---
 asn-compiler/src/parser/asn/values.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/values.rs b/asn-compiler/src/parser/asn/values.rs
index 1563c5b..84874cf 100644
--- a/asn-compiler/src/parser/asn/values.rs
+++ b/asn-compiler/src/parser/asn/values.rs
@@ -19,6 +19,7 @@ pub(crate) fn parse_value(tokens: &[Token]) -> Result<(String, usize), Error> {
             Token::is_tstring,
             Token::is_curly_begin,
             Token::is_round_begin,
+            is_boolean_value,
         ],
     )? {
         Err(unexpected_token!(
@@ -32,10 +33,15 @@ pub(crate) fn parse_value(tokens: &[Token]) -> Result<(String, usize), Error> {
             | TokenType::NumberInt
             | TokenType::BitString
             | TokenType::HexString
-            | TokenType::TString => Ok((token.text.clone(), 1)),
+            | TokenType::TString
+            | TokenType::Keyword => Ok((token.text.clone(), 1)),
             _ => parse_set_ish_value(tokens),
         }
     }
 }
 
+fn is_boolean_value(token: &Token) -> bool {
+    token.is_given_keyword("TRUE") || token.is_given_keyword("FALSE")
+}
+
 // TODO: Add Test cases
-- 
2.43.0


From 6f89c0c797ec3ad99040ac84ad4265aaa6b0e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 48/96] fix: CHOICE additions keep the order in which they are
 written

---
 asn-compiler/src/parser/asn/types/constructed/choice.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 1d12889..1606a69 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -40,6 +40,13 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             }
             let (addition_group, addition_group_consumed) =
                 parse_choice_addition_group(&tokens[consumed..])?;
+            // Additions are kept in the order in which they are written.
+            if !no_ver_additions_components.is_empty() {
+                additions.push(ChoiceAdditionGroup {
+                    _version: None,
+                    components: std::mem::take(&mut no_ver_additions_components),
+                });
+            }
             additions.push(addition_group);
             consumed += addition_group_consumed;
         } else if expect_token(&tokens[consumed..], Token::is_extension)? {
-- 
2.43.0


From f87fbacf5c884e5a636c37f1edcfcba80d6aa6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 49/96] fix: a CHOICE without root alternatives is an error
 instead of an overflow

---
 asn-compiler/src/resolver/asn/types/constructed.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 61430d4..61aa6df 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -51,6 +51,12 @@ fn resolve_choice_type(
     choice: &Asn1TypeChoice,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
+    if choice.root_components.is_empty() {
+        return Err(resolve_error!(
+            "A CHOICE without any root alternative is not supported!"
+        ));
+    }
+
     let mut root_components = vec![];
     for c in &choice.root_components {
         let ty = resolve_type(&c.ty, resolver)?;
-- 
2.43.0


From 4563ef321f83963fd4040e67d293643ea4249b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 50/96] fix: ENUMERATED items with numbers are indexed in the
 order of their numbers

---
 .../src/resolver/asn/types/base/enumerated.rs | 112 ++++++++++++------
 1 file changed, 74 insertions(+), 38 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 33c79e5..767976f 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -1,22 +1,23 @@
 //! Functionality for handling Resolved ASN.1 ENUMERATED Types
 
 use std::collections::BTreeSet;
-use std::convert::TryInto;
 
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    base::{Asn1TypeEnumerated, NamedValue},
+    base::{Asn1TypeEnumerated, EnumValue, NamedValue},
     Asn1Type,
 };
-use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
+use crate::resolver::asn::structs::{
+    defs::Asn1ResolvedDefinition, types::base::Asn1ResolvedEnumerated,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedEnumerated {
     pub(super) fn resolve_enumerated(
         _ty: &Asn1Type,
         e: &Asn1TypeEnumerated,
-        _resolver: &Resolver,
+        resolver: &Resolver,
     ) -> Result<Asn1ResolvedEnumerated, Error> {
         let mut base = Asn1ResolvedEnumerated {
             extensible: e.ext_marker_index.is_some(),
@@ -25,43 +26,24 @@ impl Asn1ResolvedEnumerated {
 
         // FIXME: TODO Constraints
 
-        let mut root_values = BTreeSet::<i128>::new();
-        for v in &e.root_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                root_values.insert(parsed);
-            }
-        }
-        // TODO: Support all crazy Enumerations.
-        if root_values.is_empty() {
-            for (value, v) in e.root_values.iter().enumerate() {
-                base.named_root_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                root_values.insert(value.try_into().unwrap());
-            }
-        }
+        let root_values = number_items(&e.root_values, BTreeSet::new(), resolver)?;
+        let used = root_values.iter().map(|(_, n)| *n).collect::<BTreeSet<_>>();
+        let ext_values = number_items(&e.ext_values, used, resolver)?;
 
-        let mut ext_values = BTreeSet::<i128>::new();
-        for v in &e.ext_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                ext_values.insert(parsed);
-            }
-        }
-        // TODO: Support all crazy Enumerations.
-        if ext_values.is_empty() {
-            for (value, v) in e.ext_values.iter().enumerate() {
-                base.named_ext_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                ext_values.insert(value.try_into().unwrap());
-            }
-        }
+        // The value of an item is it's index when the items are sorted by their number.
+        base.named_root_values = indexed(&root_values);
+        base.named_ext_values = indexed(&ext_values);
+        let root_values = root_values.into_iter().map(|(_, n)| n).collect();
+        let ext_values = ext_values.into_iter().map(|(_, n)| n).collect();
 
-        // FIXME: Following is hard-coded
         base.signed = false;
-        base.bits = 8;
+        base.bits = if base.named_root_values.len() <= 256 {
+            8
+        } else if base.named_root_values.len() <= 65536 {
+            16
+        } else {
+            32
+        };
 
         let _ = base.root_values.replace(root_values);
         let _ = base.ext_values.replace(ext_values);
@@ -69,3 +51,57 @@ impl Asn1ResolvedEnumerated {
         Ok(base)
     }
 }
+
+// Numbers of all the items: those without a number get the lowest ones not used so far.
+fn number_items(
+    items: &[EnumValue],
+    mut used: BTreeSet<i128>,
+    resolver: &Resolver,
+) -> Result<Vec<(String, i128)>, Error> {
+    let mut numbers = vec![];
+    for item in items {
+        let number = match item.value {
+            None => None,
+            Some(NamedValue::Number(ref s)) => s.parse::<i128>().ok(),
+            Some(NamedValue::ValueRef(ref r)) => match resolver.resolved_defs.get(r) {
+                Some(Asn1ResolvedDefinition::Value(ref v)) => v.get_base_integer_value(),
+                _ => None,
+            },
+        };
+        if number.is_none() && item.value.is_some() {
+            return Err(resolve_error!("Number of the item '{}' unknown!", item.name));
+        }
+        if let Some(n) = number {
+            if !used.insert(n) {
+                return Err(resolve_error!("Number of the item '{}' reused!", item.name));
+            }
+        }
+        numbers.push((item.name.clone(), number));
+    }
+
+    let mut next = 0;
+    let mut numbered = vec![];
+    for (name, number) in numbers {
+        let number = match number {
+            Some(n) => n,
+            None => {
+                while !used.insert(next) {
+                    next += 1;
+                }
+                next
+            }
+        };
+        numbered.push((name, number));
+    }
+    Ok(numbered)
+}
+
+fn indexed(items: &[(String, i128)]) -> Vec<(String, i128)> {
+    let mut items = items.to_vec();
+    items.sort_by_key(|(_, number)| *number);
+    items
+        .into_iter()
+        .enumerate()
+        .map(|(index, (name, _))| (name, index as i128))
+        .collect()
+}
-- 
2.43.0


From 854a3aedc6603b28a01a4ee0ddda460728ae585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 51/96] fix: an object that does not match the syntax of its
 class is an error

---
 asn-compiler/src/parser/asn/types/ioc.rs | 62 ++++++++++++++----------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 50921b7..cd3822e 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -428,37 +428,40 @@ pub(crate) fn parse_object_from_class(
     let reader = std::io::BufReader::new(std::io::Cursor::new(value));
     let tokens = tokenize(reader)?;
     let mut consumed = 0;
-    let object_tokens = &tokens[1..tokens.len() - 1];
-
-    // We are splitting the tokens by words from WITH SYNTAX. This will use any word that's not
-    // there in WITH SYNTAX. This is a bit complicated because we've to also worry about WITH
-    // SYNTAX words that can be more than a single WORD.
-    let word_tokens = &mut object_tokens.split(|t| {
-        !class
-            .get_with_syntax_words()
+    let object_tokens = match tokens.len() {
+        0 | 1 => return Err(parse_error!("'{}' is not an object!", value)),
+        len => &tokens[1..len - 1],
+    };
+
+    // Words from WITH SYNTAX (possibly none at all) followed by the setting of the field that has
+    // those words in WITH SYNTAX.
+    let syntax_words = class.get_with_syntax_words();
+    let is_syntax_word = |t: &Token| {
+        syntax_words
             .iter()
             .any(|f| f.split_whitespace().any(|w| t.text == w))
-    });
+    };
     let mut fields = HashMap::new();
-    for words in word_tokens {
-        consumed += words.len();
-        let words = words
+    while consumed < object_tokens.len() {
+        let words = object_tokens[consumed..]
             .iter()
+            .take_while(|t| is_syntax_word(t))
             .map(|t| t.text.clone())
-            .collect::<Vec<String>>()
-            .join(" ");
-        let field_spec = class_fieldspec_from_words(class, &words);
-        if let Some(fspec) = field_spec {
-            let (field_spec_value, field_spec_value_consumed) =
-                value_from_field_spec(fspec, &object_tokens[consumed..])?;
-            fields.insert(fspec.id(), field_spec_value);
-            consumed += field_spec_value_consumed;
-
-            // Required to handle &Type IDENTIFIED BY &id
-            if consumed == object_tokens.len() {
-                break;
+            .collect::<Vec<String>>();
+        consumed += words.len();
+        let fspec = match class_fieldspec_from_words(class, &words.join(" ")) {
+            Some(fspec) if !fields.contains_key(&fspec.id()) => fspec,
+            _ => {
+                return Err(parse_error!(
+                    "Object '{}' does not match the syntax of it's CLASS!",
+                    value
+                ));
             }
-        }
+        };
+        let (field_spec_value, field_spec_value_consumed) =
+            value_from_field_spec(fspec, &object_tokens[consumed..])?;
+        fields.insert(fspec.id(), field_spec_value);
+        consumed += field_spec_value_consumed;
     }
 
     // If we didn't find an optional value, Check if default exists, if default exists, give it to
@@ -466,7 +469,9 @@ pub(crate) fn parse_object_from_class(
     for (key, spec) in class.fields.iter() {
         if !fields.contains_key(key) {
             match spec {
-                ObjectClassFieldSpec::Type { default, .. } => {
+                ObjectClassFieldSpec::Type {
+                    default, optional, ..
+                } => {
                     if default.is_some() {
                         fields.insert(
                             key.clone(),
@@ -474,10 +479,13 @@ pub(crate) fn parse_object_from_class(
                                 ty: default.clone(),
                             },
                         );
+                    } else if !optional {
+                        return Err(parse_error!("Field '{}' missing in '{}'", key, value));
                     }
                 }
                 ObjectClassFieldSpec::FixedTypeValue {
                     default,
+                    optional,
                     field_type,
                     ..
                 } => {
@@ -489,6 +497,8 @@ pub(crate) fn parse_object_from_class(
                                 value: default.clone(),
                             },
                         );
+                    } else if !optional {
+                        return Err(parse_error!("Field '{}' missing in '{}'", key, value));
                     }
                 }
             }
-- 
2.43.0


From 38588911125376665925e33f9cb23ea4744f48a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 52/96] fix: the elements of an object set keep their order

---
 asn-compiler/src/parser/asn/types/ioc.rs | 45 ++++++------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index cd3822e..4f63f7b 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -374,42 +374,19 @@ pub(crate) fn parse_object_set_from_class(
     set: &mut Asn1ObjectSet,
     class: &Asn1ObjectClass,
 ) -> Result<(), Error> {
-    let mut objectset = &mut set.objects;
-
-    let mut root_elements = vec![];
-    loop {
-        let element = objectset.root_elements.pop();
-        if element.is_none() {
-            break;
-        }
-        let element = element.unwrap();
-        if let ObjectSetElement::Object(Asn1ObjectValue::Input(s)) = element {
-            let parsed = parse_object_from_class(&s, class)?;
-            let element = ObjectSetElement::Object(parsed);
-            root_elements.push(element);
-        } else {
-            root_elements.push(element);
-        }
-    }
-    objectset.root_elements = root_elements;
-
-    // FIXME : Make it a function?
-    let mut additional_elements = vec![];
-    loop {
-        let element = objectset.additional_elements.pop();
-        if element.is_none() {
-            break;
-        }
-        let element = element.unwrap();
-        if let ObjectSetElement::Object(Asn1ObjectValue::Input(s)) = element {
-            let parsed = parse_object_from_class(&s, class)?;
-            let element = ObjectSetElement::Object(parsed);
-            additional_elements.push(element);
-        } else {
-            additional_elements.push(element);
+    let objectset = &mut set.objects;
+
+    for elements in [
+        &mut objectset.root_elements,
+        &mut objectset.additional_elements,
+    ] {
+        for element in elements.iter_mut() {
+            if let ObjectSetElement::Object(Asn1ObjectValue::Input(s)) = element {
+                let parsed = parse_object_from_class(s, class)?;
+                *element = ObjectSetElement::Object(parsed);
+            }
         }
     }
-    objectset.additional_elements = additional_elements;
     Ok(())
 }
 
-- 
2.43.0


From 1c08d60eb9c60dddd4ab1788077a99f30839bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 53/96] fix: an object set is keyed by literal values as well,
 and its keys are unique

---
 asn-compiler/src/resolver/asn/types/ioc.rs | 161 +++++++++++++--------
 1 file changed, 102 insertions(+), 59 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 975273f..3b59876 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -11,9 +11,12 @@ use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::ioc::{
-                Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec, ResolvedObjectSet,
-                ResolvedObjectSetElement,
+            types::{
+                ioc::{
+                    Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec,
+                    ResolvedObjectSet, ResolvedObjectSetElement,
+                },
+                Asn1ResolvedType,
             },
             values::Asn1ResolvedValue,
         },
@@ -65,9 +68,16 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
-                                    decoder_ty = o.objects.decoder_ty.clone();
                                     elements.extend(o.objects.elements.clone());
-                                    lookup_table.extend(o.objects.lookup_table.clone());
+                                    for element in o.objects.lookup_table.values() {
+                                        add_to_lookup_table(
+                                            element,
+                                            &unique_field,
+                                            resolver,
+                                            &mut decoder_ty,
+                                            &mut lookup_table,
+                                        )?;
+                                    }
                                 } else {
                                     return Err(resolve_error!(
                                         "Resolved '{}' is not an Object Set!",
@@ -94,36 +104,14 @@ pub(crate) fn resolve_object_set(
                                             name: r.clone(),
                                             fields: o.fields.clone(),
                                         });
-                                    elements.push(element.clone());
-                                    if !unique_field.is_empty() {
-                                        if let ResolvedObjectSetElement::Object(ref o) = element {
-                                            let field = o.fields.get(&unique_field);
-                                            if let ResolvedFieldSpec::FixedTypeValue {
-                                                value,
-                                                typeref,
-                                            } = field.unwrap()
-                                            {
-                                                decoder_ty.replace(typeref.clone());
-                                                let value = value.as_ref().unwrap();
-                                                if let Asn1ResolvedValue::Reference(ref s) = value {
-                                                    let v = resolver.resolved_defs.get(s).unwrap();
-
-                                                    if let Asn1ResolvedDefinition::Value(ref v) = v
-                                                    {
-                                                        // Get the actual Value - Usually this value is an
-                                                        // Integer Value. This Value is to be used by the
-                                                        // decoder.
-                                                        let v = format!(
-                                                            "{}",
-                                                            v.get_base_integer_value().unwrap()
-                                                        );
-                                                        lookup_table
-                                                            .insert((v, s.clone()), element);
-                                                    }
-                                                }
-                                            }
-                                        }
-                                    }
+                                    add_to_lookup_table(
+                                        &element,
+                                        &unique_field,
+                                        resolver,
+                                        &mut decoder_ty,
+                                        &mut lookup_table,
+                                    )?;
+                                    elements.push(element);
                                 } else {
                                     return Err(resolve_error!(
                                         "Resolved '{}' is not an Object!",
@@ -140,30 +128,14 @@ pub(crate) fn resolve_object_set(
                             v,
                             resolver,
                         )?);
-                        elements.push(element.clone());
-                        if !unique_field.is_empty() {
-                            if let ResolvedObjectSetElement::Object(ref o) = element {
-                                let field = o.fields.get(&unique_field);
-                                if let ResolvedFieldSpec::FixedTypeValue { value, typeref } =
-                                    field.unwrap()
-                                {
-                                    decoder_ty.replace(typeref.clone());
-                                    let value = value.as_ref().unwrap();
-                                    if let Asn1ResolvedValue::Reference(ref s) = value {
-                                        let v = resolver.resolved_defs.get(s).unwrap();
-
-                                        if let Asn1ResolvedDefinition::Value(ref v) = v {
-                                            // Get the actual Value - Usually this value is an
-                                            // Integer Value. This Value is to be used by the
-                                            // decoder.
-                                            let v =
-                                                format!("{}", v.get_base_integer_value().unwrap());
-                                            lookup_table.insert((v, s.clone()), element);
-                                        }
-                                    }
-                                }
-                            }
-                        }
+                        add_to_lookup_table(
+                            &element,
+                            &unique_field,
+                            resolver,
+                            &mut decoder_ty,
+                            &mut lookup_table,
+                        )?;
+                        elements.push(element);
                     }
                 }
             }
@@ -179,6 +151,77 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// Adds the element to the lookup table used by the decoder.
+//
+// The key is the value of the UNIQUE field, together with a name for it: that of the value
+// reference if there is one, that of the object otherwise.
+fn add_to_lookup_table(
+    element: &ResolvedObjectSetElement,
+    unique_field: &str,
+    resolver: &Resolver,
+    decoder_ty: &mut Option<Asn1ResolvedType>,
+    lookup_table: &mut HashMap<(String, String), ResolvedObjectSetElement>,
+) -> Result<(), Error> {
+    if unique_field.is_empty() {
+        return Ok(());
+    }
+    let object = match element {
+        ResolvedObjectSetElement::Object(ref o) => o,
+        _ => return Ok(()),
+    };
+    let (value, typeref) = match object.fields.get(unique_field) {
+        Some(ResolvedFieldSpec::FixedTypeValue {
+            value: Some(value),
+            typeref,
+        }) => (value, typeref),
+        _ => {
+            return Err(resolve_error!(
+                "Field '{}' missing in object '{}'",
+                unique_field,
+                object.name
+            ));
+        }
+    };
+    let name = match value {
+        Asn1ResolvedValue::Reference(ref s) => s.clone(),
+        _ => object.name.clone(),
+    };
+    // Get the actual Value - Usually this value is an Integer Value. This Value is to be used by
+    // the decoder.
+    let key = match value {
+        Asn1ResolvedValue::Reference(ref s) => match resolver.resolved_defs.get(s) {
+            Some(Asn1ResolvedDefinition::Value(ref v)) => v.get_base_integer_value(),
+            _ => None,
+        },
+        _ => value.get_base_integer_value(),
+    };
+    let key = match key {
+        Some(k) => format!("{}", k),
+        None => {
+            return Err(resolve_error!(
+                "Value of the field '{}' in object '{}' is not an INTEGER",
+                unique_field,
+                object.name
+            ));
+        }
+    };
+    for (k, e) in lookup_table.iter() {
+        if let ResolvedObjectSetElement::Object(ref o) = e {
+            if k.0 == key && o.name != object.name {
+                return Err(resolve_error!(
+                    "Objects '{}' and '{}' have the same value of the field '{}'",
+                    o.name,
+                    object.name,
+                    unique_field
+                ));
+            }
+        }
+    }
+    decoder_ty.replace(typeref.clone());
+    lookup_table.insert((key, name), element.clone());
+    Ok(())
+}
+
 pub(crate) fn resolve_object(
     object_name: &str,
     object_value: &Asn1ObjectValue,
-- 
2.43.0


From b7920ba5b6a5f08b8f29cd6ded002ac757655acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 54/96] fix: a SEQUENCE over an object set keeps all of its
 components

---
 .../src/resolver/asn/types/constructed.rs     | 225 +++++++++---------
 1 file changed, 115 insertions(+), 110 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 61aa6df..7b1d6f8 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -3,7 +3,8 @@ use std::collections::BTreeMap;
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component, SeqComponent},
+    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, SeqComponent},
+    ioc::ObjectClassFieldSpec,
     Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
@@ -97,15 +98,20 @@ fn resolve_sequence_type(
     sequence: &Asn1TypeSequence,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
+    let has_class_field = sequence.root_components.iter().any(|c| {
+        matches!(
+            c.component.ty.kind,
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. })
+        )
+    });
+    if has_class_field {
+        return resolve_sequence_classfield_components(sequence, resolver);
+    }
+
     let mut components = vec![];
     // FIXME: implement for additional_components too
     for c in &sequence.root_components {
-        let ty = match resolve_type(&c.component.ty, resolver) {
-            Ok(ty) => ty,
-            Err(_e) => {
-                return resolve_sequence_classfield_components(sequence, resolver);
-            }
-        };
+        let ty = resolve_type(&c.component.ty, resolver)?;
         if c.addition {
             // Extension additions are not part of the root (and are not generated for now).
             continue;
@@ -157,114 +163,113 @@ fn resolve_sequence_classfield_components(
     seq: &Asn1TypeSequence,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
-    let mut all_components = vec![];
-    all_components.extend(seq.root_components.clone());
-    all_components.extend(
-        seq.additions
-            .clone()
-            .iter()
-            .map(|a| a.components.clone())
-            .flatten()
-            .collect::<Vec<SeqComponent>>(),
-    );
-    let all_components = all_components
-        .iter()
-        .map(|c| c.component.clone())
-        .collect::<Vec<Component>>();
-
-    if all_components.is_empty() {
-        // It's an Error to try to resolve Empty components with Class Field Ref
-        return Err(resolve_error!("Expected Sequence with at-least one ClassField Reference Component!. Found Empty Sequences"));
+    let mut components = vec![];
+    for c in &seq.root_components {
+        let component = match c.component.ty.kind {
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField {
+                ref classref,
+                ref fieldref,
+            }) => resolve_class_field_component(c, classref, fieldref, resolver)?,
+            _ => Some(ResolvedSeqComponent {
+                component: ResolvedComponent {
+                    id: c.component.id.clone(),
+                    ty: resolve_type(&c.component.ty, resolver)?,
+                },
+                optional: c.optional || c._default.is_some(),
+                class_field_type: None,
+                key_field: false,
+            }),
+        };
+        // Extension additions are not part of the root (and are not generated for now).
+        if c.addition {
+            continue;
+        }
+        components.extend(component);
     }
 
-    // Get the Object Set first It's the Same Object Set for all components. So if we get the first
-    // one that's good enough!
-    let ty = &all_components[0].ty;
-    let constraint = &ty.constraints.as_ref().unwrap()[0];
+    Ok(Asn1ResolvedType::Constructed(
+        ResolvedConstructedType::Sequence {
+            name: None,
+            extensible: seq.extensible,
+            components,
+        },
+    ))
+}
 
-    let set_reference = constraint.get_set_reference()?;
+fn resolve_class_field_component(
+    component: &SeqComponent,
+    classref: &str,
+    fieldref: &str,
+    resolver: &mut Resolver,
+) -> Result<Option<ResolvedSeqComponent>, Error> {
+    let id = &component.component.id;
+    let constraint = match component.component.ty.constraints {
+        Some(ref constraints) if !constraints.is_empty() => &constraints[0],
+        _ => {
+            return Err(resolve_error!(
+                "Component '{}' is not constrained by an Object Set",
+                id
+            ));
+        }
+    };
 
-    let objects = resolver.resolved_defs.get(&set_reference);
-    if objects.is_none() {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
-    }
-    if let Some(Asn1ResolvedDefinition::ObjectSet(ref set)) = objects {
-        let objects = &set.objects;
-        let components =
-            resolve_seq_components_for_objects(&all_components, &set_reference, objects)?;
-        Ok(Asn1ResolvedType::Constructed(
-            ResolvedConstructedType::Sequence {
-                name: None,
-                extensible: seq.extensible,
-                components,
-            },
-        ))
-    } else {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
-    }
-}
+    let class = match resolver.classes.get(classref).map(|c| c.get_inner_class()) {
+        Some(Some(class)) => class.classref,
+        _ => return Err(resolve_error!("Class '{}' not found!", classref)),
+    };
+    let value_type = match class.fields.get(fieldref) {
+        Some(ObjectClassFieldSpec::FixedTypeValue { field_type, .. }) => {
+            Some(resolve_type(field_type, resolver)?)
+        }
+        Some(ObjectClassFieldSpec::Type { .. }) => None,
+        None => {
+            return Err(resolve_error!(
+                "Class '{}' has no field '{}'",
+                classref,
+                fieldref
+            ));
+        }
+    };
+    let unique_field = class.get_first_unique_field_id();
 
-fn resolve_seq_components_for_objects(
-    input_components: &[Component],
-    set_reference: &str,
-    objects: &ResolvedObjectSet,
-) -> Result<Vec<ResolvedSeqComponent>, Error> {
-    if objects.elements.is_empty() {
-        return Ok(vec![]);
-    }
-    let first = &objects.elements[0];
-    let mut result = vec![];
-    for component in input_components {
-        if let Asn1TypeKind::Reference(Asn1TypeReference::ClassField { fieldref, .. }) =
-            &component.ty.kind
-        {
-            if let ResolvedObjectSetElement::Object(ref o) = first {
-                let spec = o.fields.get(fieldref);
-                if let Some(ResolvedFieldSpec::FixedTypeValue { typeref, .. }) = spec {
-                    let constraint = &component.ty.constraints.as_ref().unwrap()[0];
-                    let comp_spec = constraint.get_comp_reference();
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: typeref.clone(),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::FixedTypeValue),
-                        key_field: comp_spec.is_none(),
-                    };
-                    result.push(seq_component);
-                } else {
-                    let types = get_seq_component_for_object_set(fieldref, objects)?;
-                    let ty = ResolvedSetType {
-                        setref: set_reference.to_string(),
-                        types,
-                    };
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: Asn1ResolvedType::Set(ty),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::Type),
-                        key_field: false,
-                    };
-                    result.push(seq_component);
-                }
-            }
+    let set_reference = constraint.get_set_reference()?;
+    let objects = match resolver.resolved_defs.get(&set_reference) {
+        Some(Asn1ResolvedDefinition::ObjectSet(ref set)) => &set.objects,
+        _ => {
+            return Err(resolve_error!(
+                "Object Set '{}' not resolved yet!",
+                set_reference
+            ));
         }
+    };
+
+    // FIXME: the components are not generated if the Object Set is empty.
+    if objects.elements.is_empty() {
+        return Ok(None);
     }
-    // Only add to the result if Every Component in the Input is also found in the Object. This
-    // is mainly true for optional components. If Optional Components are missing, They should
-    // not be part of the generated Set.
-    Ok(result)
+
+    let is_value = value_type.is_some();
+    let ty = match value_type {
+        Some(ty) => ty,
+        None => Asn1ResolvedType::Set(ResolvedSetType {
+            types: get_seq_component_for_object_set(fieldref, objects)?,
+            setref: set_reference,
+        }),
+    };
+    let key_field = is_value
+        && constraint.get_comp_reference().is_none()
+        && unique_field.as_deref() == Some(fieldref);
+
+    Ok(Some(ResolvedSeqComponent {
+        component: ResolvedComponent { id: id.clone(), ty },
+        optional: component.optional || component._default.is_some(),
+        class_field_type: Some(if is_value {
+            ClassFieldComponentType::FixedTypeValue
+        } else {
+            ClassFieldComponentType::Type
+        }),
+        key_field,
+    }))
 }
 
 fn get_seq_component_for_object_set(
@@ -276,10 +281,10 @@ fn get_seq_component_for_object_set(
         if let ResolvedObjectSetElement::Object(ref o) = object {
             let field_ob = o.fields.get(fieldref);
             if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
-                if let Some(Asn1ResolvedType::Reference(ref _tyid)) = ty {
+                if let Some(ref ty) = ty {
                     types.insert(
                         (key.1.clone(), key.0.clone()),
-                        (key.0.clone(), ty.as_ref().unwrap().clone()),
+                        (key.0.clone(), ty.clone()),
                     );
                 }
             }
-- 
2.43.0


From d47062cf5bed6d92517f77744bf7cf2cc2ed2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 55/96] fix: a module that is already defined is reported and
 not replaced

---
 asn-compiler/src/bin/hampi-asn1c.rs | 7 ++++++-
 asn-compiler/src/compiler.rs        | 9 ++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/bin/hampi-asn1c.rs b/asn-compiler/src/bin/hampi-asn1c.rs
index 53f4d73..f9861b1 100644
--- a/asn-compiler/src/bin/hampi-asn1c.rs
+++ b/asn-compiler/src/bin/hampi-asn1c.rs
@@ -24,7 +24,12 @@ fn main() -> io::Result<()> {
             }
             let module = module.unwrap();
             //eprintln!("module: {:#?}", module);
-            compiler.add_module(module);
+            if !compiler.add_module(module) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("A module in '{}' is already defined!", arg),
+                ));
+            }
         }
     }
     compiler.resolve_modules()?;
diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index cd044fd..8a549b3 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -53,9 +53,12 @@ impl Asn1Compiler {
     ///
     /// If the module alredy exists, returns `false` else returns `true`.
     pub fn add_module(&mut self, module: Asn1Module) -> bool {
-        self.modules
-            .insert(module.get_module_name(), module)
-            .is_some()
+        let name = module.get_module_name();
+        if self.modules.contains_key(&name) {
+            return false;
+        }
+        self.modules.insert(name, module);
+        true
     }
 
     /// Resolve Modules order and definitions within those modules.
-- 
2.43.0


From 898de9f3adc69a7eb5aca9f8bd6c8375e52c07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 56/96] fix: a name defined twice in a module is an error

---
 asn-compiler/src/parser/asn/module.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index de64414..82a1e8f 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -80,7 +80,10 @@ where
     let mut definitions = HashMap::new();
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
-        definitions.insert(def.id(), def);
+        let id = def.id();
+        if definitions.insert(id.clone(), def).is_some() {
+            return Err(parse_error!("'{}' is defined more than once!", id));
+        }
         consumed += definition_consumed;
     }
 
-- 
2.43.0


From 9857a7deab0e06ea25fad9a79e7c795f729fcf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 57/96] fix: importing a name that the other module does not
 have is an error

---
 asn-compiler/src/compiler.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 8a549b3..b0043e5 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -133,6 +133,16 @@ impl Asn1Compiler {
                         import
                     ));
                 }
+                let target = target.unwrap();
+                if !target.get_definitions().contains_key(import)
+                    && !target.get_imported_defs().any(|(d, _)| d == import)
+                {
+                    return Err(resolve_error!(
+                        "Definition '{}' not found in Module '{}'!",
+                        import,
+                        module_name.name_as_str()
+                    ));
+                }
             }
         }
         eprintln!("All IMPORTS in All Modules Resolved!");
-- 
2.43.0


From 1d86b2e747404720ddb1b45642e041aa072f7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 58/96] fix: definitions and modules that depend upon
 themselves are reported, not dropped

---
 asn-compiler/src/compiler.rs                  | 12 +++++++----
 asn-compiler/src/parser/asn/structs/module.rs | 16 +++++++++++---
 asn-compiler/src/resolver/int.rs              | 21 +------------------
 3 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index b0043e5..a062b98 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -149,7 +149,7 @@ impl Asn1Compiler {
         Ok(())
     }
 
-    fn sorted_modules(&self) -> Vec<String> {
+    fn sorted_modules(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for module in self.modules.values() {
@@ -162,18 +162,22 @@ impl Asn1Compiler {
 
         let mut out_vec = vec![];
         loop {
-            let popped = ts.pop_all();
+            let mut popped = ts.pop_all();
             if popped.is_empty() {
                 break;
             } else {
+                popped.sort();
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!("Some Modules import from each other!"));
+        }
+        Ok(out_vec)
     }
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
-        let module_names = self.sorted_modules();
+        let module_names = self.sorted_modules()?;
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index a2325c6..5ce553e 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -4,6 +4,7 @@ use std::collections::{hash_map::Iter, HashMap};
 
 use topological_sort::TopologicalSort;
 
+use crate::error::Error;
 use crate::parser::asn::structs::{defs::Asn1Definition, oid::ObjectIdentifier};
 
 #[derive(Debug, PartialEq)]
@@ -88,7 +89,9 @@ impl Asn1Module {
     // a Type definition or a Class Name in an object definition and so on. We don't include the
     // 'import'ed definitions in these because, they will already be 'Resolved' because the modules
     // are already in a Topologically sorted order!
-    pub(crate) fn definitions_sorted(&mut self) -> Vec<String> {
+    //
+    // Definitions that (directly or otherwise) depend upon themselves are not supported.
+    pub(crate) fn definitions_sorted(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for (k, v) in self.definitions.iter() {
@@ -102,14 +105,21 @@ impl Asn1Module {
 
         let mut out_vec = vec![];
         loop {
-            let popped = ts.pop_all();
+            let mut popped = ts.pop_all();
             if popped.is_empty() {
                 break;
             } else {
+                popped.sort();
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!(
+                "Some definitions in Module '{}' depend upon themselves!",
+                self.get_module_name()
+            ));
+        }
+        Ok(out_vec)
     }
 
     #[inline(always)]
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 30cbbc6..81cb6c1 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -51,7 +51,7 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
-        let definitions_sorted = module.definitions_sorted();
+        let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
             if parsed_def.is_none() {
@@ -76,25 +76,6 @@ impl Resolver {
             parsed_def.resolved = true;
         }
 
-        for k in module.definitions_sorted() {
-            let parsed_def = module.get_definition_mut(&k);
-            if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
-            }
-            let parsed_def = parsed_def.unwrap();
-            if !parsed_def.resolved {
-                println!(
-                    "UNRESOLVED: Definition: {} in module : {} not resolved!",
-                    k,
-                    module.get_module_name()
-                );
-            }
-        }
-
         Ok(())
     }
 
-- 
2.43.0


From ee9c9cf5ec067f1643290bed00ce86607f857a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 59/96] fix: a name defined differently in two modules is
 reported, the definitions are not mixed up

---
 asn-compiler/src/resolver/int.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 81cb6c1..4cfd93d 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -20,6 +20,9 @@ pub(crate) struct Resolver {
 
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
     pub(crate) classes: HashMap<String, Asn1Definition>,
+
+    // What has been defined so far (in any module).
+    sources: HashMap<String, String>,
 }
 
 impl Resolver {
@@ -28,6 +31,7 @@ impl Resolver {
             resolved_defs: BTreeMap::new(),
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
+            sources: HashMap::new(),
         }
     }
 
@@ -62,6 +66,23 @@ impl Resolver {
                 continue;
             }
             let parsed_def = parsed_def.unwrap();
+            // All the modules share the name space of the generated code. The same definition may
+            // be repeated in another module, a different one with the same name is an error.
+            let source = format!("{:?}", parsed_def.kind);
+            match self.sources.insert(k.to_string(), source.clone()) {
+                None => {}
+                Some(other)
+                    if other == source
+                        && parsed_def.params.is_none()
+                        && (parsed_def.is_type_assignment()
+                            || parsed_def.is_value_assignment()) => {}
+                Some(_) => {
+                    return Err(resolve_error!(
+                        "'{}' is defined in more than one module, that is not supported!",
+                        k
+                    ));
+                }
+            }
             if parsed_def.params.is_some() {
                 self.parameterized_defs
                     .insert(k.to_string(), parsed_def.clone());
-- 
2.43.0


From b95a2eb964dea0f8bfc220d2a0f691633224cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 60/96] fix: definitions are resolved after everything they
 refer to

---
 asn-compiler/src/parser/asn/structs/defs.rs   | 23 +++++++++++++++----
 .../src/parser/asn/structs/types/base.rs      | 13 +++++++++++
 .../parser/asn/structs/types/constructed.rs   |  6 ++++-
 .../src/parser/asn/structs/types/ioc.rs       | 10 +++++---
 .../src/parser/asn/structs/types/mod.rs       |  6 +++++
 5 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 32637d8..38fadc2 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -3,7 +3,7 @@ use crate::tokenizer::Token;
 
 use super::types::{
     ioc::{Asn1Object, Asn1ObjectClass, Asn1ObjectSet},
-    Asn1Type,
+    is_reference, Asn1Type,
 };
 
 /// Struct representing an Object Class Assignment
@@ -103,9 +103,19 @@ impl Asn1AssignmentKind {
 
     pub fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Value(ref v) => v.typeref.dependent_references(),
+            Self::Value(ref v) => {
+                let mut references = v.typeref.dependent_references();
+                if is_reference(&v.value) {
+                    references.push(v.value.clone());
+                }
+                references
+            }
             Self::Type(ref t) => t.typeref.dependent_references(),
-            Self::Object(ref o) => vec![o.object.class.clone()],
+            Self::Object(ref o) => {
+                let mut references = vec![o.object.class.clone()];
+                references.extend(o.object.value.dependent_references());
+                references
+            }
             Self::ObjectSet(ref s) => s.dependent_references(),
             Self::Class(ref c) => c.dependent_references(),
         }
@@ -128,7 +138,12 @@ impl Asn1Definition {
     // definitions topologically, which would make error handling considerably easier when
     // resolving those definitions
     pub fn dependent_references(&self) -> Vec<String> {
-        self.kind.dependent_references()
+        let mut references = self.kind.dependent_references();
+        if let Some(ref params) = self.params {
+            // Dummy references refer to the parameters and not to other definitions.
+            references.retain(|r| params.ordered.iter().all(|p| &p.dummyref.name != r));
+        }
+        references
     }
 }
 
diff --git a/asn-compiler/src/parser/asn/structs/types/base.rs b/asn-compiler/src/parser/asn/structs/types/base.rs
index 50929d8..c3a6a48 100644
--- a/asn-compiler/src/parser/asn/structs/types/base.rs
+++ b/asn-compiler/src/parser/asn/structs/types/base.rs
@@ -25,6 +25,19 @@ pub(crate) struct Asn1TypeEnumerated {
     pub(crate) ext_values: Vec<EnumValue>,
 }
 
+impl Asn1TypeEnumerated {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        self.root_values
+            .iter()
+            .chain(self.ext_values.iter())
+            .filter_map(|v| match v.value {
+                Some(NamedValue::ValueRef(ref r)) => Some(r.clone()),
+                _ => None,
+            })
+            .collect()
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1TypeBitString {
     pub(crate) named_bits: Option<Vec<(String, NamedValue)>>,
diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index ddfba8b..b13d5cd 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -110,6 +110,10 @@ pub(crate) struct Asn1TypeSequenceOf {
 
 impl Asn1TypeSequenceOf {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
-        self.ty.dependent_references()
+        let mut dependencies = self.ty.dependent_references();
+        if let Some(ref size) = self.size {
+            dependencies.extend(size.dependent_references());
+        }
+        dependencies
     }
 }
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 79b5ca2..ce945e7 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 
-use super::Asn1Type;
+use super::{is_reference, Asn1Type};
 
 #[derive(Debug, Clone)]
 pub(crate) enum ObjectClassFieldSpec {
@@ -118,7 +118,11 @@ impl Asn1ObjectFieldSpec {
                     vec![]
                 }
             }
-            Self::FixedTypeValue { typeref, .. } => typeref.dependent_references(),
+            Self::FixedTypeValue { typeref, value } => {
+                let mut output = typeref.dependent_references();
+                output.extend(value.iter().filter(|v| is_reference(v)).cloned());
+                output
+            }
         }
     }
 }
@@ -132,7 +136,7 @@ pub(crate) enum Asn1ObjectValue {
 }
 
 impl Asn1ObjectValue {
-    fn dependent_references(&self) -> Vec<String> {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         if let Self::Asn1ObjectFromClass { fields } = self {
             for field in fields.values() {
diff --git a/asn-compiler/src/parser/asn/structs/types/mod.rs b/asn-compiler/src/parser/asn/structs/types/mod.rs
index b25b26a..c1a1982 100644
--- a/asn-compiler/src/parser/asn/structs/types/mod.rs
+++ b/asn-compiler/src/parser/asn/structs/types/mod.rs
@@ -36,6 +36,7 @@ pub(crate) struct Asn1Type {
 impl Asn1Type {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut kind_references = match self.kind {
+            Asn1TypeKind::Builtin(Asn1BuiltinType::Enumerated(ref e)) => e.dependent_references(),
             Asn1TypeKind::Builtin(ref _b) => vec![],
             Asn1TypeKind::Reference(ref r) => r.dependent_references(),
             Asn1TypeKind::Constructed(ref c) => c.dependent_references(),
@@ -54,6 +55,11 @@ impl Asn1Type {
     }
 }
 
+// Whether the text of a value is (or may be) the name of another value.
+pub(crate) fn is_reference(value: &str) -> bool {
+    value.starts_with(char::is_lowercase)
+}
+
 #[derive(Debug, Clone)]
 pub(crate) enum Asn1TypeKind {
     Builtin(Asn1BuiltinType),
-- 
2.43.0


From 5156fd5e7c40b266d3d7d7a502f01c42b3b37b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 61/96] fix: a name that is neither defined nor imported in the
 module is an error

---
 .../src/parser/asn/structs/types/ioc.rs       | 12 ++++++---
 asn-compiler/src/resolver/int.rs              | 25 +++++++++++++++++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index ce945e7..b4a699a 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -56,9 +56,15 @@ impl Asn1ObjectClass {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for field in self.fields.values() {
-            if let ObjectClassFieldSpec::FixedTypeValue { field_type, .. } = field {
-                let mut field_references = field_type.dependent_references();
-                output.append(&mut field_references);
+            match field {
+                ObjectClassFieldSpec::FixedTypeValue { field_type, .. } => {
+                    output.extend(field_type.dependent_references());
+                }
+                ObjectClassFieldSpec::Type { default, .. } => {
+                    if let Some(ty) = default {
+                        output.extend(ty.dependent_references());
+                    }
+                }
             }
         }
         output
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 4cfd93d..0aa9c58 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -55,6 +55,8 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
+        self.check_references(module)?;
+
         let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
@@ -110,6 +112,29 @@ impl Resolver {
             .collect::<Vec<(&String, &Asn1ResolvedType)>>()
     }
 
+    // Names used in a module are those that it defines or imports. (An object also refers to the
+    // types of it's class, those may belong to the module of the class.)
+    fn check_references(&self, module: &Asn1Module) -> Result<(), Error> {
+        for (k, def) in module.get_definitions() {
+            for r in def.dependent_references() {
+                let known = module.get_definitions().contains_key(&r)
+                    || module.get_imported_defs().any(|(i, _)| i == &r)
+                    || (def.is_object_or_object_set() && self.sources.contains_key(&r))
+                    || r == "MIN"
+                    || r == "MAX";
+                if !known && (r.starts_with(char::is_uppercase) || self.sources.contains_key(&r)) {
+                    return Err(resolve_error!(
+                        "'{}' used in '{}' is neither defined nor imported in Module '{}'",
+                        r,
+                        k,
+                        module.get_module_name()
+                    ));
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) {
         for (k, def) in module.get_definitions() {
             if def.is_class_assignment() {
-- 
2.43.0


From ee0cfa0a560d50450597b0e0bdeacb3c2ebb9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 62/96] fix: the first UNIQUE field of a class is the one
 written first

---
 asn-compiler/src/parser/asn/structs/types/ioc.rs | 6 ++++--
 asn-compiler/src/parser/asn/types/ioc.rs         | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index b4a699a..50baaa7 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -50,6 +50,7 @@ impl ObjectClassFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ObjectClass {
     pub(crate) fields: HashMap<String, ObjectClassFieldSpec>,
+    pub(crate) order: Vec<String>, // Names of the fields, in the order in which they are written
 }
 
 impl Asn1ObjectClass {
@@ -71,8 +72,9 @@ impl Asn1ObjectClass {
     }
 
     pub(crate) fn get_first_unique_field_id(&self) -> Option<String> {
-        for (name, value) in &self.fields {
-            if let ObjectClassFieldSpec::FixedTypeValue { unique, .. } = value {
+        for name in &self.order {
+            if let Some(ObjectClassFieldSpec::FixedTypeValue { unique, .. }) = self.fields.get(name)
+            {
                 if *unique {
                     return Some(name.clone());
                 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 4f63f7b..17aa0a0 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -30,12 +30,17 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
     consumed += 1;
 
     let mut fields = HashMap::new();
+    let mut order = vec![];
     loop {
         // Any error in parsing a field spec is an error.
         let (field_spec, field_spec_consumed) = parse_field_spec(&tokens[consumed..])?;
         consumed += field_spec_consumed;
 
-        fields.insert(field_spec.id(), field_spec);
+        let id = field_spec.id();
+        order.push(id.clone());
+        if fields.insert(id.clone(), field_spec).is_some() {
+            return Err(parse_error!("Field '{}' defined more than once!", id));
+        }
 
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
@@ -50,7 +55,7 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
     let with_syntax_consumed = parse_with_syntax_for_fields(&tokens[consumed..], &mut fields)?;
     consumed += with_syntax_consumed;
 
-    Ok((Asn1ObjectClass { fields }, consumed))
+    Ok((Asn1ObjectClass { fields, order }, consumed))
 }
 
 fn parse_field_spec(tokens: &[Token]) -> Result<(ObjectClassFieldSpec, usize), Error> {
-- 
2.43.0


From 2ba9ef61d6ba2e3d55f1517d2724a5b4c525a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 63/96] fix: fields of a class that cannot be told apart are an
 error

---
 asn-compiler/src/parser/asn/structs/types/ioc.rs |  2 +-
 asn-compiler/src/parser/asn/types/ioc.rs         | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 50baaa7..8f407ba 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -38,7 +38,7 @@ impl ObjectClassFieldSpec {
         }
     }
 
-    fn with_syntax(&self) -> Option<String> {
+    pub(crate) fn with_syntax(&self) -> Option<String> {
         match self {
             Self::Type { with_syntax, .. } | Self::FixedTypeValue { with_syntax, .. } => {
                 with_syntax.clone()
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 17aa0a0..9e8e405 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -245,6 +245,17 @@ fn parse_with_syntax_for_fields(
                 return Err(unexpected_token!("'CLASS field'", tokens[consumed]));
             }
 
+            // Objects are matched by the words, so those have to tell the fields apart.
+            if fields
+                .values()
+                .any(|f| f.with_syntax().as_ref() == Some(&words))
+            {
+                return Err(parse_error!(
+                    "Fields with the same words '{}' in WITH SYNTAX are not supported!",
+                    words
+                ));
+            }
+
             let field = fields.get_mut(&tokens[consumed].text);
             if field.is_none() {
                 return Err(parse_error!(
-- 
2.43.0


From b8739d15eb58efb0b22cb2bfd721cb1a7c0c4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 64/96] fix: a value reference stands for a number through
 other references as well

---
 .../src/resolver/asn/types/base/enumerated.rs |  9 ++-----
 .../src/resolver/asn/types/constraints.rs     | 26 +++----------------
 asn-compiler/src/resolver/asn/types/ioc.rs    |  5 +---
 asn-compiler/src/resolver/int.rs              | 18 ++++++++++++-
 4 files changed, 24 insertions(+), 34 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 767976f..ac8ffe0 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -8,9 +8,7 @@ use crate::parser::asn::structs::types::{
     base::{Asn1TypeEnumerated, EnumValue, NamedValue},
     Asn1Type,
 };
-use crate::resolver::asn::structs::{
-    defs::Asn1ResolvedDefinition, types::base::Asn1ResolvedEnumerated,
-};
+use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedEnumerated {
@@ -63,10 +61,7 @@ fn number_items(
         let number = match item.value {
             None => None,
             Some(NamedValue::Number(ref s)) => s.parse::<i128>().ok(),
-            Some(NamedValue::ValueRef(ref r)) => match resolver.resolved_defs.get(r) {
-                Some(Asn1ResolvedDefinition::Value(ref v)) => v.get_base_integer_value(),
-                _ => None,
-            },
+            Some(NamedValue::ValueRef(ref r)) => resolver.get_integer_value(r),
         };
         if number.is_none() && item.value.is_some() {
             return Err(resolve_error!("Number of the item '{}' unknown!", item.name));
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..89e0e6e 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -6,9 +6,7 @@ use crate::error::Error;
 use crate::parser::asn::structs::types::constraints::*;
 
 use crate::resolver::asn::structs::{
-    defs::Asn1ResolvedDefinition,
     types::constraints::{Asn1ConstraintValueSet, ConstraintValues},
-    values::{Asn1ResolvedValue, ResolvedBaseValue},
 };
 use crate::resolver::Resolver;
 
@@ -351,26 +349,10 @@ impl SubtypeElements {
         match parsed {
             Ok(x) => Ok(x),
             Err(_) => {
-                let resolved = resolver.resolved_defs.get(value);
-                match resolved {
-                    None => Err(constraint_error!(
-                        "Unable To Resolve '{}'. Not Found!",
-                        value
-                    )),
-                    Some(res) => {
-                        if let Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Base(
-                            ResolvedBaseValue::Integer(ref i),
-                        )) = res
-                        {
-                            Ok(i.value)
-                        } else {
-                            Err(constraint_error!(
-                                "Resolved Value {:#?} of different type!",
-                                res
-                            ))
-                        }
-                    }
-                }
+                let resolved = resolver.get_integer_value(value);
+                resolved.ok_or_else(|| {
+                    constraint_error!("Unable To Resolve '{}' to an INTEGER value!", value)
+                })
             }
         }
     }
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 3b59876..f3ced08 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -189,10 +189,7 @@ fn add_to_lookup_table(
     // Get the actual Value - Usually this value is an Integer Value. This Value is to be used by
     // the decoder.
     let key = match value {
-        Asn1ResolvedValue::Reference(ref s) => match resolver.resolved_defs.get(s) {
-            Some(Asn1ResolvedDefinition::Value(ref v)) => v.get_base_integer_value(),
-            _ => None,
-        },
+        Asn1ResolvedValue::Reference(ref s) => resolver.get_integer_value(s),
         _ => value.get_base_integer_value(),
     };
     let key = match key {
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 0aa9c58..a03a121 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -6,7 +6,9 @@ use crate::error::Error;
 
 use crate::parser::asn::structs::{defs::Asn1Definition, module::Asn1Module};
 
-use crate::resolver::asn::structs::{defs::Asn1ResolvedDefinition, types::Asn1ResolvedType};
+use crate::resolver::asn::structs::{
+    defs::Asn1ResolvedDefinition, types::Asn1ResolvedType, values::Asn1ResolvedValue,
+};
 
 use crate::resolver::asn::defs::resolve_definition;
 
@@ -112,6 +114,20 @@ impl Resolver {
             .collect::<Vec<(&String, &Asn1ResolvedType)>>()
     }
 
+    // The number a value reference stands for, directly or through other value references.
+    pub(crate) fn get_integer_value(&self, reference: &str) -> Option<i128> {
+        let mut reference = reference;
+        loop {
+            match self.resolved_defs.get(reference) {
+                Some(Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Reference(ref r))) => {
+                    reference = r;
+                }
+                Some(Asn1ResolvedDefinition::Value(ref v)) => return v.get_base_integer_value(),
+                _ => return None,
+            }
+        }
+    }
+
     // Names used in a module are those that it defines or imports. (An object also refers to the
     // types of it's class, those may belong to the module of the class.)
     fn check_references(&self, module: &Asn1Module) -> Result<(), Error> {
-- 
2.43.0


From e221719d0e01d56be57fca33c5e68bde8614edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 65/96] fix: parameters are replaced all at once, and never in
 place of identifiers

---
 asn-compiler/src/parser/asn/defs.rs | 52 +++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 5e5fc21..08edb62 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -64,7 +64,7 @@ impl Asn1Definition {
         if self.params.is_none() {
             return Err(parse_error!("apply_params: No Params for the definition!"));
         }
-        let mut params = self.params.as_ref().unwrap().clone();
+        let params = self.params.as_ref().unwrap();
 
         if params.ordered.len() != actual_params.len() {
             return Err(parse_error!(
@@ -72,20 +72,52 @@ impl Asn1Definition {
             ));
         }
 
-        for (idx, actual) in actual_params.iter().enumerate() {
-            let replace = actual.param_string();
-            let source = &params.ordered[idx].dummyref.name;
-
-            for token in params.type_tokens.iter_mut() {
-                if &token.text == source {
-                    token.text = replace.clone()
-                }
+        // All the parameters are replaced at once: an actual parameter may well have the name of
+        // another dummy reference.
+        let mut type_tokens = params.type_tokens.clone();
+        let identifiers = identifiers_in_type(&type_tokens);
+        for (token, is_identifier) in type_tokens.iter_mut().zip(identifiers) {
+            let idx = params
+                .ordered
+                .iter()
+                .position(|p| !is_identifier && p.dummyref.name == token.text);
+            if let Some(idx) = idx {
+                token.text = actual_params[idx].param_string();
             }
         }
-        let (ty, _) = parse_type(&params.type_tokens)?;
+        let (ty, _) = parse_type(&type_tokens)?;
         Ok(ty)
     }
 }
+
+// Whether the respective token is the identifier of a component or of a named number (or bit, or
+// item), those are never references.
+fn identifiers_in_type(tokens: &[Token]) -> Vec<bool> {
+    let is_type =
+        |t: Option<&Token>| t.map_or(false, |t| t.is_type_reference() || t.is_asn_builtin_type());
+    let mut output = vec![];
+    let mut curly_named = vec![]; // For every open '{', whether a list of names is inside.
+    let mut round = 0;
+    for (i, token) in tokens.iter().enumerate() {
+        if token.is_curly_begin() {
+            let named = i > 0
+                && ["ENUMERATED", "INTEGER", "STRING"]
+                    .iter()
+                    .any(|k| tokens[i - 1].is_given_keyword(k));
+            curly_named.push(named);
+        } else if token.is_curly_end() {
+            curly_named.pop();
+        } else if token.is_round_begin() {
+            round += 1;
+        } else if token.is_round_end() {
+            round -= 1;
+        }
+        let named = curly_named.last() == Some(&true) && round == 0;
+        output.push(token.is_value_reference() && (named || is_type(tokens.get(i + 1))));
+    }
+    output
+}
+
 // Parse a definition into an `Assignment` type.
 //
 // This function is called by the Module parser to parse each definition. A definition will be one
-- 
2.43.0


From 07e631ca2b9dac4b5f38a4f989d8d7ec0da6a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 66/96] fix: endless instantiation of a parameterized type is
 an error instead of an overflow

---
 asn-compiler/src/resolver/asn/types/int.rs | 14 +++++++++++++-
 asn-compiler/src/resolver/int.rs           |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..2439330 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -15,6 +15,9 @@ use crate::resolver::{
     Resolver,
 };
 
+// Parameterized types instantiated inside each other at the most.
+const MAX_INSTANTIATIONS: usize = 64;
+
 impl Asn1Type {
     // Returns the Integer ValueSet for a given Type.
     //
@@ -84,7 +87,16 @@ fn resolve_reference_type(
                 match def {
                     Some(d) => {
                         let params_resolved_type = d.clone().apply_params(params)?;
-                        resolve_type(&params_resolved_type, resolver)
+                        if resolver.instantiations >= MAX_INSTANTIATIONS {
+                            return Err(resolve_error!(
+                                "Instantiation of '{}' inside itself never ends!",
+                                typeref
+                            ));
+                        }
+                        resolver.instantiations += 1;
+                        let resolved = resolve_type(&params_resolved_type, resolver);
+                        resolver.instantiations -= 1;
+                        resolved
                     }
                     None => Err(resolve_error!(
                         "Parameterized Type for '{:#?}' Not found!",
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index a03a121..71790d8 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -23,6 +23,9 @@ pub(crate) struct Resolver {
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
     pub(crate) classes: HashMap<String, Asn1Definition>,
 
+    // Parameterized types being instantiated at the moment.
+    pub(crate) instantiations: usize,
+
     // What has been defined so far (in any module).
     sources: HashMap<String, String>,
 }
@@ -33,6 +36,7 @@ impl Resolver {
             resolved_defs: BTreeMap::new(),
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
+            instantiations: 0,
             sources: HashMap::new(),
         }
     }
-- 
2.43.0


From 49080d2e5ddefb901338a4c6a9b0eed052c99c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 67/96] fix: deeply nested types are an error instead of a
 stack overflow

---
 .../src/parser/asn/types/constraints.rs       |  2 ++
 asn-compiler/src/parser/asn/types/int.rs      |  5 ++-
 asn-compiler/src/parser/utils.rs              | 33 +++++++++++++++++++
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 2721b08..61c7e0a 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -7,6 +7,7 @@ use crate::parser::{
     asn::values::parse_value,
     utils::{
         expect_keyword, expect_one_of_keywords, expect_one_of_tokens, expect_token, expect_tokens,
+        Nesting,
     },
 };
 
@@ -104,6 +105,7 @@ fn parse_subtype_constraint(tokens: &[Token]) -> Result<(Asn1Constraint, usize),
 
 fn parse_element_set(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
     let mut consumed = 0;
+    let _nesting = Nesting::enter()?;
 
     if !expect_token(&tokens[consumed..], Token::is_round_begin)? {
         return Err(unexpected_token!("'('", tokens[0]));
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 6ed797e..1d998fc 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -5,7 +5,9 @@ use crate::parser::asn::structs::types::{
     ActualParam, Asn1BuiltinType, Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
-use crate::parser::utils::{expect_keywords, expect_one_of_tokens, expect_token, expect_tokens};
+use crate::parser::utils::{
+    expect_keywords, expect_one_of_tokens, expect_token, expect_tokens, Nesting,
+};
 
 use super::{
     base::{parse_bitstring_type, parse_enumerated_type, parse_integer_type},
@@ -16,6 +18,7 @@ use super::{
 // Parses the `Type` Expansion in the ASN.1 Grammar.
 pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
     let mut consumed = 0;
+    let _nesting = Nesting::enter()?;
 
     if !expect_one_of_tokens(
         tokens,
diff --git a/asn-compiler/src/parser/utils.rs b/asn-compiler/src/parser/utils.rs
index 28ff0d8..4fcf955 100644
--- a/asn-compiler/src/parser/utils.rs
+++ b/asn-compiler/src/parser/utils.rs
@@ -1,8 +1,41 @@
 //! Utility functions for the parser module
 
+use std::cell::Cell;
+
 use crate::error::Error;
 use crate::tokenizer::{types::TokenChecker, Token};
 
+// Types and constraints nested inside each other at the most.
+const MAX_NESTING: usize = 128;
+
+thread_local! {
+    static NESTING: Cell<usize> = Cell::new(0);
+}
+
+// Keeps track of how deeply the types and constraints being parsed are nested.
+pub(super) struct Nesting;
+
+impl Nesting {
+    pub(super) fn enter() -> Result<Nesting, Error> {
+        NESTING.with(|n| {
+            if n.get() >= MAX_NESTING {
+                return Err(parse_error!(
+                    "Types nested more than {} deep are not supported!",
+                    MAX_NESTING
+                ));
+            }
+            n.set(n.get() + 1);
+            Ok(Nesting)
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|n| n.set(n.get() - 1));
+    }
+}
+
 // Returns true if the first `token`'s text is same as the passed `keyword`
 pub(super) fn expect_keyword(tokens: &[Token], keyword: &str) -> Result<bool, Error> {
     if tokens.is_empty() {
-- 
2.43.0


From 47ec48f8bbb026e3631ecfc41798f40897f52b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:36 +0000
Subject: [PATCH 68/96] fix: bounds of INTEGER are those of all of its
 constraints, in a type that holds them

---
 .../src/parser/asn/structs/types/base.rs      |  17 ++
 .../src/parser/asn/structs/types/mod.rs       |   6 +-
 asn-compiler/src/parser/asn/types/ioc.rs      |   5 +-
 .../resolver/asn/structs/types/constraints.rs |  87 +++++---
 .../src/resolver/asn/types/base/enumerated.rs |   5 +-
 .../src/resolver/asn/types/base/integer.rs    | 114 +++++++----
 .../src/resolver/asn/types/constraints.rs     | 193 ++++++++++--------
 .../src/resolver/asn/types/constructed.rs     |   5 +-
 asn-compiler/src/resolver/asn/types/int.rs    |  70 +++++--
 asn-compiler/src/resolver/int.rs              |  14 ++
 10 files changed, 322 insertions(+), 194 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/base.rs b/asn-compiler/src/parser/asn/structs/types/base.rs
index c3a6a48..f13463a 100644
--- a/asn-compiler/src/parser/asn/structs/types/base.rs
+++ b/asn-compiler/src/parser/asn/structs/types/base.rs
@@ -12,6 +12,23 @@ pub(crate) struct Asn1TypeInteger {
     pub(crate) named_values: Option<Vec<(String, NamedValue)>>,
 }
 
+impl Asn1TypeInteger {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        self.named_values
+            .iter()
+            .flatten()
+            .filter_map(|(_, v)| match v {
+                NamedValue::ValueRef(ref r) => Some(r.clone()),
+                _ => None,
+            })
+            .collect()
+    }
+
+    pub(crate) fn is_named_value(&self, name: &str) -> bool {
+        self.named_values.iter().flatten().any(|(n, _)| n == name)
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct EnumValue {
     pub(crate) name: String,
diff --git a/asn-compiler/src/parser/asn/structs/types/mod.rs b/asn-compiler/src/parser/asn/structs/types/mod.rs
index c1a1982..5450be3 100644
--- a/asn-compiler/src/parser/asn/structs/types/mod.rs
+++ b/asn-compiler/src/parser/asn/structs/types/mod.rs
@@ -37,6 +37,7 @@ impl Asn1Type {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut kind_references = match self.kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Enumerated(ref e)) => e.dependent_references(),
+            Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(ref i)) => i.dependent_references(),
             Asn1TypeKind::Builtin(ref _b) => vec![],
             Asn1TypeKind::Reference(ref r) => r.dependent_references(),
             Asn1TypeKind::Constructed(ref c) => c.dependent_references(),
@@ -45,7 +46,10 @@ impl Asn1Type {
         let mut constraint_references = vec![];
         if self.constraints.is_some() {
             for constraint in self.constraints.as_ref().unwrap() {
-                let constraint_dependent = constraint.dependent_references();
+                let mut constraint_dependent = constraint.dependent_references();
+                if let Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(ref i)) = self.kind {
+                    constraint_dependent.retain(|r| !i.is_named_value(r));
+                }
                 constraint_references.extend(constraint_dependent);
             }
         }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 9e8e405..1921e21 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -368,10 +368,7 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
             }
         }
 
-        if expect_one_of_tokens(
-            &tokens[consumed..],
-            &[Token::is_comma, Token::is_set_union],
-        )? {
+        if expect_one_of_tokens(&tokens[consumed..], &[Token::is_comma, Token::is_set_union])? {
             consumed += 1;
         } else if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
             return Err(unexpected_token!("',' or '|' or '}'", tokens[consumed]));
diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..649c6c9 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -1,54 +1,81 @@
 //! Structs Related to Resolved Constraints
 
-use std::ops::Range;
-
-#[derive(Debug, Clone)]
+// A set of INTEGER values, as ascending ranges (both ends included) that do not overlap. The ends
+// of a range that is open are `ConstraintValues::MIN` and `ConstraintValues::MAX`.
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct ConstraintValues {
-    pub(crate) ranges: Vec<Range<i128>>,
-    pub(crate) values: Vec<i128>,
+    ranges: Vec<(i128, i128)>,
 }
 
 impl ConstraintValues {
-    pub(crate) fn new() -> Self {
+    pub(crate) const MIN: i128 = i128::MIN;
+    pub(crate) const MAX: i128 = i128::MAX;
+
+    // The values from `start` to `end`, there are none if `start` is larger than `end`.
+    pub(crate) fn range(start: i128, end: i128) -> Self {
+        if start > end {
+            return Self::none();
+        }
         ConstraintValues {
-            ranges: vec![],
-            values: vec![],
+            ranges: vec![(start, end)],
         }
     }
 
-    pub(crate) fn append(&mut self, other: &Self) {
-        self.ranges.extend(other.ranges.clone());
-        self.values.extend(other.values.clone());
+    pub(crate) fn none() -> Self {
+        ConstraintValues { ranges: vec![] }
+    }
+
+    // All the INTEGER values
+    pub(crate) fn all() -> Self {
+        Self::range(Self::MIN, Self::MAX)
+    }
+
+    pub(crate) fn union(&self, other: &Self) -> Self {
+        let mut all = self.ranges.clone();
+        all.extend(other.ranges.iter());
+        all.sort_unstable();
+        let mut ranges: Vec<(i128, i128)> = vec![];
+        for (start, end) in all {
+            match ranges.last_mut() {
+                Some(last) if start <= last.1 => last.1 = std::cmp::max(last.1, end),
+                _ => ranges.push((start, end)),
+            }
+        }
+        ConstraintValues { ranges }
+    }
+
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let mut result = Self::none();
+        for a in &self.ranges {
+            for b in &other.ranges {
+                let common = Self::range(std::cmp::max(a.0, b.0), std::cmp::min(a.1, b.1));
+                result = result.union(&common);
+            }
+        }
+        result
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.values.is_empty() && self.ranges.is_empty()
+        self.ranges.is_empty()
     }
 
+    // The smallest value, if there is one.
     pub(crate) fn min(&self) -> Option<i128> {
-        let values_min = self.values.iter().min();
-        let ranges_min = self.ranges.iter().map(|r| r.start).min();
-        match values_min {
-            None => ranges_min,
-            Some(vals_min) => match ranges_min {
-                None => Some(*vals_min),
-                Some(rnges_min) => Some(std::cmp::min(rnges_min, *vals_min)),
-            },
-        }
+        self.ranges
+            .first()
+            .map(|r| r.0)
+            .filter(|min| *min != Self::MIN)
     }
 
+    // The largest value, if there is one.
     pub(crate) fn max(&self) -> Option<i128> {
-        let values_max = self.values.iter().max();
-        let ranges_max = self.ranges.iter().map(|r| r.end - 1).max();
-        match values_max {
-            None => ranges_max,
-            Some(vals_max) => match ranges_max {
-                None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
-            },
-        }
+        self.ranges
+            .last()
+            .map(|r| r.1)
+            .filter(|max| *max != Self::MAX)
     }
 }
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ConstraintValueSet {
     pub(crate) root_values: ConstraintValues,
diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index ac8ffe0..81aa45a 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -64,7 +64,10 @@ fn number_items(
             Some(NamedValue::ValueRef(ref r)) => resolver.get_integer_value(r),
         };
         if number.is_none() && item.value.is_some() {
-            return Err(resolve_error!("Number of the item '{}' unknown!", item.name));
+            return Err(resolve_error!(
+                "Number of the item '{}' unknown!",
+                item.name
+            ));
         }
         if let Some(n) = number {
             if !used.insert(n) {
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..2aa61f6 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -1,9 +1,16 @@
 //! Functionality for handling Resolved ASN.1 INTEGER Types
 
+use std::collections::HashMap;
+
 use crate::error::Error;
 
-use crate::parser::asn::structs::types::{base::Asn1TypeInteger, Asn1Type};
-use crate::resolver::asn::structs::types::base::Asn1ResolvedInteger;
+use crate::parser::asn::structs::types::{
+    base::{Asn1TypeInteger, NamedValue},
+    Asn1Type,
+};
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedInteger, constraints::ConstraintValues,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedInteger {
@@ -15,54 +22,75 @@ impl Asn1ResolvedInteger {
     ) -> Result<Asn1ResolvedInteger, Error> {
         let mut base = Asn1ResolvedInteger::default();
 
-        if ty.constraints.is_none() {
-            return Ok(base);
-        } else {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if constraints.is_empty() {
-                return Ok(base);
-            }
+        let mut named_values = HashMap::new();
+        for (name, value) in i.named_values.iter().flatten() {
+            let number = match value {
+                NamedValue::Number(n) => n.parse::<i128>().ok(),
+                NamedValue::ValueRef(r) => resolver.get_integer_value(r),
+            };
+            let number =
+                number.ok_or_else(|| resolve_error!("'{}' is not the name of a number!", name))?;
+            named_values.insert(name.clone(), number);
         }
+        base.named_values = Some(named_values);
 
-        // Get the Values that are expected
-        let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
-        if let Some(x) = value_set.root_values.min() {
-            if x < 0 {
-                base.signed = true
-            } else {
-                base.signed = false
-            }
+        base.apply_constraints(ty, resolver)?;
+        Ok(base)
+    }
+
+    // The values of the extension root
+    pub(crate) fn root_values(&self) -> ConstraintValues {
+        match self.resolved_constraints {
+            Some(ref constraints) => constraints.root_values.clone(),
+            None => ConstraintValues::all(),
         }
+    }
 
-        let bit_width = if base.signed {
-            let min = value_set.root_values.min().unwrap();
-            let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
-            std::cmp::max(bits_needed_min, bits_needed_max)
-        } else if value_set.root_values.min().is_none() {
-            8_u32
-        } else {
-            let max = value_set.root_values.max().unwrap();
-            128 - max.leading_zeros()
-        };
+    // Applies the constraints of `ty`, one after the other, to what `self` permits.
+    pub(crate) fn apply_constraints(
+        &mut self,
+        ty: &Asn1Type,
+        resolver: &Resolver,
+    ) -> Result<(), Error> {
+        let named_values = self.named_values.clone().unwrap_or_default();
+        for constraint in ty.constraints.iter().flatten() {
+            let value_set =
+                constraint.get_integer_valueset(&self.root_values(), &named_values, resolver)?;
+            let _ = self.resolved_constraints.replace(value_set);
+        }
+        self.select_inner_type()
+    }
 
-        base.bits = if bit_width <= 8 {
-            8
-        } else if bit_width <= 16 {
-            16
-        } else if bit_width <= 32 {
-            32
-        } else if bit_width <= 64 {
-            64
-        } else {
-            128
+    // The smallest Rust type that holds all the values. (Those that are not bounded, in 64 bits.)
+    fn select_inner_type(&mut self) -> Result<(), Error> {
+        let value_set = match self.resolved_constraints {
+            Some(ref value_set) => value_set,
+            None => return Ok(()),
         };
+        let mut values = value_set.root_values.clone();
+        if let Some(ref additional_values) = value_set.additional_values {
+            values = values.union(additional_values);
+        }
 
-        // TODO: If we have named values, They should be added to Global list of resolved definitions.
-        if i.named_values.is_some() {}
+        self.signed = values.min().map_or(true, |min| min < 0);
+        let min = values.min().unwrap_or(i64::MIN as i128);
+        let max = values.max().unwrap_or(if self.signed {
+            i64::MAX as i128
+        } else {
+            u64::MAX as i128
+        });
 
-        let _ = base.resolved_constraints.replace(value_set);
-        Ok(base)
+        let bits = [8_u8, 16, 32, 64].iter().copied().find(|bits| {
+            if self.signed {
+                let limit = 1_i128 << (bits - 1);
+                -limit <= min && max < limit
+            } else {
+                max < 1_i128 << bits
+            }
+        });
+        self.bits = bits.ok_or_else(|| {
+            constraint_error!("INTEGER from '{}' to '{}' is not supported!", min, max)
+        })?;
+        Ok(())
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 89e0e6e..8b98513 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -1,13 +1,10 @@
 //! Constraint Resolution Implementation
-use std::ops::Range;
-
 use crate::error::Error;
+use std::collections::HashMap;
 
 use crate::parser::asn::structs::types::constraints::*;
 
-use crate::resolver::asn::structs::{
-    types::constraints::{Asn1ConstraintValueSet, ConstraintValues},
-};
+use crate::resolver::asn::structs::types::constraints::{Asn1ConstraintValueSet, ConstraintValues};
 use crate::resolver::Resolver;
 
 impl Asn1Constraint {
@@ -78,12 +75,15 @@ impl Asn1Constraint {
         }
     }
 
+    // The values of `parent` that satisfy the constraint.
     pub(crate) fn get_integer_valueset(
         &self,
+        parent: &ConstraintValues,
+        named: &HashMap<String, i128>,
         resolver: &Resolver,
     ) -> Result<Asn1ConstraintValueSet, Error> {
         match self {
-            Self::Subtype(ref e) => e.get_integer_valueset(resolver),
+            Self::Subtype(ref e) => e.get_integer_valueset(parent, named, resolver),
             _ => Err(constraint_error!(
                 "Integer Values not supported for the constraint '{:#?}'",
                 self
@@ -131,9 +131,11 @@ impl Asn1Constraint {
             if iset.len() == 1 {
                 match iset[0].elements[0] {
                     Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => {
-                            elems.get_integer_valueset(resolver)
-                        }
+                        SubtypeElements::SizeConstraint(ref elems) => elems.get_integer_valueset(
+                            &ConstraintValues::range(0, ConstraintValues::MAX),
+                            &HashMap::new(),
+                            resolver,
+                        ),
                         _ => Err(constraint_error!(
                             "The Constraint for the Type is not a Size Constraint."
                         )),
@@ -174,23 +176,22 @@ impl ElementSet {
         }
     }
 
-    fn get_integer_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
-        let mut root_values = ConstraintValues::new();
-        for element in self.get_inner_elements() {
-            let element_values = element.get_integer_valueset(resolver)?;
-            root_values.append(&element_values);
+    fn get_integer_valueset(
+        &self,
+        parent: &ConstraintValues,
+        named: &HashMap<String, i128>,
+        resolver: &Resolver,
+    ) -> Result<Asn1ConstraintValueSet, Error> {
+        let root_values = self
+            .root_elements
+            .get_integer_valueset(parent, named, resolver)?;
+        if root_values.is_empty() {
+            return Err(constraint_error!("No value satisfies '{:#?}'", self));
         }
 
-        let additional_values = if self.additional_elements.is_some() {
-            let additional_elements = self.additional_elements.as_ref().unwrap();
-            let mut additional_values = ConstraintValues::new();
-            for element in &additional_elements.elements {
-                let element_values = element.get_integer_valueset(resolver)?;
-                additional_values.append(&element_values);
-            }
-            Some(additional_values)
-        } else {
-            None
+        let additional_values = match self.additional_elements {
+            Some(ref additional) => Some(additional.get_integer_valueset(parent, named, resolver)?),
+            None => None,
         };
 
         Ok(Asn1ConstraintValueSet {
@@ -234,25 +235,16 @@ impl IntersectionSet {
         }
     }
 
-    fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
+    fn get_integer_valueset(
+        &self,
+        parent: &ConstraintValues,
+        named: &HashMap<String, i128>,
+        resolver: &Resolver,
+    ) -> Result<ConstraintValues, Error> {
+        let mut value_set = parent.clone();
         for element in &self.elements {
-            let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
-                value_set.append(&element_set);
-            } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
-            }
+            let element_set = element.get_integer_valueset(parent, named, resolver)?;
+            value_set = value_set.intersection(&element_set);
         }
         Ok(value_set)
     }
@@ -277,11 +269,21 @@ impl TableConstraint {
 }
 
 impl Elements {
-    fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
+    fn get_integer_valueset(
+        &self,
+        parent: &ConstraintValues,
+        named: &HashMap<String, i128>,
+        resolver: &Resolver,
+    ) -> Result<ConstraintValues, Error> {
         match self {
-            Self::Subtype(ref s) => s.get_integer_valueset(resolver),
-            Self::Set(ref _s) => Err(constraint_error!(
-                "get_integer_valueset: Set Variant: Not Supported!"
+            Self::Subtype(ref s) => s.get_integer_valueset(parent, named, resolver),
+            Self::Set(ElementSet {
+                root_elements,
+                additional_elements: None,
+            }) => root_elements.get_integer_valueset(parent, named, resolver),
+            Self::Set(ref s) => Err(constraint_error!(
+                "Extension marker inside of a constraint '{:#?}'",
+                s
             )),
         }
     }
@@ -295,66 +297,65 @@ impl Elements {
 }
 
 impl SubtypeElements {
-    fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
+    fn get_integer_valueset(
+        &self,
+        parent: &ConstraintValues,
+        named: &HashMap<String, i128>,
+        resolver: &Resolver,
+    ) -> Result<ConstraintValues, Error> {
+        let get_value = |value: &str| match named.get(value) {
+            Some(number) => Ok(*number),
+            None => Self::parse_or_resolve_value(value, resolver),
+        };
         match self {
             Self::SingleValue { value } => {
-                value_set
-                    .values
-                    .push(Self::parse_or_resolve_value(value, resolver)?);
-            }
-            Self::ConstrainedSubtype(ref ty) => {
-                let all_values_set = ty.get_integer_valueset_from_constraint(resolver)?;
-                value_set.append(&all_values_set.root_values); // We only care about Root Elements
+                let value = get_value(value)?;
+                Ok(ConstraintValues::range(value, value))
             }
+            // We only care about Root Elements
+            Self::ConstrainedSubtype(ref ty) => ty.get_integer_root_values(resolver),
             Self::ValueRange {
                 lower,
                 lower_inclusive,
                 upper,
                 upper_inclusive,
             } => {
-                let mut lower_value = Self::parse_or_resolve_value(lower, resolver)?;
-                if !lower_inclusive {
-                    lower_value += 1;
+                let get_end = |value: &str| -> Result<i128, Error> {
+                    match value {
+                        "MIN" => Ok(parent.min().unwrap_or(ConstraintValues::MIN)),
+                        "MAX" => Ok(parent.max().unwrap_or(ConstraintValues::MAX)),
+                        value => get_value(value),
+                    }
+                };
+                let mut lower_value = get_end(lower)?;
+                if !lower_inclusive && lower_value != ConstraintValues::MIN {
+                    lower_value = lower_value.saturating_add(1);
                 }
-                let mut upper_value = Self::parse_or_resolve_value(upper, resolver)?;
-                if !upper_inclusive {
-                    upper_value -= 1;
+                let mut upper_value = get_end(upper)?;
+                if !upper_inclusive && upper_value != ConstraintValues::MAX {
+                    upper_value = upper_value.saturating_sub(1);
                 }
-                value_set.ranges.push(Range {
-                    start: lower_value,
-                    end: upper_value + 1,
-                });
-            }
-            Self::SizeConstraint(ref elems) => {
-                let size_elements = elems.get_integer_valueset(resolver)?;
-                value_set.append(&size_elements.root_values);
-                if size_elements.additional_values.is_some() {
-                    value_set.append(&size_elements.additional_values.unwrap());
+                if lower_value > upper_value {
+                    return Err(constraint_error!("No value satisfies '{:#?}'", self));
                 }
+                Ok(ConstraintValues::range(lower_value, upper_value))
             }
-            _ => {
-                return Err(constraint_error!(
-                    "Unexpected Constraint Type '{:#?}'",
-                    self
-                ));
-            }
+            _ => Err(constraint_error!(
+                "Unexpected Constraint Type '{:#?}'",
+                self
+            )),
         }
-        Ok(value_set)
     }
 
     fn parse_or_resolve_value(value: &str, resolver: &Resolver) -> Result<i128, Error> {
-        // FIXME : do the 'resolve part'
-        let parsed = value.parse::<i128>();
-        match parsed {
-            Ok(x) => Ok(x),
-            Err(_) => {
-                let resolved = resolver.get_integer_value(value);
-                resolved.ok_or_else(|| {
-                    constraint_error!("Unable To Resolve '{}' to an INTEGER value!", value)
-                })
-            }
-        }
+        // The extreme values stand for the ends of an open range.
+        let open_ends = [ConstraintValues::MIN, ConstraintValues::MAX];
+        value
+            .parse::<i128>()
+            .ok()
+            .or_else(|| resolver.get_integer_value(value))
+            .filter(|v| !open_ends.contains(v))
+            .ok_or_else(|| constraint_error!("Unable To Resolve '{}' to an INTEGER value!", value))
     }
 
     fn dependent_references(&self) -> Vec<String> {
@@ -386,6 +387,20 @@ impl SubtypeElements {
 }
 
 impl UnionSet {
+    fn get_integer_valueset(
+        &self,
+        parent: &ConstraintValues,
+        named: &HashMap<String, i128>,
+        resolver: &Resolver,
+    ) -> Result<ConstraintValues, Error> {
+        let mut value_set = ConstraintValues::none();
+        for element in &self.elements {
+            let element_set = element.get_integer_valueset(parent, named, resolver)?;
+            value_set = value_set.union(&element_set);
+        }
+        Ok(value_set)
+    }
+
     fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for element in &self.elements {
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 7b1d6f8..ac935ce 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -282,10 +282,7 @@ fn get_seq_component_for_object_set(
             let field_ob = o.fields.get(fieldref);
             if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
                 if let Some(ref ty) = ty {
-                    types.insert(
-                        (key.1.clone(), key.0.clone()),
-                        (key.0.clone(), ty.clone()),
-                    );
+                    types.insert((key.1.clone(), key.0.clone()), (key.0.clone(), ty.clone()));
                 }
             }
         }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 2439330..dc980d9 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
@@ -8,7 +10,7 @@ use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::{constraints::Asn1ConstraintValueSet, Asn1ResolvedType},
+            types::{base::ResolvedBaseType, constraints::ConstraintValues, Asn1ResolvedType},
         },
         types::{base::resolve_base_type, constructed::resolve_constructed_type},
     },
@@ -19,30 +21,28 @@ use crate::resolver::{
 const MAX_INSTANTIATIONS: usize = 64;
 
 impl Asn1Type {
-    // Returns the Integer ValueSet for a given Type.
-    //
-    // If the type is a `Base` type, it should be INTEGER or it's an Error. If the `Type` is a
-    // Referenced Type, it should be possible to 'resolve' the Reference to a proper
-    // `Asn1ConstraintValueSet` else it's an error, we'll try to 'recursively' 'resolve' till we
-    // get to a `Base` Type.
-    pub(crate) fn get_integer_valueset_from_constraint(
+    // Returns the values of an `INTEGER` type, or of a reference to one. The values are those of the
+    // extension root only.
+    pub(crate) fn get_integer_root_values(
         &self,
         resolver: &Resolver,
-    ) -> Result<Asn1ConstraintValueSet, Error> {
-        let kind = &self.kind;
-        match kind {
-            Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
-            }
-            Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
-                Err(constraint_error!("Not Implemented!"))
+    ) -> Result<ConstraintValues, Error> {
+        let mut values = match self.kind {
+            Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => ConstraintValues::all(),
+            Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref r)) => {
+                match resolver.get_referenced_type(r) {
+                    Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(i))) => i.root_values(),
+                    _ => return Err(constraint_error!("'{}' is not an INTEGER Type!", r)),
+                }
             }
-            _ => Err(constraint_error!(
-                "The Type '{:#?}' is not of a BuiltIn Or a Referenced Kind!",
-                self,
-            )),
+            _ => return Err(constraint_error!("'{:#?}' is not an INTEGER Type!", self)),
+        };
+        for constraint in self.constraints.iter().flatten() {
+            values = constraint
+                .get_integer_valueset(&values, &HashMap::new(), resolver)?
+                .root_values;
         }
+        Ok(values)
     }
 }
 
@@ -54,7 +54,33 @@ pub(crate) fn resolve_type(
         Asn1TypeKind::Builtin(..) => Ok(Asn1ResolvedType::Base(resolve_base_type(ty, resolver)?)),
         Asn1TypeKind::Constructed(..) => resolve_constructed_type(ty, resolver),
 
-        Asn1TypeKind::Reference(..) => resolve_reference_type(ty, resolver),
+        Asn1TypeKind::Reference(..) => {
+            let resolved = resolve_reference_type(ty, resolver)?;
+            apply_constraints(resolved, ty, resolver)
+        }
+    }
+}
+
+// Applies the constraints of a referenced type.
+fn apply_constraints(
+    resolved: Asn1ResolvedType,
+    ty: &Asn1Type,
+    resolver: &Resolver,
+) -> Result<Asn1ResolvedType, Error> {
+    if ty.constraints.iter().flatten().next().is_none() {
+        return Ok(resolved);
+    }
+    let referenced = match resolved {
+        Asn1ResolvedType::Reference(ref r) => resolver.get_referenced_type(r),
+        ref other => Some(other),
+    };
+    match referenced {
+        Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(i))) => {
+            let mut i = i.clone();
+            i.apply_constraints(ty, resolver)?;
+            Ok(Asn1ResolvedType::Base(ResolvedBaseType::Integer(i)))
+        }
+        _ => Ok(resolved),
     }
 }
 
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 71790d8..1a7b35e 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -132,6 +132,20 @@ impl Resolver {
         }
     }
 
+    // The type a type reference stands for, directly or through other type references.
+    pub(crate) fn get_referenced_type(&self, reference: &str) -> Option<&Asn1ResolvedType> {
+        let mut reference = reference;
+        loop {
+            match self.resolved_defs.get(reference) {
+                Some(Asn1ResolvedDefinition::Type(Asn1ResolvedType::Reference(ref r))) => {
+                    reference = r;
+                }
+                Some(Asn1ResolvedDefinition::Type(ref t)) => return Some(t),
+                _ => return None,
+            }
+        }
+    }
+
     // Names used in a module are those that it defines or imports. (An object also refers to the
     // types of it's class, those may belong to the module of the class.)
     fn check_references(&self, module: &Asn1Module) -> Result<(), Error> {
-- 
2.43.0


From e395658a4fd54b71c87ae67445b4d68a7abae9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:22 +0000
Subject: [PATCH 69/96] fix: names of the numbers of an INTEGER type are its
 values

---
 asn-compiler/src/resolver/asn/values.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index b5e667c..ac8bdb3 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -19,6 +19,22 @@ pub(crate) fn resolve_value(
     typeref: &Asn1ResolvedType,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedValue, Error> {
+    // The name of a number of the type is that number, whatever else the name stands for.
+    let referenced_type = match typeref {
+        Asn1ResolvedType::Reference(ref r) => resolver.get_referenced_type(r),
+        other => Some(other),
+    };
+    if let Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref i))) = referenced_type {
+        if let Some(number) = i.named_values.as_ref().and_then(|named| named.get(value)) {
+            return Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
+                Asn1ResolvedIntegerValue {
+                    typeref: typeref.clone(),
+                    value: *number,
+                },
+            )));
+        }
+    }
+
     let referenced_value = resolver.resolved_defs.get(value);
     match referenced_value {
         None => {
-- 
2.43.0


From 81529b8a1e8641969ca9e05eb73a40a352fca8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:22 +0000
Subject: [PATCH 70/96] fix: sizes of strings and lists are those of all of
 their constraints

---
 .../resolver/asn/structs/types/constraints.rs |  25 +++
 .../src/resolver/asn/types/base/bitstring.rs  |  18 +-
 .../src/resolver/asn/types/base/charstring.rs |  21 +-
 .../resolver/asn/types/base/octetstring.rs    |  18 +-
 .../src/resolver/asn/types/constraints.rs     | 199 ++++++++++++++----
 .../src/resolver/asn/types/constructed.rs     |  15 +-
 asn-compiler/src/resolver/asn/types/int.rs    |  68 ++++--
 asn-compiler/src/resolver/asn/values.rs       |   8 +-
 asn-compiler/src/resolver/int.rs              |   8 +
 9 files changed, 267 insertions(+), 113 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 649c6c9..0c598ca 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -1,5 +1,9 @@
 //! Structs Related to Resolved Constraints
 
+use crate::error::Error;
+use crate::parser::asn::structs::types::constraints::Asn1Constraint;
+use crate::resolver::Resolver;
+
 // A set of INTEGER values, as ascending ranges (both ends included) that do not overlap. The ends
 // of a range that is open are `ConstraintValues::MIN` and `ConstraintValues::MAX`.
 #[derive(Debug, Clone, PartialEq)]
@@ -86,4 +90,25 @@ impl Asn1ConstraintValueSet {
     pub(crate) fn has_extension(&self) -> bool {
         self.additional_values.is_some()
     }
+
+    // Applies the constraints to the sizes a type has so far, `None` is any size.
+    pub(crate) fn apply_sizes(
+        size: &mut Option<Self>,
+        constraints: &[Asn1Constraint],
+        resolver: &Resolver,
+    ) -> Result<(), Error> {
+        for constraint in constraints {
+            let parent = match size {
+                Some(values) => values.root_values.clone(),
+                None => ConstraintValues::range(0, ConstraintValues::MAX),
+            };
+            if let Some(values) = constraint.get_size_valueset(&parent, resolver)? {
+                if values.root_values.max() > Some(i64::MAX as i128) {
+                    return Err(constraint_error!("Size too large in '{:#?}'", constraint));
+                }
+                size.replace(values);
+            }
+        }
+        Ok(())
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index 92eed05..d414c11 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -8,7 +8,9 @@ use crate::parser::asn::structs::types::{
     base::{Asn1TypeBitString, NamedValue},
     Asn1Type,
 };
-use crate::resolver::asn::structs::types::base::Asn1ResolvedBitString;
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedBitString, constraints::Asn1ConstraintValueSet,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedBitString {
@@ -19,18 +21,8 @@ impl Asn1ResolvedBitString {
     ) -> Result<Asn1ResolvedBitString, Error> {
         let mut base = Asn1ResolvedBitString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
+        if let Some(ref constraints) = ty.constraints {
+            Asn1ConstraintValueSet::apply_sizes(&mut base.size, constraints, resolver)?;
         }
 
         if b.named_bits.is_some() {
diff --git a/asn-compiler/src/resolver/asn/types/base/charstring.rs b/asn-compiler/src/resolver/asn/types/base/charstring.rs
index 42f279b..41b5f08 100644
--- a/asn-compiler/src/resolver/asn/types/base/charstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/charstring.rs
@@ -4,7 +4,9 @@ use crate::error::Error;
 use crate::resolver::Resolver;
 
 use crate::parser::asn::structs::types::{Asn1BuiltinType, Asn1Type, Asn1TypeKind};
-use crate::resolver::asn::structs::types::base::Asn1ResolvedCharacterString;
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedCharacterString, constraints::Asn1ConstraintValueSet,
+};
 
 impl Asn1ResolvedCharacterString {
     pub(crate) fn resolve_character_string(
@@ -16,21 +18,8 @@ impl Asn1ResolvedCharacterString {
         if let Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString { str_type }) = &ty.kind {
             base.str_type = str_type.clone();
         }
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    return Err(constraint_error!(
-                        "Expected a Size Constraint, Found '{:#?}'",
-                        constraint
-                    ));
-                }
-            }
+        if let Some(ref constraints) = ty.constraints {
+            Asn1ConstraintValueSet::apply_sizes(&mut base.size, constraints, resolver)?;
         }
         Ok(base)
     }
diff --git a/asn-compiler/src/resolver/asn/types/base/octetstring.rs b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
index 0ed52b6..f5ec128 100644
--- a/asn-compiler/src/resolver/asn/types/base/octetstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
@@ -4,7 +4,9 @@ use crate::error::Error;
 use crate::resolver::Resolver;
 
 use crate::parser::asn::structs::types::Asn1Type;
-use crate::resolver::asn::structs::types::base::Asn1ResolvedOctetString;
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedOctetString, constraints::Asn1ConstraintValueSet,
+};
 
 impl Asn1ResolvedOctetString {
     pub(crate) fn resolve_octet_string(
@@ -13,18 +15,8 @@ impl Asn1ResolvedOctetString {
     ) -> Result<Asn1ResolvedOctetString, Error> {
         let mut base = Asn1ResolvedOctetString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
+        if let Some(ref constraints) = ty.constraints {
+            Asn1ConstraintValueSet::apply_sizes(&mut base.size, constraints, resolver)?;
         }
         Ok(base)
     }
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 8b98513..da70549 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -105,59 +105,78 @@ impl Asn1Constraint {
         true
     }
 
-    // Returns whether the constraint is a 'size' constraint.
-    pub(crate) fn is_size_constraint(&self) -> bool {
-        if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() != 1 {
-                false
-            } else {
-                matches!(
-                    iset[0].elements[0],
-                    Elements::Subtype(SubtypeElements::SizeConstraint(..))
-                )
-            }
-        } else {
-            false
+    // The sizes out of `parent` that the constraint permits, `None` if it says nothing about sizes.
+    pub(crate) fn get_size_valueset(
+        &self,
+        parent: &ConstraintValues,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        match self {
+            Self::Subtype(ref e) => e.get_size_valueset(parent, resolver),
+            Self::Contents { .. } => Ok(None),
+            Self::Table(..) => Err(constraint_error!(
+                "The constraint '{:#?}' is not a size constraint.",
+                self
+            )),
         }
     }
 
-    pub(crate) fn get_size_valueset(
+    // Returns whether the constraint is about the size or the characters of values.
+    pub(crate) fn has_size_or_alphabet(&self) -> bool {
+        match self {
+            Self::Subtype(ref e) => e.has_size_or_alphabet(),
+            _ => false,
+        }
+    }
+}
+
+impl ElementSet {
+    fn get_size_valueset(
         &self,
+        parent: &ConstraintValues,
         resolver: &Resolver,
-    ) -> Result<Asn1ConstraintValueSet, Error> {
-        if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() == 1 {
-                match iset[0].elements[0] {
-                    Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => elems.get_integer_valueset(
-                            &ConstraintValues::range(0, ConstraintValues::MAX),
-                            &HashMap::new(),
-                            resolver,
-                        ),
-                        _ => Err(constraint_error!(
-                            "The Constraint for the Type is not a Size Constraint."
-                        )),
-                    },
-                    _ => Err(constraint_error!(
-                        "The Constraint for the type is not a size Constraint."
-                    )),
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        // SIZE(..), the extension marker may also be the one of the size.
+        if let [IntersectionSet { elements }] = &self.root_elements.elements[..] {
+            if let [Elements::Subtype(SubtypeElements::SizeConstraint(sizes))] = &elements[..] {
+                let mut values = sizes.get_integer_valueset(parent, &HashMap::new(), resolver)?;
+                if let Some(ref additional) = self.additional_elements {
+                    let additional = additional.get_size_values(parent, resolver)?;
+                    let known = values.additional_values.take();
+                    values.additional_values = known.or(additional).or(Some(parent.clone()));
                 }
-            } else {
-                Err(constraint_error!(
-                    "The Constraint for the type is not a size Constraint."
-                ))
+                return Ok(Some(values));
             }
-        } else {
-            Err(constraint_error!(
-                "The Constraint for the type is not a size Constraint."
-            ))
+        }
+
+        let root_values = self.root_elements.get_size_values(parent, resolver)?;
+        let additional_values = match self.additional_elements {
+            Some(ref additional) => {
+                let additional = additional.get_size_values(parent, resolver)?;
+                Some(additional.unwrap_or_else(|| parent.clone()))
+            }
+            None => None,
+        };
+        match root_values {
+            Some(root_values) if root_values.is_empty() => {
+                Err(constraint_error!("No size satisfies '{:#?}'", self))
+            }
+            Some(root_values) => Ok(Some(Asn1ConstraintValueSet {
+                root_values,
+                additional_values,
+            })),
+            None => Ok(None),
         }
     }
-}
 
-impl ElementSet {
+    fn has_size_or_alphabet(&self) -> bool {
+        self.root_elements.has_size_or_alphabet()
+            || self
+                .additional_elements
+                .as_ref()
+                .map_or(false, |a| a.has_size_or_alphabet())
+    }
+
     fn get_inner_elements(&self) -> &Vec<IntersectionSet> {
         &self.root_elements.elements
     }
@@ -217,6 +236,20 @@ impl ElementSet {
 }
 
 impl IntersectionSet {
+    fn get_size_values(
+        &self,
+        parent: &ConstraintValues,
+        resolver: &Resolver,
+    ) -> Result<Option<ConstraintValues>, Error> {
+        let mut sizes: Option<ConstraintValues> = None;
+        for element in &self.elements {
+            if let Some(values) = element.get_size_values(parent, resolver)? {
+                sizes = Some(sizes.as_ref().unwrap_or(parent).intersection(&values));
+            }
+        }
+        Ok(sizes)
+    }
+
     fn get_single_string_value(&self) -> Result<String, Error> {
         if self.elements.len() == 1 {
             let element = &self.elements[0];
@@ -269,6 +302,45 @@ impl TableConstraint {
 }
 
 impl Elements {
+    fn get_size_values(
+        &self,
+        parent: &ConstraintValues,
+        resolver: &Resolver,
+    ) -> Result<Option<ConstraintValues>, Error> {
+        match self {
+            Self::Subtype(SubtypeElements::SingleValue { ref value })
+                if value.starts_with(|c| c == '\'' || c == '"') =>
+            {
+                Ok(None)
+            }
+            Self::Subtype(SubtypeElements::SizeConstraint(ElementSet {
+                root_elements,
+                additional_elements: None,
+            })) => Ok(Some(root_elements.get_integer_valueset(
+                parent,
+                &HashMap::new(),
+                resolver,
+            )?)),
+            Self::Set(ElementSet {
+                root_elements,
+                additional_elements: None,
+            }) => root_elements.get_size_values(parent, resolver),
+            _ => Err(constraint_error!(
+                "'{:#?}' is not supported in a size constraint.",
+                self
+            )),
+        }
+    }
+
+    fn has_size_or_alphabet(&self) -> bool {
+        match self {
+            Self::Subtype(SubtypeElements::SizeConstraint(..))
+            | Self::Subtype(SubtypeElements::PermittedAlphabet(..)) => true,
+            Self::Subtype(..) => false,
+            Self::Set(ref e) => e.has_size_or_alphabet(),
+        }
+    }
+
     fn get_integer_valueset(
         &self,
         parent: &ConstraintValues,
@@ -303,9 +375,20 @@ impl SubtypeElements {
         named: &HashMap<String, i128>,
         resolver: &Resolver,
     ) -> Result<ConstraintValues, Error> {
-        let get_value = |value: &str| match named.get(value) {
-            Some(number) => Ok(*number),
-            None => Self::parse_or_resolve_value(value, resolver),
+        let get_value = |value: &str| -> Result<i128, Error> {
+            let number = match named.get(value) {
+                Some(number) => *number,
+                None => Self::parse_or_resolve_value(value, resolver)?,
+            };
+            let too_small = parent.min().map_or(false, |min| number < min);
+            let too_large = parent.max().map_or(false, |max| number > max);
+            if too_small || too_large {
+                return Err(constraint_error!(
+                    "'{}' is not a value of the constrained type",
+                    number
+                ));
+            }
+            Ok(number)
         };
         match self {
             Self::SingleValue { value } => {
@@ -387,6 +470,30 @@ impl SubtypeElements {
 }
 
 impl UnionSet {
+    fn get_size_values(
+        &self,
+        parent: &ConstraintValues,
+        resolver: &Resolver,
+    ) -> Result<Option<ConstraintValues>, Error> {
+        let mut sizes = ConstraintValues::none();
+        let mut others = 0;
+        for element in &self.elements {
+            match element.get_size_values(parent, resolver)? {
+                Some(values) => sizes = sizes.union(&values),
+                None => others += 1,
+            }
+        }
+        // With an alternative of any size, any size will do.
+        Ok(if others > 0 { None } else { Some(sizes) })
+    }
+
+    fn has_size_or_alphabet(&self) -> bool {
+        self.elements
+            .iter()
+            .flat_map(|i| i.elements.iter())
+            .any(|e| e.has_size_or_alphabet())
+    }
+
     fn get_integer_valueset(
         &self,
         parent: &ConstraintValues,
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ac935ce..a5c3104 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -13,6 +13,7 @@ use crate::resolver::{
         structs::{
             defs::Asn1ResolvedDefinition,
             types::{
+                constraints::Asn1ConstraintValueSet,
                 constructed::{
                     ClassFieldComponentType, ResolvedComponent, ResolvedConstructedType,
                     ResolvedSeqComponent,
@@ -143,12 +144,14 @@ fn resolve_sequence_of_type(
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
     let resolved = resolve_type(&sequence_of.ty, resolver)?;
-    let size_values = if sequence_of.size.is_some() {
-        let size = sequence_of.size.as_ref().unwrap();
-        Some(size.get_size_valueset(resolver)?)
-    } else {
-        None
-    };
+    let mut size_values = None;
+    if let Some(ref size) = sequence_of.size {
+        let constraints = std::slice::from_ref(size);
+        Asn1ConstraintValueSet::apply_sizes(&mut size_values, constraints, resolver)?;
+        if size_values.is_none() {
+            return Err(constraint_error!("'{:#?}' is not a size constraint.", size));
+        }
+    }
 
     Ok(Asn1ResolvedType::Constructed(
         ResolvedConstructedType::SequenceOf {
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index dc980d9..58e19a8 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -10,7 +10,15 @@ use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::{base::ResolvedBaseType, constraints::ConstraintValues, Asn1ResolvedType},
+            types::{
+                base::{
+                    Asn1ResolvedBitString, Asn1ResolvedCharacterString, Asn1ResolvedOctetString,
+                    ResolvedBaseType,
+                },
+                constraints::{Asn1ConstraintValueSet, ConstraintValues},
+                constructed::ResolvedConstructedType,
+                Asn1ResolvedType,
+            },
         },
         types::{base::resolve_base_type, constructed::resolve_constructed_type},
     },
@@ -50,15 +58,31 @@ pub(crate) fn resolve_type(
     ty: &Asn1Type,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
-    match ty.kind {
+    let resolved = match ty.kind {
         Asn1TypeKind::Builtin(..) => Ok(Asn1ResolvedType::Base(resolve_base_type(ty, resolver)?)),
         Asn1TypeKind::Constructed(..) => resolve_constructed_type(ty, resolver),
-
         Asn1TypeKind::Reference(..) => {
             let resolved = resolve_reference_type(ty, resolver)?;
             apply_constraints(resolved, ty, resolver)
         }
+    }?;
+
+    let has_size = match resolver.get_type(&resolved) {
+        Some(Asn1ResolvedType::Base(ResolvedBaseType::BitString(..)))
+        | Some(Asn1ResolvedType::Base(ResolvedBaseType::OctetString(..)))
+        | Some(Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(..)))
+        | Some(Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf { .. })) => true,
+        _ => false,
+    };
+    for constraint in ty.constraints.iter().flatten() {
+        if constraint.has_size_or_alphabet() && !has_size {
+            return Err(constraint_error!(
+                "'{:#?}' of a type that has no size",
+                constraint
+            ));
+        }
     }
+    Ok(resolved)
 }
 
 // Applies the constraints of a referenced type.
@@ -67,21 +91,37 @@ fn apply_constraints(
     ty: &Asn1Type,
     resolver: &Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
-    if ty.constraints.iter().flatten().next().is_none() {
-        return Ok(resolved);
-    }
-    let referenced = match resolved {
-        Asn1ResolvedType::Reference(ref r) => resolver.get_referenced_type(r),
-        ref other => Some(other),
+    let constraints = match ty.constraints {
+        Some(ref constraints) if !constraints.is_empty() => constraints,
+        _ => return Ok(resolved),
+    };
+    let mut constrained = match resolver.get_type(&resolved) {
+        Some(referenced) => referenced.clone(),
+        None => return Ok(resolved),
     };
-    match referenced {
-        Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(i))) => {
-            let mut i = i.clone();
+    match constrained {
+        Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref mut i)) => {
             i.apply_constraints(ty, resolver)?;
-            Ok(Asn1ResolvedType::Base(ResolvedBaseType::Integer(i)))
         }
-        _ => Ok(resolved),
+        Asn1ResolvedType::Base(ResolvedBaseType::BitString(Asn1ResolvedBitString {
+            ref mut size,
+            ..
+        }))
+        | Asn1ResolvedType::Base(ResolvedBaseType::OctetString(Asn1ResolvedOctetString {
+            ref mut size,
+        }))
+        | Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(
+            Asn1ResolvedCharacterString { ref mut size, .. },
+        ))
+        | Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf {
+            size_values: ref mut size,
+            ..
+        }) => {
+            Asn1ConstraintValueSet::apply_sizes(size, constraints, resolver)?;
+        }
+        _ => return Ok(resolved),
     }
+    Ok(constrained)
 }
 
 fn resolve_reference_type(
diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index ac8bdb3..0bb7acb 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -20,11 +20,9 @@ pub(crate) fn resolve_value(
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedValue, Error> {
     // The name of a number of the type is that number, whatever else the name stands for.
-    let referenced_type = match typeref {
-        Asn1ResolvedType::Reference(ref r) => resolver.get_referenced_type(r),
-        other => Some(other),
-    };
-    if let Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref i))) = referenced_type {
+    if let Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref i))) =
+        resolver.get_type(typeref)
+    {
         if let Some(number) = i.named_values.as_ref().and_then(|named| named.get(value)) {
             return Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
                 Asn1ResolvedIntegerValue {
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 1a7b35e..a6b9620 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -146,6 +146,14 @@ impl Resolver {
         }
     }
 
+    // The type itself, if it is a reference the one it stands for.
+    pub(crate) fn get_type<'a>(&'a self, ty: &'a Asn1ResolvedType) -> Option<&'a Asn1ResolvedType> {
+        match ty {
+            Asn1ResolvedType::Reference(ref r) => self.get_referenced_type(r),
+            other => Some(other),
+        }
+    }
+
     // Names used in a module are those that it defines or imports. (An object also refers to the
     // types of it's class, those may belong to the module of the class.)
     fn check_references(&self, module: &Asn1Module) -> Result<(), Error> {
-- 
2.43.0


From 3671e2b02320de3be875c561c7f5b968d0c42aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 71/96] fix: a constraint with a missing element is an error

---
 .../src/parser/asn/types/constraints.rs       | 38 ++++++-------------
 asn-compiler/src/resolver/asn/types/int.rs    | 20 ++++++----
 2 files changed, 24 insertions(+), 34 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 61c7e0a..556b1c6 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -115,10 +115,6 @@ fn parse_element_set(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
     let (root_elements, root_consumed) = parse_union_set(&tokens[consumed..])?;
     consumed += root_consumed;
 
-    if root_elements.elements.is_empty() {
-        return Err(parse_error!("Empty Set in a Constraint!"));
-    }
-
     let mut additional_elements = None;
     if expect_token(&tokens[consumed..], Token::is_comma)? {
         consumed += 1;
@@ -129,15 +125,15 @@ fn parse_element_set(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
         }
         consumed += 1;
 
+        // Potentially Empty additional_elements
+        let mut elements = vec![];
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-        }
-
-        // Potentially Empty additional_elements
-        if let Ok(result) = parse_union_set(&tokens[consumed..]) {
-            additional_elements = Some(result.0);
+            let result = parse_union_set(&tokens[consumed..])?;
+            elements = result.0.elements;
             consumed += result.1;
         }
+        additional_elements = Some(UnionSet { elements });
     }
 
     if !expect_token(&tokens[consumed..], Token::is_round_end)? {
@@ -162,32 +158,20 @@ fn parse_union_set(tokens: &[Token]) -> Result<(UnionSet, usize), Error> {
     loop {
         // IntersectionSet Loop
         let mut iset_elements = vec![];
-        let mut expecting_iset = false;
         loop {
-            match parse_intersection_set(&tokens[consumed..]) {
-                Ok(result) => {
-                    iset_elements.push(result.0);
-                    consumed += result.1;
-                }
-                Err(_) => {
-                    if expecting_iset {
-                        return Err(parse_error!("Expecting Interesection Set in a Constraint."));
-                    }
-                }
-            }
+            let result = parse_intersection_set(&tokens[consumed..])?;
+            iset_elements.push(result.0);
+            consumed += result.1;
 
             if !expect_token(&tokens[consumed..], Token::is_set_intersection)? {
                 break; // Break intersection Set loop.
             } else {
-                expecting_iset = true;
                 consumed += 1;
             }
         }
-        if !iset_elements.is_empty() {
-            elements.push(IntersectionSet {
-                elements: iset_elements,
-            });
-        }
+        elements.push(IntersectionSet {
+            elements: iset_elements,
+        });
 
         if !expect_token(&tokens[consumed..], Token::is_set_union)? {
             break; // Break UnionSet loop.
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 58e19a8..f5b257b 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -67,15 +67,21 @@ pub(crate) fn resolve_type(
         }
     }?;
 
-    let has_size = match resolver.get_type(&resolved) {
-        Some(Asn1ResolvedType::Base(ResolvedBaseType::BitString(..)))
-        | Some(Asn1ResolvedType::Base(ResolvedBaseType::OctetString(..)))
-        | Some(Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(..)))
-        | Some(Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf { .. })) => true,
-        _ => false,
+    let sized = |resolved| {
+        matches!(
+            resolver.get_type(resolved),
+            Some(Asn1ResolvedType::Base(ResolvedBaseType::BitString(..)))
+                | Some(Asn1ResolvedType::Base(ResolvedBaseType::OctetString(..)))
+                | Some(Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(
+                    ..
+                )))
+                | Some(Asn1ResolvedType::Constructed(
+                    ResolvedConstructedType::SequenceOf { .. }
+                ))
+        )
     };
     for constraint in ty.constraints.iter().flatten() {
-        if constraint.has_size_or_alphabet() && !has_size {
+        if constraint.has_size_or_alphabet() && !sized(&resolved) {
             return Err(constraint_error!(
                 "'{:#?}' of a type that has no size",
                 constraint
-- 
2.43.0


From 69632ac7bef0a53c89ad8a4e1d9b80700a49e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 72/96] fix: contained subtypes by reference are types, ranges
 from MAX or to MIN are errors

---
 asn-compiler/src/parser/asn/types/constraints.rs   | 9 +++++++--
 asn-compiler/src/resolver/asn/types/constraints.rs | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 556b1c6..129377c 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -224,8 +224,13 @@ fn parse_intersection_set(tokens: &[Token]) -> Result<(Elements, usize), Error>
         return Ok((Elements::Set(element_set), consumed));
     }
 
-    // Parse a simple `Value`
-    if let Ok(result) = parse_value(&tokens[consumed..]) {
+    // Parse a simple `Value` (the name of a type is not the one of a value.)
+    let value = if expect_token(&tokens[consumed..], Token::is_type_reference)? {
+        Err(unexpected_token!("'Value'", tokens[consumed]))
+    } else {
+        parse_value(&tokens[consumed..])
+    };
+    if let Ok(result) = value {
         let value = result.0;
         consumed += result.1;
 
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index da70549..fad338b 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -418,7 +418,10 @@ impl SubtypeElements {
                 if !upper_inclusive && upper_value != ConstraintValues::MAX {
                     upper_value = upper_value.saturating_sub(1);
                 }
-                if lower_value > upper_value {
+                let nothing = lower_value > upper_value
+                    || lower_value == ConstraintValues::MAX
+                    || upper_value == ConstraintValues::MIN;
+                if nothing {
                     return Err(constraint_error!("No value satisfies '{:#?}'", self));
                 }
                 Ok(ConstraintValues::range(lower_value, upper_value))
-- 
2.43.0


From 7dfc59a60971dbda772f3fe0c4ddf21901e523eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 73/96] fix: integers entirely outside of 64 bits are an error

---
 asn-compiler/src/resolver/asn/types/base/integer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 2aa61f6..36b83df 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -73,12 +73,15 @@ impl Asn1ResolvedInteger {
         }
 
         self.signed = values.min().map_or(true, |min| min < 0);
-        let min = values.min().unwrap_or(i64::MIN as i128);
-        let max = values.max().unwrap_or(if self.signed {
-            i64::MAX as i128
+        let (lowest, highest) = if self.signed {
+            (i64::MIN as i128, i64::MAX as i128)
         } else {
-            u64::MAX as i128
-        });
+            (0, u64::MAX as i128)
+        };
+        let min = values
+            .min()
+            .unwrap_or_else(|| lowest.min(values.max().unwrap_or(lowest)));
+        let max = values.max().unwrap_or_else(|| highest.max(min));
 
         let bits = [8_u8, 16, 32, 64].iter().copied().find(|bits| {
             if self.signed {
-- 
2.43.0


From 83e455ec654a5a4da86f40afb72f986d2853e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 74/96] fix: identifiers of components and items are distinct,
 items are separated by commas

---
 .../src/parser/asn/types/base/enumerated.rs   | 45 +++++++++----------
 .../parser/asn/types/constructed/choice.rs    | 14 +++++-
 .../src/parser/asn/types/constructed/seq.rs   |  9 +++-
 asn-compiler/src/parser/utils.rs              | 11 +++++
 4 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/base/enumerated.rs b/asn-compiler/src/parser/asn/types/base/enumerated.rs
index 91c476d..8ba283a 100644
--- a/asn-compiler/src/parser/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/parser/asn/types/base/enumerated.rs
@@ -3,7 +3,7 @@
 use crate::error::Error;
 use crate::tokenizer::Token;
 
-use crate::parser::utils::{expect_keyword, expect_one_of_tokens, expect_token};
+use crate::parser::utils::{check_distinct, expect_keyword, expect_token};
 
 use crate::parser::asn::structs::types::base::{Asn1TypeEnumerated, EnumValue};
 
@@ -24,17 +24,13 @@ fn parse_enum_values(tokens: &[Token]) -> Result<(Vec<EnumValue>, usize), Error>
         values.push(value);
         consumed += named_value_consumed;
 
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
-        }
-
-        if expect_one_of_tokens(
-            &tokens[consumed..],
-            &[Token::is_extension, Token::is_curly_end],
-        )? {
-            // Don't consume, let caller consume it.
+        // The ',' ahead of an extension marker and the '}' are consumed by the caller.
+        if !expect_token(&tokens[consumed..], Token::is_comma)?
+            || expect_token(&tokens[consumed + 1..], Token::is_extension)?
+        {
             break;
         }
+        consumed += 1;
     }
     Ok((values, consumed))
 }
@@ -58,29 +54,28 @@ pub(crate) fn parse_enumerated_type(
     let (root_values, root_values_consumed) = parse_enum_values(&tokens[consumed..])?;
     consumed += root_values_consumed;
 
-    let ext_marker_index = if expect_token(&tokens[consumed..], Token::is_extension)? {
-        consumed += 1;
-        Some(root_values.len() + 1)
-    } else {
-        None
-    };
-
-    // one(1), ...,
+    let mut ext_marker_index = None;
+    let mut ext_values = vec![];
     if expect_token(&tokens[consumed..], Token::is_comma)? {
-        consumed += 1;
-    }
+        consumed += 2; // For the ',' and the extension marker
+        ext_marker_index = Some(root_values.len() + 1);
 
-    let (ext_values, ext_values_consumed) = match parse_enum_values(&tokens[consumed..]) {
-        Ok(result) => result,
-        Err(_) => (vec![], 0),
-    };
-    consumed += ext_values_consumed;
+        // one(1), ..., two(2)
+        if expect_token(&tokens[consumed..], Token::is_comma)? {
+            consumed += 1;
+            let (values, values_consumed) = parse_enum_values(&tokens[consumed..])?;
+            consumed += values_consumed;
+            ext_values = values;
+        }
+    }
 
     if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
         return Err(unexpected_token!("'}'", tokens[consumed]));
     }
     consumed += 1;
 
+    check_distinct(root_values.iter().chain(ext_values.iter()).map(|v| &v.name))?;
+
     Ok((
         Asn1TypeEnumerated {
             root_values,
diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 1606a69..5e79458 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -3,7 +3,7 @@
 use crate::error::Error;
 use crate::tokenizer::Token;
 
-use crate::parser::utils::{expect_keyword, expect_token};
+use crate::parser::utils::{check_distinct, expect_keyword, expect_token};
 
 use crate::parser::asn::structs::types::constructed::{Asn1TypeChoice, ChoiceAdditionGroup};
 
@@ -90,6 +90,18 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
         None
     };
 
+    check_distinct(
+        root_components
+            .iter()
+            .chain(
+                additions
+                    .iter()
+                    .flatten()
+                    .flat_map(|group| group.components.iter()),
+            )
+            .map(|c| &c.id),
+    )?;
+
     Ok((
         Asn1TypeChoice {
             root_components,
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index f2a047e..e6256d8 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -3,7 +3,7 @@
 use crate::error::Error;
 use crate::tokenizer::Token;
 
-use crate::parser::utils::{expect_keyword, expect_token};
+use crate::parser::utils::{check_distinct, expect_keyword, expect_token};
 
 use crate::parser::asn::{
     structs::types::{
@@ -86,6 +86,13 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
         }
     }
 
+    check_distinct(
+        root_components
+            .iter()
+            .chain(additions.iter().flat_map(|group| group.components.iter()))
+            .map(|c| &c.component.id),
+    )?;
+
     let extensible = ext_marker_found > 0;
     Ok((
         Asn1TypeKind::Constructed(Asn1ConstructedType::Sequence(Asn1TypeSequence {
diff --git a/asn-compiler/src/parser/utils.rs b/asn-compiler/src/parser/utils.rs
index 4fcf955..2a8fbe2 100644
--- a/asn-compiler/src/parser/utils.rs
+++ b/asn-compiler/src/parser/utils.rs
@@ -131,3 +131,14 @@ pub(super) fn parse_set_ish_value(tokens: &[Token]) -> Result<(String, usize), E
 }
 
 // TODO: Test Cases
+
+// The identifiers of the components of a type (or of the items of an enumeration) are all distinct.
+pub(crate) fn check_distinct<'a>(names: impl Iterator<Item = &'a String>) -> Result<(), Error> {
+    let mut seen = std::collections::HashSet::new();
+    for name in names {
+        if !seen.insert(name) {
+            return Err(parse_error!("Identifier '{}' is used more than once", name));
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From da4fabfdde7a4c1fc6eb505812a7729734279997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 75/96] fix: actual parameters are checked against the
 parameters, numbers stay numbers

---
 asn-compiler/src/parser/asn/defs.rs           | 30 ++++++++++++++++---
 .../src/parser/asn/structs/types/mod.rs       | 11 +++++++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 08edb62..2120a82 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -1,7 +1,7 @@
 //! Top level handling of definitions
 
 use crate::error::Error;
-use crate::tokenizer::Token;
+use crate::tokenizer::{types::TokenType, Token};
 
 use crate::parser::{
     asn::structs::{
@@ -72,6 +72,16 @@ impl Asn1Definition {
             ));
         }
 
+        for (param, actual) in params.ordered.iter().zip(actual_params) {
+            if !actual.is_allowed_for(param) {
+                return Err(parse_error!(
+                    "Actual Parameter '{}' is not allowed for the Parameter '{}'!",
+                    actual.param_string(),
+                    param.dummyref.name
+                ));
+            }
+        }
+
         // All the parameters are replaced at once: an actual parameter may well have the name of
         // another dummy reference.
         let mut type_tokens = params.type_tokens.clone();
@@ -83,6 +93,9 @@ impl Asn1Definition {
                 .position(|p| !is_identifier && p.dummyref.name == token.text);
             if let Some(idx) = idx {
                 token.text = actual_params[idx].param_string();
+                if token.text.parse::<i128>().is_ok() {
+                    token.r#type = TokenType::NumberInt;
+                }
             }
         }
         let (ty, _) = parse_type(&type_tokens)?;
@@ -483,15 +496,24 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
             _governer,
             dummyref,
         };
+        if params
+            .iter()
+            .any(|p: &DefinitionParam| p.dummyref.name == param.dummyref.name)
+        {
+            return Err(parse_error!(
+                "More than one parameter named '{}'!",
+                param.dummyref.name
+            ));
+        }
         params.push(param);
 
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        } else if expect_token(&tokens[consumed..], Token::is_curly_end)? {
             consumed += 1;
             break;
+        } else {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
     }
 
diff --git a/asn-compiler/src/parser/asn/structs/types/mod.rs b/asn-compiler/src/parser/asn/structs/types/mod.rs
index 5450be3..9d0a824 100644
--- a/asn-compiler/src/parser/asn/structs/types/mod.rs
+++ b/asn-compiler/src/parser/asn/structs/types/mod.rs
@@ -3,6 +3,8 @@
 pub(crate) mod base;
 use base::{Asn1TypeBitString, Asn1TypeEnumerated, Asn1TypeInteger};
 
+use super::defs::DefinitionParam;
+
 pub(crate) mod constraints;
 use constraints::Asn1Constraint;
 
@@ -91,6 +93,15 @@ impl ActualParam {
         }
     }
 
+    // Names of values (and objects) begin with a lower case letter, all the other names don't.
+    pub(crate) fn is_allowed_for(&self, param: &DefinitionParam) -> bool {
+        let is_value = |s: &str| !s.starts_with(|c: char| c.is_ascii_uppercase());
+        match self {
+            Self::Set(ref s) => !is_value(s) && param._governer.is_some(),
+            Self::Single(ref s) => is_value(s) == is_value(&param.dummyref.name),
+        }
+    }
+
     pub(crate) fn param_string(&self) -> String {
         match self {
             Self::Set(ref r) | Self::Single(ref r) => r.clone(),
-- 
2.43.0


From 8337a0b0a491aad0b9153da0ec136fd1113c26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 76/96] fix: trailing separators in object sets are an error

---
 asn-compiler/src/parser/asn/types/ioc.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 1921e21..bcbe535 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -329,13 +329,17 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut root_elements = vec![];
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
+    if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        // Empty Object Sets permitted
+        return Ok((
+            ObjectSet {
+                root_elements,
+                additional_elements,
+            },
+            consumed + 1,
+        ));
+    }
     loop {
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
-            // Empty Object Sets (and trailing separators) permitted
-            consumed += 1;
-            break;
-        }
-
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
@@ -370,7 +374,10 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
 
         if expect_one_of_tokens(&tokens[consumed..], &[Token::is_comma, Token::is_set_union])? {
             consumed += 1;
-        } else if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        } else if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+            consumed += 1;
+            break;
+        } else {
             return Err(unexpected_token!("',' or '|' or '}'", tokens[consumed]));
         }
     }
-- 
2.43.0


From eb776135bf8de6913ba5672f127df1cac15e6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 77/96] fix: object sets are of the class of the field,
 component relations refer to it, lookups need UNIQUE

---
 asn-compiler/src/resolver/asn/defs.rs         |  7 +-
 .../src/resolver/asn/structs/types/ioc.rs     |  2 +
 .../src/resolver/asn/types/constructed.rs     | 68 ++++++++++++++++++-
 asn-compiler/src/resolver/asn/types/ioc.rs    | 21 ++++++
 4 files changed, 95 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/defs.rs b/asn-compiler/src/resolver/asn/defs.rs
index 2b43290..d5476d3 100644
--- a/asn-compiler/src/resolver/asn/defs.rs
+++ b/asn-compiler/src/resolver/asn/defs.rs
@@ -62,6 +62,11 @@ fn resolve_object_definition(
     object: &Asn1ObjectAssignment,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedDefinition, Error> {
-    let object = resolve_object(&object.id, &object.object.value, resolver)?;
+    let object = resolve_object(
+        &object.id,
+        &object.object.class,
+        &object.object.value,
+        resolver,
+    )?;
     Ok(Asn1ResolvedDefinition::Object(object))
 }
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 683fe3c..e313fb5 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -17,11 +17,13 @@ pub(crate) enum ResolvedFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObject {
     pub(crate) name: String,
+    pub(crate) class: String,
     pub(crate) fields: HashMap<String, ResolvedFieldSpec>,
 }
 
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObjectSet {
+    pub(crate) class: String,
     pub(crate) objects: ResolvedObjectSet,
 }
 
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index a5c3104..9da2f62 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -172,7 +172,10 @@ fn resolve_sequence_classfield_components(
             Asn1TypeKind::Reference(Asn1TypeReference::ClassField {
                 ref classref,
                 ref fieldref,
-            }) => resolve_class_field_component(c, classref, fieldref, resolver)?,
+            }) => {
+                check_component_relation(c, classref, seq)?;
+                resolve_class_field_component(c, classref, fieldref, resolver)?
+            }
             _ => Some(ResolvedSeqComponent {
                 component: ResolvedComponent {
                     id: c.component.id.clone(),
@@ -199,6 +202,51 @@ fn resolve_sequence_classfield_components(
     ))
 }
 
+// The component referred to by '@component' is in the same `SEQUENCE`, a field of the same `CLASS`
+// constrained by the same Object Set.
+fn check_component_relation(
+    component: &SeqComponent,
+    classref: &str,
+    seq: &Asn1TypeSequence,
+) -> Result<(), Error> {
+    let constraint = component.component.ty.constraints.iter().flatten().next();
+    let reference = match constraint.map(|c| c.get_comp_reference()) {
+        Some(Some(reference)) => reference,
+        _ => return Ok(()),
+    };
+    let set_reference = constraint.unwrap().get_set_reference()?;
+    let is_value_field = |f: &str| {
+        f.trim_start_matches('&')
+            .starts_with(|c: char| c.is_ascii_lowercase())
+    };
+
+    let referred = seq
+        .root_components
+        .iter()
+        .find(|c| c.component.id == reference);
+    let matches = referred.map_or(false, |r| {
+        let same_class = matches!(
+            r.component.ty.kind,
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField { classref: ref c, ref fieldref })
+                if c == classref && is_value_field(fieldref)
+        );
+        let referred_constraint = r.component.ty.constraints.iter().flatten().next();
+        same_class
+            && referred_constraint.map_or(false, |c| {
+                c.get_comp_reference().is_none()
+                    && c.get_set_reference().map_or(false, |s| s == set_reference)
+            })
+    });
+    if !matches {
+        return Err(resolve_error!(
+            "Component '{}' refers to '{}' that is not a Component constrained by the same Object Set",
+            component.component.id,
+            reference
+        ));
+    }
+    Ok(())
+}
+
 fn resolve_class_field_component(
     component: &SeqComponent,
     classref: &str,
@@ -237,7 +285,15 @@ fn resolve_class_field_component(
 
     let set_reference = constraint.get_set_reference()?;
     let objects = match resolver.resolved_defs.get(&set_reference) {
-        Some(Asn1ResolvedDefinition::ObjectSet(ref set)) => &set.objects,
+        Some(Asn1ResolvedDefinition::ObjectSet(ref set)) if set.class == classref => &set.objects,
+        Some(Asn1ResolvedDefinition::ObjectSet(ref set)) => {
+            return Err(resolve_error!(
+                "Object Set '{}' is of the CLASS '{}', not of '{}'",
+                set_reference,
+                set.class,
+                classref
+            ));
+        }
         _ => {
             return Err(resolve_error!(
                 "Object Set '{}' not resolved yet!",
@@ -252,6 +308,14 @@ fn resolve_class_field_component(
     }
 
     let is_value = value_type.is_some();
+    if !is_value && unique_field.is_none() {
+        return Err(resolve_error!(
+            "Component '{}': The type of the field '{}' of the Class '{}' without a UNIQUE field is not supported!",
+            id,
+            fieldref,
+            classref
+        ));
+    }
     let ty = match value_type {
         Some(ty) => ty,
         None => Asn1ResolvedType::Set(ResolvedSetType {
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index f3ced08..df1276f 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -68,6 +68,7 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
+                                    check_class(name, &objectset.class, r, &o.class)?;
                                     elements.extend(o.objects.elements.clone());
                                     for element in o.objects.lookup_table.values() {
                                         add_to_lookup_table(
@@ -99,9 +100,11 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::Object(ref o) = res {
+                                    check_class(name, &objectset.class, r, &o.class)?;
                                     let element =
                                         ResolvedObjectSetElement::Object(Asn1ResolvedObject {
                                             name: r.clone(),
+                                            class: o.class.clone(),
                                             fields: o.fields.clone(),
                                         });
                                     add_to_lookup_table(
@@ -125,6 +128,7 @@ pub(crate) fn resolve_object_set(
                         let object_name = format!("{}{}", name, i);
                         let element = ResolvedObjectSetElement::Object(resolve_object(
                             &object_name,
+                            &objectset.class,
                             v,
                             resolver,
                         )?);
@@ -141,6 +145,7 @@ pub(crate) fn resolve_object_set(
             }
 
             Ok(Asn1ResolvedObjectSet {
+                class: objectset.class.clone(),
                 objects: ResolvedObjectSet {
                     decoder_ty,
                     elements,
@@ -151,6 +156,20 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// All the elements of an Object Set are of the CLASS of the set.
+fn check_class(set: &str, set_class: &str, element: &str, class: &str) -> Result<(), Error> {
+    if set_class != class {
+        return Err(resolve_error!(
+            "'{}' of the CLASS '{}' cannot be in the Object Set '{}' of the CLASS '{}'",
+            element,
+            class,
+            set,
+            set_class
+        ));
+    }
+    Ok(())
+}
+
 // Adds the element to the lookup table used by the decoder.
 //
 // The key is the value of the UNIQUE field, together with a name for it: that of the value
@@ -221,6 +240,7 @@ fn add_to_lookup_table(
 
 pub(crate) fn resolve_object(
     object_name: &str,
+    class: &str,
     object_value: &Asn1ObjectValue,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedObject, Error> {
@@ -258,6 +278,7 @@ pub(crate) fn resolve_object(
         }
         Ok(Asn1ResolvedObject {
             name: object_name.to_string(),
+            class: class.to_string(),
             fields: resolved_fields,
         })
     } else {
-- 
2.43.0


From 49c5f3cc1d381ed42761e385602dc1909944b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 78/96] fix: IMPORTS are parsed strictly, a name is either
 defined or imported

---
 asn-compiler/src/parser/asn/module.rs | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index 82a1e8f..7658036 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 use crate::error::Error;
 use crate::tokenizer::Token;
 
-use crate::parser::utils::{expect_keyword, expect_one_of_keywords, expect_token};
+use crate::parser::utils::{expect_keyword, expect_one_of_keywords, expect_token, expect_tokens};
 
 use super::{
     defs::parse_definition,
@@ -81,6 +81,9 @@ where
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
         let id = def.id();
+        if imports.contains_key(&id) {
+            return Err(parse_error!("'{}' is defined and imported!", id));
+        }
         if definitions.insert(id.clone(), def).is_some() {
             return Err(parse_error!("'{}' is defined more than once!", id));
         }
@@ -111,17 +114,30 @@ fn parse_module_imports(
 
         loop {
             let mut imported_defs = vec![];
-            while !expect_keyword(&tokens[consumed..], "FROM")? {
-                if expect_token(&tokens[consumed..], Token::is_identifier)? {
-                    let definition = tokens[consumed].text.clone();
-                    imported_defs.push(definition);
+            loop {
+                if !expect_token(&tokens[consumed..], Token::is_identifier)? {
+                    return Err(unexpected_token!("'IDENTIFIER'", tokens[consumed]));
                 }
+                imported_defs.push(tokens[consumed].text.clone());
                 consumed += 1;
+
+                // '{}' may follow the name of a parameterized type.
+                if expect_tokens(
+                    &tokens[consumed..],
+                    &[&[Token::is_curly_begin], &[Token::is_curly_end]],
+                )? {
+                    consumed += 2;
+                }
+
                 if expect_token(&tokens[consumed..], Token::is_comma)? {
                     consumed += 1;
+                } else if expect_keyword(&tokens[consumed..], "FROM")? {
+                    consumed += 1;
+                    break;
+                } else {
+                    return Err(unexpected_token!("',' or 'FROM'", tokens[consumed]));
                 }
             }
-            consumed += 1;
             let (module_name, module_name_consumed) = parse_module_name(&tokens[consumed..])?;
             consumed += module_name_consumed;
 
-- 
2.43.0


From d59def32c31d663114e355b0683fb77357d1d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 79/96] fix: names in CONTAINING, in objects, of values and
 governors have to be known

---
 asn-compiler/src/compiler.rs                  |  3 ++
 asn-compiler/src/parser/asn/defs.rs           |  5 +++
 asn-compiler/src/parser/asn/structs/defs.rs   | 14 +++++++
 .../parser/asn/structs/types/constraints.rs   |  2 +-
 .../src/parser/asn/types/constraints.rs       |  4 +-
 .../src/resolver/asn/types/constraints.rs     |  3 ++
 asn-compiler/src/resolver/int.rs              | 37 +++++++++++++++++--
 7 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index a062b98..0ad5d0c 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -178,6 +178,9 @@ impl Asn1Compiler {
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
         let module_names = self.sorted_modules()?;
+        for module in self.modules.values() {
+            self.resolver.add_names_of_module(module);
+        }
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 2120a82..c03c68b 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -432,6 +432,11 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
                     name: g.text.clone(),
                     kind: GovernerKind::Class,
                 }
+            } else if g.is_asn_builtin_type() {
+                ParamGoverner {
+                    name: g.text.clone(),
+                    kind: GovernerKind::BuiltinType,
+                }
             } else {
                 ParamGoverner {
                     name: g.text.clone(),
diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 38fadc2..c7ae51b 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -140,6 +140,7 @@ impl Asn1Definition {
     pub fn dependent_references(&self) -> Vec<String> {
         let mut references = self.kind.dependent_references();
         if let Some(ref params) = self.params {
+            references.extend(params.governer_references());
             // Dummy references refer to the parameters and not to other definitions.
             references.retain(|r| params.ordered.iter().all(|p| &p.dummyref.name != r));
         }
@@ -209,6 +210,7 @@ get_inner! {
 
 #[derive(Debug, PartialEq, Clone)]
 pub(crate) enum GovernerKind {
+    BuiltinType,
     Type,
     Class,
 }
@@ -241,6 +243,18 @@ pub(crate) struct DefinitionParams {
     pub(crate) type_tokens: Vec<Token>,
 }
 
+impl DefinitionParams {
+    // The classes and types (other than the builtin types) that the parameters belong to.
+    fn governer_references(&self) -> Vec<String> {
+        self.ordered
+            .iter()
+            .filter_map(|p| p._governer.as_ref())
+            .filter(|g| g.kind != GovernerKind::BuiltinType)
+            .map(|g| g.name.clone())
+            .collect()
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct DefinitionParam {
     pub(crate) _governer: Option<ParamGoverner>,
diff --git a/asn-compiler/src/parser/asn/structs/types/constraints.rs b/asn-compiler/src/parser/asn/structs/types/constraints.rs
index 40d6a5e..0133962 100644
--- a/asn-compiler/src/parser/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constraints.rs
@@ -61,7 +61,7 @@ pub(crate) enum Asn1Constraint {
     Subtype(ElementSet),
     Table(TableConstraint),
     Contents {
-        _containing: String,                   // Reference to referenced type
+        containing: String,                    // Reference to referenced type
         _encoded_by: Option<ObjectIdentifier>, // Encoding Object Identifier (Right now always None)
     },
 }
diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 129377c..7920052 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -345,7 +345,7 @@ fn parse_contents_constraint(tokens: &[Token]) -> Result<(Asn1Constraint, usize)
     }
     consumed += 1;
 
-    let _containing = if expect_token(&tokens[consumed..], Token::is_type_reference)? {
+    let containing = if expect_token(&tokens[consumed..], Token::is_type_reference)? {
         tokens[consumed].text.clone()
     } else {
         return Err(unexpected_token!("'TYPE Reference'", tokens[consumed]));
@@ -360,7 +360,7 @@ fn parse_contents_constraint(tokens: &[Token]) -> Result<(Asn1Constraint, usize)
     let _encoded_by = None;
     Ok((
         Asn1Constraint::Contents {
-            _containing,
+            containing,
             _encoded_by,
         },
         consumed,
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index fad338b..87a25cc 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -113,6 +113,9 @@ impl Asn1Constraint {
     ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
         match self {
             Self::Subtype(ref e) => e.get_size_valueset(parent, resolver),
+            Self::Contents { containing, .. } if !resolver.is_name_known(containing) => Err(
+                resolve_error!("'{}' used in CONTAINING is not defined", containing),
+            ),
             Self::Contents { .. } => Ok(None),
             Self::Table(..) => Err(constraint_error!(
                 "The constraint '{:#?}' is not a size constraint.",
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index a6b9620..63ad1df 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -1,6 +1,6 @@
 //! Resolver Struct and it's implementation
 
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::error::Error;
 
@@ -28,6 +28,12 @@ pub(crate) struct Resolver {
 
     // What has been defined so far (in any module).
     sources: HashMap<String, String>,
+
+    // All the names that are defined in the current module or have been defined before.
+    names: HashSet<String>,
+
+    // All the names that are defined in any of the modules.
+    names_of_modules: HashSet<String>,
 }
 
 impl Resolver {
@@ -38,9 +44,17 @@ impl Resolver {
             classes: HashMap::new(),
             instantiations: 0,
             sources: HashMap::new(),
+            names: HashSet::new(),
+            names_of_modules: HashSet::new(),
         }
     }
 
+    // Names of a module that is going to be resolved.
+    pub(crate) fn add_names_of_module(&mut self, module: &Asn1Module) {
+        self.names_of_modules
+            .extend(module.get_definitions().keys().cloned());
+    }
+
     // Resolve Definitions: Algorithm
     //
     // First we need to resolve classes in the current module, because we need to resolve Object
@@ -62,6 +76,7 @@ impl Resolver {
         module.resolve_object_classes(&self.classes)?;
 
         self.check_references(module)?;
+        self.names.extend(module.get_definitions().keys().cloned());
 
         let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
@@ -108,6 +123,11 @@ impl Resolver {
         Ok(())
     }
 
+    // Whether there is (or will be) a definition with this name.
+    pub(crate) fn is_name_known(&self, name: &str) -> bool {
+        self.names.contains(name)
+    }
+
     pub(crate) fn get_resolved_types(&self) -> Vec<(&String, &Asn1ResolvedType)> {
         self.resolved_defs
             .iter()
@@ -161,10 +181,12 @@ impl Resolver {
             for r in def.dependent_references() {
                 let known = module.get_definitions().contains_key(&r)
                     || module.get_imported_defs().any(|(i, _)| i == &r)
-                    || (def.is_object_or_object_set() && self.sources.contains_key(&r))
+                    || (self.sources.contains_key(&r) && self.is_from_class(&r, def))
                     || r == "MIN"
                     || r == "MAX";
-                if !known && (r.starts_with(char::is_uppercase) || self.sources.contains_key(&r)) {
+                let is_name =
+                    r.starts_with(char::is_uppercase) || self.names_of_modules.contains(&r);
+                if !known && is_name {
                     return Err(resolve_error!(
                         "'{}' used in '{}' is neither defined nor imported in Module '{}'",
                         r,
@@ -177,6 +199,15 @@ impl Resolver {
         Ok(())
     }
 
+    // The names used in the fields of a CLASS come with the objects of the CLASS.
+    fn is_from_class(&self, reference: &str, def: &Asn1Definition) -> bool {
+        def.get_object_class()
+            .and_then(|class| self.classes.get(&class))
+            .map_or(false, |class| {
+                class.dependent_references().iter().any(|r| r == reference)
+            })
+    }
+
     fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) {
         for (k, def) in module.get_definitions() {
             if def.is_class_assignment() {
-- 
2.43.0


From 3106b5f3992b1890730c9d9918e7a97da8f80d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 80/96] fix: names that Rust reserves or the generated code
 uses get an underscore

Components called 'fn' or 'match', or a type called 'Option' or 'Self', made the
compiler panic or generate code that does not compile.
---
 .../generator/asn/types/constructed/choice.rs |  2 +-
 asn-compiler/src/generator/asn/types/int.rs   |  2 +-
 asn-compiler/src/generator/int.rs             | 38 +++++++++++++++++--
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/generator/asn/types/constructed/choice.rs b/asn-compiler/src/generator/asn/types/constructed/choice.rs
index ca8d563..d2edc6a 100644
--- a/asn-compiler/src/generator/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/choice.rs
@@ -208,7 +208,7 @@ impl ResolvedConstructedType {
     ) -> Result<Vec<ChoiceComponentToken>, Error> {
         let mut out_components = vec![];
         for (i, c) in components.iter().enumerate() {
-            let comp_variant_ident = generator.to_type_ident(&c.id);
+            let comp_variant_ident = generator.to_variant_ident(&c.id);
             let input_comp_type_ident = format!("{}{}", name, c.id);
             let comp_variant_ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(
                 &c.ty,
diff --git a/asn-compiler/src/generator/asn/types/int.rs b/asn-compiler/src/generator/asn/types/int.rs
index 0158e5f..5a3924a 100644
--- a/asn-compiler/src/generator/asn/types/int.rs
+++ b/asn-compiler/src/generator/asn/types/int.rs
@@ -109,7 +109,7 @@ impl ResolvedSetType {
     fn generate_aux_types(&self, generator: &mut Generator) -> Result<TokenStream, Error> {
         let mut variant_tokens = TokenStream::new();
         for (name, ty) in &self.types {
-            let variant_ident = generator.to_type_ident(&name.0);
+            let variant_ident = generator.to_variant_ident(&name.0);
             let ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(&ty.1, generator, None)?;
             let key: proc_macro2::TokenStream = ty.0.to_string().parse().unwrap();
             let key_tokens = quote! {
diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index b0677fe..fd3da6c 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -10,6 +10,21 @@ use crate::resolver::Resolver;
 
 use crate::resolver::asn::structs::types::Asn1ResolvedType;
 
+// Names that cannot be the name of a struct's field.
+const RUST_KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in",
+    "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
+// Names that cannot be the name of a type, because they are reserved or the code generated (here or
+// by the `derive` of the codec) uses them.
+const RESERVED_TYPE_NAMES: &[&str] = &[
+    "BitVec", "Err", "Msb0", "None", "Ok", "Option", "Result", "Self", "Some", "String", "Vec",
+];
+
 #[derive(Debug)]
 pub(crate) struct Generator {
     // Generated Tokens for the module.
@@ -66,10 +81,19 @@ impl Generator {
     }
 
     pub(crate) fn to_type_ident(&self, name: &str) -> Ident {
-        Ident::new(
-            &capitalize_first(name).replace("-", "_").replace(" ", "_"),
-            Span::call_site(),
-        )
+        let mut val = to_camel_ident(name);
+        if RESERVED_TYPE_NAMES.contains(&val.as_str()) {
+            val.push('_');
+        }
+        Ident::new(&val, Span::call_site())
+    }
+
+    pub(crate) fn to_variant_ident(&self, name: &str) -> Ident {
+        let mut val = to_camel_ident(name);
+        if val == *"Self" {
+            val.push('_');
+        }
+        Ident::new(&val, Span::call_site())
     }
 
     pub(crate) fn to_const_ident(&self, name: &str) -> Ident {
@@ -80,6 +104,8 @@ impl Generator {
         let mut val = capitalize_first(name).to_snake_case();
         if val == *"type" {
             val = "typ".to_string()
+        } else if RUST_KEYWORDS.contains(&val.as_str()) {
+            val.push('_');
         }
         Ident::new(&val, Span::call_site())
     }
@@ -144,6 +170,10 @@ impl Generator {
     }
 }
 
+fn to_camel_ident(name: &str) -> String {
+    capitalize_first(name).replace("-", "_").replace(" ", "_")
+}
+
 fn capitalize_first(input: &str) -> String {
     if !input.is_empty() {
         let mut input = input.to_string();
-- 
2.43.0


From 2efd1b0d6f5c63ec9625a62efbe43cf49af8c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 81/96] fix: different names of a specification stay different
 in the generated code

'a-b' and 'aB' became one field or constant, and helper types could take the name
of a definition or of another helper type.
---
 .../generator/asn/types/base/enumerated.rs    |  4 +++
 .../generator/asn/types/constructed/mod.rs    |  8 ++---
 .../generator/asn/types/constructed/seq.rs    |  5 +++
 asn-compiler/src/generator/asn/types/int.rs   | 10 +++---
 asn-compiler/src/generator/int.rs             | 36 ++++++++++++++++++-
 5 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/asn-compiler/src/generator/asn/types/base/enumerated.rs b/asn-compiler/src/generator/asn/types/base/enumerated.rs
index e730207..e58ad0f 100644
--- a/asn-compiler/src/generator/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/generator/asn/types/base/enumerated.rs
@@ -1,5 +1,7 @@
 //! Mainly 'generator' code for `Asn1ResolvedEnumerated`
 
+use std::collections::HashSet;
+
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 
@@ -42,8 +44,10 @@ impl Asn1ResolvedEnumerated {
 
     fn generate_named_values(&self, generator: &Generator) -> Result<TokenStream, Error> {
         let mut tokens = TokenStream::new();
+        let mut used_idents = HashSet::new();
         for (name, value) in &self.named_root_values {
             let const_name = generator.to_const_ident(&name);
+            let const_name = generator.to_unused_ident(const_name, &mut used_idents);
             let value_literal = generator.to_suffixed_literal(self.bits, self.signed, *value);
             let ty = generator.to_inner_type(self.bits, self.signed);
             let const_tokens = quote! {
diff --git a/asn-compiler/src/generator/asn/types/constructed/mod.rs b/asn-compiler/src/generator/asn/types/constructed/mod.rs
index 28c1960..6752243 100644
--- a/asn-compiler/src/generator/asn/types/constructed/mod.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/mod.rs
@@ -59,18 +59,18 @@ impl ResolvedConstructedType {
     ) -> Result<Ident, Error> {
         let unique_name = match self {
             ResolvedConstructedType::Sequence { name, .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(inp) => generator.get_unused_type_name(inp),
                 None => match name {
-                    Some(ref n) => n.to_string(),
+                    Some(ref n) => generator.get_unused_type_name(n),
                     None => generator.get_unique_name("Sequence"),
                 },
             },
             ResolvedConstructedType::Choice { .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(inp) => generator.get_unused_type_name(inp),
                 None => generator.get_unique_name("Choice"),
             },
             ResolvedConstructedType::SequenceOf { .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(inp) => generator.get_unused_type_name(inp),
                 None => generator.get_unique_name("SeqOf"),
             },
         };
diff --git a/asn-compiler/src/generator/asn/types/constructed/seq.rs b/asn-compiler/src/generator/asn/types/constructed/seq.rs
index cc084c3..a884cac 100644
--- a/asn-compiler/src/generator/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/seq.rs
@@ -1,5 +1,7 @@
 //! Implementation of Code Generation for ASN.1 `SEQUENCE` Type.
 
+use std::collections::HashSet;
+
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -31,8 +33,11 @@ impl ResolvedConstructedType {
 
             let mut comp_tokens = TokenStream::new();
             let mut optional_fields = 0;
+            let mut used_idents = HashSet::new();
             for c in components {
                 let comp_field_ident = generator.to_value_ident(&c.component.id);
+                let comp_field_ident =
+                    generator.to_unused_ident(comp_field_ident, &mut used_idents);
                 let comp_ty_suffix = generator.to_type_ident(&c.component.id);
                 let input_comp_ty_ident = format!("{}{}", name, comp_ty_suffix);
                 let comp_ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(
diff --git a/asn-compiler/src/generator/asn/types/int.rs b/asn-compiler/src/generator/asn/types/int.rs
index 5a3924a..856be3a 100644
--- a/asn-compiler/src/generator/asn/types/int.rs
+++ b/asn-compiler/src/generator/asn/types/int.rs
@@ -1,6 +1,8 @@
 //! Handling top level Generator code for a Resolved Type. Based on the individual type variant,
 //! the respective functions are called.
 
+use std::collections::HashSet;
+
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 
@@ -87,10 +89,8 @@ impl ResolvedSetType {
         input: Option<&String>,
     ) -> Result<Ident, Error> {
         // FIXME: This is perhaps not right
-        let ty_ident = match input {
-            None => generator.to_type_ident(&self.setref),
-            Some(ref inp) => generator.to_type_ident(inp),
-        };
+        let ty_name = generator.get_unused_type_name(input.unwrap_or(&self.setref));
+        let ty_ident = generator.to_type_ident(&ty_name);
         let ty_elements = self.generate_aux_types(generator)?;
 
         let set_ty = quote! {
@@ -108,8 +108,10 @@ impl ResolvedSetType {
 
     fn generate_aux_types(&self, generator: &mut Generator) -> Result<TokenStream, Error> {
         let mut variant_tokens = TokenStream::new();
+        let mut used_idents = HashSet::new();
         for (name, ty) in &self.types {
             let variant_ident = generator.to_variant_ident(&name.0);
+            let variant_ident = generator.to_unused_ident(variant_ident, &mut used_idents);
             let ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(&ty.1, generator, None)?;
             let key: proc_macro2::TokenStream = ty.0.to_string().parse().unwrap();
             let key_tokens = quote! {
diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index fd3da6c..842e086 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -1,5 +1,7 @@
 //! Code Generation module
 
+use std::collections::HashSet;
+
 use heck::{ToShoutySnakeCase, ToSnakeCase};
 use proc_macro2::{Ident, Literal, Span, TokenStream};
 
@@ -38,6 +40,9 @@ pub(crate) struct Generator {
 
     // Auxillary Items: These are structs/that are referenced inside constructed type.
     pub(crate) aux_items: Vec<TokenStream>,
+
+    // Rust names of the types generated so far (including those of all definitions).
+    type_names: HashSet<String>,
 }
 
 impl Generator {
@@ -47,6 +52,7 @@ impl Generator {
             _name: name.to_string(),
             counter: 1,
             aux_items: vec![],
+            type_names: HashSet::new(),
         }
     }
 
@@ -58,6 +64,11 @@ impl Generator {
         let use_tokens = self.generate_use_tokens();
         self.items.push(use_tokens);
 
+        for (k, _) in resolver.get_resolved_types() {
+            let ident = self.to_type_ident(k);
+            self.type_names.insert(ident.to_string());
+        }
+
         let mut items = vec![];
         for (k, t) in resolver.get_resolved_types() {
             let item = Asn1ResolvedType::generate_for_type(k, t, self)?;
@@ -153,7 +164,30 @@ impl Generator {
     pub(crate) fn get_unique_name(&mut self, name: &str) -> String {
         self.counter += 1;
 
-        format!("{} {}", name, self.counter)
+        let name = format!("{} {}", name, self.counter);
+        self.get_unused_type_name(&name)
+    }
+
+    // A name like the given one for an 'auxillary' type, which no other type has.
+    pub(crate) fn get_unused_type_name(&mut self, name: &str) -> String {
+        let mut name = name.to_string();
+        while !self
+            .type_names
+            .insert(self.to_type_ident(&name).to_string())
+        {
+            name.push('_');
+        }
+        name
+    }
+
+    // Different ASN.1 identifiers can become the same Rust identifier. Returns an identifier that
+    // is not `used` yet.
+    pub(crate) fn to_unused_ident(&self, ident: Ident, used: &mut HashSet<String>) -> Ident {
+        let mut val = ident.to_string();
+        while !used.insert(val.clone()) {
+            val.push('_');
+        }
+        Ident::new(&val, ident.span())
     }
 
     fn generate_use_tokens(&self) -> TokenStream {
-- 
2.43.0


From c63299cfcb0f32977a13cba3c1e35c5318ba0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 82/96] fix: derive on an enum that has a variant called
 'Output'

---
 codecs_derive/src/aper/choice.rs | 2 +-
 codecs_derive/src/aper/open.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index 99007c6..704e5ef 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -26,7 +26,7 @@ pub(super) fn generate_aper_codec_for_asn_choice(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (idx, extended) = asn1_codecs::aper::decode::decode_choice_idx(data, #lb, #ub, #ext)?;
diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 202820b..2f7afe9 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -41,7 +41,7 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let contents = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
-- 
2.43.0


From 0d504433ba793867e587a478d03ddf041fa0d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 83/96] fix: derive encoding of an optional component called
 'data'

---
 codecs_derive/src/aper/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 14fc9fb..15a9207 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -155,8 +155,8 @@ fn generate_seq_field_codec_tokens_using_attrs(
                             let field_encode_token = if optional {
                                 quote! {
                                     if self.#id.is_some() {
-                                        let #id = self.#id.as_ref().unwrap();
-                                        #id.encode(data)?;
+                                        let value = self.#id.as_ref().unwrap();
+                                        value.encode(data)?;
                                     } else {
                                     }
                                 }
-- 
2.43.0


From 832bde816504da40e0af15e30ffe0dfe8de96d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 84/96] fix: derive decoding of an optional key field

---
 codecs/src/aper/mod.rs        |  5 ++++
 codecs_derive/src/aper/seq.rs | 56 ++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 9d6fedc..24c4a4c 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -325,6 +325,11 @@ impl AperCodecData {
         let _ = self.key.replace(key);
     }
 
+    /// Clears the current `key` value, when the field that determines it is absent.
+    pub fn clear_key(&mut self) {
+        self.key = None;
+    }
+
     /// Dump current 'offset'.
     #[inline]
     pub fn dump(&self) {
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 15a9207..a03aac8 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -92,6 +92,22 @@ fn generate_seq_field_codec_tokens_using_attrs(
                         } else {
                             let ty_ident = field_type.ty.unwrap();
                             let optional = field_type.is_optional;
+                            let key_field = cp.key_field.as_ref();
+                            let is_key_field = if let Some(kf) = key_field {
+                                kf.value()
+                            } else {
+                                false
+                            };
+                            if is_key_field {
+                                // Components decoded later may themselves have a key field, and
+                                // the value of an enclosing one is not that of an absent one.
+                                restore_key = quote! {
+                                    match key {
+                                        Some(key) => data.set_key(key),
+                                        None => data.clear_key(),
+                                    }
+                                };
+                            }
                             let fld_decode_tokens = if optional {
                                 let optional_idx = cp.optional_idx.as_ref();
 
@@ -105,27 +121,40 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                         quote! {}
                                     }
                                     Some(optidx) => {
+                                        let (decode_value, absent_value) = if is_key_field {
+                                            (
+                                                quote! {
+                                                    let value = #ty_ident::decode(data)?;
+                                                    key = Some(value.0 as i128);
+                                                    Some(value)
+                                                },
+                                                quote! {
+                                                    key = None;
+                                                    None
+                                                },
+                                            )
+                                        } else {
+                                            (
+                                                quote! {
+                                                    #restore_key
+                                                    Some(#ty_ident::decode(data)?)
+                                                },
+                                                quote! { None },
+                                            )
+                                        };
                                         quote! {
                                             {
                                             let present = bitmap[#optidx];
                                             if present {
-                                                #restore_key
-                                                Some(#ty_ident::decode(data)?)
+                                                #decode_value
                                             } else {
-                                                None
+                                                #absent_value
                                             }
                                             }
                                         }
                                     }
                                 }
                             } else {
-                                let key_field = cp.key_field.as_ref();
-                                let is_key_field = if let Some(kf) = key_field {
-                                    kf.value()
-                                } else {
-                                    false
-                                };
-
                                 if !is_key_field {
                                     quote! {
                                         {
@@ -134,17 +163,10 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                         }
                                     }
                                 } else {
-                                    // Components decoded later may themselves have a key field.
-                                    restore_key = quote! {
-                                        if let Some(key) = key {
-                                            data.set_key(key);
-                                        }
-                                    };
                                     quote! {
                                         {
                                         let value = #ty_ident::decode(data)?;
                                         key = Some(value.0 as i128);
-                                        let _ = data.set_key(value.0 as i128);
                                         value
                                         }
                                     }
-- 
2.43.0


From 4bf6d1b67f18f5682fb32c1ac077acc013593ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 85/96] fix: attributes of an optional key field

---
 asn-compiler/src/generator/asn/types/constructed/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/generator/asn/types/constructed/seq.rs b/asn-compiler/src/generator/asn/types/constructed/seq.rs
index a884cac..a5a3e44 100644
--- a/asn-compiler/src/generator/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/seq.rs
@@ -50,7 +50,7 @@ impl ResolvedConstructedType {
                 let fld_tokens = if c.optional {
                     let idx: proc_macro2::TokenStream =
                         format!("{}", optional_fields).parse().unwrap();
-                    fld_attrs.push(quote! { optional_idx = #idx,  });
+                    fld_attrs.push(quote! { optional_idx = #idx });
 
                     optional_fields += 1;
 
-- 
2.43.0


From fc64825586a6e1f9f3d16d5c14c52585043520d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 86/96] fix: an open type is decoded by the key field it refers
 to, or refused

---
 .../src/resolver/asn/types/constructed.rs     | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 9da2f62..356105b 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -190,6 +190,9 @@ fn resolve_sequence_classfield_components(
         if c.addition {
             continue;
         }
+        if let Some(ref component) = component {
+            check_open_type_key(c, component, &components)?;
+        }
         components.extend(component);
     }
 
@@ -247,6 +250,30 @@ fn check_component_relation(
     Ok(())
 }
 
+// The codec decodes an open type using the value of the last key field before it.
+fn check_open_type_key(
+    seq_component: &SeqComponent,
+    component: &ResolvedSeqComponent,
+    preceding: &[ResolvedSeqComponent],
+) -> Result<(), Error> {
+    if !matches!(
+        component.class_field_type,
+        Some(ClassFieldComponentType::Type)
+    ) {
+        return Ok(());
+    }
+    let constraint = seq_component.component.ty.constraints.iter().flatten().next();
+    let reference = constraint.and_then(|c| c.get_comp_reference());
+    let key = preceding.iter().rfind(|c| c.key_field);
+    match key {
+        Some(key) if reference.map_or(true, |r| r == key.component.id) => Ok(()),
+        _ => Err(resolve_error!(
+            "Component '{}' with a key field that is not the last one before it is not supported!",
+            component.component.id
+        )),
+    }
+}
+
 fn resolve_class_field_component(
     component: &SeqComponent,
     classref: &str,
-- 
2.43.0


From 2fa4f10beeae203072e1db44ee1792975763a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 87/96] fix: components of a SEQUENCE over an object set
 without objects were dropped

---
 .../src/resolver/asn/types/constructed.rs         | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 356105b..8beef1f 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -256,11 +256,9 @@ fn check_open_type_key(
     component: &ResolvedSeqComponent,
     preceding: &[ResolvedSeqComponent],
 ) -> Result<(), Error> {
-    if !matches!(
-        component.class_field_type,
-        Some(ClassFieldComponentType::Type)
-    ) {
-        return Ok(());
+    match component.component.ty {
+        Asn1ResolvedType::Set(ref set) if !set.types.is_empty() => {}
+        _ => return Ok(()),
     }
     let constraint = seq_component.component.ty.constraints.iter().flatten().next();
     let reference = constraint.and_then(|c| c.get_comp_reference());
@@ -329,13 +327,8 @@ fn resolve_class_field_component(
         }
     };
 
-    // FIXME: the components are not generated if the Object Set is empty.
-    if objects.elements.is_empty() {
-        return Ok(None);
-    }
-
     let is_value = value_type.is_some();
-    if !is_value && unique_field.is_none() {
+    if !is_value && unique_field.is_none() && !objects.elements.is_empty() {
         return Err(resolve_error!(
             "Component '{}': The type of the field '{}' of the Class '{}' without a UNIQUE field is not supported!",
             id,
-- 
2.43.0


From f1335cd707464500f21237b7731d4e6a301db648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:58 +0000
Subject: [PATCH 88/96] fix: the alternatives of a CHOICE without automatic
 tags are in the order of their tags

---
 asn-compiler/src/parser/asn/structs/module.rs |  5 +++
 .../src/resolver/asn/structs/types/base.rs    | 27 +++++++++++++-
 .../resolver/asn/structs/types/constructed.rs |  6 +++-
 .../src/resolver/asn/structs/types/mod.rs     |  7 ++++
 .../src/resolver/asn/types/constructed.rs     | 15 +++++++-
 asn-compiler/src/resolver/asn/types/int.rs    |  4 +++
 asn-compiler/src/resolver/int.rs              | 36 +++++++++++++++++--
 7 files changed, 95 insertions(+), 5 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index 5ce553e..7cb8332 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -123,6 +123,11 @@ impl Asn1Module {
     }
 
     #[inline(always)]
+    // Whether alternatives and components have the tags [0], [1], ... in the order of the text.
+    pub(crate) fn has_automatic_tags(&self) -> bool {
+        self._tags == Asn1ModuleTag::Automatic
+    }
+
     pub(crate) fn get_module_name(&self) -> String {
         self.name.name.clone()
     }
diff --git a/asn-compiler/src/resolver/asn/structs/types/base.rs b/asn-compiler/src/resolver/asn/structs/types/base.rs
index b433a3f..55bdf8e 100644
--- a/asn-compiler/src/resolver/asn/structs/types/base.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/base.rs
@@ -1,7 +1,9 @@
 //! Structs for the resolved Base Types
 use std::collections::{BTreeSet, HashMap};
 
-use crate::resolver::asn::structs::types::constraints::Asn1ConstraintValueSet;
+use crate::error::Error;
+
+use crate::resolver::asn::structs::types::{constraints::Asn1ConstraintValueSet, Tag};
 
 #[derive(Debug, Clone)]
 pub(crate) enum ResolvedBaseType {
@@ -15,6 +17,29 @@ pub(crate) enum ResolvedBaseType {
     Null(Asn1ResolvedNull),
 }
 
+impl ResolvedBaseType {
+    pub(crate) fn get_tag(&self) -> Result<Tag, Error> {
+        let number = match self {
+            Self::Boolean(_) => 1,
+            Self::Integer(_) => 2,
+            Self::BitString(_) => 3,
+            Self::OctetString(_) => 4,
+            Self::Null(_) => 5,
+            Self::ObjectIdentifier(_) => 6,
+            Self::Enum(_) => 10,
+            Self::CharacterString(ref c) => match c.str_type.as_str() {
+                "UTF8String" => 12,
+                "PrintableString" => 19,
+                "IA5String" => 22,
+                "VisibleString" => 26,
+                "CHARACTER-STRING" => 29,
+                other => return Err(resolve_error!("Tag of '{}' is not known!", other)),
+            },
+        };
+        Ok(Tag::Universal(number))
+    }
+}
+
 // An intermediate representation for a Resolved Integer Type
 //
 // This structure is obtained when all the 'Constraints' in a give definition are applied.
diff --git a/asn-compiler/src/resolver/asn/structs/types/constructed.rs b/asn-compiler/src/resolver/asn/structs/types/constructed.rs
index a786c27..c1bbca1 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constructed.rs
@@ -1,6 +1,8 @@
 //! Structs for the resolved Base Types
 
-use crate::resolver::asn::structs::types::{constraints::Asn1ConstraintValueSet, Asn1ResolvedType};
+use crate::resolver::asn::structs::types::{
+    constraints::Asn1ConstraintValueSet, Asn1ResolvedType, Tag,
+};
 
 #[derive(Debug, Clone)]
 pub(crate) enum ResolvedConstructedType {
@@ -8,6 +10,8 @@ pub(crate) enum ResolvedConstructedType {
         name: Option<String>,
         root_components: Vec<ResolvedComponent>,
         additions: Option<Vec<ResolvedComponent>>,
+        // Smallest tag of the root alternatives.
+        tag: Tag,
     },
     Sequence {
         name: Option<String>,
diff --git a/asn-compiler/src/resolver/asn/structs/types/mod.rs b/asn-compiler/src/resolver/asn/structs/types/mod.rs
index de7898d..dc816fd 100644
--- a/asn-compiler/src/resolver/asn/structs/types/mod.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/mod.rs
@@ -18,6 +18,13 @@ pub(crate) struct ResolvedSetType {
     pub(crate) types: ResolvedSetTypeMap,
 }
 
+// Tags in their canonical order.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+pub(crate) enum Tag {
+    Universal(u32),
+    Context(u32),
+}
+
 #[derive(Debug, Clone)]
 pub(crate) enum Asn1ResolvedType {
     // One of the resolved Base Types.
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 8beef1f..7fff13a 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -19,7 +19,7 @@ use crate::resolver::{
                     ResolvedSeqComponent,
                 },
                 ioc::{ResolvedFieldSpec, ResolvedObjectSet, ResolvedObjectSetElement},
-                Asn1ResolvedType, ResolvedSetType, ResolvedSetTypeMap,
+                Asn1ResolvedType, ResolvedSetType, ResolvedSetTypeMap, Tag,
             },
         },
         types::resolve_type,
@@ -69,6 +69,18 @@ fn resolve_choice_type(
         root_components.push(component);
     }
 
+    // The indices of the alternatives are in the order of their tags.
+    let mut tag = Tag::Context(0);
+    if !resolver.automatic_tags {
+        let mut tagged = vec![];
+        for component in root_components {
+            tagged.push((resolver.get_tag(&component.ty)?, component));
+        }
+        tagged.sort_by_key(|(tag, _)| *tag);
+        tag = tagged[0].0;
+        root_components = tagged.into_iter().map(|(_, component)| component).collect();
+    }
+
     let additions = if choice.additions.is_some() {
         let mut components = vec![];
         for addition in choice.additions.as_ref().unwrap() {
@@ -91,6 +103,7 @@ fn resolve_choice_type(
             name: None,
             root_components,
             additions,
+            tag,
         },
     ))
 }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index f5b257b..5ccb3a1 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -166,7 +166,11 @@ fn resolve_reference_type(
                             ));
                         }
                         resolver.instantiations += 1;
+                        let automatic_tags = resolver.automatic_tags;
+                        resolver.automatic_tags =
+                            resolver.automatically_tagged_defs.contains(typeref);
                         let resolved = resolve_type(&params_resolved_type, resolver);
+                        resolver.automatic_tags = automatic_tags;
                         resolver.instantiations -= 1;
                         resolved
                     }
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 63ad1df..0087ff1 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -7,7 +7,9 @@ use crate::error::Error;
 use crate::parser::asn::structs::{defs::Asn1Definition, module::Asn1Module};
 
 use crate::resolver::asn::structs::{
-    defs::Asn1ResolvedDefinition, types::Asn1ResolvedType, values::Asn1ResolvedValue,
+    defs::Asn1ResolvedDefinition,
+    types::{constructed::ResolvedConstructedType, Asn1ResolvedType, Tag},
+    values::Asn1ResolvedValue,
 };
 
 use crate::resolver::asn::defs::resolve_definition;
@@ -23,6 +25,12 @@ pub(crate) struct Resolver {
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
     pub(crate) classes: HashMap<String, Asn1Definition>,
 
+    // Whether the type that is being resolved is from a module with `AUTOMATIC TAGS`.
+    pub(crate) automatic_tags: bool,
+
+    // Parameterized definitions from modules with `AUTOMATIC TAGS`.
+    pub(crate) automatically_tagged_defs: HashSet<String>,
+
     // Parameterized types being instantiated at the moment.
     pub(crate) instantiations: usize,
 
@@ -42,6 +50,8 @@ impl Resolver {
             resolved_defs: BTreeMap::new(),
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
+            automatic_tags: true,
+            automatically_tagged_defs: HashSet::new(),
             instantiations: 0,
             sources: HashMap::new(),
             names: HashSet::new(),
@@ -78,6 +88,8 @@ impl Resolver {
         self.check_references(module)?;
         self.names.extend(module.get_definitions().keys().cloned());
 
+        self.automatic_tags = module.has_automatic_tags();
+
         let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
@@ -91,7 +103,10 @@ impl Resolver {
             let parsed_def = parsed_def.unwrap();
             // All the modules share the name space of the generated code. The same definition may
             // be repeated in another module, a different one with the same name is an error.
-            let source = format!("{:?}", parsed_def.kind);
+            let mut source = format!("{:?}", parsed_def.kind);
+            if parsed_def.is_type_assignment() && !self.automatic_tags {
+                source.push_str(" without automatic tags");
+            }
             match self.sources.insert(k.to_string(), source.clone()) {
                 None => {}
                 Some(other)
@@ -107,6 +122,9 @@ impl Resolver {
                 }
             }
             if parsed_def.params.is_some() {
+                if self.automatic_tags {
+                    self.automatically_tagged_defs.insert(k.to_string());
+                }
                 self.parameterized_defs
                     .insert(k.to_string(), parsed_def.clone());
                 parsed_def.resolved = true;
@@ -123,6 +141,20 @@ impl Resolver {
         Ok(())
     }
 
+    // Tag of a type that has been resolved. That of an (untagged) `CHOICE` is its smallest one.
+    pub(crate) fn get_tag(&self, ty: &Asn1ResolvedType) -> Result<Tag, Error> {
+        match ty {
+            Asn1ResolvedType::Base(ref base) => base.get_tag(),
+            Asn1ResolvedType::Constructed(ResolvedConstructedType::Choice { tag, .. }) => Ok(*tag),
+            Asn1ResolvedType::Constructed(_) => Ok(Tag::Universal(16)),
+            Asn1ResolvedType::Reference(ref name) => match self.resolved_defs.get(name) {
+                Some(Asn1ResolvedDefinition::Type(ref ty)) => self.get_tag(ty),
+                _ => Err(resolve_error!("'{}' is not a type that has a tag!", name)),
+            },
+            Asn1ResolvedType::Set(_) => Err(resolve_error!("An open type does not have a tag!")),
+        }
+    }
+
     // Whether there is (or will be) a definition with this name.
     pub(crate) fn is_name_known(&self, name: &str) -> bool {
         self.names.contains(name)
-- 
2.43.0


From 56eafb172e430abd3aa4efac6c9e2fee24f4fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:45 +0000
Subject: [PATCH 89/96] fix: a comment ends at every kind of newline

---
 asn-compiler/src/tokenizer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index bc6beb5..28ae585 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -762,7 +762,7 @@ fn get_maybe_comment_token(
 
     // Search for Either '\n' or "--"
     for (idx, window) in chars[2..].windows(2).enumerate() {
-        if window[0] == '\n' {
+        if matches!(window[0], '\n' | '\r' | '\u{b}' | '\u{c}') {
             last_idx = Some(idx);
             consumed += idx;
             break;
-- 
2.43.0


From 1ea234e59d2c396500c6152ddade1478e98ba155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:46 +0000
Subject: [PATCH 90/96] fix: a value of an ENUMERATED type is one of its items

---
 asn-compiler/src/resolver/asn/values.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 0bb7acb..275a70c 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -7,8 +7,8 @@ use crate::resolver::{
         defs::Asn1ResolvedDefinition,
         types::{base::ResolvedBaseType, Asn1ResolvedType},
         values::{
-            Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue, Asn1ResolvedValue, BaseInteger,
-            ResolvedBaseValue,
+            Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue, Asn1ResolvedValue, BaseEnum,
+            BaseInteger, ResolvedBaseValue,
         },
     },
     Resolver,
@@ -49,10 +49,17 @@ pub(crate) fn resolve_value(
                             },
                         )))
                     }
-                    ResolvedBaseType::Enum(ref _e) => {
-                        // FIXME: When Enum is resolved we'd get it right
-                        // let value = value.parse::<BaseEnum>().unwrap();
-                        let value = 0;
+                    ResolvedBaseType::Enum(ref e) => {
+                        let mut items = e.named_root_values.iter().chain(&e.named_ext_values);
+                        let value = match items.find(|(name, _)| name == value) {
+                            Some((_, number)) => *number as BaseEnum,
+                            None => {
+                                return Err(resolve_error!(
+                                    "'{}' is not a value of the ENUMERATED Type!",
+                                    value
+                                ));
+                            }
+                        };
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Enum(
                             Asn1ResolvedEnumValue {
                                 typeref: typeref.clone(),
-- 
2.43.0


From 1733ea1b7298173a7a18b6672c6bc17c2d8017eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 91/96] fix: decoding beyond the end after a seek is an error

A seek beyond the end of the buffer made the next decode panic or wrap around
while computing how many bits are left.
---
 codecs/src/aper/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 24c4a4c..1839f06 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -89,7 +89,7 @@ impl AperCodecData {
     }
 
     fn decode_bool(&mut self) -> Result<bool, AperCodecError> {
-        if self.bits.len() == self.decode_offset {
+        if self.decode_offset >= self.bits.len() {
             return Err(AperCodecError::new(
                 "AperCodec:DecodeError:End of Bitstream reached while trying to decode bool.",
             ));
@@ -105,8 +105,8 @@ impl AperCodecData {
         bits: usize,
         signed: bool,
     ) -> Result<i128, AperCodecError> {
-        let remaining = self.bits.len() - self.decode_offset;
-        if remaining < bits {
+        let remaining = self.bits.len().saturating_sub(self.decode_offset);
+        if self.decode_offset + bits > self.bits.len() {
             Err(AperCodecError::new(
                 format!(
                     "AperCodec:DecodeError:Requested Bits to decode {}, Remaining bits {}",
@@ -237,7 +237,7 @@ impl AperCodecData {
             if ignore {
                 self.decode_offset = self.bits.len()
             } else {
-                let remaining = self.bits.len() - self.decode_offset;
+                let remaining = self.bits.len().saturating_sub(self.decode_offset);
                 return Err(AperCodecError::new(
                     format!(
                         "AperCodec:DecodeError:Requested Bits to advance {}, Remaining bits {}",
@@ -258,7 +258,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bit {}, Remaining bits {}",
                     self.decode_offset,
-                    self.bits.len() - self.decode_offset
+                    self.bits.len().saturating_sub(self.decode_offset)
                 )
                 .as_str(),
             ));
@@ -273,7 +273,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bit {}, Remaining bits {}",
                     length,
-                    self.bits.len() - self.decode_offset
+                    self.bits.len().saturating_sub(self.decode_offset)
                 )
                 .as_str(),
             ));
@@ -291,7 +291,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bits {}, Remaining bits {}",
                     length,
-                    self.bits.len() - self.decode_offset
+                    self.bits.len().saturating_sub(self.decode_offset)
                 )
                 .as_str(),
             ));
-- 
2.43.0


From d8a5eab1c831fca36c4c7b047ac1932e53e466de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 92/96] fix: modules can be resolved and code generated more
 than once

---
 asn-compiler/src/compiler.rs      | 2 ++
 asn-compiler/src/generator/int.rs | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 0ad5d0c..136c5b8 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -70,6 +70,8 @@ impl Asn1Compiler {
     /// definitions much easier.
     // FIXME: Support the case where module is imported by a name different from it's actual name.
     pub fn resolve_modules(&mut self) -> Result<(), Error> {
+        // Nothing is kept of what has been resolved before.
+        self.resolver = Resolver::new();
         self.resolve_imports()?;
         self.resolve_definitions()
     }
diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index 842e086..e6870ed 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -59,6 +59,12 @@ impl Generator {
     // Generates the code using the information from the `Resolver`. Returns a String
     // containing all the code (which is basically a `format!` of the `TokenStream`.
     pub(crate) fn generate(&mut self, resolver: &Resolver) -> Result<String, Error> {
+        // Nothing is kept of what has been generated before.
+        self.items.clear();
+        self.aux_items.clear();
+        self.type_names.clear();
+        self.counter = 1;
+
         // FIXME: Not sure how to make sure the crates defined here are a dependency.
         // May be can just do with documenting it.
         let use_tokens = self.generate_use_tokens();
-- 
2.43.0


From 26c3208fb5eb68b96f4a8a7ea0d808a239ebc093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 93/96] fix: a wrong number of an object identifier component
 was reported at its parenthesis

---
 asn-compiler/src/parser/asn/oid.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/oid.rs b/asn-compiler/src/parser/asn/oid.rs
index 465e358..1c0cfd6 100644
--- a/asn-compiler/src/parser/asn/oid.rs
+++ b/asn-compiler/src/parser/asn/oid.rs
@@ -114,8 +114,20 @@ pub(super) fn parse_object_identifier(
     let mut components = vec![];
     while !expect_token(&tokens[consumed..], Token::is_curly_end)? {
         let (component, component_consumed) = parse_oid_component(&tokens[consumed..])?;
-        components.push(component);
         consumed += component_consumed;
+
+        // A well known name does not need a number, but what follows a '(' can only be its number.
+        if tokens[consumed - 1].is_identifier()
+            && expect_token(&tokens[consumed..], Token::is_round_begin)?
+        {
+            if !expect_token(&tokens[consumed + 1..], Token::is_numeric)? {
+                return Err(unexpected_token!("'number'", tokens[consumed + 1]));
+            }
+            if !expect_token(&tokens[consumed + 2..], Token::is_round_end)? {
+                return Err(unexpected_token!("')'", tokens[consumed + 2]));
+            }
+        }
+        components.push(component);
     }
     consumed += 1;
 
-- 
2.43.0


From ff0a51f1f87a2130e96f226f4f42d62d31cde1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 94/96] fix: reading after a seek to the largest offsets
 overflowed

---
 codecs/src/aper/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 1839f06..140daea 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -351,6 +351,8 @@ impl AperCodecData {
     /// `seek` pointer to the offset in the internal buffer
     #[inline]
     pub fn seek(&mut self, offset: usize) {
+        // No buffer is longer than this, and adding to it does not overflow.
+        let offset = offset.min(usize::MAX >> 3);
         self.decode_offset = offset;
     }
 
-- 
2.43.0


From 337e4258e9a530e20156022054e6d4d81dc28f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:50 +0000
Subject: [PATCH 95/96] fix: objects of two sets that are named alike could
 have the same key

---
 asn-compiler/src/resolver/asn/structs/types/ioc.rs |  3 +++
 asn-compiler/src/resolver/asn/types/ioc.rs         | 14 +++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index e313fb5..df6648d 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -19,6 +19,9 @@ pub(crate) struct Asn1ResolvedObject {
     pub(crate) name: String,
     pub(crate) class: String,
     pub(crate) fields: HashMap<String, ResolvedFieldSpec>,
+
+    // The Object Set the object is written in, if it is not defined on its own.
+    pub(crate) set: Option<String>,
 }
 
 #[derive(Debug, Clone)]
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index df1276f..adf5de4 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -106,6 +106,7 @@ pub(crate) fn resolve_object_set(
                                             name: r.clone(),
                                             class: o.class.clone(),
                                             fields: o.fields.clone(),
+                                            set: None,
                                         });
                                     add_to_lookup_table(
                                         &element,
@@ -126,12 +127,10 @@ pub(crate) fn resolve_object_set(
                     }
                     ObjectSetElement::Object(ref v) => {
                         let object_name = format!("{}{}", name, i);
-                        let element = ResolvedObjectSetElement::Object(resolve_object(
-                            &object_name,
-                            &objectset.class,
-                            v,
-                            resolver,
-                        )?);
+                        let mut object =
+                            resolve_object(&object_name, &objectset.class, v, resolver)?;
+                        object.set = Some(name.to_string());
+                        let element = ResolvedObjectSetElement::Object(object);
                         add_to_lookup_table(
                             &element,
                             &unique_field,
@@ -223,7 +222,7 @@ fn add_to_lookup_table(
     };
     for (k, e) in lookup_table.iter() {
         if let ResolvedObjectSetElement::Object(ref o) = e {
-            if k.0 == key && o.name != object.name {
+            if k.0 == key && (&o.name, &o.set) != (&object.name, &object.set) {
                 return Err(resolve_error!(
                     "Objects '{}' and '{}' have the same value of the field '{}'",
                     o.name,
@@ -280,6 +279,7 @@ pub(crate) fn resolve_object(
             name: object_name.to_string(),
             class: class.to_string(),
             fields: resolved_fields,
+            set: None,
         })
     } else {
         Err(resolve_error!(
-- 
2.43.0


From 9d70e7ecbc7d5336006af8fa0a80e8a012a07d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:18 +0000
Subject: [PATCH 96/96] fix: constraints after the object set of a component
 were ignored

---
 asn-compiler/src/resolver/asn/types/constructed.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 7fff13a..928f690 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -293,6 +293,12 @@ fn resolve_class_field_component(
 ) -> Result<Option<ResolvedSeqComponent>, Error> {
     let id = &component.component.id;
     let constraint = match component.component.ty.constraints {
+        Some(ref constraints) if constraints.len() > 1 => {
+            return Err(resolve_error!(
+                "Component '{}' with constraints other than the Object Set is not supported!",
+                id
+            ));
+        }
         Some(ref constraints) if !constraints.is_empty() => &constraints[0],
         _ => {
             return Err(resolve_error!(
-- 
2.43.0


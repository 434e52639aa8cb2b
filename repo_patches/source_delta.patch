From e6e9fdabafc2ca3fd146970c39588aac7cda4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:34 +0000
Subject: [PATCH 01/23] fix: bounds-check long-form tags and lengths in the BER
 header parser

---
 src/ber/header.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ber/header.rs b/src/ber/header.rs
index e5af25f..2cae47a 100755
--- a/src/ber/header.rs
+++ b/src/ber/header.rs
@@ -69,9 +69,14 @@ impl BerHeader {
                 // > 30
                 let mut n = 0 as Tag;
                 loop {
-                    // @todo: check size
-                    let t = i[current];
+                    let t = *i
+                        .get(current)
+                        .ok_or_else(|| Err::Incomplete(Needed::new(1)))?;
                     current += 1;
+                    if n > Tag::MAX >> 7 {
+                        // Tag number does not fit
+                        return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                    }
                     n = (n << 7) | ((t & 0x7f) as Tag);
                     if t & 0x80 == 0 {
                         break;
@@ -84,16 +89,25 @@ impl BerHeader {
         // Parse length offset
         // X.690 8.3.1.4-8.3.1.5
         // @todo: Indefinite length
-        let n = i[current];
+        let n = *i
+            .get(current)
+            .ok_or_else(|| Err::Incomplete(Needed::new(1)))?;
         current += 1;
         let length = if n & 0x80 == 0 {
             // Short form, X.690 pp 8.3.1.4
             n as usize
         } else {
             // Long form, X.690 pp 8.1.3.5
-            let mut ln = 0;
+            let mut ln = 0usize;
             for _ in 0..n & 0x7f {
-                ln = (ln << 8) + (i[current] as usize);
+                let x = *i
+                    .get(current)
+                    .ok_or_else(|| Err::Incomplete(Needed::new(1)))?;
+                if ln > usize::MAX >> 8 {
+                    // Length does not fit
+                    return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                }
+                ln = (ln << 8) + (x as usize);
                 current += 1;
             }
             ln
-- 
2.43.0


From 26ad449c5beaf69ac0a8fdd4f617589c9524c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:34 +0000
Subject: [PATCH 02/23] fix: reject an empty varbind instead of indexing into
 it

---
 src/snmp/getresponse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 7459c2d..5556193 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -46,7 +46,7 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
             // Parse enclosing sequence
             let (rest, vs) = SnmpSequence::from_ber(v_tail)?;
             // Parse oid. May be either absolute or relative
-            let (tail, oid) = match vs.0[0] as Tag {
+            let (tail, oid) = match *vs.0.first().ok_or(SnmpError::Incomplete)? as Tag {
                 TAG_OBJECT_ID => SnmpOid::from_ber(vs.0)?,
                 TAG_RELATIVE_OID => {
                     if vars.is_empty() {
-- 
2.43.0


From 2c274f46ce3e8cd221a0ab8b1e0965a8ea3ad92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:34 +0000
Subject: [PATCH 03/23] fix: refuse relative oids which cannot be applied to
 the previous oid

---
 src/ber/relative_oid.rs | 19 ++++++++++++++++++-
 src/snmp/getresponse.rs |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index f6778dd..1841312 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -6,7 +6,7 @@
 // ------------------------------------------------------------------------
 
 use super::{BerDecoder, BerHeader, SnmpOid, TAG_RELATIVE_OID, Tag};
-use crate::error::SnmpResult;
+use crate::error::{SnmpError, SnmpResult};
 
 #[derive(Debug, PartialEq, Clone)]
 pub struct SnmpRelativeOid<'a>(&'a [u8]);
@@ -23,6 +23,23 @@ impl<'a> BerDecoder<'a> for SnmpRelativeOid<'a> {
 }
 
 impl SnmpRelativeOid<'_> {
+    /// Check relative oid can be applied to the absolute one and apply
+    pub fn try_normalize<'a>(&self, oid: &SnmpOid) -> SnmpResult<SnmpOid<'a>> {
+        // Both must contain at least one complete subelement
+        if oid.0.is_empty() || self.0.last().is_none_or(|c| c & 0x80 != 0) {
+            return Err(SnmpError::InvalidData);
+        }
+        // Full replace requires two leading subelements
+        // which can be collapsed into one octet.
+        let rel_si = SnmpRelativeOid::subelements(self.0);
+        let base_si = SnmpRelativeOid::subelements(&oid.0[1..]);
+        if rel_si >= base_si
+            && !matches!(self.0, [first, second, ..] if *first <= 2 && *second < 40)
+        {
+            return Err(SnmpError::InvalidData);
+        }
+        Ok(self.normalize(oid))
+    }
     /// Apply relative oid to absolute one
     /// and return normalized absolute oid
     pub fn normalize<'a>(&self, oid: &SnmpOid) -> SnmpOid<'a> {
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 5556193..02e7b7a 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -55,7 +55,7 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     }
                     // Parse relative oid
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
-                    let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
+                    let oid = r_oid.try_normalize(&vars[vars.len() - 1].oid)?;
                     // Apply relative oid
                     (t, oid)
                 }
-- 
2.43.0


From 864d4fcc9f8cd01d1d64ee8c2ab177473ac93b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:04 +0000
Subject: [PATCH 04/23] fix: refuse privacy parameters of the wrong size

---
 src/privacy/aes128.rs | 4 ++++
 src/privacy/des.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/privacy/aes128.rs b/src/privacy/aes128.rs
index 80d9fb4..e171e74 100644
--- a/src/privacy/aes128.rs
+++ b/src/privacy/aes128.rs
@@ -82,6 +82,10 @@ impl SnmpPriv for Aes128Key {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // Salt is always 64 bits, RFC 3826 pp 3.1.4.1
+        if usm.privacy_params.len() != KEY_LENGTH - 8 {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 16];
         iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index f9b7cf0..de3bc5b 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -90,6 +90,10 @@ impl SnmpPriv for DesKey {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // Salt is always 64 bits, RFC 3414 pp 8.1.1.1
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 8];
         for (idx, (x, y)) in usm
-- 
2.43.0


From 5ddd5f5db4e0d75af29c5a974229ee80f20e9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:04 +0000
Subject: [PATCH 05/23] fix: reset the DES buffer before encrypting the next
 message

---
 src/privacy/des.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index de3bc5b..1b179a7 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -65,6 +65,7 @@ impl SnmpPriv for DesKey {
             iv[idx] = x ^ y;
         }
         // Add padding
+        self.buf.reset();
         self.buf.push(&PADDING)?;
         // Serialize
         pdu.push_ber(&mut self.buf)?;
-- 
2.43.0


From 90a5145a20aaed8e5ba05934db8d0d48cd956ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:04 +0000
Subject: [PATCH 06/23] fix: stop a getnext walk on noSuchObject and
 noSuchInstance

---
 src/snmp/op/getnext.rs | 29 ++++++++++++++++-------------
 src/snmp/value.rs      |  9 +++++----
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/snmp/op/getnext.rs b/src/snmp/op/getnext.rs
index 992f55a..dd41d5f 100644
--- a/src/snmp/op/getnext.rs
+++ b/src/snmp/op/getnext.rs
@@ -41,21 +41,24 @@ impl<'a> PyOp<'a, SnmpOid<'a>> for OpGetNext {
                     1 => {
                         // Extract iterator
                         let var = &resp.vars[0];
-                        // Check if we can continue
-                        if !b_iter.set_next_oid(&var.oid) {
-                            return Err(PyStopAsyncIteration::new_err("stop"));
-                        }
-                        // v1 may return Null at end of mib
                         match &var.value {
-                            SnmpValue::EndOfMibView | SnmpValue::Null => {
-                                Err(PyStopAsyncIteration::new_err("stop"))
+                            // v1 may return Null at end of mib
+                            SnmpValue::EndOfMibView
+                            | SnmpValue::NoSuchObject
+                            | SnmpValue::NoSuchInstance
+                            | SnmpValue::Null => Err(PyStopAsyncIteration::new_err("stop")),
+                            value => {
+                                // Check if we can continue
+                                if !b_iter.set_next_oid(&var.oid) {
+                                    return Err(PyStopAsyncIteration::new_err("stop"));
+                                }
+                                Ok(PyTuple::new(
+                                    py,
+                                    vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
+                                )?
+                                .as_any()
+                                .to_owned())
                             }
-                            value => Ok(PyTuple::new(
-                                py,
-                                vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
-                            )?
-                            .as_any()
-                            .to_owned()),
                         }
                     }
                     // Multiple response, surely an error
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index f8c1df3..abd0d0d 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -15,7 +15,7 @@ use crate::ber::{
 };
 use crate::error::SnmpError;
 use nom::{Err, IResult};
-use pyo3::{Bound, IntoPyObject, PyAny, Python};
+use pyo3::{Bound, IntoPyObject, PyAny, Python, types::PyNone};
 
 pub enum SnmpValue<'a> {
     Bool(SnmpBool),
@@ -129,7 +129,7 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
         Ok(match self {
             SnmpValue::Bool(x) => x.into_pyobject(py)?,
             SnmpValue::Int(x) => x.into_pyobject(py)?,
-            SnmpValue::Null => todo!("None"),
+            SnmpValue::Null => PyNone::get(py).as_any().to_owned(),
             SnmpValue::OctetString(x) => x.into_pyobject(py)?,
             SnmpValue::Oid(x) => x.into_pyobject(py)?,
             SnmpValue::ObjectDescriptor(x) => x.into_pyobject(py)?,
@@ -141,8 +141,9 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
             SnmpValue::Opaque(x) => x.into_pyobject(py)?,
             SnmpValue::Counter64(x) => x.into_pyobject(py)?,
             SnmpValue::UInteger32(x) => x.into_pyobject(py)?,
-            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance => todo!("never should be passed"),
-            SnmpValue::EndOfMibView => todo!("never should be passed"),
+            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView => {
+                return Err(SnmpError::NoSuchInstance);
+            }
         })
     }
 }
-- 
2.43.0


From 45351defbfada75af9d5c22b44d01c85c2b6eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:04 +0000
Subject: [PATCH 07/23] fix: decode 8-octet negative INTEGERs exactly

---
 src/ber/int.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa0c4ab..ea20474 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -23,19 +23,17 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
-        let v = i
-            .iter()
-            .take(h.length)
-            .map(|x| *x as i64)
-            .reduce(|acc, x| (acc << 8) | x)
-            .unwrap_or(0);
-        Ok(SnmpInt(if i[0] & 0x80 == 0 {
-            v
-        } else {
-            // Negative number
-            let m = 1 << (8 * h.length);
-            v - m
-        }))
+        if h.length > 8 {
+            // Does not fit
+            return Err(SnmpError::InvalidData);
+        }
+        // Two's complement, start from the sign extension
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
+        Ok(SnmpInt(
+            i.iter()
+                .take(h.length)
+                .fold(sign, |acc: i64, x| (acc << 8) | (*x as i64)),
+        ))
     }
 }
 
-- 
2.43.0


From db755d4fd5329dde36ee109566239dc24afe7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:04 +0000
Subject: [PATCH 08/23] fix: encode negative INTEGERs in the minimal two's
 complement form

---
 src/ber/int.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index ea20474..3dab474 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -64,32 +64,15 @@ impl BerEncoder for SnmpInt {
             }
             Ordering::Less => {
                 let start = buf.len();
-                let mut left = -self.0;
-                // Calculate used octets
-                let mut ln = 0;
-                while left > 0 {
-                    ln += 1;
+                // Write two's complement octets
+                let mut left = self.0;
+                loop {
+                    let octet = left as u8;
+                    buf.push_u8(octet)?;
                     left >>= 8;
-                }
-                // Calculate complement
-                let d = 1 << (ln * 8 - 1);
-                left = -self.0;
-                let comp = if d < left { d << 8 } else { d };
-                // Write octets
-                if comp == left {
-                    for _ in 0..ln - 1 {
-                        buf.push_u8(0)?;
-                    }
-                    buf.push_u8(0x80)?;
-                } else {
-                    left = comp - left;
-                    loop {
-                        if left < 0xff {
-                            buf.push_u8(0x80 | (left as u8))?;
-                            break;
-                        }
-                        buf.push_u8((left & 0xff) as u8)?;
-                        left >>= 8;
+                    if left == -1 && octet & 0x80 != 0 {
+                        // The rest is the sign extension
+                        break;
                     }
                 }
                 // Write tag and length
-- 
2.43.0


From 535fb20d7945128e9c86553f08b2514663f3ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:04 +0000
Subject: [PATCH 09/23] fix: decode REAL from its own contents octets and by
 X.690 8.5

---
 src/ber/real.rs   | 103 ++++++++++++++++++++++++++++++++--------------
 src/snmp/value.rs |   2 +-
 2 files changed, 72 insertions(+), 33 deletions(-)

diff --git a/src/ber/real.rs b/src/ber/real.rs
index c81fb5b..91a60e5 100755
--- a/src/ber/real.rs
+++ b/src/ber/real.rs
@@ -25,6 +25,8 @@ impl<'a> BerDecoder<'a> for SnmpReal {
         if h.is_empty() {
             return Ok(SnmpReal(0.0));
         }
+        // Do not look beyond the declared contents
+        let i = &i[..h.length];
         // 8.5.6: Check encoding
         Ok(SnmpReal(match i[0] {
             f if f & 0x80 == 0x80 => {
@@ -41,18 +43,21 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 
                 // 8.5.7.4 Bits 2 to 1 of the first contents octet
                 // shall encode the format of the exponent as follows:
-                let ln = (f & 0x03) as usize + 2;
-                let e = SnmpReal::parse_u32(&i[1..ln]) as i32;
-                let mut v: f64 = SnmpReal::parse_u32(&i[ln..]).into();
+                // 00, 01, 10: exponent takes 1, 2, 3 octets
+                // 11: second octet holds the number of the exponent's octets
+                let (start, ln) = match f & 0x03 {
+                    3 => (2, *i.get(1).ok_or(SnmpError::Incomplete)? as usize),
+                    n => (1, n as usize + 1),
+                };
+                let exponent = i.get(start..start + ln).ok_or(SnmpError::Incomplete)?;
+                let e = SnmpReal::parse_exponent(exponent)?;
+                // 8.5.7.5: The remaining contents octets encode
+                // the value of the integer N as an unsigned binary number.
+                let (n, shift) = SnmpReal::parse_mantissa(&i[start + ln..])?;
                 // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
                 // encode the value of the binary scaling factor F
                 // as an unsigned binary integer.
-                match (f & 0x0c) >> 2 {
-                    1 => v *= 2.0,
-                    2 => v *= 4.0,
-                    3 => v *= 8.0,
-                    _ => return Err(SnmpError::InvalidData),
-                }
+                let scale = ((f & 0x0c) >> 2) as i64;
                 // 8.5.7.2: Bits 6 to 5 of the first contents octets
                 // shall encode the value of the base B' as follows:
                 // Bits6to5 => Base
@@ -60,13 +65,14 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // 01 => base 8
                 // 10 => base 16
                 // 11 => Reserved for further editions of this Recommendation | International Standard.
-                let base: f64 = match f & 0x30 {
-                    0 => 2.0,
-                    0x10 => 8.0,
-                    0x20 => 16.0,
+                let base_bits = match f & 0x30 {
+                    0 => 1,
+                    0x10 => 3,
+                    0x20 => 4,
                     _ => return Err(SnmpError::InvalidData),
                 };
-                v *= base.powi(e);
+                let e2 = e.saturating_mul(base_bits).saturating_add(scale + shift);
+                let mut v = SnmpReal::scale(n, e2);
                 // 8.5.7.1: Bit 7 of the first contents octets
                 // shall be 1 if S is –1 and 0 otherwise.
                 if f & 0x40 == 0x40 {
@@ -84,21 +90,11 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // by bits 6 to 1 of the first contents octet as follows:
                 match f & 0x3f {
                     // ISO 6093 NR1: i.e. 456
-                    1 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        let v = s.parse::<i32>().map_err(|_| SnmpError::InvalidData)?;
-                        v.into()
-                    }
+                    1 => SnmpReal::parse_decimal(&i[1..], b"")?,
                     // ISO 6093 NR2: i.e. 456.7
-                    2 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    2 => SnmpReal::parse_decimal(&i[1..], b".,")?,
                     // ISO 6093 NR3: i.e. 4567e-1
-                    3 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    3 => SnmpReal::parse_decimal(&i[1..], b".,eE")?,
                     _ => return Err(SnmpError::InvalidData),
                 }
             }
@@ -112,12 +108,55 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 }
 
 impl SnmpReal {
-    fn parse_u32(i: &[u8]) -> u32 {
-        let mut v = 0u32;
-        for &n in i.iter() {
-            v = (v << 8) | (n as u32);
+    // 8.5.7.4: Exponent is a two's complement binary number
+    fn parse_exponent(i: &[u8]) -> SnmpResult<i64> {
+        let first = *i.first().ok_or(SnmpError::InvalidData)?;
+        if i.len() > 8 {
+            return Err(SnmpError::InvalidData);
+        }
+        let sign = if first & 0x80 == 0 { 0 } else { -1 };
+        Ok(i.iter().fold(sign, |acc: i64, x| (acc << 8) | (*x as i64)))
+    }
+    // Returns the 16 most significant octets and the amount of bits
+    // in the rest, which are too far beyond the f64's precision.
+    fn parse_mantissa(i: &[u8]) -> SnmpResult<(u128, i64)> {
+        if i.is_empty() {
+            return Err(SnmpError::Incomplete);
+        }
+        let zeroes = i.iter().take_while(|x| **x == 0).count();
+        let i = &i[zeroes..];
+        let n = i
+            .iter()
+            .take(16)
+            .fold(0, |acc: u128, x| (acc << 8) | (*x as u128));
+        Ok((n, 8 * i.len().saturating_sub(16) as i64))
+    }
+    // Calculate n * 2^e without the premature under- and overflows
+    fn scale(n: u128, e: i64) -> f64 {
+        const STEP: i64 = 960;
+        let mut v = n as f64;
+        let mut left = e.clamp(-4 * STEP, 4 * STEP);
+        while left.abs() > STEP {
+            let step = left.signum() * STEP;
+            v *= 2f64.powi(step as i32);
+            left -= step;
+        }
+        v * 2f64.powi(left as i32)
+    }
+    // ISO 6093 number. `extra` denotes characters allowed along the digits and signs
+    fn parse_decimal(i: &[u8], extra: &[u8]) -> SnmpResult<f64> {
+        let s = from_utf8(i).map_err(|_| SnmpError::InvalidData)?;
+        // Leading spaces are part of the field
+        let s = s.trim_start_matches(' ');
+        if s.bytes()
+            .any(|c| !(c.is_ascii_digit() || c == b'+' || c == b'-' || extra.contains(&c)))
+        {
+            return Err(SnmpError::InvalidData);
         }
-        v
+        // Decimal mark is either full stop or comma
+        s.replace(',', ".")
+            .parse()
+            .map_err(|_| SnmpError::InvalidData)
     }
 }
 
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index abd0d0d..873031c 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -59,7 +59,7 @@ impl SnmpValue<'_> {
                     TAG_OBJECT_DESCRIPTOR => {
                         SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(tail, &hdr)?)
                     }
-                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(i, &hdr)?),
+                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(tail, &hdr)?),
                     //
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
-- 
2.43.0


From f83b309b7d39bcd9f1e0dcc17a15f180bb393bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:04 +0000
Subject: [PATCH 10/23] fix: refuse oids with invalid leading arcs or signs
 instead of sending another oid

---
 src/ber/objectid.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index b8c543b..f7cc16e 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -104,9 +104,13 @@ impl Iterator for OidSubelementIterator<'_> {
     type Item = Result<u32, SnmpError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.0
-            .next()
-            .map(|part| part.parse::<u32>().map_err(|_| SnmpError::InvalidData))
+        self.0.next().map(|part| {
+            // str::parse allows leading sign
+            if part.starts_with('+') {
+                return Err(SnmpError::InvalidData);
+            }
+            part.parse::<u32>().map_err(|_| SnmpError::InvalidData)
+        })
     }
 }
 
@@ -123,9 +127,12 @@ impl TryFrom<&str> for SnmpOid<'_> {
         // Subelements iterator
         let mut iter = OidSubelementIterator::new(value);
         // Get first two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)??.min(6) as u8;
-        let second = iter.next().ok_or(SnmpError::InvalidData)??.min(39) as u8;
-        vec.push(40 * first + second);
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let second = iter.next().ok_or(SnmpError::InvalidData)??;
+        if first > 2 || second > 39 {
+            return Err(SnmpError::InvalidData);
+        }
+        vec.push((40 * first + second) as u8);
         // Push other elements
         for sr in iter {
             let sub_id = sr?;
-- 
2.43.0


From bca92dc907704c1856369ba55211b28a9609f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:04 +0000
Subject: [PATCH 11/23] fix: refuse received oids with truncated or oversized
 subelements

---
 src/ber/objectid.rs     | 22 +++++++++++++++++++++-
 src/ber/relative_oid.rs |  4 +++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index f7cc16e..d425b8a 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -41,7 +41,9 @@ impl<'a> BerDecoder<'a> for SnmpOid<'a> {
 
     // Implement X.690 pp 8.19: Encoding of an object identifier value
     fn decode(i: &'a [u8], h: &BerHeader) -> SnmpResult<Self> {
-        Ok(SnmpOid(Cow::Borrowed(&i[..h.length])))
+        let oid = &i[..h.length];
+        SnmpOid::check_subelements(oid)?;
+        Ok(SnmpOid(Cow::Borrowed(oid)))
     }
 }
 
@@ -90,6 +92,24 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check contents octets hold complete subelements
+    // and every subelement fits 2^32-1
+    pub(crate) fn check_subelements(oid: &[u8]) -> SnmpResult<()> {
+        if oid.last().is_none_or(|c| c & 0x80 != 0) {
+            return Err(SnmpError::InvalidData);
+        }
+        let mut b = 0u32;
+        for c in oid {
+            if b > u32::MAX >> 7 {
+                return Err(SnmpError::InvalidData);
+            }
+            b = (b << 7) | ((*c as u32) & 0x7f);
+            if c & 0x80 == 0 {
+                b = 0;
+            }
+        }
+        Ok(())
+    }
 }
 
 struct OidSubelementIterator<'a>(core::str::Split<'a, &'a str>);
diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index 1841312..0ddcaac 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -38,7 +38,9 @@ impl SnmpRelativeOid<'_> {
         {
             return Err(SnmpError::InvalidData);
         }
-        Ok(self.normalize(oid))
+        let r = self.normalize(oid);
+        SnmpOid::check_subelements(&r.0)?;
+        Ok(r)
     }
     /// Apply relative oid to absolute one
     /// and return normalized absolute oid
-- 
2.43.0


From f432a7ebd7f91e742632123283aa9fc7ca24ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:15 +0000
Subject: [PATCH 12/23] fix: stop a walk when the agent does not return
 increasing oids

---
 src/ber/objectid.rs    | 11 +++++++++++
 src/snmp/op/getiter.rs |  5 ++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index d425b8a..d936384 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -92,6 +92,17 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check oid lexicographically follows the given one
+    pub fn is_after(&self, oid: &SnmpOid) -> bool {
+        SnmpOid::subelements(&self.0).gt(SnmpOid::subelements(&oid.0))
+    }
+    // Iterate over subelements
+    fn subelements(oid: &[u8]) -> impl Iterator<Item = u64> + '_ {
+        oid.split_inclusive(|c| c & 0x80 == 0).map(|x| {
+            x.iter()
+                .fold(0, |acc: u64, c| (acc << 7) | ((*c as u64) & 0x7f))
+        })
+    }
     // Check contents octets hold complete subelements
     // and every subelement fits 2^32-1
     pub(crate) fn check_subelements(oid: &[u8]) -> SnmpResult<()> {
diff --git a/src/snmp/op/getiter.rs b/src/snmp/op/getiter.rs
index 55e1be7..c159b31 100644
--- a/src/snmp/op/getiter.rs
+++ b/src/snmp/op/getiter.rs
@@ -37,7 +37,10 @@ impl GetIter {
     // Save oid for next request.
     // Return true if next request may be send or return false otherwise
     pub fn set_next_oid(&mut self, oid: &SnmpOid) -> bool {
-        if self.start_oid.as_borrowed().starts_with(oid) {
+        // Walk must stay within the subtree and must always go forward
+        if self.start_oid.as_borrowed().starts_with(oid)
+            && oid.is_after(&self.next_oid.as_borrowed())
+        {
             self.next_oid.store(oid);
             true
         } else {
-- 
2.43.0


From d0f9e82b6d53d9da65f5a2caaa2419089ffeebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:59 +0000
Subject: [PATCH 13/23] fix: verify MAC and security level of the incoming v3
 messages

---
 src/auth/mod.rs          | 21 +++++++++++++++++++++
 src/socket/snmpsocket.rs |  9 +++++----
 src/socket/v1.rs         |  2 +-
 src/socket/v2c.rs        |  2 +-
 src/socket/v3.rs         | 12 +++++++++++-
 5 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 19de9bd..7ffe315 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -84,6 +84,27 @@ impl AuthKey {
         }
         Ok(())
     }
+    // Verify signature of the received message.
+    // `auth_params` must be a subslice of `data`
+    pub fn verify(&self, data: &[u8], auth_params: &[u8]) -> bool {
+        let placeholder = self.placeholder();
+        if auth_params.len() != placeholder.len() {
+            return false;
+        }
+        let start = auth_params.as_ptr() as usize - data.as_ptr() as usize;
+        let end = start + auth_params.len();
+        let mut signed = data.to_vec();
+        signed[start..end].copy_from_slice(placeholder);
+        if self.sign(&mut signed, start).is_err() {
+            return false;
+        }
+        // Compare in constant time
+        signed[start..end]
+            .iter()
+            .zip(auth_params)
+            .fold(0, |acc, (x, y)| acc | (x ^ y))
+            == 0
+    }
 }
 
 #[cfg(test)]
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f552081..c927d69 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -97,7 +97,8 @@ where
     }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
+    // `raw` is a whole datagram the message is decoded from
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, raw: &[u8]) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
         match io.recv(buf.as_mut()) {
@@ -133,13 +134,13 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let msg = {
+            let (msg, data) = {
                 let io = self.get_io();
                 let data = Self::recv_socket(io, buf)?;
                 // Decode message
-                Self::Message::try_from(data)?
+                (Self::Message::try_from(data)?, data)
             };
-            match self.unwrap_pdu(msg) {
+            match self.unwrap_pdu(msg, data) {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 10b11ad..dc5548e 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -130,7 +130,7 @@ impl SnmpSocket for SnmpV1ClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _raw: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 45426ca..15cec73 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -129,7 +129,7 @@ impl SnmpSocket for SnmpV2cClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _raw: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 4d8519c..a15e9bf 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -244,7 +244,13 @@ impl SnmpSocket for SnmpV3ClientSocket {
         self.auth_key.sign(buf.data_mut(), offset)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, raw: &[u8]) -> Option<SnmpPdu<'a>> {
+        // Check message satisfies security level
+        // RFC-3414, pp. 3.2. Processing an incoming message
+        let is_secure = !self.auth_key.has_auth()
+            || (msg.flag_auth
+                && self.auth_key.verify(raw, msg.usm.auth_params)
+                && (!self.priv_key.has_priv() || matches!(msg.data, MsgData::Encrypted(_))));
         // Get and decode scoped pdu
         let data = match msg.data {
             MsgData::Plaintext(x) => x,
@@ -261,6 +267,10 @@ impl SnmpSocket for SnmpV3ClientSocket {
         {
             return None;
         }
+        // Only reports may be accepted without authentication
+        if !is_secure && !matches!(data.pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         // Update engine parameters
         self.engine_boots = msg.usm.engine_boots;
         self.engine_time = msg.usm.engine_time;
-- 
2.43.0


From 53a3ebc73360224d6366a604d6d7fa6c463dee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:51 +0000
Subject: [PATCH 14/23] fix: stray datagrams must not prolong the wait for a
 reply

---
 src/socket/snmpsocket.rs | 56 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index c927d69..29de900 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -16,7 +16,13 @@ use crate::{
 use pyo3::prelude::*;
 use socket2::{Domain, Protocol, Socket, Type};
 use std::net::SocketAddr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
+
+// Socket timeouts have microsecond resolution, zero means `wait forever`
+const MIN_TIMEOUT: Duration = Duration::from_micros(1);
+// Max amount of stray datagrams to skip at once in non-blocking mode,
+// so the flood of them cannot hold the event loop.
+const MAX_SKIP: usize = 1024;
 
 pub(crate) trait SnmpSocket
 where
@@ -48,8 +54,7 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         if timeout_ns > 0 {
             // Blocking mode
-            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns)))
-                .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+            Self::set_timeout(&io, Duration::from_nanos(timeout_ns))?;
         } else {
             // Mark socket as non-blocking
             io.set_nonblocking(true)
@@ -72,6 +77,11 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         Ok(io)
     }
+    /// Set internal socket's read timeout
+    fn set_timeout(io: &Socket, timeout: Duration) -> SnmpResult<()> {
+        io.set_read_timeout(Some(timeout.max(MIN_TIMEOUT)))
+            .map_err(|e| SnmpError::SocketError(e.to_string()))
+    }
     /// Set internal socket's send buffer size
     fn set_send_buffer_size(io: &Socket, size: usize) -> SnmpResult<()> {
         // @todo: get wmem_max limit on Linux
@@ -128,6 +138,29 @@ where
         T: PyOp<'a, V>,
         V: 'a,
     {
+        // None for non-blocking mode
+        let timeout = self
+            .get_io()
+            .read_timeout()
+            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        let r = self._recv_until::<T, V>(iter, timeout.and_then(|t| Instant::now().checked_add(t)));
+        if let Some(t) = timeout {
+            // May be shortened while skipping
+            Self::set_timeout(self.get_io(), t)?;
+        }
+        r
+    }
+
+    fn _recv_until<'a, T, V>(
+        &mut self,
+        iter: Option<&mut GetIter>,
+        deadline: Option<Instant>,
+    ) -> PyResult<PyObject>
+    where
+        T: PyOp<'a, V>,
+        V: 'a,
+    {
+        let mut skipped = 0;
         // Get buffer from pool
         let mut h = get_buffer_pool().acquire();
         let buf = h.as_mut();
@@ -146,7 +179,22 @@ where
                 }
                 None => {
                     buf.reset();
-                    continue;
+                    match deadline {
+                        // Wait for the rest of timeout
+                        Some(d) => {
+                            let left = d.saturating_duration_since(Instant::now());
+                            if left.is_zero() {
+                                return Err(SnmpError::WouldBlock.into());
+                            }
+                            Self::set_timeout(self.get_io(), left)?;
+                        }
+                        None => {
+                            skipped += 1;
+                            if skipped >= MAX_SKIP {
+                                return Err(SnmpError::WouldBlock.into());
+                            }
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 37bf67abd5b676623c1eca1d371262a057c664da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:51 +0000
Subject: [PATCH 15/23] fix: raise TimeoutError when sync refresh is timed out

---
 src/gufo/snmp/sync_client/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index e67dd4a..2087ada 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -311,7 +311,7 @@ class SnmpSession(object):
 
         if self._deferred_user:
             # First check runs engine id discovery
-            self._sock.refresh()
+            self._refresh()
             # Set and localize actual keys
             self._sock.set_keys(
                 self._deferred_user.name,
@@ -326,7 +326,16 @@ class SnmpSession(object):
             self._deferred_user = None
 
         # Refresh engine boots and time
-        self._sock.refresh()
+        self._refresh()
+
+    def _refresh(self: "SnmpSession") -> None:
+        """Send single refresh request and await for response."""
+        if not isinstance(self._sock, SnmpV3ClientSocket):
+            return
+        try:
+            self._sock.refresh()
+        except BlockingIOError as e:
+            raise TimeoutError from e
 
     def get_engine_id(self: "SnmpSession") -> bytes:
         """
-- 
2.43.0


From e72053564a06d7e6c0dbc86aa59317a75a1674c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:51 +0000
Subject: [PATCH 16/23] fix: apply the rate limit to sync refresh

---
 src/gufo/snmp/sync_client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index 2087ada..9d4e29c 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -332,6 +332,8 @@ class SnmpSession(object):
         """Send single refresh request and await for response."""
         if not isinstance(self._sock, SnmpV3ClientSocket):
             return
+        if self._policer:
+            self._policer.wait_sync()
         try:
             self._sock.refresh()
         except BlockingIOError as e:
-- 
2.43.0


From 36472061a61a5ab64c5942f6025bb6672b515f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:51 +0000
Subject: [PATCH 17/23] fix: never round the policer's interval down

---
 src/gufo/snmp/policer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/policer.py b/src/gufo/snmp/policer.py
index ddf1bc2..6f3aeb5 100644
--- a/src/gufo/snmp/policer.py
+++ b/src/gufo/snmp/policer.py
@@ -10,6 +10,7 @@
 # Python modules
 import asyncio
 from abc import ABC, abstractmethod
+from math import ceil
 from time import perf_counter_ns, sleep
 from typing import Optional
 
@@ -92,10 +93,11 @@ class RPSPolicer(BasePolicer):
             msg = "Invalid RPS"
             raise ValueError(msg)
         self._prev: Optional[int] = None
-        self._delta: int = int(NS / rps)
-        if not self._delta:
+        if rps > NS:
             msg = "RPS is too high"
             raise ValueError(msg)
+        # Round up, shorter interval means higher rate
+        self._delta: int = ceil(NS / rps)
 
     def get_timeout(self: "RPSPolicer", ts: int) -> Optional[int]:
         """
-- 
2.43.0


From ddc261f8882e7effefb95fb1265ae817e119e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:25 +0000
Subject: [PATCH 18/23] fix: do not expose unwritten bytes of the buffer on
 skip

---
 src/buf/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index 8897c01..dc45229 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -84,11 +84,14 @@ impl Buffer {
     }
     #[inline]
     pub fn skip(&mut self, size: usize) {
+        let end = self.pos;
         if self.pos < size {
             self.pos = 0
         } else {
             self.pos -= size
         }
+        // Never expose the bytes which were not written
+        self.data[self.pos..end].fill(MaybeUninit::new(0));
     }
     #[inline]
     fn push_u8_unchecked(&mut self, v: u8) {
-- 
2.43.0


From e993e3dfee96bb5fb4399dd335542141b4ba8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:26 +0000
Subject: [PATCH 19/23] fix: compare whole version and security model, not the
 lowest octet

---
 src/snmp/msg/v1.rs     |  6 +++---
 src/snmp/msg/v2c.rs    |  6 +++---
 src/snmp/msg/v3/msg.rs | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/snmp/msg/v1.rs b/src/snmp/msg/v1.rs
index a27b04a..d7bc2f9 100755
--- a/src/snmp/msg/v1.rs
+++ b/src/snmp/msg/v1.rs
@@ -30,9 +30,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV1Message<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V1 {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V1 as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         // Parse community
         let (tail, community) = SnmpOctetString::from_ber(tail)?;
diff --git a/src/snmp/msg/v2c.rs b/src/snmp/msg/v2c.rs
index b296c41..1bff891 100644
--- a/src/snmp/msg/v2c.rs
+++ b/src/snmp/msg/v2c.rs
@@ -30,9 +30,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV2cMessage<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V2C {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V2C as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         // Parse community
         let (tail, community) = SnmpOctetString::from_ber(tail)?;
diff --git a/src/snmp/msg/v3/msg.rs b/src/snmp/msg/v3/msg.rs
index 6c1bfca..21abdf0 100644
--- a/src/snmp/msg/v3/msg.rs
+++ b/src/snmp/msg/v3/msg.rs
@@ -44,9 +44,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV3Message<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V3 {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V3 as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         //
         // Parse global header
@@ -64,8 +64,8 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV3Message<'a> {
         let flags = flags_data.0[0];
         // security model
         let (_, security_model) = SnmpInt::from_ber(tail)?;
-        let sm: u8 = security_model.into();
-        if sm != USM {
+        let sm: i64 = security_model.into();
+        if sm != USM as i64 {
             return Err(SnmpError::UnknownSecurityModel);
         }
         //
-- 
2.43.0


From 782aa53d59aa21fbfe079819193456b771221e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 20/23] fix: refuse empty passwords and keys of the wrong size

---
 src/auth/mod.rs  | 7 ++++---
 src/socket/v3.rs | 4 ++--
 src/util.rs      | 3 +++
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 7ffe315..03eb96b 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -75,10 +75,11 @@ impl AuthKey {
     }
     pub fn as_key_type(&mut self, alg: u8, key: &[u8], engine_id: &[u8]) -> SnmpResult<()> {
         if self.has_auth() {
+            let is_sized = key.len() == self.get_key_size();
             match alg & KT_TYPE_MASK {
-                KT_PASSWORD => self.as_password(key, engine_id),
-                KT_MASTER => self.as_master(key, engine_id),
-                KT_LOCALIZED => self.as_localized(key),
+                KT_PASSWORD if !key.is_empty() => self.as_password(key, engine_id),
+                KT_MASTER if is_sized => self.as_master(key, engine_id),
+                KT_LOCALIZED if is_sized => self.as_localized(key),
                 _ => return Err(SnmpError::InvalidKey),
             }
         }
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index a15e9bf..d19d268 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -91,8 +91,6 @@ impl SnmpV3ClientSocket {
         priv_alg: u8,
         priv_key: &[u8],
     ) -> PyResult<()> {
-        // Replace user
-        self.user_name = user_name;
         // Auth key
         let mut auth = AuthKey::new(auth_alg)?;
         auth.as_key_type(auth_alg, auth_key, &self.engine_id)?;
@@ -104,6 +102,8 @@ impl SnmpV3ClientSocket {
             pk_auth.as_key_type(priv_alg, priv_key, &self.engine_id)?;
             pk.as_localized(pk_auth.get_key())?;
         }
+        // Replace user
+        self.user_name = user_name;
         self.auth_key = auth;
         self.priv_key = pk;
         Ok(())
diff --git a/src/util.rs b/src/util.rs
index c02d500..819f788 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,9 @@ use pyo3::types::PyBytes;
 #[pyfunction]
 pub fn get_master_key(py: Python, alg: u8, passwd: &[u8]) -> PyResult<PyObject> {
     let auth = AuthKey::new(alg)?;
+    if passwd.is_empty() {
+        return Err(PyValueError::new_err("empty password"));
+    }
     let mut out = vec![0u8; auth.get_key_size()];
     auth.password_to_master(passwd, &mut out);
     Ok(PyBytes::new(py, &out).into())
-- 
2.43.0


From 2b47fbe10366a8d09710bb14b8e441fde661afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:28 +0000
Subject: [PATCH 21/23] fix: a refused request must not replace the id of the
 outstanding one

---
 src/reqid.rs             |  2 +-
 src/socket/snmpsocket.rs | 22 +++++++++++++---------
 src/socket/v3.rs         |  4 +++-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/reqid.rs b/src/reqid.rs
index 8552267..845806d 100644
--- a/src/reqid.rs
+++ b/src/reqid.rs
@@ -9,7 +9,7 @@ use rand::Rng;
 
 const MAX_REQUEST_ID: i64 = 0x7fffffff;
 
-#[derive(Default)]
+#[derive(Default, Clone, Copy)]
 pub struct RequestId(i64);
 
 impl RequestId {
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index 29de900..a9c677d 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -205,11 +205,19 @@ where
         T: PyOp<'a, V>,
         V: 'a,
     {
+        // Last sent request
+        let last_id = *self.get_request_id();
         // Parse python arguments, unnder GIL
         let request_id = self.get_request_id().get_next();
-        let pdu = T::from_python(req, request_id)?;
-        // Release GIL
-        py.allow_threads(|| self._send_inner(pdu))
+        let r = T::from_python(req, request_id).and_then(|pdu| {
+            // Release GIL
+            py.allow_threads(|| self._send_inner(pdu))
+        });
+        if r.is_err() {
+            // Not sent, still waiting for the previous one
+            *self.get_request_id() = last_id;
+        }
+        r
     }
 
     fn recv_reply<'a, T, V>(&mut self, iter: Option<&mut GetIter>, py: Python) -> PyResult<PyObject>
@@ -230,11 +238,7 @@ where
         T: PyOp<'a, V>,
         V: 'a,
     {
-        let request_id = self.get_request_id().get_next();
-        let pdu = T::from_python(req, request_id)?;
-        py.allow_threads(|| {
-            self._send_inner(pdu)?;
-            self._recv_inner::<T, V>(iter)
-        })
+        self.send_request::<T, V>(req, py)?;
+        self.recv_reply::<T, V>(iter, py)
     }
 }
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index d19d268..2d4b599 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -222,8 +222,9 @@ impl SnmpSocket for SnmpV3ClientSocket {
             (EMPTY.as_ref(), MsgData::Plaintext(scoped_pdu))
         };
         // Prepare message
+        let mut msg_id = self.msg_id;
         let msg = SnmpV3Message {
-            msg_id: self.msg_id.get_next(),
+            msg_id: msg_id.get_next(),
             flag_auth: self.auth_key.has_auth(),
             flag_priv,
             flag_report,
@@ -239,6 +240,7 @@ impl SnmpSocket for SnmpV3ClientSocket {
         };
         // Serialize BER to buffer
         msg.push_ber(buf)?;
+        self.msg_id = msg_id;
         // Apply auth
         let offset = buf.get_bookmark();
         self.auth_key.sign(buf.data_mut(), offset)
-- 
2.43.0


From 3a3b00674ef193cd1697ede21044018b8885e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 22/23] fix: render OIDs with a multi-octet first subelement
 (2.48 and up)

---
 src/ber/objectid.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index d936384..60f6218 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -70,17 +70,14 @@ impl TryFrom<&SnmpOid<'_>> for String {
 
     fn try_from(value: &SnmpOid) -> Result<Self, Self::Error> {
         let mut r = String::with_capacity(value.0.len() * 5);
-        let mut iter = value.0.iter();
-        // First two subelements
+        let mut iter = SnmpOid::subelements(&value.0);
+        // First two arcs are packed into the first subelement, which may be
+        // longer than one octet (X.690 pp 8.19.4)
         let first = iter.next().ok_or(SnmpError::InvalidData)?;
-        write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
-        let mut b = 0u32;
-        for c in iter {
-            b = (b << 7) + ((*c as u32) & 0x7f);
-            if c & 0x80 == 0 {
-                write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
-                b = 0;
-            }
+        let root = (first / 40).min(2);
+        write!(r, "{}.{}", root, first - root * 40).map_err(|_| SnmpError::InvalidData)?;
+        for b in iter {
+            write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
         }
         Ok(r)
     }
-- 
2.43.0


From a5d8c689a7e3ed8201e1377fe56a151d81ab5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 23/23] fix: blocking calls go on when interrupted by a signal

---
 src/error.rs             |  7 +++++--
 src/socket/snmpsocket.rs | 30 +++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6a57330..7cfc615 100755
--- a/src/error.rs
+++ b/src/error.rs
@@ -8,8 +8,8 @@
 use pyo3::{
     PyErr, create_exception,
     exceptions::{
-        PyBlockingIOError, PyException, PyNotImplementedError, PyOSError, PyTimeoutError,
-        PyValueError,
+        PyBlockingIOError, PyException, PyInterruptedError, PyNotImplementedError, PyOSError,
+        PyTimeoutError, PyValueError,
     },
 };
 use std::convert::Infallible;
@@ -50,6 +50,8 @@ pub enum SnmpError {
     WouldBlock,
     /// Connection refused
     ConnectionRefused,
+    /// Interrupted by signal
+    Interrupted,
     /// Unknown Security Model
     UnknownSecurityModel,
     /// Authentication error
@@ -124,6 +126,7 @@ impl From<SnmpError> for PyErr {
             SnmpError::WouldBlock => PyBlockingIOError::new_err("blocked"),
             SnmpError::SocketError(x) => PyOSError::new_err(x),
             SnmpError::ConnectionRefused => PyTimeoutError::new_err("connection refused"),
+            SnmpError::Interrupted => PyInterruptedError::new_err("interrupted"),
             SnmpError::UnknownSecurityModel => PySnmpDecodeError::new_err("unknown security model"),
             SnmpError::AuthenticationFailed => PySnmpAuthError::new_err("authentication failed"),
         }
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index a9c677d..e55922b 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -117,9 +117,18 @@ where
             Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
                 Err(SnmpError::ConnectionRefused)
             }
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Err(SnmpError::Interrupted),
             Err(e) => Err(SnmpError::SocketError(e.to_string())),
         }
     }
+    // Wait for the rest of timeout
+    fn set_rest_of_timeout(io: &Socket, deadline: Instant) -> SnmpResult<()> {
+        let left = deadline.saturating_duration_since(Instant::now());
+        if left.is_zero() {
+            return Err(SnmpError::WouldBlock);
+        }
+        Self::set_timeout(io, left)
+    }
     // Send section with released GIL
     fn _send_inner(&mut self, pdu: SnmpPdu) -> PyResult<()> {
         // Get buffer for pool
@@ -169,7 +178,17 @@ where
             // Nested scope to release io early after receiving message
             let (msg, data) = {
                 let io = self.get_io();
-                let data = Self::recv_socket(io, buf)?;
+                let data = match Self::recv_socket(io, buf) {
+                    Err(SnmpError::Interrupted) => {
+                        // Run signal handlers and go on, see PEP-475
+                        Python::with_gil(|py| py.check_signals())?;
+                        if let Some(d) = deadline {
+                            Self::set_rest_of_timeout(io, d)?;
+                        }
+                        continue;
+                    }
+                    r => r?,
+                };
                 // Decode message
                 (Self::Message::try_from(data)?, data)
             };
@@ -180,14 +199,7 @@ where
                 None => {
                     buf.reset();
                     match deadline {
-                        // Wait for the rest of timeout
-                        Some(d) => {
-                            let left = d.saturating_duration_since(Instant::now());
-                            if left.is_zero() {
-                                return Err(SnmpError::WouldBlock.into());
-                            }
-                            Self::set_timeout(self.get_io(), left)?;
-                        }
+                        Some(d) => Self::set_rest_of_timeout(self.get_io(), d)?,
                         None => {
                             skipped += 1;
                             if skipped >= MAX_SKIP {
-- 
2.43.0


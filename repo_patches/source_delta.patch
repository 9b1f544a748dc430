From ca7e91fa51a48a18dc72bfdc4134d350274f093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 01/27] fix: bounds-check BER headers and reject lengths
 exceeding the address space

---
 src/ber/header.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ber/header.rs b/src/ber/header.rs
index e5af25f..e9d16b2 100755
--- a/src/ber/header.rs
+++ b/src/ber/header.rs
@@ -69,8 +69,7 @@ impl BerHeader {
                 // > 30
                 let mut n = 0 as Tag;
                 loop {
-                    // @todo: check size
-                    let t = i[current];
+                    let t = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
                     current += 1;
                     n = (n << 7) | ((t & 0x7f) as Tag);
                     if t & 0x80 == 0 {
@@ -84,16 +83,22 @@ impl BerHeader {
         // Parse length offset
         // X.690 8.3.1.4-8.3.1.5
         // @todo: Indefinite length
-        let n = i[current];
+        let n = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
         current += 1;
         let length = if n & 0x80 == 0 {
             // Short form, X.690 pp 8.3.1.4
             n as usize
         } else {
             // Long form, X.690 pp 8.1.3.5
-            let mut ln = 0;
+            let mut ln = 0usize;
             for _ in 0..n & 0x7f {
-                ln = (ln << 8) + (i[current] as usize);
+                let c = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
+                // Length exceeds the address space,
+                // so the content cannot be complete.
+                if ln > usize::MAX >> 8 {
+                    return Err(Err::Incomplete(Needed::Unknown));
+                }
+                ln = (ln << 8) + (c as usize);
                 current += 1;
             }
             ln
-- 
2.43.0


From 568122c87980401f82855b86be766d55291ad593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 02/27] fix: reject empty varbinds instead of panicking

---
 src/snmp/getresponse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 7459c2d..5556193 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -46,7 +46,7 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
             // Parse enclosing sequence
             let (rest, vs) = SnmpSequence::from_ber(v_tail)?;
             // Parse oid. May be either absolute or relative
-            let (tail, oid) = match vs.0[0] as Tag {
+            let (tail, oid) = match *vs.0.first().ok_or(SnmpError::Incomplete)? as Tag {
                 TAG_OBJECT_ID => SnmpOid::from_ber(vs.0)?,
                 TAG_RELATIVE_OID => {
                     if vars.is_empty() {
-- 
2.43.0


From b0cfc3673480f4f9e1d07c6f82386a20ac78f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 03/27] fix: reject relative OIDs which cannot be applied to
 the preceding OID

---
 src/ber/relative_oid.rs | 7 +++++++
 src/snmp/getresponse.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index f6778dd..7be7b8a 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -23,6 +23,13 @@ impl<'a> BerDecoder<'a> for SnmpRelativeOid<'a> {
 }
 
 impl SnmpRelativeOid<'_> {
+    /// Check relative oid can be applied to absolute one.
+    /// Full replacement requires at least two subelements.
+    pub fn is_applicable(&self, oid: &SnmpOid) -> bool {
+        !oid.0.is_empty()
+            && (self.0.len() > 1
+                || SnmpRelativeOid::subelements(self.0) < SnmpRelativeOid::subelements(&oid.0[1..]))
+    }
     /// Apply relative oid to absolute one
     /// and return normalized absolute oid
     pub fn normalize<'a>(&self, oid: &SnmpOid) -> SnmpOid<'a> {
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 5556193..ace1de2 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -55,7 +55,11 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     }
                     // Parse relative oid
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
-                    let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
+                    let base = &vars[vars.len() - 1].oid;
+                    if !r_oid.is_applicable(base) {
+                        return Err(SnmpError::InvalidData);
+                    }
+                    let oid = r_oid.normalize(base);
                     // Apply relative oid
                     (t, oid)
                 }
-- 
2.43.0


From ec2e7733fc2b5239049dcb35241ff9d0e6c05701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 04/27] fix: drop encrypted messages with wrong-size privacy
 parameters

---
 src/privacy/aes128.rs | 5 +++++
 src/privacy/des.rs    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/privacy/aes128.rs b/src/privacy/aes128.rs
index 80d9fb4..ec6f86e 100644
--- a/src/privacy/aes128.rs
+++ b/src/privacy/aes128.rs
@@ -16,6 +16,7 @@ use cipher::{AsyncStreamCipher, BlockEncryptMut, KeyIvInit, block_padding::NoPad
 use rand::Rng;
 
 const KEY_LENGTH: usize = 16;
+const SALT_SIZE: usize = 8;
 const BLOCK_SIZE: usize = 16;
 const PADDING: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
 
@@ -82,6 +83,10 @@ impl SnmpPriv for Aes128Key {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // RFC-3826, pp 3.1.4.2: Salt must be 8 octets long
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 16];
         iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index f9b7cf0..21459ed 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -90,6 +90,10 @@ impl SnmpPriv for DesKey {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // RFC-3414, pp 8.3.2: Salt must be 8 octets long
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 8];
         for (idx, (x, y)) in usm
-- 
2.43.0


From 7a17d4f737e86797c4071805684f16a5ad770161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 05/27] fix: stop GetNext walk on noSuchObject and
 noSuchInstance instead of panicking

---
 src/snmp/op/getnext.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/snmp/op/getnext.rs b/src/snmp/op/getnext.rs
index 992f55a..8da8262 100644
--- a/src/snmp/op/getnext.rs
+++ b/src/snmp/op/getnext.rs
@@ -47,9 +47,10 @@ impl<'a> PyOp<'a, SnmpOid<'a>> for OpGetNext {
                         }
                         // v1 may return Null at end of mib
                         match &var.value {
-                            SnmpValue::EndOfMibView | SnmpValue::Null => {
-                                Err(PyStopAsyncIteration::new_err("stop"))
-                            }
+                            SnmpValue::EndOfMibView
+                            | SnmpValue::NoSuchObject
+                            | SnmpValue::NoSuchInstance
+                            | SnmpValue::Null => Err(PyStopAsyncIteration::new_err("stop")),
                             value => Ok(PyTuple::new(
                                 py,
                                 vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
-- 
2.43.0


From b77d9e7505d9f6a21500a05dff45efecfab33c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 06/27] fix: get_many() raises SnmpDecodeError rather than
 RuntimeError on malformed values

---
 src/snmp/op/getmany.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/snmp/op/getmany.rs b/src/snmp/op/getmany.rs
index a00dbe2..26aa850 100644
--- a/src/snmp/op/getmany.rs
+++ b/src/snmp/op/getmany.rs
@@ -9,7 +9,7 @@ use super::{GetIter, PyOp};
 use crate::ber::SnmpOid;
 use crate::error::SnmpError;
 use crate::snmp::{get::SnmpGet, msg::SnmpPdu, value::SnmpValue};
-use pyo3::{exceptions::PyRuntimeError, prelude::*, pybacked::PyBackedStr, types::PyDict};
+use pyo3::{prelude::*, pybacked::PyBackedStr, types::PyDict};
 
 pub struct OpGetMany;
 
@@ -39,9 +39,7 @@ impl<'a> PyOp<'a, Vec<PyBackedStr>> for OpGetMany {
                         | SnmpValue::NoSuchObject
                         | SnmpValue::NoSuchInstance
                         | SnmpValue::EndOfMibView => continue,
-                        _ => dict
-                            .set_item(&var.oid, &var.value)
-                            .map_err(|e| PyRuntimeError::new_err(e.to_string()))?,
+                        _ => dict.set_item(&var.oid, &var.value)?,
                     }
                 }
                 Ok(dict.as_any().to_owned())
-- 
2.43.0


From 68790a3d1672bef5d90365f5aba8a3f22b3b08da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 07/27] fix: decode 8-octet negative INTEGERs exactly

The two's complement correction used 1 << 64, which wraps to 1, so that
every negative INTEGER of 8 octets was off by one.
---
 src/ber/int.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa0c4ab..aa4be95 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -23,19 +23,13 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
-        let v = i
-            .iter()
-            .take(h.length)
-            .map(|x| *x as i64)
-            .reduce(|acc, x| (acc << 8) | x)
-            .unwrap_or(0);
-        Ok(SnmpInt(if i[0] & 0x80 == 0 {
-            v
-        } else {
-            // Negative number
-            let m = 1 << (8 * h.length);
-            v - m
-        }))
+        // Two's complement: start with the sign and shift the octets in
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
+        Ok(SnmpInt(
+            i.iter()
+                .take(h.length)
+                .fold(sign, |acc, x| (acc << 8) | (*x as i64)),
+        ))
     }
 }
 
-- 
2.43.0


From b7a7538f2e963f299f8e3616d7d154221b4b61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 08/27] fix: decode REAL values as prescribed by X.690 8.5

SnmpValue passed the header to the decoder along with the contents, so every
REAL in a response was misread. In the decoder itself: contents were not limited
to the declared length, short contents panicked, the exponent was unsigned, the
scaling factor 0 and the long exponent format were not supported, mantissas
were truncated to 32 bits and NR1 numbers were limited to i32.
---
 src/ber/real.rs   | 93 ++++++++++++++++++++++++++++-------------------
 src/snmp/value.rs |  2 +-
 2 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/src/ber/real.rs b/src/ber/real.rs
index c81fb5b..788098a 100755
--- a/src/ber/real.rs
+++ b/src/ber/real.rs
@@ -25,6 +25,7 @@ impl<'a> BerDecoder<'a> for SnmpReal {
         if h.is_empty() {
             return Ok(SnmpReal(0.0));
         }
+        let i = &i[..h.length];
         // 8.5.6: Check encoding
         Ok(SnmpReal(match i[0] {
             f if f & 0x80 == 0x80 => {
@@ -41,18 +42,19 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 
                 // 8.5.7.4 Bits 2 to 1 of the first contents octet
                 // shall encode the format of the exponent as follows:
-                let ln = (f & 0x03) as usize + 2;
-                let e = SnmpReal::parse_u32(&i[1..ln]) as i32;
-                let mut v: f64 = SnmpReal::parse_u32(&i[ln..]).into();
-                // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
-                // encode the value of the binary scaling factor F
-                // as an unsigned binary integer.
-                match (f & 0x0c) >> 2 {
-                    1 => v *= 2.0,
-                    2 => v *= 4.0,
-                    3 => v *= 8.0,
-                    _ => return Err(SnmpError::InvalidData),
-                }
+                // 00, 01, 10 => exponent of 1, 2, 3 octets
+                // 11 => second octet holds the length of the exponent
+                let (start, ln) = match f & 0x03 {
+                    3 => (2, *i.get(1).ok_or(SnmpError::InvalidData)? as usize),
+                    n => (1, n as usize + 1),
+                };
+                let exp = i.get(start..start + ln).ok_or(SnmpError::InvalidData)?;
+                let exp = SnmpReal::parse_exponent(exp)?;
+                // 8.5.7.5: The remaining contents octets encode
+                // the value of the integer N as an unsigned binary number.
+                let n = i[start + ln..]
+                    .iter()
+                    .fold(0.0, |acc, &x| acc * 256.0 + f64::from(x));
                 // 8.5.7.2: Bits 6 to 5 of the first contents octets
                 // shall encode the value of the base B' as follows:
                 // Bits6to5 => Base
@@ -60,19 +62,20 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // 01 => base 8
                 // 10 => base 16
                 // 11 => Reserved for further editions of this Recommendation | International Standard.
-                let base: f64 = match f & 0x30 {
-                    0 => 2.0,
-                    0x10 => 8.0,
-                    0x20 => 16.0,
+                let base_bits = match f & 0x30 {
+                    0 => 1,
+                    0x10 => 3,
+                    0x20 => 4,
                     _ => return Err(SnmpError::InvalidData),
                 };
-                v *= base.powi(e);
+                // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
+                // encode the value of the binary scaling factor F
+                // as an unsigned binary integer.
+                let scale = ((f & 0x0c) >> 2) as i64;
+                let v = SnmpReal::scale2(n, exp.saturating_mul(base_bits).saturating_add(scale));
                 // 8.5.7.1: Bit 7 of the first contents octets
                 // shall be 1 if S is –1 and 0 otherwise.
-                if f & 0x40 == 0x40 {
-                    v = -v
-                }
-                v
+                if f & 0x40 == 0x40 { -v } else { v }
             }
             f if f & 0xc0 == 0 => {
                 // 8.5.8: Decimal encoding
@@ -84,20 +87,16 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // by bits 6 to 1 of the first contents octet as follows:
                 match f & 0x3f {
                     // ISO 6093 NR1: i.e. 456
-                    1 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        let v = s.parse::<i32>().map_err(|_| SnmpError::InvalidData)?;
-                        v.into()
-                    }
                     // ISO 6093 NR2: i.e. 456.7
-                    2 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
                     // ISO 6093 NR3: i.e. 4567e-1
-                    3 => {
+                    1..=3 => {
                         let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
+                        // Field may be padded with leading spaces,
+                        // decimal mark is either full stop or comma
+                        s.trim_start_matches(' ')
+                            .replace(',', ".")
+                            .parse::<f64>()
+                            .map_err(|_| SnmpError::InvalidData)?
                     }
                     _ => return Err(SnmpError::InvalidData),
                 }
@@ -112,12 +111,32 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 }
 
 impl SnmpReal {
-    fn parse_u32(i: &[u8]) -> u32 {
-        let mut v = 0u32;
-        for &n in i.iter() {
-            v = (v << 8) | (n as u32);
+    // 8.5.7.4: Exponent is a two's complement binary number
+    fn parse_exponent(i: &[u8]) -> SnmpResult<i64> {
+        let &first = i.first().ok_or(SnmpError::InvalidData)?;
+        if i.len() > 8 {
+            return Err(SnmpError::InvalidData);
+        }
+        let sign = if first & 0x80 == 0 { 0 } else { -1 };
+        Ok(i.iter().fold(sign, |acc, &x| (acc << 8) | i64::from(x)))
+    }
+
+    // Calculate v * 2^e
+    fn scale2(mut v: f64, e: i64) -> f64 {
+        // Double exponents are limited to -1022..1023.
+        // Out-of-range values are saturated to zero or infinity.
+        const MIN_EXP: i32 = f64::MIN_EXP - 1;
+        const MAX_EXP: i32 = f64::MAX_EXP - 1;
+        let mut e = e.clamp(-0x10000, 0x10000) as i32;
+        while e > MAX_EXP {
+            v *= 2f64.powi(MAX_EXP);
+            e -= MAX_EXP;
+        }
+        while e < MIN_EXP {
+            v *= 2f64.powi(MIN_EXP);
+            e -= MIN_EXP;
         }
-        v
+        v * 2f64.powi(e)
     }
 }
 
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index f8c1df3..7aa730b 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -59,7 +59,7 @@ impl SnmpValue<'_> {
                     TAG_OBJECT_DESCRIPTOR => {
                         SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(tail, &hdr)?)
                     }
-                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(i, &hdr)?),
+                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(tail, &hdr)?),
                     //
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
-- 
2.43.0


From 9ab6dbc0c3e90efec5f80a92ce379eeb7d36b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 09/27] fix: render OIDs whose first subidentifier is above 119

X.690 8.19.4: the first subidentifier may span several octets and denotes arc 2
whenever it is 80 or above.
---
 src/ber/objectid.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index b8c543b..79311c6 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -68,18 +68,26 @@ impl TryFrom<&SnmpOid<'_>> for String {
 
     fn try_from(value: &SnmpOid) -> Result<Self, Self::Error> {
         let mut r = String::with_capacity(value.0.len() * 5);
-        let mut iter = value.0.iter();
-        // First two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)?;
-        write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
+        let mut is_first = true;
         let mut b = 0u32;
-        for c in iter {
+        for c in value.0.iter() {
             b = (b << 7) + ((*c as u32) & 0x7f);
             if c & 0x80 == 0 {
-                write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
+                if is_first {
+                    // First two subelements share a single subidentifier, X.690 pp 8.19.4
+                    let first = (b / 40).min(2);
+                    write!(r, "{}.{}", first, b - first * 40)
+                } else {
+                    write!(r, ".{}", b)
+                }
+                .map_err(|_| SnmpError::InvalidData)?;
+                is_first = false;
                 b = 0;
             }
         }
+        if is_first {
+            return Err(SnmpError::InvalidData);
+        }
         Ok(r)
     }
 }
-- 
2.43.0


From 96b75037e1034928ed97861ad80e473a1dd6f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 10/27] fix: reset the DES buffer before encrypting the scoped
 PDU

Leftovers of previously encrypted or decrypted messages were appended to the
scoped PDU until the buffer overflowed.
---
 src/privacy/des.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index 21459ed..9a74d81 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -65,6 +65,7 @@ impl SnmpPriv for DesKey {
             iv[idx] = x ^ y;
         }
         // Add padding
+        self.buf.reset();
         self.buf.push(&PADDING)?;
         // Serialize
         pdu.push_ber(&mut self.buf)?;
-- 
2.43.0


From 792024f160e03d8c6d8eecbfbe218d1219770a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 11/27] fix: do not truncate version and security model codes
 to an octet

Version 257 was accepted as v2c (1), security model 259 as USM (3).
---
 src/ber/int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa4be95..e34ed8f 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -103,7 +103,8 @@ impl From<i64> for SnmpInt {
 
 impl From<SnmpInt> for u8 {
     fn from(value: SnmpInt) -> Self {
-        value.0 as u8
+        // Do not let the out-of-range values to alias the valid codes
+        u8::try_from(value.0).unwrap_or(u8::MAX)
     }
 }
 
-- 
2.43.0


From 56bc1d84b5b6c11c4f4f80e4ec5130bf2f54cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 12/27] fix: reject INTEGERs longer than 8 octets instead of
 truncating them

---
 src/ber/int.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index e34ed8f..92ec6d7 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -23,6 +23,10 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
+        // Longer values cannot be represented, do not truncate them
+        if h.length > 8 {
+            return Err(SnmpError::InvalidData);
+        }
         // Two's complement: start with the sign and shift the octets in
         let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
         Ok(SnmpInt(
-- 
2.43.0


From 08e2bdd946dfdb3ddfc53ca20addb5616e7f24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 13/27] fix: end the walk unless the received OID is after the
 last accepted one

---
 src/ber/objectid.rs    | 13 +++++++++++++
 src/snmp/op/getiter.rs |  5 ++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 79311c6..33ff2fd 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -98,6 +98,19 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check oid is strictly after the given one in the lexicographic order
+    #[inline]
+    pub fn is_after(&self, oid: &SnmpOid) -> bool {
+        self.sub_ids().gt(oid.sub_ids())
+    }
+    // Iterate over decoded sub-identifiers
+    fn sub_ids(&self) -> impl Iterator<Item = u64> + '_ {
+        self.0.split_inclusive(|c| c & 0x80 == 0).map(|sub_id| {
+            sub_id
+                .iter()
+                .fold(0, |acc, c| (acc << 7) | ((*c as u64) & 0x7f))
+        })
+    }
 }
 
 struct OidSubelementIterator<'a>(core::str::Split<'a, &'a str>);
diff --git a/src/snmp/op/getiter.rs b/src/snmp/op/getiter.rs
index 55e1be7..2bdd1b6 100644
--- a/src/snmp/op/getiter.rs
+++ b/src/snmp/op/getiter.rs
@@ -37,7 +37,10 @@ impl GetIter {
     // Save oid for next request.
     // Return true if next request may be send or return false otherwise
     pub fn set_next_oid(&mut self, oid: &SnmpOid) -> bool {
-        if self.start_oid.as_borrowed().starts_with(oid) {
+        // Walk must always go forward within the subtree
+        if self.start_oid.as_borrowed().starts_with(oid)
+            && oid.is_after(&self.next_oid.as_borrowed())
+        {
             self.next_oid.store(oid);
             true
         } else {
-- 
2.43.0


From 7248ecbc9305de851fc9b4414696b85b5b261d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 14/27] fix: reject malformed OIDs instead of rendering a
 different OID

---
 src/ber/objectid.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 33ff2fd..a20e980 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -71,6 +71,10 @@ impl TryFrom<&SnmpOid<'_>> for String {
         let mut is_first = true;
         let mut b = 0u32;
         for c in value.0.iter() {
+            if b > u32::MAX >> 7 {
+                // Sub-identifier exceeds 2^32-1
+                return Err(SnmpError::InvalidData);
+            }
             b = (b << 7) + ((*c as u32) & 0x7f);
             if c & 0x80 == 0 {
                 if is_first {
@@ -85,10 +89,11 @@ impl TryFrom<&SnmpOid<'_>> for String {
                 b = 0;
             }
         }
-        if is_first {
-            return Err(SnmpError::InvalidData);
+        match value.0.last() {
+            Some(c) if c & 0x80 == 0 => Ok(r),
+            // Empty, or the last sub-identifier is not complete
+            _ => Err(SnmpError::InvalidData),
         }
-        Ok(r)
     }
 }
 
-- 
2.43.0


From a8094791629f5ab0c0b3cec4961b4c87c2ddc5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 15/27] fix: refuse OIDs with invalid first arcs or signs
 instead of sending a different OID

---
 src/ber/objectid.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index a20e980..fe64502 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -130,9 +130,13 @@ impl Iterator for OidSubelementIterator<'_> {
     type Item = Result<u32, SnmpError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.0
-            .next()
-            .map(|part| part.parse::<u32>().map_err(|_| SnmpError::InvalidData))
+        self.0.next().map(|part| {
+            // `parse` accepts the leading plus sign
+            if part.starts_with('+') {
+                return Err(SnmpError::InvalidData);
+            }
+            part.parse::<u32>().map_err(|_| SnmpError::InvalidData)
+        })
     }
 }
 
@@ -149,11 +153,15 @@ impl TryFrom<&str> for SnmpOid<'_> {
         // Subelements iterator
         let mut iter = OidSubelementIterator::new(value);
         // Get first two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)??.min(6) as u8;
-        let second = iter.next().ok_or(SnmpError::InvalidData)??.min(39) as u8;
-        vec.push(40 * first + second);
-        // Push other elements
-        for sr in iter {
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let second = iter.next().ok_or(SnmpError::InvalidData)??;
+        if first > 2 || (first < 2 && second > 39) {
+            return Err(SnmpError::InvalidData);
+        }
+        // First two subelements share a single subidentifier, X.690 pp 8.19.4
+        let head = second.checked_add(40 * first).ok_or(SnmpError::InvalidData);
+        // Push elements
+        for sr in std::iter::once(head).chain(iter) {
             let sub_id = sr?;
             if sub_id <= 0x7F {
                 vec.push(sub_id as u8);
-- 
2.43.0


From 5192e5ba378840f97edb6921a08b069916d2713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 16/27] fix: drop replies which are not authenticated or
 encrypted as the session requires

Received messages were delivered without checking of the auth flag,
the signature and the encryption. RFC 3414 requires to drop everything
below the session's security level, except for reports.
---
 src/auth/mod.rs          | 12 ++++++++++++
 src/socket/snmpsocket.rs |  9 +++++----
 src/socket/v1.rs         |  2 +-
 src/socket/v2c.rs        |  2 +-
 src/socket/v3.rs         | 10 +++++++++-
 5 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 19de9bd..735cd2d 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -51,6 +51,18 @@ pub trait SnmpAuth {
     fn placeholder(&self) -> &'static [u8];
     // Sign data in buffer
     fn sign(&self, data: &mut [u8], offset: usize) -> SnmpResult<()>;
+    // Check the signature of the received message,
+    // `auth_params` is the part of `data`
+    fn verify(&self, data: &[u8], auth_params: &[u8]) -> bool {
+        let placeholder = self.placeholder();
+        if auth_params.len() != placeholder.len() {
+            return false;
+        }
+        let offset = auth_params.as_ptr() as usize - data.as_ptr() as usize;
+        let mut expected = data.to_vec();
+        expected[offset..offset + placeholder.len()].copy_from_slice(placeholder);
+        self.sign(&mut expected, offset).is_ok() && expected == data
+    }
 }
 
 // - - X X    X X X X
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f552081..f998e3f 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -97,7 +97,8 @@ where
     }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
+    // Check the message and return its pdu, `raw` is the message as received
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, raw: &'a [u8]) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
         match io.recv(buf.as_mut()) {
@@ -133,13 +134,13 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let msg = {
+            let (msg, data) = {
                 let io = self.get_io();
                 let data = Self::recv_socket(io, buf)?;
                 // Decode message
-                Self::Message::try_from(data)?
+                (Self::Message::try_from(data)?, data)
             };
-            match self.unwrap_pdu(msg) {
+            match self.unwrap_pdu(msg, data) {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 10b11ad..1e88075 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -130,7 +130,7 @@ impl SnmpSocket for SnmpV1ClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _raw: &'a [u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 45426ca..79c9350 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -129,7 +129,7 @@ impl SnmpSocket for SnmpV2cClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _raw: &'a [u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 4d8519c..a00f943 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -244,7 +244,11 @@ impl SnmpSocket for SnmpV3ClientSocket {
         self.auth_key.sign(buf.data_mut(), offset)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, raw: &'a [u8]) -> Option<SnmpPdu<'a>> {
+        // Check the security level, RFC-3414, pp. 6.3.2, 7.3.2
+        let is_authentic = !self.auth_key.has_auth()
+            || (msg.flag_auth && self.auth_key.verify(raw, msg.usm.auth_params));
+        let is_private = !self.priv_key.has_priv() || matches!(msg.data, MsgData::Encrypted(_));
         // Get and decode scoped pdu
         let data = match msg.data {
             MsgData::Plaintext(x) => x,
@@ -261,6 +265,10 @@ impl SnmpSocket for SnmpV3ClientSocket {
         {
             return None;
         }
+        // Only reports are accepted below the session's security level
+        if !(is_authentic && is_private) && !matches!(data.pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         // Update engine parameters
         self.engine_boots = msg.usm.engine_boots;
         self.engine_time = msg.usm.engine_time;
-- 
2.43.0


From ef65953c7a9c08a38df288ed978810188945e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 17/27] fix: refuse empty passwords and wrong-size keys instead
 of crashing

---
 src/auth/mod.rs | 6 +++---
 src/util.rs     | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 735cd2d..0ba3063 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -88,9 +88,9 @@ impl AuthKey {
     pub fn as_key_type(&mut self, alg: u8, key: &[u8], engine_id: &[u8]) -> SnmpResult<()> {
         if self.has_auth() {
             match alg & KT_TYPE_MASK {
-                KT_PASSWORD => self.as_password(key, engine_id),
-                KT_MASTER => self.as_master(key, engine_id),
-                KT_LOCALIZED => self.as_localized(key),
+                KT_PASSWORD if !key.is_empty() => self.as_password(key, engine_id),
+                KT_MASTER if key.len() == self.get_key_size() => self.as_master(key, engine_id),
+                KT_LOCALIZED if key.len() == self.get_key_size() => self.as_localized(key),
                 _ => return Err(SnmpError::InvalidKey),
             }
         }
diff --git a/src/util.rs b/src/util.rs
index c02d500..819f788 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,9 @@ use pyo3::types::PyBytes;
 #[pyfunction]
 pub fn get_master_key(py: Python, alg: u8, passwd: &[u8]) -> PyResult<PyObject> {
     let auth = AuthKey::new(alg)?;
+    if passwd.is_empty() {
+        return Err(PyValueError::new_err("empty password"));
+    }
     let mut out = vec![0u8; auth.get_key_size()];
     auth.password_to_master(passwd, &mut out);
     Ok(PyBytes::new(py, &out).into())
-- 
2.43.0


From 5542da0a4ea56b4bbf9daabb15000133ff082742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 18/27] fix: encode negative INTEGERs as minimal two's
 complement

---
 src/ber/int.rs | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index 92ec6d7..c406af7 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -64,33 +64,15 @@ impl BerEncoder for SnmpInt {
             }
             Ordering::Less => {
                 let start = buf.len();
-                let mut left = -self.0;
-                // Calculate used octets
-                let mut ln = 0;
-                while left > 0 {
-                    ln += 1;
-                    left >>= 8;
-                }
-                // Calculate complement
-                let d = 1 << (ln * 8 - 1);
-                left = -self.0;
-                let comp = if d < left { d << 8 } else { d };
-                // Write octets
-                if comp == left {
-                    for _ in 0..ln - 1 {
-                        buf.push_u8(0)?;
-                    }
-                    buf.push_u8(0x80)?;
-                } else {
-                    left = comp - left;
-                    loop {
-                        if left < 0xff {
-                            buf.push_u8(0x80 | (left as u8))?;
-                            break;
-                        }
-                        buf.push_u8((left & 0xff) as u8)?;
-                        left >>= 8;
+                // Write body, two's complement
+                let mut left = self.0;
+                loop {
+                    buf.push_u8((left & 0xff) as u8)?;
+                    // Stop when the rest is the sign extension only
+                    if left >= -0x80 {
+                        break;
                     }
+                    left >>= 8;
                 }
                 // Write tag and length
                 buf.push_tag_len(TAG_INT, buf.len() - start)
-- 
2.43.0


From 019be0b5d6976c1d5a16ae6dc6daebf9e7b35f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 19/27] fix: reject datagrams exceeding the receive buffer

The part of the datagram which does not fit the buffer was lost silently,
so the data following the message was accepted.
---
 src/socket/snmpsocket.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f998e3f..0ba0607 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -14,7 +14,7 @@ use crate::{
     snmp::pdu::SnmpPdu,
 };
 use pyo3::prelude::*;
-use socket2::{Domain, Protocol, Socket, Type};
+use socket2::{Domain, MaybeUninitSlice, Protocol, Socket, Type};
 use std::net::SocketAddr;
 use std::time::Duration;
 
@@ -101,8 +101,10 @@ where
     fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, raw: &'a [u8]) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
-        match io.recv(buf.as_mut()) {
-            Ok(s) => Ok(buf.as_slice(s)),
+        match io.recv_vectored(&mut [MaybeUninitSlice::new(buf.as_mut())]) {
+            // Rest of the datagram is lost, do not pass its head as complete message
+            Ok((_, flags)) if flags.is_truncated() => Err(SnmpError::TrailingData),
+            Ok((s, _)) => Ok(buf.as_slice(s)),
             Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Err(SnmpError::WouldBlock),
             Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
                 Err(SnmpError::ConnectionRefused)
-- 
2.43.0


From 6b52b992fb4ad4d1e50b5f6a7fc85949233ff9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 20/27] fix: bounds-check Buffer::as_slice

---
 src/buf/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index 8897c01..5ef4d96 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -158,7 +158,8 @@ impl Buffer {
         self.pos = MAX_SIZE;
     }
     pub fn as_slice(&self, len: usize) -> &[u8] {
-        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len) }
+        let data = &self.data[..len];
+        unsafe { slice::from_raw_parts(data.as_ptr() as *const u8, data.len()) }
     }
 }
 
-- 
2.43.0


From 1acb14dead32317ea0d72880ecdf72e107263990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 21/27] fix: do not expose uninitialized memory after
 Buffer::skip

---
 src/buf/buffer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index 5ef4d96..a04764f 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -84,11 +84,10 @@ impl Buffer {
     }
     #[inline]
     pub fn skip(&mut self, size: usize) {
-        if self.pos < size {
-            self.pos = 0
-        } else {
-            self.pos -= size
-        }
+        let end = self.pos;
+        self.pos = end.saturating_sub(size);
+        // Skipped area becomes the part of data, so it must be initialized
+        self.data[self.pos..end].fill(MaybeUninit::new(0));
     }
     #[inline]
     fn push_u8_unchecked(&mut self, v: u8) {
-- 
2.43.0


From 97b834e4eefb9ed1400988bd251c802558048d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 22/27] fix: sync refresh() raises TimeoutError rather than
 BlockingIOError

---
 src/gufo/snmp/sync_client/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index e67dd4a..8d27df7 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -311,7 +311,7 @@ class SnmpSession(object):
 
         if self._deferred_user:
             # First check runs engine id discovery
-            self._sock.refresh()
+            self._refresh()
             # Set and localize actual keys
             self._sock.set_keys(
                 self._deferred_user.name,
@@ -326,7 +326,14 @@ class SnmpSession(object):
             self._deferred_user = None
 
         # Refresh engine boots and time
-        self._sock.refresh()
+        self._refresh()
+
+    def _refresh(self: "SnmpSession") -> None:
+        """Send single REPORT request and await for response."""
+        try:
+            self._sock.refresh()
+        except BlockingIOError as e:
+            raise TimeoutError from e
 
     def get_engine_id(self: "SnmpSession") -> bytes:
         """
-- 
2.43.0


From 81f71d561fb0d62c31810f90ff186c7e8384179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 23/27] fix: unwanted replies do not prolong waiting

Every skipped reply restarted the timeout in the blocking mode
and kept the event loop busy in the non-blocking one.
---
 src/socket/snmpsocket.rs | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index 0ba0607..aad9400 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -16,7 +16,10 @@ use crate::{
 use pyo3::prelude::*;
 use socket2::{Domain, MaybeUninitSlice, Protocol, Socket, Type};
 use std::net::SocketAddr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
+
+// Resolution of the socket timeouts
+const MIN_TIMEOUT: Duration = Duration::from_micros(1);
 
 pub(crate) trait SnmpSocket
 where
@@ -95,6 +98,12 @@ where
         }
         Err(SnmpError::SocketError("unable to set buffer size".into()))
     }
+    /// Set timeout for the next receive
+    fn set_read_timeout(&mut self, timeout: Option<Duration>) -> SnmpResult<()> {
+        self.get_io()
+            .set_read_timeout(timeout)
+            .map_err(|e| SnmpError::SocketError(e.to_string()))
+    }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
     // Check the message and return its pdu, `raw` is the message as received
@@ -126,6 +135,28 @@ where
     }
 
     fn _recv_inner<'a, T, V>(&mut self, iter: Option<&mut GetIter>) -> PyResult<PyObject>
+    where
+        T: PyOp<'a, V>,
+        V: 'a,
+    {
+        // None for the non-blocking mode
+        let timeout = self
+            .get_io()
+            .read_timeout()
+            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        let r = self._recv_until::<T, V>(iter, timeout.map(|t| (Instant::now(), t)));
+        if timeout.is_some() {
+            self.set_read_timeout(timeout)?;
+        }
+        r
+    }
+
+    // Receive the reply, not later than `started` + `timeout`
+    fn _recv_until<'a, T, V>(
+        &mut self,
+        iter: Option<&mut GetIter>,
+        limit: Option<(Instant, Duration)>,
+    ) -> PyResult<PyObject>
     where
         T: PyOp<'a, V>,
         V: 'a,
@@ -148,7 +179,12 @@ where
                 }
                 None => {
                     buf.reset();
-                    continue;
+                    // Unwanted replies must not prolong waiting
+                    let rest = limit
+                        .and_then(|(started, timeout)| timeout.checked_sub(started.elapsed()))
+                        .filter(|rest| *rest >= MIN_TIMEOUT)
+                        .ok_or(SnmpError::WouldBlock)?;
+                    self.set_read_timeout(Some(rest))?;
                 }
             }
         }
-- 
2.43.0


From d63859e10d8cc34ed01ad02065350f720c1a9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 24/27] fix: timeouts below 1us do not block forever

---
 src/socket/snmpsocket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index aad9400..af32971 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -51,7 +51,8 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         if timeout_ns > 0 {
             // Blocking mode
-            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns)))
+            // Anything less means infinite timeout
+            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns).max(MIN_TIMEOUT)))
                 .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         } else {
             // Mark socket as non-blocking
-- 
2.43.0


From 75c3dafa66e101462d73133da9499b5122f86ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 25/27] fix: apply the rate limit to sync refresh()

---
 src/gufo/snmp/sync_client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index 8d27df7..0e444d7 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -330,6 +330,8 @@ class SnmpSession(object):
 
     def _refresh(self: "SnmpSession") -> None:
         """Send single REPORT request and await for response."""
+        if self._policer:
+            self._policer.wait_sync()
         try:
             self._sock.refresh()
         except BlockingIOError as e:
-- 
2.43.0


From bf1e37bd36af737612bcf3461b8a322f732dbf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 26/27] fix: signals do not break waiting for the reply

Signal handled by the process while waiting interrupts the system call
and the call ended with OSError, though the reply was on its way.
Run the handlers and wait for the rest of the timeout.
---
 src/socket/snmpsocket.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index af32971..515dda4 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -109,12 +109,13 @@ where
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
     // Check the message and return its pdu, `raw` is the message as received
     fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, raw: &'a [u8]) -> Option<SnmpPdu<'a>>;
-    //
-    fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
+    // Receive datagram, None if interrupted by the signal
+    fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<Option<&'a [u8]>> {
         match io.recv_vectored(&mut [MaybeUninitSlice::new(buf.as_mut())]) {
             // Rest of the datagram is lost, do not pass its head as complete message
             Ok((_, flags)) if flags.is_truncated() => Err(SnmpError::TrailingData),
-            Ok((s, _)) => Ok(buf.as_slice(s)),
+            Ok((s, _)) => Ok(Some(buf.as_slice(s))),
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(None),
             Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Err(SnmpError::WouldBlock),
             Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
                 Err(SnmpError::ConnectionRefused)
@@ -167,20 +168,22 @@ where
         let buf = h.as_mut();
         // We can catch unwanted replies, so do it in a loop
         loop {
-            // Nested scope to release io early after receiving message
-            let (msg, data) = {
-                let io = self.get_io();
-                let data = Self::recv_socket(io, buf)?;
+            let pdu = match Self::recv_socket(self.get_io(), buf)? {
                 // Decode message
-                (Self::Message::try_from(data)?, data)
+                Some(data) => self.unwrap_pdu(Self::Message::try_from(data)?, data),
+                // Run signal handlers, then continue waiting
+                None => {
+                    Python::with_gil(|py| py.check_signals())?;
+                    None
+                }
             };
-            match self.unwrap_pdu(msg, data) {
+            match pdu {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
                 None => {
                     buf.reset();
-                    // Unwanted replies must not prolong waiting
+                    // Unwanted replies and signals must not prolong waiting
                     let rest = limit
                         .and_then(|(started, timeout)| timeout.checked_sub(started.elapsed()))
                         .filter(|rest| *rest >= MIN_TIMEOUT)
-- 
2.43.0


From fa2f7351226e3917f3f7f28e01cc30b6f5a6e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 27/27] fix: concurrent tasks do not take replies of each other

When two tasks share an async session, the one which waits for an
earlier request could take the reply to the latest request, or stop
watching the socket for it.
---
 src/gufo/snmp/async_client/client.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gufo/snmp/async_client/client.py b/src/gufo/snmp/async_client/client.py
index 65912ca..9052698 100755
--- a/src/gufo/snmp/async_client/client.py
+++ b/src/gufo/snmp/async_client/client.py
@@ -151,6 +151,7 @@ class SnmpSession(object):
             msg = "Invalid SNMP Protocol"
             raise ValueError(msg)
         self._fd = self._sock.get_fd()
+        self._seq = 0  # Number of the last request
         self._timeout = timeout
         self._max_repetitions = max_repetitions
         if version == SnmpVersion.v1:
@@ -187,6 +188,7 @@ class SnmpSession(object):
         def callback() -> None:
             try:
                 sender()
+                self._seq += 1
                 future.set_result(None)
             except BaseException as e:  # noqa: BLE001
                 future.set_exception(e)
@@ -197,6 +199,7 @@ class SnmpSession(object):
             # Hot path.
             # Usually successful unless output buffer is full
             sender()
+            self._seq += 1
         except BlockingIOError:
             # Buffer is full, wait
             loop = get_running_loop()
@@ -214,19 +217,25 @@ class SnmpSession(object):
         Args:
             receiver: Function to execute read operation.
         """
+        # The socket belongs to the last request. When another task has sent
+        # its own one, neither take its reply nor break its waiting.
+        seq = self._seq
 
         async def get_response() -> T:
             loop = get_running_loop()
             while True:
                 fut: Future[None] = loop.create_future()
-                loop.add_reader(self._fd, fut.set_result, None)
+                if seq == self._seq:
+                    loop.add_reader(self._fd, fut.set_result, None)
                 try:
                     await fut
-                    return receiver()
+                    if seq == self._seq:
+                        return receiver()
                 except BlockingIOError:
                     continue
                 finally:
-                    loop.remove_reader(self._fd)
+                    if seq == self._seq:
+                        loop.remove_reader(self._fd)
 
         # Await response or timeout
         try:
-- 
2.43.0


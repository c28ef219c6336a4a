From ea4cd53ef635b1849ae90e4b6e338d5b417070a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 01/14] fix: retry interrupted reads of identifier and length
 octets

An interrupted read is not a failure and should be retried.
Reading the header gave up instead, so the caller got an I/O error
with a part of the stream already consumed.
---
 bsn1/src/misc.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 1e5f817..903a036 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -15,7 +15,7 @@
 // not, see <https://www.gnu.org/licenses/>.
 
 use crate::{Error, Length};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
 pub fn read_u8<T>(readable: &mut T) -> Result<u8, Error>
@@ -23,11 +23,14 @@ where
     T: ?Sized + Read,
 {
     let mut buf = [0; 1];
-    match readable.read(&mut buf) {
-        Err(e) => Err(e.into()),
-        Ok(0) => Err(Error::UnterminatedBytes),
-        Ok(1) => Ok(buf[0]),
-        _ => unreachable!(),
+    loop {
+        match readable.read(&mut buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+            Ok(0) => return Err(Error::UnterminatedBytes),
+            Ok(1) => return Ok(buf[0]),
+            _ => unreachable!(),
+        }
     }
 }
 
-- 
2.43.0


From 1fb8b0acda52bf122c5420e2a3145d97655794c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 02/14] fix: read the contents octets completely from streams

`Der::parse` read the contents with a single call and took a short read
for the end of the stream. A stream may return fewer bytes than asked for,
so valid DER octets were refused as unterminated.

`Ber::parse` reported the end of the stream inside the contents as an I/O
error, while `BerRef::parse` and `Der::parse` report unterminated bytes.

Both functions now share one loop, and the buffer handed to the reader is
initialized.
---
 bsn1/src/ber.rs  |  7 +------
 bsn1/src/der.rs  | 19 ++-----------------
 bsn1/src/misc.rs | 30 +++++++++++++++++++++++++++++-
 3 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index f0c7194..0a6e3c5 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -323,12 +323,7 @@ impl Ber {
 
         match unsafe { crate::misc::parse_id_length(readable, writeable)? } {
             Length::Definite(length) => {
-                writeable.reserve(length);
-                let current_len = writeable.len();
-                unsafe { writeable.set_len(current_len + length) };
-
-                let buffer = &mut writeable.as_mut_slice()[current_len..];
-                readable.read_exact(buffer).map_err(Error::from)?;
+                crate::misc::read_contents(readable, length, writeable)?;
 
                 let read = &(writeable.as_slice()[init_len..]);
                 if read == BerRef::eoc().as_ref() {
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 584cebb..39a4fec 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -178,23 +178,8 @@ impl Der {
                 Length::Definite(length) => length,
             };
 
-        let id_length_len = writeable.len();
-        let total_length = id_length_len + contents_length;
-
-        writeable.reserve(contents_length);
-        unsafe { writeable.set_len(total_length) };
-
-        let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read(buffer) {
-            Err(e) => Err(e.into()),
-            Ok(read) => {
-                if read < contents_length {
-                    Err(Error::UnterminatedBytes)
-                } else {
-                    Ok(Self { buffer: writeable })
-                }
-            }
-        }
+        crate::misc::read_contents(readable, contents_length, &mut writeable)?;
+        Ok(Self { buffer: writeable })
     }
 
     /// Builds a new instance holding `bytes` without any check.
diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 903a036..b1c49c1 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use crate::{Error, Length};
+use crate::{Buffer, Error, Length};
 use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
@@ -52,6 +52,34 @@ where
     }
 }
 
+/// Reads `length` bytes from `readable` and appends them to `buffer`.
+///
+/// `readable` may return the bytes in pieces.
+pub fn read_contents<R>(readable: &mut R, length: usize, buffer: &mut Buffer) -> Result<(), Error>
+where
+    R: ?Sized + Read,
+{
+    let mut start = buffer.len();
+    let end = start + length;
+
+    buffer.reserve(length);
+    unsafe {
+        buffer.as_mut_ptr().add(start).write_bytes(0, length);
+        buffer.set_len(end);
+    }
+
+    while start < end {
+        match readable.read(&mut buffer.as_mut_slice()[start..end]) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+            Ok(0) => return Err(Error::UnterminatedBytes),
+            Ok(read) => start += read,
+        }
+    }
+
+    Ok(())
+}
+
 /// Parses the identifier and the length from `readable`, writes them to `writeable`,
 /// and returns the `Length`.
 ///
-- 
2.43.0


From fae1b321764eaeaed5ce3c26ce57b0f4ca649def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 03/14] fix: do not allocate the announced length before the
 contents arrive

Ten octets announcing a huge length made `Ber::parse` and `Der::parse`
panic by an overflow or abort the process by an allocation failure.

The buffer now grows step by step while the contents octets arrive.
If they do not arrive, the result is an ordinary error.
---
 bsn1/src/misc.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index b1c49c1..0207e5b 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -55,26 +55,36 @@ where
 /// Reads `length` bytes from `readable` and appends them to `buffer`.
 ///
 /// `readable` may return the bytes in pieces.
+///
+/// `length` is not trusted. `buffer` is extended step by step while the bytes arrive.
 pub fn read_contents<R>(readable: &mut R, length: usize, buffer: &mut Buffer) -> Result<(), Error>
 where
     R: ?Sized + Read,
 {
-    let mut start = buffer.len();
-    let end = start + length;
+    const MIN_STEP: usize = 8192;
 
-    buffer.reserve(length);
-    unsafe {
-        buffer.as_mut_ptr().add(start).write_bytes(0, length);
-        buffer.set_len(end);
-    }
+    let mut rest = length;
+    while rest > 0 {
+        let mut start = buffer.len();
+        let step = rest.min(start.max(MIN_STEP));
+        let end = start + step;
 
-    while start < end {
-        match readable.read(&mut buffer.as_mut_slice()[start..end]) {
-            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
-            Err(e) => return Err(e.into()),
-            Ok(0) => return Err(Error::UnterminatedBytes),
-            Ok(read) => start += read,
+        buffer.reserve(step);
+        unsafe {
+            buffer.as_mut_ptr().add(start).write_bytes(0, step);
+            buffer.set_len(end);
+        }
+
+        while start < end {
+            match readable.read(&mut buffer.as_mut_slice()[start..end]) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+                Ok(0) => return Err(Error::UnterminatedBytes),
+                Ok(read) => start += read,
+            }
         }
+
+        rest -= step;
     }
 
     Ok(())
-- 
2.43.0


From 3dfde6495e8da25839e29c0d20d5570e1d37ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 04/14] fix: leave the slice untouched when BerRef::parse or
 DerRef::parse fails

The documentation says that `bytes` is not updated on error, but both
functions advanced it past the octets read before the failure.
A caller trying again after receiving more bytes lost these octets.
---
 bsn1/src/ber_ref.rs | 10 ++++++----
 bsn1/src/der_ref.rs |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index 6dce192..c625392 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -86,16 +86,18 @@ impl BerRef {
     /// }
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
-        let init_bytes = *bytes;
+        let mut readable = *bytes;
         let mut stack_depth: isize = 0;
 
         while {
-            stack_depth += Self::do_parse(bytes)? as isize;
+            stack_depth += Self::do_parse(&mut readable)? as isize;
             stack_depth > 0
         } {}
 
-        let total_len = init_bytes.len() - bytes.len();
-        unsafe { Ok(Self::from_bytes_unchecked(&init_bytes[..total_len])) }
+        let total_len = bytes.len() - readable.len();
+        let read = &bytes[..total_len];
+        *bytes = readable;
+        unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
     /// Parses `bytes` starting with octets of 'ASN.1 BER' and returns a mutable reference to
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 35fdacd..6ecb7df 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -91,11 +91,12 @@ impl DerRef {
     /// }
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
-        let init_bytes = *bytes;
-        Self::do_parse(bytes)?;
+        let mut readable = *bytes;
+        Self::do_parse(&mut readable)?;
 
-        let total_len = init_bytes.len() - bytes.len();
-        let read = &init_bytes[..total_len];
+        let total_len = bytes.len() - readable.len();
+        let read = &bytes[..total_len];
+        *bytes = readable;
         unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
-- 
2.43.0


From 3a77bd3b9cd0022365363e72c08f479083df142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 05/14] fix: make Error::root_cause look behind added contexts

The documentation says it returns the first error of this type in the
chain. It stopped at the first link of another type, so it never found
the original error once `Error::context` had been called.
---
 bsn1/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index 6385569..fa207f1 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -172,17 +172,10 @@ impl Error {
     /// in the chain; otherwise, returns `self`.
     pub fn root_cause(&self) -> &Self {
         match self {
-            Self::Anyhow(err) => {
-                let mut ret = self;
-                for cause in err.chain() {
-                    if let Some(e) = cause.downcast_ref::<Self>() {
-                        ret = e;
-                    } else {
-                        break;
-                    }
-                }
-                return ret;
-            }
+            Self::Anyhow(err) => err
+                .chain()
+                .find_map(|cause| cause.downcast_ref::<Self>())
+                .unwrap_or(self),
             _ => self,
         }
     }
-- 
2.43.0


From b733ee2a4f6f7fcd544495104b515e87977f4632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 06/14] fix: do not write through shared references in
 disassemble_mut

`disassemble_mut` turned shared references into mutable ones, which is
undefined behavior. The compiler refuses it by default
(invalid_reference_casting). Split the mutable slice instead.
---
 bsn1/src/ber_ref.rs | 10 +++++-----
 bsn1/src/der_ref.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index c625392..0ecc5fd 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -385,12 +385,12 @@ impl BerRef {
     pub fn disassemble_mut(&mut self) -> (&mut IdRef, Length, &mut ContentsRef) {
         let (id, length, contents) = self.disassemble();
 
-        let id_ptr = id as *const IdRef;
-        let id_ptr = id_ptr as *mut IdRef;
-        let contents_ptr = contents as *const ContentsRef;
-        let contents_ptr = contents_ptr as *mut ContentsRef;
+        let id_len = id.len();
+        let header_len = self.bytes.len() - contents.len();
+        let (header, contents) = self.bytes.split_at_mut(header_len);
+        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut header[..id_len]) };
 
-        unsafe { (&mut *id_ptr, length, &mut *contents_ptr) }
+        (id, length, contents.into())
     }
 }
 
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 6ecb7df..65f5985 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -383,12 +383,12 @@ impl DerRef {
     pub fn disassemble_mut(&mut self) -> (&mut IdRef, Length, &mut ContentsRef) {
         let (id, length, contents) = self.disassemble();
 
-        let id_ptr = id as *const IdRef;
-        let id_ptr = id_ptr as *mut IdRef;
-        let contents_ptr = contents as *const ContentsRef;
-        let contents_ptr = contents_ptr as *mut ContentsRef;
+        let id_len = id.len();
+        let header_len = self.bytes.len() - contents.len();
+        let (header, contents) = self.bytes.split_at_mut(header_len);
+        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut header[..id_len]) };
 
-        unsafe { (&mut *id_ptr, length, &mut *contents_ptr) }
+        (id, length, contents.into())
     }
 }
 
-- 
2.43.0


From cd0b15168642d3207bc8ef88364c568e9f00bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:08 +0000
Subject: [PATCH 07/14] fix: report an unknown length for HashMap with keys of
 unknown length

Entries were left out of the contents length if the length of the key was
not known in advance, so the length octets did not match the contents.
---
 bsn1_serde/src/ser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index b0e1d74..660007f 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -654,6 +654,8 @@ where
                 } else {
                     return Ok(None);
                 }
+            } else {
+                return Ok(None);
             }
         }
         Ok(Some(ret))
-- 
2.43.0


From f5a0cbd40b1775a15bbff24c9a1b7853276384cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:08 +0000
Subject: [PATCH 08/14] fix: refuse indefinite length BER of primitive types

`Length::Indefinite` does not equal itself, so the check never worked.
Debug builds panicked at the following assertion. Release builds took the
end-of-contents octets for a part of the value.
---
 bsn1_serde/src/de/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index fbca7bd..53dae5f 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -41,7 +41,7 @@ impl Deserialize for bool {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::boolean() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -60,7 +60,7 @@ impl Deserialize for bool {
 
 impl Deserialize for i8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -79,7 +79,7 @@ impl Deserialize for i8 {
 
 impl Deserialize for u8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -98,7 +98,7 @@ impl Deserialize for u8 {
 
 impl Deserialize for i16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -117,7 +117,7 @@ impl Deserialize for i16 {
 
 impl Deserialize for u16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -136,7 +136,7 @@ impl Deserialize for u16 {
 
 impl Deserialize for i32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -155,7 +155,7 @@ impl Deserialize for i32 {
 
 impl Deserialize for u32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -174,7 +174,7 @@ impl Deserialize for u32 {
 
 impl Deserialize for i64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -193,7 +193,7 @@ impl Deserialize for i64 {
 
 impl Deserialize for u64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -212,7 +212,7 @@ impl Deserialize for u64 {
 
 impl Deserialize for i128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -231,7 +231,7 @@ impl Deserialize for i128 {
 
 impl Deserialize for u128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -250,7 +250,7 @@ impl Deserialize for u128 {
 
 impl Deserialize for isize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -269,7 +269,7 @@ impl Deserialize for isize {
 
 impl Deserialize for usize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -290,7 +290,7 @@ impl Deserialize for String {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::utf8_string() && id != IdRef::utf8_string_constructed() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
-- 
2.43.0


From e1f1c1b2faf8ab63fb1bdb4d81ade6a8c14a3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:08 +0000
Subject: [PATCH 09/14] fix: accept map entries encoded with indefinite length

The end-of-contents octets of a key-value pair were taken for an extra
element, so valid BER of a map was refused.
---
 bsn1_serde/src/de/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index 53dae5f..e5ccc7e 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -734,7 +734,8 @@ impl DeserializeHelper<'_> {
                 )));
             }
 
-            let mut pair_contents: &[u8] = pair.contents().as_ref();
+            let mut pair_contents: &[u8] =
+                exclude_eoc(pair.length(), pair.contents())?.as_ref();
             let key = BerRef::parse(&mut pair_contents).map_err(|err| {
                 err.context(format!(
                     "Failed to parse BER of the key at index {}",
-- 
2.43.0


From e8f1149b5b18039de3acc9f9a70bd978f3a2a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:08 +0000
Subject: [PATCH 10/14] fix: check the capacity while building from an iterator

`from_id_iterator` measures a clone of the iterator, and then copies the
items without any check. If the second pass gives more bytes than the
first one, which safe code can do, it wrote beyond the end of the buffer.
If it gives fewer, the length octets did not match the contents.
---
 bsn1/src/ber.rs |  4 +++-
 bsn1/src/der.rs | 24 ++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index 0a6e3c5..d46d76f 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -477,9 +477,11 @@ impl Ber {
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
         }
 
+        // `contents` may differ from its clone. Don't trust `length`.
+        crate::der::append_contents(&mut buffer, contents);
+
         Self { buffer }
     }
 
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 39a4fec..43036a8 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -288,10 +288,17 @@ impl Der {
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
         }
 
-        Self { buffer }
+        // `contents` may differ from its clone. Don't trust `length`.
+        append_contents(&mut buffer, contents);
+
+        if buffer.len() == total_len {
+            Self { buffer }
+        } else {
+            let header_len = id.len() + length_bytes.len();
+            Self::new(id, buffer.as_slice()[header_len..].into())
+        }
     }
     /// Consumes `self`, returning `Vec`.
     ///
@@ -644,6 +651,19 @@ where
     }
 }
 
+/// Appends all the items of `contents` to `buffer`.
+pub fn append_contents<I>(buffer: &mut Buffer, contents: I)
+where
+    I: Iterator,
+    I::Item: AsRef<[u8]>,
+{
+    contents.for_each(|c| {
+        let c = c.as_ref();
+        buffer.reserve(c.len());
+        unsafe { buffer.extend_from_slice(c) };
+    });
+}
+
 pub fn disassemble_der(der: Der) -> Buffer {
     der.buffer
 }
-- 
2.43.0


From 16e9bafbe0a526a2d2fabb8324fff90fe04fe112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:42 +0000
Subject: [PATCH 11/14] Allow selecting the universal endian buffer on any
 target

Passing `--cfg bsn1_universal_buffer` to rustc builds the buffer used on big
endian machines. It is off by default and lets that code run on little endian
machines, too.
---
 bsn1/src/buffer/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bsn1/src/buffer/mod.rs b/bsn1/src/buffer/mod.rs
index 53b6f85..342ead7 100644
--- a/bsn1/src/buffer/mod.rs
+++ b/bsn1/src/buffer/mod.rs
@@ -14,14 +14,15 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-#[cfg(target_endian = "little")]
+// `--cfg bsn1_universal_buffer` selects the implementation for big endian on any target.
+#[cfg(all(target_endian = "little", not(bsn1_universal_buffer)))]
 mod little_endian;
-#[cfg(target_endian = "little")]
+#[cfg(all(target_endian = "little", not(bsn1_universal_buffer)))]
 use little_endian as endian;
 
-#[cfg(any(target_endian = "big"))]
+#[cfg(any(target_endian = "big", bsn1_universal_buffer))]
 mod universal_endian;
-#[cfg(any(target_endian = "big"))]
+#[cfg(any(target_endian = "big", bsn1_universal_buffer))]
 use universal_endian as endian;
 
 type Inner = endian::Buffer;
-- 
2.43.0


From 3a2062f54f65094df76df3f60addaad9d3b14066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:12 +0000
Subject: [PATCH 12/14] fix: derive the mutable pointer of Buffer from a
 mutable reference

`as_mut_ptr` returned a pointer made from a shared reference. Writing
through it to the bytes held in the buffer itself is undefined behavior.
---
 bsn1/src/buffer/little_endian/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/buffer/little_endian/mod.rs b/bsn1/src/buffer/little_endian/mod.rs
index 1235b7c..a81b809 100644
--- a/bsn1/src/buffer/little_endian/mod.rs
+++ b/bsn1/src/buffer/little_endian/mod.rs
@@ -176,8 +176,12 @@ impl Buffer {
     }
 
     pub fn as_mut_ptr(&mut self) -> *mut u8 {
-        let ptr = self.as_ptr();
-        ptr as *mut u8
+        if self.is_stack() {
+            let ptr = self as *mut Self;
+            ptr as *mut u8
+        } else {
+            self.data_
+        }
     }
 
     const fn is_stack(&self) -> bool {
-- 
2.43.0


From 0d8ce83b14bf1c85543835b399ed9298fd6bd9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:42 +0000
Subject: [PATCH 13/14] fix: Refuse to create elements larger than the address
 space

The sum of the header length and the contents length could wrap around in
release builds. The header was then written beyond a too small buffer.
---
 bsn1/src/ber.rs |  4 ++--
 bsn1/src/der.rs | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index d46d76f..3e2860e 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -233,7 +233,7 @@ impl Ber {
     /// ```
     pub unsafe fn with_id_length_indefinite(id: &IdRef, length: usize) -> Self {
         let length_ = Length::Indefinite.to_bytes();
-        let total_len = id.len() + length_.len() + length;
+        let total_len = crate::der::total_len(id.len() + length_.len(), length);
 
         let mut buffer = Buffer::with_capacity(total_len);
 
@@ -471,7 +471,7 @@ impl Ber {
             .clone()
             .fold(0, |acc, item| acc + item.as_ref().len());
         let length_bytes = Length::Indefinite.to_bytes();
-        let total_len = id.len() + length_bytes.len() + length;
+        let total_len = crate::der::total_len(id.len() + length_bytes.len(), length);
 
         let mut buffer = Buffer::with_capacity(total_len);
         unsafe {
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 43036a8..948533f 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -101,7 +101,7 @@ impl Der {
     /// ```
     pub fn with_id_length(id: &IdRef, length: usize) -> Self {
         let length_ = Length::Definite(length).to_bytes();
-        let total_len = id.len() + length_.len() + length;
+        let total_len = total_len(id.len() + length_.len(), length);
 
         let mut buffer = Buffer::with_capacity(total_len);
 
@@ -282,7 +282,7 @@ impl Der {
             .clone()
             .fold(0, |acc, item| acc + item.as_ref().len());
         let length_bytes = Length::Definite(length).to_bytes();
-        let total_len = id.len() + length_bytes.len() + length;
+        let total_len = total_len(id.len() + length_bytes.len(), length);
 
         let mut buffer = Buffer::with_capacity(total_len);
         unsafe {
@@ -651,6 +651,13 @@ where
     }
 }
 
+/// Returns the byte count of the whole element.
+pub fn total_len(header_len: usize, contents_len: usize) -> usize {
+    header_len
+        .checked_add(contents_len)
+        .expect("capacity overflow")
+}
+
 /// Appends all the items of `contents` to `buffer`.
 pub fn append_contents<I>(buffer: &mut Buffer, contents: I)
 where
-- 
2.43.0


From 0619115f6bf4ba927c05fd1e101e7321325a954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:29 +0000
Subject: [PATCH 14/14] fix: Do not trust the announced length when an element
 is edited

A hand-written Serialize can announce a length that differs from what it
writes. push, extend_from_slice and truncate then moved octets that were
outside of the buffer of the element.
---
 bsn1/src/der.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 948533f..7b12a0f 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -369,6 +369,7 @@ impl Der {
         T: ?Sized + AsRef<[u8]>,
     {
         let bytes = bytes.as_ref();
+        self.correct_length();
 
         let id_len = self.id().len();
         let old_length = self.length();
@@ -453,6 +454,8 @@ impl Der {
     /// assert_eq!(der.contents().as_ref(), &bytes[..100]); // The contents is changed.
     /// ```
     pub fn truncate(&mut self, new_length: usize) {
+        self.correct_length();
+
         let id_len = self.id().len();
         let old_length = self.length().definite().unwrap();
 
@@ -482,6 +485,18 @@ impl Der {
             self.buffer.set_len(new_total_len);
         }
     }
+
+    /// Makes the 'length octets' match the 'contents octets'.
+    ///
+    /// They differ if `self` was serialized from a value that announced a wrong length.
+    fn correct_length(&mut self) {
+        let (id, length, contents) = self.disassemble();
+
+        let header_len = self.buffer.len() - contents.len();
+        if length != Length::Definite(contents.len()) || header_len != id.len() + length.len() {
+            *self = Self::new(id, contents);
+        }
+    }
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 87515a925d627799d3713f7e465660c55bd7610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 01/36] fix: write blocks larger than 1 MiB with block ciphers

When the block buffer was exactly full the writer accepted no bytes and
never emitted the block, so saving failed with a write-zero error.
Emit the block as soon as the buffer is full.
---
 src/stream/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..ac0d83e 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -124,7 +124,7 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
         let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
         let write_size = usize::min(buf.len(), space_in_buffer);
         self.buffer.extend_from_slice(&buf[0..write_size]);
-        if write_size < buf.len() {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
             // Internal buffer full, write it out
             self.write_block()?;
             self.buffer.clear();
-- 
2.43.0


From 39301c8898ef95393db635f4533f32325265dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 02/36] fix: do not end the data when an empty block buffer is
 flushed

Finishing the gzip encoder flushes the block writer. With nothing
buffered this wrote an empty block, which marks the end of the data, so
compressed archives could not be read back.
---
 src/stream/hmac.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index ac0d83e..6e3db7f 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -133,7 +133,10 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
+        // An empty block marks the end of the data, so must not be written here
+        if !self.buffer.is_empty() {
+            self.write_block()?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From d0820b181d65a7b255435c437ee2e0b4c5045e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 03/36] fix: do not return cipher padding as data

After the last block was partly read, the padding bytes following the
content were handed out too, so raw_xml() ended in padding bytes.
---
 src/stream/block_cipher.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..004be3d 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -52,6 +54,7 @@ where
 {
     fn buffer_next_block(&mut self) -> io::Result<usize> {
         self.buf_idx = 0;
+        self.buf_len = 0;
         let mut buffered_bytes = 0;
 
         if let Some(byte) = self.peek_byte {
@@ -107,10 +110,11 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
+        let mut remaining_in_buffer = self.buf_len - self.buf_idx;
 
-        if remaining_in_buffer == 0 || self.first_read {
+        if remaining_in_buffer == 0 {
             remaining_in_buffer = self.buffer_next_block()?;
+            self.buf_len = remaining_in_buffer;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
         for (i, byte) in buf.iter_mut().enumerate().take(copy_len) {
-- 
2.43.0


From 874069888207bade0a47e8dcf3c1e5b118e1a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 04/36] fix: record only the bytes read when caching the header

A reader returning fewer bytes than asked for made the cached header
contain the unread rest of the buffer, so its checksum failed.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..54a2eff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend_from_slice(&buf[..size]);
         Ok(size)
     }
 }
-- 
2.43.0


From ff7974f0061c2f1da757dd9a418ec3a0bcc3edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 05/36] fix: read the OTP period from the period parameter

---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..acfd3f0 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From 7a0fd8e19a8784fb5256d6935f20ca3846a05a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 06/36] fix: keep base32 padding when reading an OTP secret

The value of a parameter ended at the next '=', which cut off the
padding of the secret.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index acfd3f0..ad94884 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -892,7 +892,7 @@ impl<'a> Otp<'a> {
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
+            let mut param_parts = param.splitn(2, '=');
             let pkey = param_parts.next()?;
             if pkey == key {
                 return param_parts.next();
-- 
2.43.0


From 5af8035b80524e31342fd645d20e5cff49f9cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 07/36] fix: reject out of range times instead of panicking

---
 src/xml/decoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..f125f7c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -22,7 +22,7 @@ pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let mut bytes = [0u8; 8];
     let copy_size = usize::min(bytes.len(), decoded.len());
     bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From cf5b99e8cec8d2e80df18db3d886136abecfe380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:06 +0000
Subject: [PATCH 08/36] fix: use UTC for the times of new items

Times in a database are UTC, and times read from ISO 8601 strings are
converted to UTC, but new groups and entries were given local times.
---
 src/database.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index ad94884..3af0377 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -752,10 +752,7 @@ pub struct Times {
 
 impl Default for Times {
     fn default() -> Times {
-        let now = chrono::Local::now()
-            .naive_local()
-            .with_nanosecond(0)
-            .unwrap();
+        let now = chrono::Utc::now().naive_utc().with_nanosecond(0).unwrap();
         Times {
             expires: false,
             usage_count: 0,
-- 
2.43.0


From 90bed1a571804467486250662f9410cdd59631d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:52 +0000
Subject: [PATCH 09/36] fix: keep empty protected fields protected

A protected field lost its protection when it was cleared, or when it
was saved or read while empty, so a value filled in later was stored in
the clear.
---
 src/database.rs      | 2 +-
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 3af0377..6a6dc3a 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..1f2c132 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -134,6 +134,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if protected {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..e074884 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -58,10 +58,14 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
-- 
2.43.0


From 6b8c7c3d39f833a683ab4072233a9b364483e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:55 +0000
Subject: [PATCH 10/36] fix: keep white space at the ends of text when reading
 XML

Names, field keys and field values lost leading and trailing white space
on reading, and white space only values became empty. Values such as
numbers and times still ignore surrounding white space.
---
 src/xml/parse.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 1f2c132..51ccc71 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -61,10 +61,17 @@ fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option
     Ok(content)
 }
 
+/// Parse a value in which surrounding whitespace has no meaning
+fn parse_token<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<String>> {
+    Ok(parse_string(xml_event_reader)?
+        .map(|token| token.trim().to_string())
+        .filter(|token| !token.is_empty()))
+}
+
 macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
-            parse_string(xml_event_reader)?
+            parse_token(xml_event_reader)?
                 .map(|num| num.parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
@@ -75,19 +82,19 @@ macro_rules! parse_numeric_type {
 parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
-    parse_string(xml_event_reader)?
+    parse_token(xml_event_reader)?
         .and_then(|uuid| decode_uuid(&uuid))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
-    parse_string(xml_event_reader)?
+    parse_token(xml_event_reader)?
         .and_then(|dt| decode_datetime(&dt))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
-    Ok(parse_string(xml_event_reader)?
+    Ok(parse_token(xml_event_reader)?
         .map(|b| b.to_lowercase() == "true")
         .unwrap_or_default())
 }
@@ -115,7 +122,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD.decode(contents.trim()) {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -372,7 +379,7 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0


From 0bbcff51b97e5e03a5c94869b231a8a278c756af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 11/36] fix: refuse to write text that XML cannot represent

Control characters and other characters not allowed in XML were written
as they are, which gave a file that could not be opened again.
---
 src/xml/serialize.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index e074884..e6ddc74 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -16,10 +16,18 @@ pub enum Error {
     /// Failure of stream cipher when encrypting a value
     #[error("Error encountered encrypting with a stream cipher: {0}")]
     Cipher(String),
+    /// A text contains a character that cannot be stored in an XML document
+    #[error("Text contains a character not allowed in XML: {0:?}")]
+    UnsupportedCharacter(char),
 }
 
 type Result<T> = std::result::Result<T, Error>;
 
+/// Whether a character may occur in an XML 1.0 document, even if escaped
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
+}
+
 fn write_bool_tag<W: Write>(writer: &mut XmlWriter<W>, name: &str, value: bool) -> Result<()> {
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(if value { "True" } else { "False" }))?;
@@ -32,6 +40,9 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     name: &str,
     value: S,
 ) -> Result<()> {
+    if let Some(c) = value.as_ref().chars().find(|c| !is_xml_char(*c)) {
+        return Err(Error::UnsupportedCharacter(c));
+    }
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(value.as_ref()))?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From 1621342b73d6ebd12b08043a141ffbd1262023ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:11 +0000
Subject: [PATCH 12/36] fix: refuse to write fields without a name

Reading rejects such fields, so a file containing one could not be
opened again.
---
 src/xml/serialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index e6ddc74..c705eed 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -19,6 +19,9 @@ pub enum Error {
     /// A text contains a character that cannot be stored in an XML document
     #[error("Text contains a character not allowed in XML: {0:?}")]
     UnsupportedCharacter(char),
+    /// A field has an empty name
+    #[error("A field has an empty name")]
+    KeyEmptyName,
 }
 
 type Result<T> = std::result::Result<T, Error>;
@@ -55,6 +58,9 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
     field: &Field,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    if field.key.is_empty() {
+        return Err(Error::KeyEmptyName);
+    }
     writer.write(XmlEvent::start_element(wrapper))?;
     write_string_tag(writer, "Key", &field.key)?;
     match &field.value {
-- 
2.43.0


From b878c46ee58c846377bc05de325ea907917a964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:38 +0000
Subject: [PATCH 13/36] fix: stop reading XML without a KeePassFile element

Such a document made the parser wait for the end of the KeePassFile
element forever.
---
 src/xml/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 51ccc71..b9b3598 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -362,6 +362,7 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
+            XmlEvent::EndDocument => return Err(Error::Xml("No KeePassFile element".into())),
             _ => {}
         }
     }
-- 
2.43.0


From d2119a508e310722f41d856bad4874b7b9a520aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:38 +0000
Subject: [PATCH 14/36] fix: keep a root group when the XML has none

The database is expected to have a root group, so accessing one read
from an empty Root element panicked.
---
 src/xml/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b9b3598..d9d8523 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -356,7 +356,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
-                db.groups = parse_root(xml_event_reader, stream_cipher)?;
+                let groups = parse_root(xml_event_reader, stream_cipher)?;
+                if !groups.is_empty() {
+                    db.groups = groups;
+                }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
-- 
2.43.0


From 8cf425b1fab7b9ad8cc6fa96eef6ef1db4d7ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:49 +0000
Subject: [PATCH 15/36] fix: keep the key stream in step across unsupported
 elements

All protected values of a document share one key stream. Protected
values in elements this library does not support, such as attachments
in KDBX 3 files, did not advance it, so all later values were garbled.
Elements nested in unsupported ones are no longer mistaken for the end
of the enclosing element.
---
 src/xml/parse.rs | 109 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 94 insertions(+), 15 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index d9d8523..868a57d 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -8,6 +8,7 @@ use cipher::StreamCipher;
 use std::io::Read;
 use thiserror::Error;
 use uuid::Uuid;
+use xml::attribute::OwnedAttribute;
 use xml::reader::{EventReader, XmlEvent};
 
 #[derive(Debug, Error)]
@@ -99,6 +100,48 @@ fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
         .unwrap_or_default())
 }
 
+fn is_protected(attributes: &[OwnedAttribute]) -> bool {
+    attributes
+        .iter()
+        .any(|attr| attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true")
+}
+
+/// Skip an element that is not supported by this library, along with its content
+///
+/// All protected values share one key stream, so it has to be advanced for
+/// the protected values that are skipped too.
+fn skip_element<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    attributes: &[OwnedAttribute],
+    stream_cipher: &mut S,
+) -> Result<()> {
+    let mut protected_values = vec![is_protected(attributes).then(String::new)];
+    while let Some(current) = protected_values.last_mut() {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { attributes, .. } => {
+                protected_values.push(is_protected(&attributes).then(String::new));
+            }
+            XmlEvent::Characters(chardata) => {
+                if let Some(value) = current {
+                    value.push_str(&chardata);
+                }
+            }
+            XmlEvent::EndElement { .. } => {
+                let value = protected_values.pop().flatten().unwrap_or_default();
+                if let Ok(mut decoded) = BASE64_STANDARD.decode(value.trim()) {
+                    stream_cipher
+                        .try_apply_keystream(decoded.as_mut())
+                        .map_err(|e| {
+                            Error::DecryptFailed(format!("Failed to apply stream cipher: {}", e))
+                        })?;
+                }
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn parse_field<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     tag_name: &str,
@@ -115,9 +158,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement {
                 name, attributes, ..
             } if &name.local_name == "Value" => {
-                let protected = attributes.iter().any(|attr| {
-                    attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true"
-                });
+                let protected = is_protected(&attributes);
                 field.value = if let Some(contents) = parse_string(xml_event_reader)? {
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
@@ -147,6 +188,9 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     Value::Empty
                 }
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if name.local_name == tag_name => break,
             _ => {}
         }
@@ -164,6 +208,9 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
                 history.push(parse_entry(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "History" => break,
             _ => {}
         }
@@ -171,11 +218,16 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     Ok(history)
 }
 
-fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times> {
+fn parse_times<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<Times> {
     let mut times = Times::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "LastModificationTime" {
                     times.last_modification_time = parse_datetime(xml_event_reader)?;
                 } else if &name.local_name == "LastAccessTime" {
@@ -190,6 +242,8 @@ fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times>
                     times.expires = parse_bool(xml_event_reader)?;
                 } else if &name.local_name == "UsageCount" {
                     times.usage_count = parse_u32(xml_event_reader)?.unwrap_or_default();
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Times" => break,
@@ -206,7 +260,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "History" {
                     entry.history = parse_history(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "String" {
@@ -214,7 +270,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "UUID" {
                     entry.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Times" {
-                    entry.times = parse_times(xml_event_reader)?;
+                    entry.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Entry" => break,
@@ -231,7 +289,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "Group" {
                     group.add_group(parse_group(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Entry" {
@@ -241,7 +301,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "Name" {
                     group.set_name(parse_string(xml_event_reader)?.unwrap_or_default());
                 } else if &name.local_name == "Times" {
-                    group.times = parse_times(xml_event_reader)?;
+                    group.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Group" => break,
@@ -261,6 +323,9 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
                 groups.push(parse_group(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Root" => break,
             _ => {}
         }
@@ -278,6 +343,9 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Item" => {
                 fields.push(parse_field(xml_event_reader, "Item", stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "CustomData" => break,
             _ => {}
         }
@@ -285,13 +353,16 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
     Ok(fields)
 }
 
-fn parse_memory_protection<R: Read>(
+fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
 ) -> Result<MemoryProtection> {
     let mut protection = MemoryProtection::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "ProtectTitle" => {
                     protection.protect_title = parse_bool(xml_event_reader)?;
                 }
@@ -307,7 +378,7 @@ fn parse_memory_protection<R: Read>(
                 "ProtectNotes" => {
                     protection.protect_notes = parse_bool(xml_event_reader)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "MemoryProtection" => break,
             _ => {}
@@ -323,7 +394,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     let mut meta = Meta::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -337,9 +410,10 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                     meta.custom_data = parse_custom_data(xml_event_reader, stream_cipher)?;
                 }
                 "MemoryProtection" => {
-                    meta.memory_protection = parse_memory_protection(xml_event_reader)?;
+                    meta.memory_protection =
+                        parse_memory_protection(xml_event_reader, stream_cipher)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "Meta" => break,
             _ => {}
@@ -364,6 +438,11 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } if &name.local_name != "KeePassFile" => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
             XmlEvent::EndDocument => return Err(Error::Xml("No KeePassFile element".into())),
             _ => {}
-- 
2.43.0


From 72d217c13d301fc919395b2bcf932e6aa9d736ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:45 +0000
Subject: [PATCH 16/36] fix: reject header fields of the wrong size instead of
 panicking

Files with a truncated transform round count or inner stream cipher ID
caused an out of bounds access.
---
 src/binary/errors.rs |  3 +++
 src/binary/header.rs | 38 ++++++++++++++++++++++++--------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index fb9cef6..4f5ef04 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -59,6 +59,9 @@ pub enum HeaderError {
     /// A supported field had an unexpected format
     #[error("Incompatible database - Malformed field of type {0:?}: {1}")]
     MalformedField(header::OuterHeaderId, String),
+    /// A supported field in the encrypted header had an unexpected format
+    #[error("Incompatible database - Malformed inner field of type {0:?}: {1}")]
+    MalformedInnerField(header::InnerHeaderId, String),
     /// A required field is missing in the unencrypted header
     #[error("Incompatible database - Missing required field of type {0:?}")]
     MissingRequiredField(header::OuterHeaderId),
diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..94cbd88 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -266,34 +266,39 @@ impl KdbxHeaderBuilder {
         Ok(())
     }
 
-    fn get_kdf_params(&mut self) -> Option<header_fields::KdfParams> {
+    fn get_kdf_params(&mut self) -> Result<Option<header_fields::KdfParams>> {
         if self.kdf_params.is_some() {
-            self.kdf_params.take()
+            Ok(self.kdf_params.take())
         } else {
             let rounds = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
                 .map(|h| {
-                    let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
-                });
+                    h.data
+                        .as_slice()
+                        .try_into()
+                        .map(u64::from_le_bytes)
+                        .map_err(|_| {
+                            Error::MalformedField(h.ty, "Wrong size for transform rounds".into())
+                        })
+                })
+                .transpose()?;
             let seed = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformSeed)
                 .map(|h| h.data.clone());
 
-            match (rounds, seed) {
+            Ok(match (rounds, seed) {
                 (Some(r), Some(s)) => Some(header_fields::KdfParams::Aes { rounds: r, salt: s }),
                 _ => None,
-            }
+            })
         }
     }
 
     fn build(mut self) -> Result<KdbxHeader> {
-        let kdf_params = self.get_kdf_params();
+        let kdf_params = self.get_kdf_params()?;
         Ok(KdbxHeader {
             cipher: self
                 .cipher
@@ -445,9 +450,10 @@ impl KdbxInnerHeaderBuilder {
     fn add_header(&mut self, header: HeaderField<InnerHeaderId>) -> Result<()> {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
-                let d = header.data;
-                self.inner_stream_cipher =
-                    Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
+                let id = header.data.as_slice().try_into().map_err(|_| {
+                    Error::MalformedInnerField(header.ty, "Wrong size for cipher ID".into())
+                })?;
+                self.inner_stream_cipher = Some(u32::from_le_bytes(id).into());
             }
             InnerHeaderId::InnerRandomStreamKey => self.inner_stream_key = Some(header.data),
             _ => self.other_headers.push(header),
@@ -501,8 +507,12 @@ impl KdbxInnerHeader {
             ))?
             .data
             .clone();
-        let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
+        let cipher_id_buf = cipher.as_slice().try_into().map_err(|_| {
+            Error::MalformedField(
+                OuterHeaderId::InnerRandomStreamId,
+                "Wrong size for cipher ID".into(),
+            )
+        })?;
         let cipher_id = u32::from_le_bytes(cipher_id_buf);
 
         Ok(KdbxInnerHeader {
-- 
2.43.0


From f10a5fbac226e589d02e20ff1978661c9423348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:15 +0000
Subject: [PATCH 17/36] fix: do not allocate memory for data that is not there

A length field in a damaged file could make the library allocate up to
4 GiB before noticing that the data ends early.
---
 src/binary/header.rs |  3 +--
 src/stream/hmac.rs   |  4 ++--
 src/stream/kdbx3.rs  |  4 ++--
 src/utils.rs         | 14 +++++++++++++-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 94cbd88..f5a0d9c 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -184,8 +184,7 @@ where
             self.reader.read_exact(&mut len_buffer)?;
             u16::from_le_bytes(len_buffer) as u32
         };
-        let mut header_buffer = utils::buffer(len as usize);
-        self.reader.read_exact(&mut header_buffer)?;
+        let header_buffer = utils::read_bytes(self.reader, len as usize)?;
 
         Ok(HeaderField {
             ty,
diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 6e3db7f..99ec321 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -1,6 +1,7 @@
 pub const HMAC_WRITE_BLOCK_SIZE: usize = 1024 * 1024;
 
 use crate::crypto::HmacKey;
+use crate::utils;
 use std::io::{self, Read, Write};
 
 pub(crate) struct HMacReader<R>
@@ -31,8 +32,7 @@ impl<R: io::Read> HMacReader<R> {
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
         let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_bytes(&mut self.inner, len)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..8ba72dc 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -1,4 +1,5 @@
 use crate::crypto;
+use crate::utils;
 use std::io::{self, Read};
 
 pub struct HashedBlockReader<R>
@@ -30,8 +31,7 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_bytes(&mut self.inner, len)?;
         self.buf_idx = 0;
         if crypto::verify_sha256(&self.buffer, &hash_buf) {
             Ok(len)
diff --git a/src/utils.rs b/src/utils.rs
index 54a2eff..32dbfe7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,7 @@
 //! Utilities to help working with kdbx-rs
 
 use std::fmt::Write;
-use std::io;
+use std::io::{self, Read};
 use uuid::Uuid;
 
 use crate::binary::KdfAlgorithm;
@@ -38,6 +38,18 @@ pub(crate) fn buffer(len: usize) -> Vec<u8> {
     v
 }
 
+/// Read exactly `len` bytes
+///
+/// Memory is only allocated as data arrives, as `len` may come from a damaged file.
+pub(crate) fn read_bytes<R: io::Read>(input: &mut R, len: usize) -> io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    input.take(len as u64).read_to_end(&mut data)?;
+    if data.len() < len {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(data)
+}
+
 pub(crate) struct CachingReader<'a, I>
 where
     I: io::Read,
-- 
2.43.0


From 236b488ab9f64d1a1e594c8d49ebae9134d44fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:16 +0000
Subject: [PATCH 18/36] fix: reject negative lengths in variant dictionaries

They were turned into huge allocations, which panicked.
---
 src/binary/variant_dict.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..de2d94c 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -1,4 +1,4 @@
-use crate::utils::buffer;
+use crate::utils::read_bytes;
 use derive_more::TryInto;
 use std::collections::HashMap;
 use std::io::{self, Read};
@@ -150,15 +150,13 @@ fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, V
     let mut length_buffer = [0u8; 4];
 
     input.read_exact(&mut length_buffer)?;
-    let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
-    input.read_exact(&mut key_buffer)?;
+    let key_length = u32::from_le_bytes(length_buffer);
+    let key_buffer = read_bytes(input, key_length as usize)?;
     let key = String::from_utf8(key_buffer)?;
 
     input.read_exact(&mut length_buffer)?;
-    let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
-    input.read_exact(&mut value_buffer)?;
+    let value_length = u32::from_le_bytes(length_buffer);
+    let value_buffer = read_bytes(input, value_length as usize)?;
 
     let value = Value::from_bytes(ty, value_buffer)?;
 
-- 
2.43.0


From f3233e64148127c8e987afb5f8de9c4f0e3f3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:17 +0000
Subject: [PATCH 19/36] fix: report AES KDF seeds of the wrong size instead of
 panicking

---
 src/crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..7f50c53 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -90,7 +90,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
-- 
2.43.0


From 7d410fde3f53cc26c62fe7b809ccb0f81142e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:18 +0000
Subject: [PATCH 20/36] fix: refuse unknown KDFs instead of using an empty key

With an unknown KDF the master key was empty, so a saved archive could
be opened without knowing the credentials.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 7f50c53..f81460e 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -108,7 +108,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            _ => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From 343c66585fc322b5b48870ab9a90682b7ed499a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:18 +0000
Subject: [PATCH 21/36] fix: refuse Argon2i when deriving a key

KDBX has no identifier for Argon2i. Setting a key was possible, but
saving the archive panicked.
---
 src/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f81460e..74b6b11 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -73,7 +73,7 @@ impl ComposedKey {
                 iterations,
                 lanes,
                 salt,
-            } => {
+            } if *variant != argon2::Variant::Argon2i => {
                 let config = argon2::Config {
                     variant: *variant,
                     version: argon2::Version::from_u32(*version)
-- 
2.43.0


From 335bddf515019eed930e692855fa8ed383bd8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:19 +0000
Subject: [PATCH 22/36] fix: reject Argon2 costs that do not fit instead of
 truncating them

Only the low 32 bits were used, so very high settings silently resulted
in a weak key.
---
 src/crypto.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 74b6b11..21197c4 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -79,8 +79,10 @@ impl ComposedKey {
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
+                    time_cost: u32::try_from(*iterations)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From d8faf2b06ed92d6addcea95c263831911662becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:20 +0000
Subject: [PATCH 23/36] fix: report ChaCha20 IVs of the wrong size instead of
 panicking

---
 src/stream/pipeline.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..116ce32 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -17,6 +17,15 @@ use super::{
     HmacWriter, StreamCipherWriterExt,
 };
 
+fn chacha20_cipher(key: &crypto::CipherKey, iv: &[u8]) -> io::Result<ChaCha20> {
+    ChaCha20::new_from_slices(&key.0, iv).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid cipher params - Could not create ChaCha20 cipher".to_string(),
+        )
+    })
+}
+
 fn block_cipher_read_stream<C, R>(
     inner: R,
     key: crypto::CipherKey,
@@ -51,7 +60,7 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +252,7 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
-- 
2.43.0


From 06afe4189cfaf31580828a00ddaf6148a6077da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:35 +0000
Subject: [PATCH 24/36] fix: reject KDBX 3 files without stream start bytes
 instead of panicking

---
 src/binary/kdbx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..5b8ed65 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -337,13 +337,16 @@ impl Kdbx<Locked> {
         master_key: &crypto::MasterKey,
     ) -> Result<(header::KdbxInnerHeader, Vec<u8>), errors::UnlockError> {
         let cipher_key = master_key.cipher_key(&self.state.header.master_seed);
+        let start_bytes = self.state.header.stream_start_bytes.as_ref().ok_or(
+            errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+        )?;
         let mut input_stream = stream::kdbx3_read_stream(
             &*self.state.encrypted_data,
             cipher_key,
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            start_bytes,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
-- 
2.43.0


From 2c52537eb1f52e1d92efa3f4445fdee177db008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:45 +0000
Subject: [PATCH 25/36] fix: report wrong credentials for KDBX 3 files as such

The error kind for failed start bytes existed but a generic decryption
error was returned.
---
 src/stream/pipeline.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 116ce32..189c98a 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -1,4 +1,5 @@
 use crate::binary;
+use crate::binary::errors::UnlockError;
 use crate::crypto;
 use std::io;
 
@@ -81,16 +82,15 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     iv: &[u8],
     compression: binary::CompressionType,
     expected_start_bytes: &[u8],
-) -> io::Result<Box<dyn io::Read + 'a>> {
+) -> Result<Box<dyn io::Read + 'a>, UnlockError> {
     let buffered = io::BufReader::new(inner);
     let mut decrypted = decryption_stream(buffered, cipher_key, cipher, iv)?;
     let mut start_bytes = [0u8; 32];
-    decrypted.read_exact(&mut start_bytes)?;
+    decrypted
+        .read_exact(&mut start_bytes)
+        .map_err(|_| UnlockError::StartBytesInvalid)?;
     if start_bytes != expected_start_bytes {
-        return Err(io::Error::new(
-            io::ErrorKind::InvalidData,
-            "Could not validate start bytes",
-        ));
+        return Err(UnlockError::StartBytesInvalid);
     }
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
@@ -100,7 +100,8 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!("Unsupported compression type {:?}", compression),
-            ))
+            )
+            .into())
         }
     };
 
-- 
2.43.0


From f76735498f013d31f436b2ffdfeb467eec02af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:04 +0000
Subject: [PATCH 26/36] fix: accept the final block of KDBX 3 files

The final block of KDBX 3 data is empty and has a hash of all zeroes.
It failed verification, so uncompressed KDBX 3 files could not be read.
---
 src/stream/kdbx3.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 8ba72dc..84b9119 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -9,6 +9,7 @@ where
     inner: R,
     buffer: Vec<u8>,
     buf_idx: usize,
+    finished: bool,
 }
 
 impl<R> HashedBlockReader<R>
@@ -20,6 +21,7 @@ where
             inner,
             buffer: Vec::new(),
             buf_idx: 0,
+            finished: false,
         }
     }
 
@@ -33,7 +35,11 @@ where
         let len = u32::from_le_bytes(len_buf) as usize;
         self.buffer = utils::read_bytes(&mut self.inner, len)?;
         self.buf_idx = 0;
-        if crypto::verify_sha256(&self.buffer, &hash_buf) {
+        self.finished = len == 0;
+        // The final block is empty, and has zeroes in place of its hash
+        if (self.finished && hash_buf == [0u8; 32])
+            || crypto::verify_sha256(&self.buffer, &hash_buf)
+        {
             Ok(len)
         } else {
             Err(io::Error::new(
@@ -51,7 +57,7 @@ where
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
 
-        if remaining_in_buffer == 0 {
+        if remaining_in_buffer == 0 && !self.finished {
             remaining_in_buffer = self.buffer_next_block()?;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
-- 
2.43.0


From 52e0d11d6e0507cbe95a3cc5887b3e39de61bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:57 +0000
Subject: [PATCH 27/36] fix: verify all blocks of compressed archives

The gzip decoder stops at the end of the compressed data, so blocks
after it were never read. An archive whose final block was missing or
altered was accepted.
---
 src/stream/hmac.rs     |  5 ++++-
 src/stream/pipeline.rs | 26 ++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 99ec321..07a44ce 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -11,6 +11,7 @@ where
     block_idx: u64,
     buf_idx: usize,
     buffer: Vec<u8>,
+    finished: bool,
     inner: R,
     hmac_key: HmacKey,
 }
@@ -21,6 +22,7 @@ impl<R: io::Read> HMacReader<R> {
             block_idx: 0,
             buf_idx: 0,
             buffer: Vec::new(),
+            finished: false,
             inner,
             hmac_key,
         }
@@ -45,6 +47,7 @@ impl<R: io::Read> HMacReader<R> {
         }
         self.buf_idx = 0;
         self.block_idx += 1;
+        self.finished = len == 0;
         Ok(len)
     }
 }
@@ -53,7 +56,7 @@ impl<R: Read> Read for HMacReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
 
-        if remaining_in_buffer == 0 {
+        if remaining_in_buffer == 0 && !self.finished {
             remaining_in_buffer = self.buffer_next_block()?;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 189c98a..0cfc428 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -75,6 +75,28 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
     Ok(stream)
 }
 
+/// Gzip decoder that reads its source to the end
+///
+/// The compressed data has an end marker of its own, but the blocks following
+/// it have to be verified too, or a truncated file would not be noticed.
+struct GzipReader<R: io::Read>(libflate::gzip::Decoder<R>);
+
+impl<R: io::Read> GzipReader<R> {
+    fn new(inner: R) -> io::Result<GzipReader<R>> {
+        Ok(GzipReader(libflate::gzip::Decoder::new(inner)?))
+    }
+}
+
+impl<R: io::Read> io::Read for GzipReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let read = self.0.read(buf)?;
+        if read == 0 && !buf.is_empty() {
+            io::copy(self.0.as_inner_mut(), &mut io::sink())?;
+        }
+        Ok(read)
+    }
+}
+
 pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     inner: R,
     cipher_key: crypto::CipherKey,
@@ -95,7 +117,7 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(verified),
-        binary::CompressionType::Gzip => Box::new(libflate::gzip::Decoder::new(verified)?),
+        binary::CompressionType::Gzip => Box::new(GzipReader::new(verified)?),
         binary::CompressionType::Unknown(_) => {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
@@ -121,7 +143,7 @@ pub(crate) fn kdbx4_read_stream<'a, R: io::Read + 'a>(
     let decrypted = decryption_stream(verified, cipher_key, cipher, iv)?;
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(decrypted),
-        binary::CompressionType::Gzip => Box::new(libflate::gzip::Decoder::new(decrypted)?),
+        binary::CompressionType::Gzip => Box::new(GzipReader::new(decrypted)?),
         binary::CompressionType::Unknown(_) => {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
-- 
2.43.0


From 71cdf2a10fb2e8abe4b6cdca9a66d07ea16af9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:35 +0000
Subject: [PATCH 28/36] fix: verify the header hash of KDBX 3 archives

KDBX 3 has no signature for the header, but stores a hash of it in the
encrypted XML. It was ignored, so changes to the header went unnoticed.
---
 src/binary/kdbx.rs | 11 +++++++++++
 src/xml/parse.rs   | 34 ++++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 5b8ed65..b9ed45e 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -1,5 +1,6 @@
 use super::{errors, header};
 use crate::{crypto, database, stream};
+use base64::prelude::{Engine, BASE64_STANDARD};
 use std::io::{Read, Write};
 use std::ops::{Deref, DerefMut};
 
@@ -354,6 +355,15 @@ impl Kdbx<Locked> {
         Ok((inner_header, output_buffer))
     }
 
+    /// Check the header against the hash stored in the encrypted XML, if there is one
+    fn verify_header_hash(&self, xml_data: &[u8]) -> Result<(), errors::UnlockError> {
+        let expected = BASE64_STANDARD.encode(crypto::sha256(&self.state.header_data));
+        match crate::xml::parse::parse_header_hash(xml_data)? {
+            Some(hash) if hash != expected => Err(errors::HeaderError::ChecksumFailed.into()),
+            _ => Ok(()),
+        }
+    }
+
     #[allow(clippy::result_large_err)]
     fn unlock_v3(self, key: &crypto::CompositeKey) -> Result<Kdbx<Unlocked>, FailedUnlock> {
         let composed_key = key.composed();
@@ -369,6 +379,7 @@ impl Kdbx<Locked> {
                     .inner_stream_cipher
                     .stream_cipher(inner_header.inner_stream_key.as_ref())?;
                 let parsed = crate::xml::parse_xml(data.as_slice(), stream_cipher.as_mut())?;
+                self.verify_header_hash(&data)?;
                 Ok((inner_header, data, parsed))
             });
         match parsed {
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 868a57d..157add7 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -451,6 +451,35 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     Ok(db)
 }
 
+fn parser_config() -> xml::ParserConfig {
+    xml::ParserConfig::new()
+        .whitespace_to_characters(true)
+        .cdata_to_characters(true)
+}
+
+/// Find the hash of the unencrypted header that KDBX 3 archives store in their XML
+pub(crate) fn parse_header_hash<R: Read>(xml_data: R) -> Result<Option<String>> {
+    let mut xml_event_reader = EventReader::new_with_config(xml_data, parser_config());
+    let mut path = Vec::new();
+    loop {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { name, .. } => {
+                path.push(name.local_name);
+                if path == ["KeePassFile", "Meta", "HeaderHash"] {
+                    return parse_token(&mut xml_event_reader);
+                }
+            }
+            XmlEvent::EndElement { .. } => {
+                path.pop();
+                if path.is_empty() {
+                    return Ok(None);
+                }
+            }
+            _ => {}
+        }
+    }
+}
+
 /// Parse decrypted XML into a database
 ///
 /// If you need to obtain a stream cipher, consider using
@@ -461,9 +490,6 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     xml_data: R,
     stream_cipher: &mut S,
 ) -> Result<Database> {
-    let xml_config = xml::ParserConfig::new()
-        .whitespace_to_characters(true)
-        .cdata_to_characters(true);
-    let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
+    let mut xml_event_reader = EventReader::new_with_config(xml_data, parser_config());
     parse_file(&mut xml_event_reader, stream_cipher)
 }
-- 
2.43.0


From 64b62ba6f3efe3afdcecf268759ebb48b77b7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 29/36] fix: write locked archives unchanged

Writing a locked archive serialized its header again. The result could
not be unlocked, as the order of the KDF parameters is random but is
covered by the signature, and as KDBX 3 headers have another layout.
Write the header as it was read, and refuse to write a changed header,
which needs the keys to be signed.
---
 src/binary/header.rs |  2 +-
 src/binary/kdbx.rs   | 17 ++++++++---------
 src/binary/read.rs   |  1 +
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index f5a0d9c..385aa9d 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -319,7 +319,7 @@ impl KdbxHeaderBuilder {
     }
 }
 
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 /// Unencrypted database configuration and custom data
 ///
 /// [`KdbxHeader::from_os_random()`] will provide a header with
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index b9ed45e..9174223 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -252,6 +252,8 @@ impl DerefMut for Kdbx<Unlocked> {
 pub struct Locked {
     /// Header data of the kdbx archive, includes unencrypted metadata
     pub(crate) header: header::KdbxHeader,
+    /// Header data as covered by the checksums, without later changes
+    pub(crate) signed_header: header::KdbxHeader,
     /// Raw bytes of header data, useful for checksums
     pub(crate) header_data: Vec<u8>,
     /// Major version of the database file format
@@ -282,16 +284,13 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        if self.header != self.signed_header {
+            // The header can not be signed again without the keys
+            return Err(errors::WriteError::MissingKeys);
+        }
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
diff --git a/src/binary/read.rs b/src/binary/read.rs
index d28b66d..809b4a6 100644
--- a/src/binary/read.rs
+++ b/src/binary/read.rs
@@ -46,6 +46,7 @@ pub fn from_reader<R: Read>(mut input: R) -> Result<Kdbx<Locked>, errors::OpenEr
     input.read_to_end(&mut encrypted_data)?;
 
     let state = Locked {
+        signed_header: header.clone(),
         header,
         header_data,
         major_version,
-- 
2.43.0


From 0fc69673e565e1f0fedb237d127c91fdffe4abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 30/36] fix: flush the output after writing an archive

Errors of buffered outputs were lost, as dropping a buffered writer
ignores them.
---
 src/binary/kdbx.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 9174223..4a60e6b 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -163,6 +163,7 @@ impl KdbxState for Unlocked {
         output.write_all(&hmac.into_bytes())?;
         let encrypted_xml = self.encrypt_inner(master_key)?;
         output.write_all(&encrypted_xml)?;
+        output.flush()?;
         Ok(())
     }
 }
@@ -294,6 +295,7 @@ impl KdbxState for Locked {
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
+        output.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 875a024e77b08bbe7193669b1f5528db4c7cf25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:55 +0000
Subject: [PATCH 31/36] fix: refuse to write unlocked KDBX 3 archives

They were written as KDBX 4 data with a KDBX 3 version number, which no
program can read. Only reading KDBX 3 is supported.
---
 src/binary/errors.rs | 3 +++
 src/binary/kdbx.rs   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 4f5ef04..0a70e20 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -91,6 +91,9 @@ pub enum WriteError {
     /// The database could not be written to as `set_key()` has not been called.
     #[error("No key to write database with")]
     MissingKeys,
+    /// Writing archives of this KDBX version is not supported
+    #[error("Writing kdbx version {0} is not supported")]
+    UnsupportedMajorVersion(u16),
     /// The inner stream is invalid
     #[error("Cannot create inner stream to write protected values - {0}")]
     InnerStream(#[from] InnerStreamError),
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 4a60e6b..8632665 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -142,6 +142,11 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        if self.major_version < 4 {
+            return Err(errors::WriteError::UnsupportedMajorVersion(
+                self.major_version,
+            ));
+        }
         let master_key = self
             .master_key
             .as_ref()
-- 
2.43.0


From 7f5f4cb16f67d7315ef0b9264c3da623569be032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:12 +0000
Subject: [PATCH 32/36] fix: keep the previous key when setting a new one fails

---
 src/binary/kdbx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 8632665..095fb7b 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -189,9 +189,9 @@ impl Kdbx<Unlocked> {
         &mut self,
         key: crypto::CompositeKey,
     ) -> Result<(), crate::errors::KeyGenerationError> {
-        self.state.composed_key = Some(key.composed());
-        let composed_key = self.state.composed_key.as_ref().unwrap();
+        let composed_key = key.composed();
         self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        self.state.composed_key = Some(composed_key);
 
         Ok(())
     }
-- 
2.43.0


From 02bc908661a11ee35f2e7bf31e848958a0f6e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:28 +0000
Subject: [PATCH 33/36] fix: use the current KDF parameters when writing

Parameters changed after the key was set ended up in the header of the
written archive, while its key was generated with the old ones, so it
could not be unlocked. Generate the key again if they have changed.
---
 src/binary/errors.rs |  3 +++
 src/binary/kdbx.rs   | 20 ++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 0a70e20..45568f3 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -94,6 +94,9 @@ pub enum WriteError {
     /// Writing archives of this KDBX version is not supported
     #[error("Writing kdbx version {0} is not supported")]
     UnsupportedMajorVersion(u16),
+    /// There was some error generating the keys, likely unsupported KDF options
+    #[error("Key generation failed - {0}")]
+    KeyGen(#[from] crypto::KeyGenerationError),
     /// The inner stream is invalid
     #[error("Cannot create inner stream to write protected values - {0}")]
     InnerStream(#[from] InnerStreamError),
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 095fb7b..688bf18 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -91,6 +91,8 @@ pub struct Unlocked {
     pub(crate) composed_key: Option<crypto::ComposedKey>,
     /// Master key used to derive other keys
     pub(crate) master_key: Option<crypto::MasterKey>,
+    /// KDF parameters the master key was generated with
+    pub(crate) master_key_params: Option<super::KdfParams>,
     /// Unencrypted unparsed XML data
     pub(crate) xml_data: Option<Vec<u8>>,
     /// Actual password database data
@@ -147,10 +149,20 @@ impl KdbxState for Unlocked {
                 self.major_version,
             ));
         }
-        let master_key = self
-            .master_key
+        let composed_key = self
+            .composed_key
             .as_ref()
             .ok_or(errors::WriteError::MissingKeys)?;
+        let kdf_params = &self.header.kdf_params;
+        let new_master_key;
+        let master_key = match self.master_key {
+            Some(ref key) if self.master_key_params.as_ref() == Some(kdf_params) => key,
+            _ => {
+                // The KDF parameters were changed after the key was set
+                new_master_key = composed_key.master_key(kdf_params)?;
+                &new_master_key
+            }
+        };
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
         header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
@@ -191,6 +203,7 @@ impl Kdbx<Unlocked> {
     ) -> Result<(), crate::errors::KeyGenerationError> {
         let composed_key = key.composed();
         self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        self.state.master_key_params = Some(self.header().kdf_params.clone());
         self.state.composed_key = Some(composed_key);
 
         Ok(())
@@ -233,6 +246,7 @@ impl Kdbx<Unlocked> {
             xml_data: None,
             composed_key: None,
             master_key: None,
+            master_key_params: None,
             database,
         };
         Kdbx { state: unlocked }
@@ -392,6 +406,7 @@ impl Kdbx<Locked> {
             Ok((inner_header, data, db)) => Ok(Kdbx {
                 state: Unlocked {
                     inner_header,
+                    master_key_params: Some(self.state.header.kdf_params.clone()),
                     header: self.state.header,
                     major_version: self.state.major_version,
                     minor_version: self.state.minor_version,
@@ -432,6 +447,7 @@ impl Kdbx<Locked> {
                 Ok((inner_header, data, db)) => Ok(Kdbx {
                     state: Unlocked {
                         inner_header,
+                        master_key_params: Some(self.state.header.kdf_params.clone()),
                         header: self.state.header,
                         major_version: self.state.major_version,
                         minor_version: self.state.minor_version,
-- 
2.43.0


From f807faecd396cf75695b1ab70f55347471ef9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:28 +0000
Subject: [PATCH 34/36] fix: print the usage of the tools when arguments are
 missing

The list of arguments always contains the program name, so the check
never applied and the tools panicked instead.
---
 src/bin/kdbx_decrypt.rs     | 3 ++-
 src/bin/kdbx_dump_header.rs | 3 ++-
 src/bin/kdbx_parse.rs       | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/kdbx_decrypt.rs b/src/bin/kdbx_decrypt.rs
index 87c47f9..6afd7d2 100644
--- a/src/bin/kdbx_decrypt.rs
+++ b/src/bin/kdbx_decrypt.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
+    if args.len() < 2 {
         println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+        return Ok(());
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
diff --git a/src/bin/kdbx_dump_header.rs b/src/bin/kdbx_dump_header.rs
index 5582ac6..8550aa0 100644
--- a/src/bin/kdbx_dump_header.rs
+++ b/src/bin/kdbx_dump_header.rs
@@ -39,8 +39,9 @@ fn print_kdf(params: &kdbx_rs::binary::KdfParams) {
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
+    if args.len() < 2 {
         println!("Usage: kdbx-dump-header <path to kdbx file>");
+        return Ok(());
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let header = kdbx.header();
diff --git a/src/bin/kdbx_parse.rs b/src/bin/kdbx_parse.rs
index 4e1e525..00bffc8 100644
--- a/src/bin/kdbx_parse.rs
+++ b/src/bin/kdbx_parse.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
+    if args.len() < 2 {
         println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+        return Ok(());
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
-- 
2.43.0


From 3f9327552d593297a38eecdb58519ccf605fd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:17 +0000
Subject: [PATCH 35/36] fix: escape carriage returns when writing XML

---
 src/xml/serialize.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index c705eed..34a3ea3 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -46,8 +46,15 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     if let Some(c) = value.as_ref().chars().find(|c| !is_xml_char(*c)) {
         return Err(Error::UnsupportedCharacter(c));
     }
+    // XML readers turn unescaped carriage returns into line feeds
+    let escaped = value
+        .as_ref()
+        .replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('\r', "&#xD;");
     writer.write(XmlEvent::start_element(name))?;
-    writer.write(XmlEvent::characters(value.as_ref()))?;
+    writer.write(XmlEvent::characters(&escaped))?;
     writer.write(XmlEvent::end_element())?;
     Ok(())
 }
@@ -198,9 +205,10 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     database: &Database,
     stream_cipher: &mut S,
 ) -> Result<()> {
-    let config = xml::EmitterConfig::default()
+    let mut config = xml::EmitterConfig::default()
         .perform_indent(true)
         .indent_string("\t");
+    config.perform_escaping = false;
     let mut writer = xml::EventWriter::new_with_config(output, config);
     writer.write(XmlEvent::start_element("KeePassFile"))?;
     write_meta(&mut writer, &database.meta, stream_cipher)?;
-- 
2.43.0


From 5dd335dff3396c5e7c3a6d91026ac35a42f5c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:46 +0000
Subject: [PATCH 36/36] fix: notice KDBX 3 files cut short inside the padding

---
 src/stream/kdbx3.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 84b9119..c315a4e 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -40,6 +40,10 @@ where
         if (self.finished && hash_buf == [0u8; 32])
             || crypto::verify_sha256(&self.buffer, &hash_buf)
         {
+            if self.finished {
+                // Have the padding after the final block verified
+                io::copy(&mut self.inner, &mut io::sink())?;
+            }
             Ok(len)
         } else {
             Err(io::Error::new(
-- 
2.43.0


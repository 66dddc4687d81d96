From cd954845c5870a95ac8b38d96ab92013737a7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 01/24] fix: Collect must not drop an element that the end of
 the stream cuts off

If the end of the stream was announced by a call without bytes while an
element was half decoded, Collect reported success and left the fragment in
the inner decoder. The announcement is now passed on to the inner decoder.
---
 src/combinator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..e707243 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -586,6 +586,7 @@ impl<E: SizedEncode> SizedEncode for Optional<E> {
 pub struct Collect<D, T> {
     inner: D,
     items: T,
+    started: bool,
     eos: bool,
 }
 impl<D, T: Default> Collect<D, T> {
@@ -608,6 +609,7 @@ impl<D, T: Default> Collect<D, T> {
         Collect {
             inner,
             items: T::default(),
+            started: false,
             eos: false,
         }
     }
@@ -625,9 +627,19 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while offset < buf.len() || (self.started && eos.is_reached()) {
+            self.started = true;
+            if !self.inner.is_idle() {
+                offset += track!(self.inner.decode(&buf[offset..], eos))?;
+                if !self.inner.is_idle() {
+                    if offset == buf.len() {
+                        track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
+                    }
+                    return Ok(offset);
+                }
+            }
 
+            self.started = false;
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
         }
-- 
2.43.0


From 805de7d0132722d7b0bab3a9330c423041ba7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 02/24] fix: CollectN must complete elements that need no
 (more) bytes

Elements of zero width, and elements completed by the announcement of the end
of the stream, were decoded only while bytes happened to follow in the buffer.
---
 src/combinator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index e707243..b61bcc7 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -863,14 +863,19 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while self.remaining_items != 0 {
+            if !self.inner.is_idle() {
+                offset += track!(self.inner.decode(&buf[offset..], eos))?;
+                if !self.inner.is_idle() {
+                    break;
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
             self.remaining_items -= 1;
         }
-        if self.remaining_items != 0 {
+        if self.remaining_items != 0 && offset == buf.len() {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
         Ok(offset)
-- 
2.43.0


From c7dbede74a45b554749e106efd6287fe85c2dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 03/24] fix: Length decoder must compare the distance to the
 end with all bytes it needs

The bytes in the buffer were counted as available, but not as needed, so that
a stream which ends inside the frame was noticed only by some cuts.
---
 src/combinator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index b61bcc7..b79084c 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -736,9 +736,10 @@ impl<D: Decode> Decode for Length<D> {
         let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
-        if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
-            track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
+            let available = remaining.saturating_add(buf.len() as u64);
+            track_assert!(available >= self.remaining_bytes, ErrorKind::UnexpectedEos;
+                          available, self.remaining_bytes);
         }
 
         let size = track!(self.inner.decode(&buf[..limit], expected_eos))?;
-- 
2.43.0


From 595553666c09bf6d2f47a7e3bfa1aef197104f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 04/24] fix: Length encoder must be idle without an item and
 accept one item after another

A fresh Length encoder claimed to be busy (and encode failed), a second item
was refused with EncoderFull, and an item without bytes was silently accepted
where some were promised.
---
 src/combinator.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index b79084c..473a9f3 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -766,6 +766,9 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -778,37 +781,42 @@ impl<E: Encode> Encode for Length<E> {
         let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
         self.remaining_bytes -= size as u64;
         if self.inner.is_idle() {
-            track_assert_eq!(
-                self.remaining_bytes,
-                0,
-                ErrorKind::InvalidInput,
-                "Too small item"
-            );
+            let remaining = mem::replace(&mut self.remaining_bytes, self.expected_bytes);
+            track_assert_eq!(remaining, 0, ErrorKind::InvalidInput, "Too small item");
         }
         Ok(size)
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        track!(self.inner.start_encoding(item))?;
         self.remaining_bytes = self.expected_bytes;
-        track!(self.inner.start_encoding(item))
+        if self.inner.is_idle() {
+            track_assert_eq!(
+                self.expected_bytes,
+                0,
+                ErrorKind::InvalidInput,
+                "Too small item"
+            );
+        }
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        self.inner.is_idle()
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From 718f62eeab9862efe06e5ca0dcebdcf1ad261b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 05/24] fix: Repeat must go on behind an item that needs no
 bytes

An item whose encoder goes idle without writing (an empty nested repeat, say)
ended the encode call although the buffer had room, or the item was the last.
---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 473a9f3..47f8876 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From bd15354a11b53cce6fae700937788114fadba003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 06/24] fix: MonolithicDecoder must leave a finished item alone

A decode call made while the finished item waits consumed the bytes offered,
and replaced the item (or failed) at the end of the stream.
---
 src/monolithic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..f0bde91 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,6 +50,9 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
+        if self.item.is_some() {
+            return Ok(0);
+        }
         if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
-- 
2.43.0


From 534534f1094b0796bbca7940176cd61196b3711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 07/24] fix: MonolithicDecoder must forget the bytes of an item
 that was rejected

They were kept and put before the bytes of the next item.
---
 src/monolithic.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index f0bde91..ef362f5 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -2,6 +2,7 @@
 use crate::bytes::BytesEncoder;
 use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result};
 use std::io::{self, Read, Write};
+use std::mem;
 
 /// This trait allows for decoding items monolithically from a source byte stream.
 ///
@@ -55,11 +56,11 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
         }
         if eos.is_reached() {
             let original_len = buf.len();
+            let buffered = mem::take(&mut self.buf);
             let item = track!(
-                self.inner.monolithic_decode(self.buf.as_slice().chain(buf.by_ref()));
-                original_len, self.buf.len(), buf.len(), eos
+                self.inner.monolithic_decode(buffered.as_slice().chain(buf.by_ref()));
+                original_len, buffered.len(), buf.len(), eos
             )?;
-            self.buf.clear();
             self.item = Some(item);
             Ok(original_len - buf.len())
         } else {
-- 
2.43.0


From 8e356784cbf8f600a4bd40135de43782c4fd30de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 08/24] fix: MonolithicEncoder must report an output that ends
 before its item

The first encode call of an item ignored the announced end of the output.
---
 src/monolithic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index ef362f5..5a052ac 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -145,6 +145,7 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
                 Ok(original_len - buf.len())
             } else {
                 track!(self.buf.start_encoding(extra))?;
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
                 Ok(original_len)
             }
         } else {
-- 
2.43.0


From 7c59e81c83d90b33d3ad88005fd4971675ca8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 09/24] fix: TupleEncoder must refuse an item while it is busy

If its first elements had been written already, they accepted the new item,
and the rest of the old item was mixed with the new one.
---
 src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..8255f41 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From 94a65c64e03415814887b563b43f40969c87fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 10/24] fix: TupleDecoder must not lose elements when it is
 asked for its item too early

The elements decoded so far were taken and dropped, so that the decoder then
took the following bytes for them.
---
 src/tuple.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tuple.rs b/src/tuple.rs
index 8255f41..9cb5860 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -43,6 +43,7 @@ macro_rules! impl_decode {
             }
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
+                track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
                 Ok((
                     $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
                 ))
-- 
2.43.0


From a46cc4cc7f01fefe1e224933dc9b2844bbf80cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 11/24] fix: TupleDecoder must take all elements of an item of
 which one is rejected

The elements behind the rejected one stayed in their decoders and became part
of the next item.
---
 src/tuple.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 9cb5860..858a275 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -44,9 +44,8 @@ macro_rules! impl_decode {
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
                 track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
-                Ok((
-                    $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
-                ))
+                let items = ($(self.inner.$i.finish_decoding()),*,);
+                Ok(($(track!(items.$i, "i={}", $i)?),*,))
             }
 
             fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From ab95cb4e5f4d5d125efea7553c6237150ec6ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 12/24] fix: AndThen must not lose its second decoder when it
 is asked for its item too early

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 47f8876..60bf4f8 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -221,6 +221,7 @@ where
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
         track!(d.finish_decoding())
     }
-- 
2.43.0


From fc4cfc2ea249a3429a5799a79fd3a861a09fe107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 13/24] fix: MaxBytes must not forget the consumed bytes when
 it is asked for its item too early

A premature finish_decoding call lifted the limit for the bytes seen so far.
---
 src/combinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 60bf4f8..e9a0a39 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1059,7 +1059,9 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.consumed_bytes = 0;
+        if self.inner.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.finish_decoding())
     }
 
-- 
2.43.0


From 9d41dd31365d5be5e746a57479e445e783611766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 14/24] fix: MaybeEos must not forget that an item has begun
 when it is asked for it too early

The end of the stream inside the item was ignored after that.
---
 src/combinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index e9a0a39..a802e4b 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1467,7 +1467,9 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.started = false;
+        if self.inner.is_idle() {
+            self.started = false;
+        }
         track!(self.inner.finish_decoding())
     }
 
-- 
2.43.0


From b036a526e7244be1f97980cf57a76543413d0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 15/24] fix: MaxBytes encoder must apply the limit to each item
 afresh

After an item that exceeded the limit, its bytes were counted for the next.
---
 src/combinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index a802e4b..f7bbbc7 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1089,7 +1089,9 @@ impl<E: Encode> Encode for MaxBytes<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track!(self.inner.start_encoding(item))
+        track!(self.inner.start_encoding(item))?;
+        self.consumed_bytes = 0;
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From cac43e908e816c5a4a96f9b18e14336d0e8e1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 16/24] fix: Last must go on with the last item in the call
 that completes the previous one

With both items in one buffer the call ended behind the first, and the end of
the output was not noticed to come too early for the last item.
---
 src/combinator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index f7bbbc7..935402e 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1304,12 +1304,13 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
-            if let Some(item) = self.item.take() {
-                track!(self.inner.start_encoding(item))?;
-            }
+        let mut offset = 0;
+        bytecodec_try_encode!(self.inner, offset, buf, eos);
+        if let Some(item) = self.item.take() {
+            track!(self.inner.start_encoding(item))?;
+            bytecodec_try_encode!(self.inner, offset, buf, eos);
         }
-        track!(self.inner.encode(buf, eos))
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From 85bcd0313252290b98ae18c2823ec52f04aa71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 17/24] fix: WriteBuf::poll_flush must wake the task that waits
 for free space

Only the synchronous flush did what encode_to_write_buf_async promises.
---
 src/io_async.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..6eeba0d 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -85,6 +85,11 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                 }
             }
         }
+        if !self.is_full() {
+            if let Some(ref waker) = self.waker {
+                waker.wake_by_ref();
+            }
+        }
         // Now the buffer is empty. Because the returned value is not Poll::Pending,
         // it is *the caller*'s responsibility to ensure this future is woken up.
         Poll::Ready(Ok(()))
-- 
2.43.0


From 912277d2087f463251f3d16b606e709b1bfbcc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 18/24] fix: decode_exact must not loop forever at the end of
 the reader

A decoder that tolerates the end of the stream (MaybeEos) was asked again and
again.
---
 src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.rs b/src/io.rs
index 0a3951a..41c641f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -48,6 +48,7 @@ pub trait IoDecodeExt: Decode {
                 let item = track!(self.finish_decoding())?;
                 return Ok(item);
             }
+            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
     }
 }
-- 
2.43.0


From 03ad97e7420cdf140283c5b1c16b596778c95f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 19/24] fix: RemainingBytesDecoder must not abort on an
 announced length that is not there

A length field of some hundred gigabytes aborted the process (or overflowed the
capacity) before a single byte of the frame had arrived.
---
 src/bytes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..f68b11d 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -306,7 +306,11 @@ impl Decode for RemainingBytesDecoder {
         }
 
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            // The distance may be a claim of the peer: failing to reserve is not an error.
+            let expected = remaining.saturating_add(buf.len() as u64);
+            let _ = self
+                .buf
+                .try_reserve_exact(cmp::min(expected, isize::MAX as u64) as usize);
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From dd62699475e2b78c82b437483bff11201d68c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 20/24] fix: adding byte counts must not overflow

A length field near the maximum made requiring_bytes of a tuple panic.
---
 src/byte_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..bb5da7e 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -51,7 +51,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -75,7 +75,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
-- 
2.43.0


From 98ca67df2812acbf92d14d168ffcbf5af5bbeeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 21/24] fix: BincodeDecoder must not allocate memory for
 lengths that cannot be true

A corrupted length prefix of a string aborted the process; and how many bytes
were consumed depended on the cut of the input.
---
 src/bincode_codec.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bincode_codec.rs b/src/bincode_codec.rs
index fc5115c..0bfdc28 100644
--- a/src/bincode_codec.rs
+++ b/src/bincode_codec.rs
@@ -2,7 +2,7 @@
 //!
 //! [bincode]: https://crates.io/crates/bincode
 use crate::monolithic::{MonolithicDecode, MonolithicDecoder, MonolithicEncode, MonolithicEncoder};
-use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result};
+use crate::{ByteCount, Decode, Encode, Eos, Error, ErrorKind, Result};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Write};
 use std::marker::PhantomData;
@@ -74,10 +74,12 @@ where
 {
     type Item = T;
 
-    fn monolithic_decode<R: Read>(&self, reader: R) -> Result<Self::Item> {
-        track!(
-            bincode::deserialize_from(reader).map_err(|e| ErrorKind::InvalidInput.cause(e).into())
-        )
+    fn monolithic_decode<R: Read>(&self, mut reader: R) -> Result<Self::Item> {
+        // With all bytes at hand bincode can tell a length that cannot be true, instead of
+        // allocating memory for it, and the item covers the same bytes however they arrived.
+        let mut bytes = Vec::new();
+        track!(reader.read_to_end(&mut bytes).map_err(Error::from))?;
+        track!(bincode::deserialize(&bytes).map_err(|e| ErrorKind::InvalidInput.cause(e).into()))
     }
 }
 
-- 
2.43.0


From 6ca668fb6300272fd2c55183db8fc188e9fba4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 22/24] fix: MaxBytes must not overflow on a huge announced
 distance to the end

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 935402e..f8b1460 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1047,7 +1047,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
-- 
2.43.0


From e671028797752e3b83a949b75c3e5a392786dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 23/24] fix: Eos::back must not overflow on a huge announced
 distance to the end

---
 src/eos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
-- 
2.43.0


From f82536dc22b4c9e7a55cbf2ee7e452b41d61a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 24/24] fix: Optional must refuse an omitted item while it is
 busy

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index f8b1460..649e399 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -557,6 +557,7 @@ impl<E: Encode> Encode for Optional<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
         if let Some(item) = item {
             track!(self.0.start_encoding(item))?;
         }
-- 
2.43.0


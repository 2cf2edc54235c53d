From 6f81ea4b358dcd5b3ece70e130730d8f62ed54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 01/18] verification hooks behind cfg(parcom_verif)

---
 .../src/default_runner/sequence.rs               | 16 ++++++++++++++++
 crates/parcom-runners/src/lib.rs                 |  3 +++
 crates/parcom-sequences/src/generic.rs           | 10 ++++++++++
 crates/parcom-sequences/src/lib.rs               |  3 +++
 4 files changed, 32 insertions(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..49ad115 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -71,3 +71,19 @@ where
         DefaultSequenceAdvance::new(self, delta)
     }
 }
+
+/// Verification hook: the producer side (whoever appends segments) is not implemented yet, so nothing
+/// outside of this module can signal an append or the end of the sequence.
+#[cfg(parcom_verif)]
+impl<S, B> DefaultSequence<S, B>
+where
+    S: SequenceSource,
+    B: SequenceBuilder<S>,
+{
+    pub fn verif_producer_handles(&self) -> (Arc<Notify>, Arc<AtomicBool>) {
+        (
+            Arc::clone(&self.inner.append_signal),
+            Arc::clone(&self.inner.done_flag),
+        )
+    }
+}
diff --git a/crates/parcom-runners/src/lib.rs b/crates/parcom-runners/src/lib.rs
index 1b44568..f0e8591 100644
--- a/crates/parcom-runners/src/lib.rs
+++ b/crates/parcom-runners/src/lib.rs
@@ -1 +1,4 @@
+// `parcom_verif` is set only by the external verification harness.
+#![allow(unexpected_cfgs)]
+
 pub mod default_runner;
diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..30b175d 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -32,3 +32,13 @@ impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenc
         (buffer, loader)
     }
 }
+
+/// Verification hook: the builder has no public constructor yet.
+#[cfg(parcom_verif)]
+impl<B: BufferStrategy> GenericSequenceBuilder<B> {
+    pub fn verif_new(strategy: B) -> Self {
+        Self {
+            strategy: Arc::new(strategy),
+        }
+    }
+}
diff --git a/crates/parcom-sequences/src/lib.rs b/crates/parcom-sequences/src/lib.rs
index a6d8c53..343644e 100644
--- a/crates/parcom-sequences/src/lib.rs
+++ b/crates/parcom-sequences/src/lib.rs
@@ -1,3 +1,6 @@
+// `parcom_verif` is set only by the external verification harness.
+#![allow(unexpected_cfgs)]
+
 mod buffer_strategy;
 
 pub mod generic;
-- 
2.43.0


From 98f2d9503bfd22fe873b267bf5ee66c123b9eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 02/18] fix: literal parsers must not split text inside a
 character

atom() split the segment (or the pattern) at the other's byte length and
panicked when that was not a character boundary; such input just differs.
---
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  |  9 +++++++++
 crates/parcom-parsers/src/primitive/atom.rs | 18 +++++++++---------
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..d60343f 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -139,4 +139,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(&self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..a232a73 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,13 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+
+    /// Like `split_at`, but returns `None` where the segment cannot be split at `mid`.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        if mid <= self.len() {
+            Some(self.split_at(mid))
+        } else {
+            None
+        }
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..8a0368b 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -39,8 +39,9 @@ where
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = segment
+                    .split_at_checked(remain.len())
+                    .is_some_and(|(s, _)| s == remain);
                 drop(segments);
                 return if matched {
                     done((), input.advance(remain.len()).await)
@@ -49,14 +50,13 @@ where
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
-
-            if &*segment != p {
-                drop(segments);
-                return fail(Miss(()), input);
+            match remain.split_at_checked(segment.len()) {
+                Some((p, r)) if &*segment == p => remain = r,
+                _ => {
+                    drop(segments);
+                    return fail(Miss(()), input);
+                }
             }
-
-            remain = r;
         }
 
         drop(segments);
-- 
2.43.0


From 5d3b0809ee9d3f9eebbdaa367f4e82d1bda810c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 03/18] fix: a literal matched across segments consumes all of
 the literal

Only the part found in the last segment was skipped, leaving the rest of
the matched literal in the input.
---
 crates/parcom-parsers/src/primitive/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 8a0368b..107bbcd 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -44,7 +44,7 @@ where
                     .is_some_and(|(s, _)| s == remain);
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    done((), input.advance(self.pattern.pattern().len()).await)
                 } else {
                     fail(Miss(()), input)
                 };
-- 
2.43.0


From fa1ff46e5553ec3bd89564eb10e3241075b27877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 04/18] fix: the empty literal matches a sequence that yields
 no segments

---
 crates/parcom-parsers/src/primitive/atom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 107bbcd..135b385 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -60,6 +60,9 @@ where
         }
 
         drop(segments);
+        if remain.len() == Default::default() {
+            return done((), input);
+        }
         return fail((), input);
     }
 }
-- 
2.43.0


From 629a9ef4180034460689a3348affe849b4d26565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 05/18] fix: the highest precedence with left associativity
 overflowed

precedence() + 1 panics (or wraps to 0 and regroups the expression in
release builds) for usize::MAX.
---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..91f6783 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -130,8 +130,7 @@ where
                     rhs = term;
                     break;
                 };
-                let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                if next_precedence(&last_op).is_some_and(|prec| op.precedence() >= prec) {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,10 +150,11 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
+/// The least precedence binding tighter than `op` on its right. `None` if there is no such precedence.
+fn next_precedence<T: Operator>(op: &T) -> Option<usize> {
     match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
+        Associativity::Left => op.precedence().checked_add(1),
+        Associativity::Right => Some(op.precedence()),
     }
 }
 
-- 
2.43.0


From 4bf2b54a611437855e7830f0081be946863eb587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 06/18] fix: CR CR LF ends with a CRLF line terminator

---
 crates/parcom-metrics/src/end_of_line.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..e987543 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -55,13 +55,18 @@ impl EndOfLine for CRLF {
                 }
                 _ => EndOfLineMatch::NotMatch,
             },
-            CRLFState::CR => {
-                self.state = CRLFState::Initial;
-                match c {
-                    '\n' => EndOfLineMatch::Match,
-                    _ => EndOfLineMatch::NotMatch,
+            // a CR after a CR may still begin a CR LF
+            CRLFState::CR => match c {
+                '\r' => EndOfLineMatch::PartialMatch,
+                '\n' => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::Match
                 }
-            }
+                _ => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::NotMatch
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 067a4b3f492576b357bd2725200e6537d6fbe113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 07/18] fix: text advanced past its end can be rewound

---
 crates/parcom-core/src/primitive/str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d60343f..04c6934 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -19,7 +19,7 @@ impl<'a> Sequence for &'a str {
 
     fn advance(self, delta: BytesDelta) -> Self::Advance {
         let delta = delta.to_bytes();
-        let rest = self.get(delta..).unwrap_or("");
+        let rest = self.get(delta..).unwrap_or(&self[self.len()..]);
         std::future::ready(rest)
     }
 }
-- 
2.43.0


From c97e4a6480a5246d915614ec92b670463e1c9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 08/18] fix: rewinding accepted anchors of overlapping inputs
 and failed on zero-sized items

---
 crates/parcom-core/src/primitive/slice.rs | 8 ++++----
 crates/parcom-core/src/primitive/str.rs   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..ea1aa01 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -31,10 +31,10 @@ impl<T> RewindSequence for &[T] {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        // advancing only moves the start: the anchor's input must end where this one does
+        let end = self.as_ptr_range().end;
+        let anchor_end = anchor.me.as_ptr_range().end;
+        if end == anchor_end && self.len() <= anchor.me.len() {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 04c6934..5fa77de 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -33,10 +33,10 @@ impl RewindSequence for &str {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        // advancing only moves the start: the anchor's input must end where this one does
+        let end = self.as_bytes().as_ptr_range().end;
+        let anchor_end = anchor.me.as_bytes().as_ptr_range().end;
+        if end == anchor_end && self.len() <= anchor.me.len() {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
-- 
2.43.0


From 1380432dc9efaf16bf4fcba06b6240208528f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 09/18] fix: the capacity of a buffer writer covers the items
 already written

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From acd053184445ebea0c9d034d5802aee817398572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 10/18] fix: a failed, cancelled or dropped load keeps the
 items of the former loads and only them

---
 .../parcom-sequences/src/generic/control.rs   | 47 +++++++++++--------
 crates/parcom-sequences/src/generic/loader.rs | 11 +++--
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..bdb7d93 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -22,7 +22,7 @@ impl<'a, T, E, S: BufferStrategy> Control<'a, T, E, S> {
 
 impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     type Item = T;
-    type Result = Response<T, Self::Error>;
+    type Result = Response<'a, T, Self::Error>;
     type Error = E;
     type Writer = Request<'a, T, E>;
 
@@ -55,14 +55,13 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     }
 
     fn finish(self) -> Self::Result {
-        Response::Finish(std::mem::replace(self.buf, Vec::new()))
+        Response::Finish(self.buf)
     }
 }
 
-pub enum Response<T, E> {
-    Appended { len: usize, cap: usize },
-    Advance { buf: Vec<T>, len: usize, cap: usize },
-    Finish(Vec<T>),
+pub enum Response<'a, T, E> {
+    Written(Request<'a, T, E>),
+    Finish(&'a mut Vec<T>),
     Cancel(E),
 }
 
@@ -73,10 +72,29 @@ pub struct Request<'a, T, E> {
     _phantom: PhantomData<fn() -> E>,
 }
 
+impl<'a, T, E> Request<'a, T, E> {
+    /// Keeps the written items and returns the filled buffer which precedes them, empty if there is none.
+    pub(super) fn commit(mut self) -> (Vec<T>, usize, usize) {
+        self.offset = self.buf.len();
+        let filled = std::mem::take(&mut self.to_append);
+        (filled, self.buf.len(), self.buf.capacity())
+    }
+}
+
+/// Unless it was committed, the request leaves the items of the former loads, and only them.
+impl<'a, T, E> Drop for Request<'a, T, E> {
+    fn drop(&mut self) {
+        self.buf.truncate(self.offset);
+        if !self.to_append.is_empty() {
+            *self.buf = std::mem::take(&mut self.to_append);
+        }
+    }
+}
+
 impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Segment = [T];
     type Item = T;
-    type Result = Response<T, E>;
+    type Result = Response<'a, T, E>;
     type Error = E;
 
     fn capacity(&self) -> usize {
@@ -100,22 +118,11 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     }
 
     fn advance(self) -> Self::Result {
-        if self.to_append.is_empty() {
-            Response::Appended {
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
-            }
-        } else {
-            Response::Advance {
-                buf: self.to_append,
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
-            }
-        }
+        Response::Written(self)
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.drain(self.offset..);
+        drop(self);
         Response::Cancel(err)
     }
 }
diff --git a/crates/parcom-sequences/src/generic/loader.rs b/crates/parcom-sequences/src/generic/loader.rs
index 9fc91ce..7330e36 100644
--- a/crates/parcom-sequences/src/generic/loader.rs
+++ b/crates/parcom-sequences/src/generic/loader.rs
@@ -62,13 +62,16 @@ where
         let res = std::task::ready!(this.fut.poll(cx));
 
         let r = match res {
-            Response::Appended { len, cap } => Ok(LoadInfo::new(0, len, cap)),
-            Response::Advance { buf, len, cap } => {
-                let commited = buf.len();
-                commit_to(this.tail_node, buf);
+            Response::Written(request) => {
+                let (filled, len, cap) = request.commit();
+                let commited = filled.len();
+                if commited > 0 {
+                    commit_to(this.tail_node, filled);
+                }
                 Ok(LoadInfo::new(commited, len, cap))
             }
             Response::Finish(buf) => {
+                let buf = std::mem::take(buf);
                 let commited = buf.len();
                 commit_to(this.tail_node, buf);
                 Ok(LoadInfo::done(commited))
-- 
2.43.0


From 90caece2527a6c7413b176e25953d9dc19e053c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 11/18] fix: an incomplete character at the end of the source
 is an invalid sequence

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..5e79fc1 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,6 +142,15 @@ where
     }
 
     fn finish(self) -> Self::Result {
+        // The last character is incomplete.
+        if self.buffered > 0 {
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            return Response {
+                inner: InnerResponse::Err { res },
+                _phantom: PhantomData,
+            };
+        }
+
         let res = self.control.finish();
         Response {
             inner: InnerResponse::Finish { res },
-- 
2.43.0


From 41e0f77b576bb7ab035af38dc0326ca408f31af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 12/18] fix: dropping a long sequence overflowed the stack

---
 crates/parcom-sequences/src/generic.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index 30b175d..3e3a918 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -15,6 +15,16 @@ struct Node<T> {
     next: Arc<OnceLock<Node<T>>>,
 }
 
+/// Drops the nodes behind this one in a loop, since a chain of them can be longer than the stack is deep.
+impl<T> Drop for Node<T> {
+    fn drop(&mut self) {
+        let mut next = Arc::get_mut(&mut self.next).and_then(OnceLock::take);
+        while let Some(mut node) = next {
+            next = Arc::get_mut(&mut node.next).and_then(OnceLock::take);
+        }
+    }
+}
+
 pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
-- 
2.43.0


From 3dadc3bdaf886079abfd25df40d5d438f4951d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 13/18] fix: the small vector asked the allocator for zero
 bytes for zero-sized items

---
 crates/parcom-internals/src/shortvec.rs | 36 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..011d445 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -32,12 +32,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         );
 
         if cap > N {
-            let layout = Layout::array::<T>(cap).unwrap();
-            let ptr = unsafe { alloc::alloc(layout) as *mut T };
-            let ptr = match NonNull::new(ptr) {
-                Some(v) => v,
-                None => alloc::handle_alloc_error(layout),
-            };
+            let ptr = allocate(Layout::array::<T>(cap).unwrap());
 
             let data = ShortVecData {
                 heap: ManuallyDrop::new(ptr),
@@ -124,7 +119,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         }
         // `cap`の不変条件によって、`self.cap >= N`をかならず満たすため、ここではヒープアロケーションが必ず行われる。
         let layout = Layout::array::<T>(cap).unwrap();
-        if self.is_heap() {
+        if self.is_heap() && layout.size() > 0 {
             let old_layout = Layout::array::<T>(self.cap).unwrap();
             let ptr = unsafe {
                 let ptr = self.data.heap.as_ptr() as *mut u8;
@@ -139,13 +134,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             self.cap = cap;
             self.data.heap = ptr;
         } else {
-            let buf = unsafe {
-                let ptr = alloc::alloc(layout) as *mut T;
-                match NonNull::new(ptr) {
-                    Some(v) => v,
-                    None => alloc::handle_alloc_error(layout),
-                }
-            };
+            let buf = allocate::<T>(layout);
 
             unsafe {
                 let src = self.as_ptr_stack_unchecked();
@@ -158,6 +147,19 @@ impl<T, const N: usize> ShortVec<T, N> {
     }
 }
 
+/// Zero-sized items need no memory, and a zero-sized layout must not be passed to the allocator.
+fn allocate<T>(layout: Layout) -> NonNull<T> {
+    if layout.size() == 0 {
+        return NonNull::dangling();
+    }
+
+    let ptr = unsafe { alloc::alloc(layout) as *mut T };
+    match NonNull::new(ptr) {
+        Some(v) => v,
+        None => alloc::handle_alloc_error(layout),
+    }
+}
+
 impl<T, const N: usize> ShortVec<T, N> {
     fn is_heap(&self) -> bool {
         self.cap > N
@@ -182,8 +184,10 @@ impl<T, const N: usize> Drop for ShortVec<T, N> {
 
         if self.is_heap() {
             let layout = Layout::array::<T>(self.cap).unwrap();
-            unsafe {
-                alloc::dealloc(ptr as *mut u8, layout);
+            if layout.size() > 0 {
+                unsafe {
+                    alloc::dealloc(ptr as *mut u8, layout);
+                }
             }
         }
     }
-- 
2.43.0


From 3241449411aaabf0de27dd5c2521b032ebbac948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 14/18] fix: the small vector wrote through a pointer made from
 a shared reference

---
 crates/parcom-internals/src/shortvec.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 011d445..beacbbc 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -82,7 +82,7 @@ impl<T, const N: usize> ShortVec<T, N> {
     pub fn push(&mut self, item: T) {
         let len = self.len;
         self.reserve(len + 1);
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         unsafe {
             ptr.add(len).write(item);
         }
@@ -94,7 +94,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             return None;
         }
 
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         self.len -= 1;
         let value = unsafe { ptr.add(self.len).read() };
         Some(value)
@@ -165,6 +165,15 @@ impl<T, const N: usize> ShortVec<T, N> {
         self.cap > N
     }
 
+    /// Unlike a pointer derived from `&self`, this one may be written through.
+    fn as_mut_ptr(&mut self) -> *mut T {
+        if self.is_heap() {
+            unsafe { self.data.heap.as_ptr() }
+        } else {
+            unsafe { (*self.data.stack).as_mut_ptr() as *mut T }
+        }
+    }
+
     unsafe fn as_ptr_stack_unchecked(&self) -> *const T {
         unsafe { self.data.stack.as_ptr() as *const T }
     }
@@ -176,7 +185,7 @@ impl<T, const N: usize> ShortVec<T, N> {
 
 impl<T, const N: usize> Drop for ShortVec<T, N> {
     fn drop(&mut self) {
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         let slice = std::ptr::slice_from_raw_parts_mut(ptr, self.len);
         unsafe {
             std::ptr::drop_in_place(slice);
-- 
2.43.0


From d6667e9d96e326dbad81faf149015eaab84389ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 15/18] fix: an advance that had to wait skipped nothing of
 what came later

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..f8a0d69 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -59,6 +59,7 @@ where
             return Poll::Ready(DefaultSequence { inner: sequence });
         }
 
+        *this.remain = remain;
         cx.waker().wake_by_ref();
 
         Poll::Pending
-- 
2.43.0


From 09f08f31ba4cee5d1fbaa8d896c67c323af5e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 16/18] fix: a stream that ends during a poll could hide the
 last segments

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs  | 4 +++-
 crates/parcom-runners/src/default_runner/sequence/segments.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index f8a0d69..f121b7a 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -48,9 +48,11 @@ where
         this.fut.set(OptionFuture::some(fut));
 
         let remain = std::mem::replace(this.remain, Default::default());
+        // `advance`のあとで確認すると、その間に追加されたセグメントを飛ばさずに終了してしまう。
+        let done = sequence.done_flag.load(Ordering::SeqCst);
         let remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if &remain == this.remain || done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..6dc82f7 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -89,6 +89,8 @@ where
         }
 
         let fut = this.host.append_signal.wait();
+        // (1)のあとで確認すると、その間に追加されたセグメントを読まずに終了してしまう。
+        let done = this.host.done_flag.load(Ordering::SeqCst);
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
 
         // (1): セグメントが末尾に追加されたか。
@@ -97,7 +99,7 @@ where
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From e4ea5b73fc858aa805e8b5961c14e15424a6e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 17/18] fix: BufferWriter::shrink_to dropped items twice when a
 destructor panicked

The items were dropped before the length was reduced, so that unwinding
dropped them again with the writer.
---
 crates/parcom-sequence-core/src/buffer_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-sequence-core/src/buffer_writer.rs b/crates/parcom-sequence-core/src/buffer_writer.rs
index 26385f2..a487f54 100644
--- a/crates/parcom-sequence-core/src/buffer_writer.rs
+++ b/crates/parcom-sequence-core/src/buffer_writer.rs
@@ -74,8 +74,9 @@ pub trait BufferWriter {
 
         unsafe {
             let slice = std::ptr::slice_from_raw_parts_mut(ptr.add(new_len), len - new_len);
-            std::ptr::drop_in_place(slice);
+            // a panicking destructor must not leave the dropped items within the length.
             self.set_len(new_len);
+            std::ptr::drop_in_place(slice);
         }
     }
 }
-- 
2.43.0


From 7e99ff5f1bf2ccccead39eaa8e764a60d6163d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 18/18] fix: ShortVec::reserve panicked for a possible capacity
 when twice the present one is not possible

---
 crates/parcom-internals/src/shortvec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index beacbbc..0acc32b 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -104,7 +104,9 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.cap >= cap {
             return;
         }
-        let cap = usize::max(self.cap * 2, cap);
+        // doubling must not turn a capacity that is possible into one that is not.
+        let doubled = usize::min(self.cap.saturating_mul(2), isize::MAX as usize);
+        let cap = usize::max(doubled, cap);
         Self::reserve_exact(self, cap)
     }
 
-- 
2.43.0


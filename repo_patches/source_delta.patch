From c1d584f107ab2cb7c151a8321dd10771d110aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:11 +0000
Subject: [PATCH 01/17] fix: do not use the length of inner unit as min length
 of Not

---
 src/neu/op_not.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..267fab3 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -109,7 +109,8 @@ where
     }
 
     fn min_length(&self) -> usize {
-        self.unit.min_length()
+        // the negated unit may accept any item, so the length of the inner unit tell us nothing
+        1
     }
 }
 
-- 
2.43.0


From fe1260425a4b9647e6ca3939cc490788ab349569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:11 +0000
Subject: [PATCH 02/17] fix: leave the context at the end of the longest match
 in *_ltm patterns

---
 src/ctor.rs  | 4 +++-
 src/regex.rs | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..07ed63e 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -962,12 +962,14 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        // move to the end of longest match, or back to the begin if nothing matched
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..6afedf8 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -808,6 +808,7 @@ where
 {
     move |slice: &[T], ctx: &mut C| {
         let beg = ctx.offset();
+        let mut end = beg;
         let mut longest = None;
 
         for item in slice.iter() {
@@ -818,9 +819,12 @@ where
             if let Ok(span) = ctx.try_mat(t2p(item))
                 && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
             {
+                end = ctx.offset();
                 longest = Some(span);
             }
         }
+        // move to the end of longest match, or back to the begin if nothing matched
+        ctx.set_offset(end);
         longest.ok_or(err)
     }
 }
-- 
2.43.0


From d5451a4b6a78d004bc468eae4e727042921c3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:27 +0000
Subject: [PATCH 03/17] fix: stop Repeat2 and Separate2 at the maximum count
 instead of one past it

---
 src/ctor/repeat2.rs | 4 ++--
 src/ctor/sep.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From edd247bae9eb9ca4324ebc06c0da459d1f5b71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:27 +0000
Subject: [PATCH 04/17] fix: stop SepCollect consuming elements once a
 separator is missing

---
 src/ctor/sep.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..3fafcd2 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -1099,20 +1099,22 @@ where
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
+                // don't touch the context anymore after the last separator failed
+                if end {
+                    return None;
+                }
                 self.pat.construct(ctx, func).ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
-                    if !end {
-                        if s_span.is_err() {
-                            end = true;
-                        }
-                        // The current value is captured only
-                        // when the current delimiter matches successfully
-                        // or the skip flag is true.
-                        if s_span.is_ok() || self.skip {
-                            cnt += 1;
-                            return Some(ret);
-                        }
+                    if s_span.is_err() {
+                        end = true;
+                    }
+                    // The current value is captured only
+                    // when the current delimiter matches successfully
+                    // or the skip flag is true.
+                    if s_span.is_ok() || self.skip {
+                        cnt += 1;
+                        return Some(ret);
                     }
                     None
                 })
-- 
2.43.0


From 9f405198dd49aeb49e535002bfb41641031c7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 05/17] fix: repetitions leave the context after the last
 element they return

---
 src/ctor/collect.rs | 14 +++++++++++---
 src/ctor/repeat.rs  |  3 +++
 src/ctor/repeat2.rs |  3 +++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 38cf065..88fc48a 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -169,9 +169,17 @@ where
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().inspect(|_| {
-                    cnt += 1;
-                })
+                let beg = ctx.offset();
+
+                self.pat
+                    .construct(ctx, func)
+                    .inspect(|_| {
+                        cnt += 1;
+                    })
+                    .inspect_err(|_| {
+                        ctx.set_offset(beg);
+                    })
+                    .ok()
             }))
         };
         let ret = if cnt >= self.min {
diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 66f6021..ae4b711 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -218,10 +218,13 @@ where
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals.push(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(beg);
                 break;
             }
         }
diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 30915cb..7a7e9b3 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -166,10 +166,13 @@ where
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
         while cnt < N {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(beg);
                 break;
             }
         }
-- 
2.43.0


From d9324d1553f0b91a1aa554a39ea08e3e361ec5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:34 +0000
Subject: [PATCH 06/17] fix: separated lists leave the context after the last
 element they return

---
 src/ctor/sep.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 3fafcd2..449efb7 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -508,16 +508,21 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
+            // end of last captured element (and its separator)
+            let mut end = offset;
+
             while let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
                     vals.push(val);
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            ctx.set_offset(end);
             let ret = if vals.len() >= self.min {
                 Ok(vals)
             } else {
@@ -544,6 +549,8 @@ mod alloc_sep {
             let mut cnt = 0;
             let mut total = Span::new(offset, 0);
             let range: CRange<usize> = (self.min..).into();
+            // end of last captured element (and its separator)
+            let mut end = offset;
 
             debug_regex_beg!("Separate", range, offset);
             while let Ok(p_span) = ctx.try_mat(&self.pat) {
@@ -555,11 +562,13 @@ mod alloc_sep {
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            ctx.set_offset(end);
             let ret = if cnt >= self.min {
                 Ok(total)
             } else {
@@ -787,6 +796,8 @@ where
         let mut vals = [const { None }; N];
         let mut cnt = 0;
         let range = M..=N;
+        // end of last captured element (and its separator)
+        let mut end = offset;
 
         debug_ctor_beg!("Separate2", &range, offset);
         while cnt < N {
@@ -796,6 +807,7 @@ where
                 if s_span.is_ok() || self.skip {
                     vals[cnt] = Some(val);
                     cnt += 1;
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -804,6 +816,7 @@ where
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(vals)
         } else {
@@ -830,6 +843,8 @@ where
         let mut cnt = 0;
         let mut total = Span::new(offset, 0);
         let range = M..=N;
+        // end of last captured element (and its separator)
+        let mut end = offset;
 
         debug_regex_beg!("Separate2", &range, offset);
         while cnt < N {
@@ -842,6 +857,7 @@ where
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -850,6 +866,7 @@ where
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(total)
         } else {
@@ -1095,6 +1112,8 @@ where
         let offset = ctx.offset();
         let mut cnt = 0;
         let mut end = false;
+        // end of last captured element (and its separator)
+        let mut last = offset;
         let range: CRange<usize> = (self.min..).into();
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
@@ -1114,12 +1133,14 @@ where
                     // or the skip flag is true.
                     if s_span.is_ok() || self.skip {
                         cnt += 1;
+                        last = ctx.offset();
                         return Some(ret);
                     }
                     None
                 })
             }))
         };
+        ctx.set_offset(last);
         let ret = if cnt >= self.min {
             Ok(ret)
         } else {
@@ -1146,6 +1167,8 @@ where
         let mut cnt = 0;
         let mut total = Span::new(offset, 0);
         let range: CRange<usize> = (self.min..).into();
+        // end of last captured element (and its separator)
+        let mut end = offset;
 
         debug_regex_beg!("SepCollect", range, offset);
         while let Ok(p_span) = ctx.try_mat(&self.pat) {
@@ -1157,11 +1180,13 @@ where
                 if let Ok(sep_ret) = s_span {
                     total.add_assign(sep_ret);
                 }
+                end = ctx.offset();
             }
             if s_span.is_err() {
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= self.min {
             Ok(total)
         } else {
-- 
2.43.0


From 305c97824ae7ca5f33691ba58a2140f7458cd7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:34 +0000
Subject: [PATCH 07/17] fix: roll back the context when the closure of a
 dynamic builder failed

---
 src/ctor/dthen.rs    | 4 +++-
 src/regex/builder.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..b91dee5 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -227,11 +227,13 @@ where
             )
         };
         let l = ctx.process_ret(l)?;
+        let pat = (self.func)(ctx.ctx(), &l);
+        let pat = ctx.process_ret(pat)?;
         let r = {
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                pat.construct(ctx.ctx(), func)
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From 3899606c9ec0bac683c9893ec329df1d7cff2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 08/17] fix: keep the offset unchanged when a policy match
 failed

---
 src/ctx/policy.rs | 24 ++++++++++++++++++------
 src/ctx/regex.rs  | 14 ++++++++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..b84c40d 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -155,8 +155,14 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        let offset = Context::offset(self);
+
+        self.regex
+            .try_parse(&mut self.inner)
+            .and_then(|_| pat.try_parse(self))
+            .inspect_err(|_| {
+                Context::set_offset(self, offset);
+            })
     }
 }
 
@@ -176,11 +182,17 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let offset = Context::offset(self);
+        let ret = before.try_parse(self).and_then(|_| {
+            let ret = pat.try_parse(self)?;
+
+            after.try_parse(self)?;
+            Ok(ret)
+        });
 
-        after.try_parse(self)?;
-        Ok(ret)
+        ret.inspect_err(|_| {
+            Context::set_offset(self, offset);
+        })
     }
 }
 
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..5d1b8c9 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -459,11 +459,17 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let offset = Context::offset(self);
+        let ret = before.try_parse(self).and_then(|_| {
+            let ret = pat.try_parse(self)?;
 
-        after.try_parse(self)?;
-        Ok(ret)
+            after.try_parse(self)?;
+            Ok(ret)
+        });
+
+        ret.inspect_err(|_| {
+            Context::set_offset(self, offset);
+        })
     }
 }
 
-- 
2.43.0


From f1147b88b9ba0936161a3e637a456dc0bd263fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 09/17] fix: move to the end of the longest match even if its
 span starts after the offset

---
 src/ctor/longest.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..a5bb79a 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -242,21 +242,31 @@ where
         debug_regex_beg!("LongestTokenMatch", offset);
 
         let l = debug_regex_stage!("LongestTokenMatch", "l", ctx.try_mat(&self.left));
+        let off_l = ctx.offset();
 
         // reset offset
         ctx.set_offset(offset);
 
         let r = debug_regex_stage!("LongestTokenMatch", "r", ctx.try_mat(&self.right));
+        let off_r = ctx.offset();
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() { l } else { r }),
-            (Ok(l), Err(_)) => Ok(l),
-            (Err(_), Ok(r)) => Ok(r),
+            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() {
+                (off_l, l)
+            } else {
+                (off_r, r)
+            }),
+            (Ok(l), Err(_)) => Ok((off_l, l)),
+            (Err(_), Ok(r)) => Ok((off_r, r)),
             (Err(_), Err(r)) => Err(r),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        // set offset
+        ctx.set_offset(ret.as_ref().map(|v| v.0).unwrap_or(offset));
+
+        let ret = ret.map(|v| v.1);
+
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
-- 
2.43.0


From 4780dc33a003104ad439843a64283444fef14b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:39 +0000
Subject: [PATCH 10/17] fix: report a value out of range as Error::Bounded

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index d6ce9d9..511a9be 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -670,7 +670,7 @@ where
         if self.min <= val && val < self.max {
             Ok(val)
         } else {
-            Err(Error::SelectEq)
+            Err(Error::Bounded)
         }
     }
 }
-- 
2.43.0


From 9618906e8c042d39a8548e6dc6f3ef76c8e4c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:39 +0000
Subject: [PATCH 11/17] fix: do not underflow if the offset is out of bound

---
 src/ctx.rs           | 4 +++-
 src/neu/opt.rs       | 4 ++--
 src/regex/consume.rs | 2 +-
 src/regex/literal.rs | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..b3c07d6 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -72,7 +72,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
diff --git a/src/neu/opt.rs b/src/neu/opt.rs
index b314d48..b584f19 100644
--- a/src/neu/opt.rs
+++ b/src/neu/opt.rs
@@ -195,7 +195,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Opt", ctx.offset());
         if let Ok(mut iter) = ctx.peek()
@@ -393,7 +393,7 @@ where
         let mut beg = None;
         let mut end = None;
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Many0", ctx.offset());
         if let Ok(mut iter) = ctx.peek() {
diff --git a/src/regex/consume.rs b/src/regex/consume.rs
index 2ccc65e..70c9c81 100644
--- a/src/regex/consume.rs
+++ b/src/regex/consume.rs
@@ -77,7 +77,7 @@ where
         let length = self.0;
 
         debug_regex_beg!("Consume", length, ctx.offset());
-        let ret = if ctx.len() - ctx.offset() >= length {
+        let ret = if ctx.len().saturating_sub(ctx.offset()) >= length {
             Ok(new_span_inc(ctx, length))
         } else {
             Err(Error::Consume)
diff --git a/src/regex/literal.rs b/src/regex/literal.rs
index 1ca067d..a680086 100644
--- a/src/regex/literal.rs
+++ b/src/regex/literal.rs
@@ -104,7 +104,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Err(Error::Literal);
         let slice_len = self.literal.length();
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Literal", ctx.offset());
         if remaining_len >= slice_len && self.literal.prefix_of(&ctx.orig()?) {
-- 
2.43.0


From 417c1701c8d4449906feb18032c2c6ee0ef82c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:39 +0000
Subject: [PATCH 12/17] fix: do not underflow in size_hint of an exhausted span
 iterator

---
 src/iter/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..48003c3 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -43,7 +43,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
@@ -115,7 +115,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
-- 
2.43.0


From 436f01106370c34ae0b3f6447c99af9461c733b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:39 +0000
Subject: [PATCH 13/17] fix: ArrayStorer::spans returns None for a group
 without spans

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index de15bb5..ce4c4cd 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -398,7 +398,7 @@ impl<const M: usize, const N: usize> ArrayStorer<M, N> {
     /// - The group exists but contains no spans
     pub fn spans(&self, id: usize) -> Option<&[Option<Span>]> {
         self.spans.get(id).and_then(|v| {
-            if v.is_empty() {
+            if v.iter().all(|v| v.is_none()) {
                 None
             } else {
                 Some(v.as_slice())
-- 
2.43.0


From 3f8b29ac284b08124a420c30de543c658fc9f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 14/17] fix: do not stop iterating ArrayStorer spans at the
 first empty slot

---
 src/iter/span.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 48003c3..d36e88f 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -105,17 +105,18 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        // skip the slots without span
+        while let Some(span) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(span) = span {
+                return self.value.get_by_span(span);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len().saturating_sub(self.cur);
+        let size = self.spans[self.cur..].iter().flatten().count();
 
         (size, Some(size))
     }
@@ -140,13 +141,13 @@ impl Iterator for OptionSpanIterator<'_> {
     type Item = Span;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-
-        if offset < self.spans.len() {
+        // skip the slots without span
+        while let Some(span) = self.spans.get(self.offset) {
             self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
+            if span.is_some() {
+                return *span;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From e388f839ac24482d51fc97092e7df6a982ae535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:39 +0000
Subject: [PATCH 15/17] fix: rec_parser_sync deadlocks as soon as the parser
 reenters itself

---
 src/ctor.rs      | 7 +++++++
 src/lib.rs       | 1 +
 src/regex.rs     | 7 +++++++
 src/regex/rec.rs | 9 +++++----
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 07ed63e..66f720d 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -281,6 +281,13 @@ impl_forward_ctor!(
     crate::std::Mutex<I>
 );
 
+#[cfg(feature = "std")]
+impl_forward_ctor!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<I>
+);
+
 impl<C, O, I, H> Ctor<C, O, H> for Cell<I>
 where
     I: Ctor<C, O, H> + Copy,
diff --git a/src/lib.rs b/src/lib.rs
index 5e61f0d..ab24393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ pub(crate) mod std {
     #[allow(unused)]
     pub use std::collections::HashSet;
     pub use std::sync::Mutex;
+    pub use std::sync::OnceLock;
 }
 
 #[cfg(any(feature = "log", feature = "tracing"))]
diff --git a/src/regex.rs b/src/regex.rs
index 6afedf8..abbe456 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -234,6 +234,13 @@ impl_forward_regex!(
     crate::std::Mutex<P>
 );
 
+#[cfg(feature = "std")]
+impl_forward_regex!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<P>
+);
+
 impl<P, C> Regex<C> for Cell<P>
 where
     P: Regex<C> + Copy,
diff --git a/src/regex/rec.rs b/src/regex/rec.rs
index 11fbc75..9e058e3 100644
--- a/src/regex/rec.rs
+++ b/src/regex/rec.rs
@@ -8,10 +8,10 @@ mod rec_sync {
     use crate::ctor::Handler;
     use crate::ctx::Context;
     use crate::ctx::Match;
-    use crate::std::Mutex;
+    use crate::std::OnceLock;
 
     pub type RecursiveCtorSync<'b, C, O, H> =
-        Arc<Mutex<Option<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>>;
+        Arc<OnceLock<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>;
 
     ///
     /// This function will construct a [RecursiveCtorSync] for recursive parsing,
@@ -50,11 +50,12 @@ mod rec_sync {
         H: Handler<C>,
         I: Ctor<C, O, H> + Send + Sync + 'b,
     {
-        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(Mutex::new(None));
+        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(OnceLock::new());
         let r_ctor_clone = r_ctor.clone();
         let ctor = handler(r_ctor_clone);
 
-        *r_ctor.lock().unwrap() = Some(Adapter::dyn_box_sync(ctor));
+        // can't hold a lock here, the parser will reenter itself
+        let _ = r_ctor.set(Adapter::dyn_box_sync(ctor));
         r_ctor
     }
 
-- 
2.43.0


From 0e4ed94fcd9c40128f6ca00c1bf853976886aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 16/17] fix: neu!() expands to a unit that doesn't exist

---
 src/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.rs b/src/macro.rs
index bfeeb28..8f5d123 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -261,7 +261,7 @@ macro_rules! neu {
         $crate::neu::equal($ch)
     };
     () => {
-        $crate::neu::space()
+        $crate::neu::whitespace()
     };
 }
 
-- 
2.43.0


From 0b25eac1ba4706cf4caf7f3bfff3a40e65518036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:57 +0000
Subject: [PATCH 17/17] fix: do not underflow in the diagnostics of a builder
 that moved backwards

---
 src/log.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 5227dab..3bf5789 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -161,7 +161,7 @@ mod macro_for_log {
                 "{}(Ctor) beg = {}, len = {} -> {:?}",
                 $name,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
@@ -171,7 +171,7 @@ mod macro_for_log {
                 $name,
                 $val,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
-- 
2.43.0


From f554d74cb8ab09df61049737011bfa7e905f1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 01/13] fix: forward sample_prepend through boxed, shared and
 buildable samplers

Box<dyn Sampler>, Arc<Mutex<dyn Sampler>> and Box<dyn BuildableSampler> fell
back to the trait's empty default, so a chain never reached its samplers'
sample_prepend.
---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index 69c3df6..0396812 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -315,6 +315,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -337,6 +341,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From 5810a6b160005d9abf3ce3e92c3fedfc5cdf53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 02/13] fix: tail free sampling no longer fails on exactly two
 logits

There is no second derivative to work with for two entries; the sampler
returned an internal error instead of leaving the list alone.
---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..7abcb95 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() <= 2 {
             return Ok(logits);
         }
 
-- 
2.43.0


From 3ee6ba7227f35649cfa5422af95306036203aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 03/13] fix: locally typical sampling accepts tokens with zero
 probability

A banned token (logit of -inf), or one whose probability underflows, made the
entropy NaN and the sampler fail with an internal error.
---
 src/samplers/locally_typical.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..ad2f573 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -67,9 +67,15 @@ impl Sampler for SampleLocallyTypical {
             ))
         })?;
 
-        let ent = logits
-            .iter()
-            .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
+        // Entries with a probability of zero contribute nothing to the entropy
+        // (`0 * ln(0)` would be NaN).
+        let ent = logits.iter().fold(0f32, |ent, l| {
+            if l.prob > 0f32 {
+                ent + -l.prob * l.prob.ln()
+            } else {
+                ent
+            }
+        });
 
         let mut shifted = logits
             .iter()
-- 
2.43.0


From 9b28ffc214aa66be7d4be570fd5b144cf2445f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 04/13] fix: Mirostat v2 keeps every token when none exceeds
 the surprise limit

It dropped everything but the top token in that case.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..8805139 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or_else(|| logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From aad64ab6ea5979f2db65956ac82c939f5cdd1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 05/13] fix: a complete option key is never ambiguous

Mirostat v1's option m could not be read or set: m is also a prefix of mu.
---
 src/configure/metadata.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..705ca7f 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -71,6 +71,17 @@ impl<T> SamplerOptions<T> {
         key: &str,
     ) -> Result<(SamplerOptionMetadata, Option<usize>)> {
         let key = key.trim();
+
+        // A complete key always refers to the option with that name, even if it
+        // is also a prefix of another key.
+        if let Some((idx, (omd, acc))) = self
+            .iter()
+            .enumerate()
+            .find(|&(_idx, (omd, _acc))| omd.key == key)
+        {
+            return Ok((omd.clone(), acc.is_some().then_some(idx)));
+        }
+
         let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                 .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
         let Some((optdef, optidx)) = it.next() else {
-- 
2.43.0


From bc2d80d06a73286bd2ffcc0789034123a71f91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 06/13] fix: the Top-A sampler reports its own name

---
 src/samplers/top_a.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/top_a.rs b/src/samplers/top_a.rs
index 63942fc..1e0e894 100644
--- a/src/samplers/top_a.rs
+++ b/src/samplers/top_a.rs
@@ -93,7 +93,7 @@ impl ConfigurableSampler<usize, L> for SampleTopA {}
 impl HasSamplerMetadata<usize, L> for SampleTopA {
     fn sampler_metadata(&self) -> SamplerMetadata {
         SamplerMetadata {
-            name: "top-p",
+            name: "top-a",
             description: Some(concat!(
                 "This sampler prunes tokens that don't meet a threshold based",
                 " on the most probable token. The formula is `a1 * pow(max_prob, a2)`",
-- 
2.43.0


From 838b5d95e92887ee6d42a94f56b34d9a858ce354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 07/13] fix: a negative temperature clears the sorted flag

The order is reversed, so samplers relying on the flag picked the worst token.
---
 src/samplers/temperature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..bafa7fc 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -42,6 +42,10 @@ impl Sampler for SampleTemperature {
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
             logits.set_softmax(false);
+            if !(temp > 0f32) {
+                // Dividing by a negative value reverses the order.
+                logits.set_sorted(false);
+            }
         }
         Ok(logits)
     }
-- 
2.43.0


From 3b48171ee4e2c2b0bab1ea2153c8d7604052f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 08/13] fix: Mirostat v1 estimates k as the paper defines it

The ratio of probabilities was not logged, 2^mu was computed as mu^2 and the
denominator was dropped from the division by operator precedence.
---
 src/samplers/mirostat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 8805139..e4aa46f 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -134,7 +134,7 @@ impl Sampler for SampleMirostat1 {
                 .take((m - 1).min(logits.len() - 1))
                 .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                     let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
-                    let b_i = l.prob / l_next.prob;
+                    let b_i = (l.prob / l_next.prob).ln();
                     let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                     idx += 1f32;
                     result
@@ -142,8 +142,9 @@ impl Sampler for SampleMirostat1 {
         };
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
-        let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+        // k = ((epsilon * 2^mu) / (1 - n_vocab^(-epsilon)))^(1 / s), see the paper.
+        let k = (epsilon_hat * 2f32.powf(mu) / (1f32 - n_vocab.powf(-epsilon_hat)))
+            .powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From 37ff20d426613a41a2035c185226eb928f319532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 09/13] fix: building top-k logits with a very large k does not
 panic

The capacity was reserved for k entries, however many scores there are.
---
 src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 0396812..0607164 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -164,13 +164,16 @@ impl Logits {
             return Ok(Self::default());
         }
 
+        let it = it.into_iter();
+        let capacity = k.min(it.size_hint().0);
+
         Ok(Logits {
             sorted: true,
             has_softmax: false,
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::with_capacity(capacity), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0


From d3e383f57b13019e27a05161079b91136e3f1d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 10/13] fix: sequence repetition does not overflow on a very
 large min_length

---
 src/samplers/sequence_repetition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..96caf86 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -122,7 +122,7 @@ fn find_seqs<T: PartialEq + Copy + std::fmt::Debug>(
     max_merge: usize,
 ) -> Vec<SeqMatchResult<'_, T>> {
     let seqlen = seq.len();
-    if seqlen < min_len * 2 {
+    if seqlen < min_len.saturating_mul(2) {
         return Vec::default();
     }
 
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() < min_length.saturating_mul(2) {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From 8e7dbeb1da45b173862f443bc099a56ca74bdb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 11/13] fix: max_merge limits the tokens a sequence wildcard
 can absorb as documented

One mismatching token is already consumed when the window is set, so the limit
was off by one: 0 or 1 did not deactivate merging consistently and the largest
value overflowed.
---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 96caf86..03cadd2 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.max(1);
     }
 
     result
-- 
2.43.0


From b37f84ae90a865bd6966e00f0291e39dd2b35f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 12/13] fix: sorting logits that contain NaN reports an error
 instead of panicking

Samplers can produce NaN (a bias of -inf on a logit of +inf, for example). The
comparison is not a total order then, and sort_by may panic on such input.
---
 src/types.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 0607164..a718235 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -233,6 +233,13 @@ impl Logits {
             return Ok(self);
         }
 
+        // NaN cannot be ordered, and sorting with an inconsistent comparison may panic.
+        if self.iter().any(|l| l.logit.is_nan()) {
+            Err(LogitsError::InternalError(String::from(
+                "Cannot sort logits containing NaN",
+            )))?
+        }
+
         let mut sort_err = Ok(());
         self.logits.as_mut_slice().sort_by(|a, b| {
             b.logit.partial_cmp(&a.logit).unwrap_or_else(|| {
-- 
2.43.0


From d7d01abcef557090faea646850f34969d822c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 13/13] fix: locally typical sampling reports NaN probabilities
 instead of panicking

---
 src/samplers/locally_typical.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index ad2f573..627e1f0 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -81,6 +81,12 @@ impl Sampler for SampleLocallyTypical {
             .iter()
             .map(|l| (l.clone(), (-l.prob.ln() - ent).abs()))
             .collect::<Vec<_>>();
+        // NaN cannot be ordered, and sorting with an inconsistent comparison may panic.
+        if shifted.iter().any(|(_, score)| score.is_nan()) {
+            Err(SamplerError::InternalError(String::from(
+                "Cannot compare a logit with a NaN probability",
+            )))?
+        }
         {
             let mut sort_err = Ok(());
             shifted.sort_by(|a, b| {
-- 
2.43.0


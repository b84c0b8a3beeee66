From 65bd3c3fd45f55242de16b0a31a256793c8726e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 01/10] sim: guarded hooks (cfg panacea_sim): simulated std,
 Clone and Debug on client queries

---
 src/lib.rs  | 5 +++++
 src/oram.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 63ee381..99df127 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,9 @@
 #![allow(deprecated)]
+#![allow(unexpected_cfgs)]
+
+// Deterministic simulation (off by default): std's threads, locks and clocks are replaced.
+#[cfg(panacea_sim)]
+extern crate panacea_simstd as std;
 
 #[macro_use]
 pub mod macros;
diff --git a/src/oram.rs b/src/oram.rs
index 690a34b..b91f261 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -33,6 +33,7 @@ impl FftBufferPool {
     }
 }
 
+#[cfg_attr(panacea_sim, derive(Clone, Debug))]
 struct EncOP(RGSWCiphertext);
 
 enum OP {
@@ -41,6 +42,7 @@ enum OP {
 }
 
 /// The client's encrypted query.
+#[cfg_attr(panacea_sim, derive(Clone, Debug))]
 pub struct ClientQuery {
     a: Vec<RGSWCiphertext>,
     op: EncOP,
-- 
2.43.0


From 9bc388e54864c45f632be1ab1d9a8c6a4f11467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 02/10] fix: do not panic when a one-element parallel loop runs
 on a thread outside the pool

rayon::current_thread_index() is None when process_multi is given one query, or
process_batch one row, or level_count is 1, and the caller is an ordinary thread.
---
 src/oram.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index b91f261..c099cc8 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -33,6 +33,13 @@ impl FftBufferPool {
     }
 }
 
+/// The buffer the current thread should use. Rayon runs a parallel iterator of
+/// a single element on the calling thread, which need not be one of its workers.
+/// Buffers are behind a mutex, so such a thread may share the first one.
+fn buffer_index() -> usize {
+    rayon::current_thread_index().unwrap_or(0)
+}
+
 #[cfg_attr(panacea_sim, derive(Clone, Debug))]
 struct EncOP(RGSWCiphertext);
 
@@ -251,7 +258,7 @@ fn process_one_mt(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let f = |level: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;
@@ -270,7 +277,7 @@ fn process_one_mt(
     assert_eq!(decomposed_l.len(), cols);
 
     let g = |j: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
             neg_s,
@@ -312,7 +319,7 @@ fn update_db_mt(
     ctx: &Context,
 ) {
     let g = |j: usize, l: &RGSWCiphertext| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let tmp: RLWECiphertext = rw(
             &query.op,
             &query.data,
@@ -350,7 +357,7 @@ fn process_one_st(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     for level in 1..=ctx.level_count.0 {
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -393,7 +400,7 @@ fn update_db_st(
     buf: &FftBufferPool,
     ctx: &Context,
 ) {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     let cols = data.read().unwrap().len();
     for j in 0..cols {
         // update the database at index j
@@ -472,7 +479,7 @@ impl Server {
 
         // sum the output of rw*t in parallel (over multiple queries)
         let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = rayon::current_thread_index().unwrap();
+            let tid = buffer_index();
             let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
             for j in 0..cols {
                 let tmp = rw(
@@ -526,7 +533,7 @@ impl Server {
             .collect::<Vec<usize>>()
             .into_par_iter()
             .for_each(|j| {
-                let tid = rayon::current_thread_index().unwrap();
+                let tid = buffer_index();
                 let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
                 sumed_ls[j].cmux_with_buf(
                     &mut new_data,
@@ -633,7 +640,7 @@ fn correct_consistency(
     ctx: &Context,
     buf: &FftBufferPool,
 ) -> RLWECiphertext {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     let first_r = positions[0].0;
     let first_c = positions[0].1;
     let v1s: Vec<RLWECiphertext> = positions
-- 
2.43.0


From d7b7e852bf8cd3b2d188bb6ae23e81edb30516c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 03/10] fix: refuse a batch whose indices cannot all be placed

The check was never true inside the loop, so an index whose rows were all taken was
silently left out: reads of it were not answered and writes to it were lost.
---
 src/naive_hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..890c71c 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -79,7 +79,7 @@ impl NaiveHash {
                     e.insert((c, *i));
                     break;
                 }
-                if h >= self.h_count() {
+                if h + 1 >= self.h_count() {
                     panic!("all slots are taken for i={}", i);
                 }
             }
-- 
2.43.0


From be22d50dc196c273677abf70d7ea841ed2730b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 04/10] fix: encrypt RGSW polynomials with the gadget of the
 ciphertext being filled

encrypt_rgsw always used base_log, also for RGSW(-s), which is allocated with
negs_base_log; with the two parameters different every ORAM answer was garbage.
---
 src/rlwe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..1477ad1 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -449,10 +449,11 @@ impl RLWESecretKey {
     ) {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
+        let base_log = out.decomposition_base_log();
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log.0 * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From 00e5ac78ee221d053d0b40034cecdc6be5355a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 05/10] fix: decode the prediction of a tree whose leaves are
 all zero

---
 src/decision_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index ee3bd66..66f9d75 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -632,6 +632,10 @@ fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Co
             _ => panic!("expected binary plaintext"),
         }
     }
+    if bv.is_empty() {
+        // every leaf value is zero, so it takes no bits at all
+        return Scalar::zero();
+    }
     bv.load::<Scalar>()
 }
 
-- 
2.43.0


From ddef403e34adc4c59d7a02e56bb72852558dc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 06/10] fix: keep an item intact when several queries of one
 multi-query call select it

---
 src/oram.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index c099cc8..cb68aae 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -534,13 +534,18 @@ impl Server {
             .into_par_iter()
             .for_each(|j| {
                 let tid = buffer_index();
-                let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
-                sumed_ls[j].cmux_with_buf(
-                    &mut new_data,
-                    &self.data[0].clone().read().unwrap()[j],
-                    &sumed_tmps[j],
+                // sumed_tmps is already multiplied by the selectors, so only the
+                // current value needs the product; this keeps the item intact when
+                // more than one query selects it
+                let mut new_data = self.data[0].clone().read().unwrap()[j].clone();
+                let mut tmp = RLWECiphertext::allocate(self.ctx.poly_size);
+                sumed_ls[j].external_product_with_buf(
+                    &mut tmp,
+                    &new_data,
                     &mut buf.pool[tid].clone().lock().unwrap(),
                 );
+                new_data.update_with_add(&sumed_tmps[j]);
+                new_data.update_with_sub(&tmp);
                 self.data[0].clone().write().unwrap()[j].fill_with_copy(&new_data);
             });
 
-- 
2.43.0


From e49782b8c3b02cb7692b1ac826e081a7072c43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 07/10] fix: count the bits of the largest leaf exactly

The count went through floating point, so leaf values of about 2^48 and more
lost their highest bit, and usize::MAX overflowed to no bits at all.
---
 src/decision_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 66f9d75..ddb537b 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -375,7 +375,7 @@ impl EncNode {
 
     /// Evaluate the tree.
     pub fn eval(&self, ctx: &Context, buf: &mut FftBuffer) -> Vec<RLWECiphertext> {
-        let max_leaf_bits = ((self.max_leaf() + 1) as f64).log2().ceil() as usize;
+        let max_leaf_bits = (usize::BITS - self.max_leaf().leading_zeros()) as usize;
         let mut out = vec![RLWECiphertext::allocate(ctx.poly_size); max_leaf_bits];
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one();
-- 
2.43.0


From 7c7e6adcb40bc2f0d172c9c90677448c8de39be8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:48:42 +0000
Subject: [PATCH 08/10] fix: multiply the body of a ciphertext instead of
 clearing it

---
 src/rlwe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 1477ad1..026ad83 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -148,7 +148,11 @@ impl RLWECiphertext {
             .as_mut_tensor()
             .fill_with_copy(self.get_body().as_tensor());
         self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
-        naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
+        naive_update_with_mul_acc(
+            &mut self.get_mut_body().as_mut_polynomial(),
+            &poly_buffer.as_mut_view(),
+            other,
+        );
     }
 
     pub fn update_body_with_mul_with_buf(&mut self, other: &Polynomial<&[Scalar]>) {
-- 
2.43.0


From dc4b5d6c7ff8de0dabcbbbb5136efbdf9ebf0e15 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:48:42 +0000
Subject: [PATCH 09/10] fix: encode the ternary plaintext before measuring its
 noise

---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 026ad83..6cbab26 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1294,7 +1294,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From 20e0b782295e8b0bc1d1e238e01c8f1f9756c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:17 +0000
Subject: [PATCH 10/10] fix: apply the queries of a parallel call to each item
 one after the other

The sum over all queries adds the values of several writes to one item
(and subtracts the old value), leaving a value that nobody wrote. Applying
them in order per column costs the same products and the last write prevails.
---
 src/oram.rs | 86 +++++++++++++----------------------------------------
 1 file changed, 21 insertions(+), 65 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index cb68aae..b20617e 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -477,76 +477,32 @@ impl Server {
             .unzip();
         let dur = start.elapsed();
 
-        // sum the output of rw*t in parallel (over multiple queries)
-        let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = buffer_index();
-            let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
-            for j in 0..cols {
-                let tmp = rw(
-                    &query.op,
-                    &query.data,
-                    &self.data[0].clone().read().unwrap()[j],
-                    &self.ctx,
-                    &mut buf.pool[tid].clone().lock().unwrap(),
-                );
-                // L * t
-                l[j].external_product_with_buf(
-                    &mut out[j],
-                    &tmp,
-                    &mut buf.pool[tid].clone().lock().unwrap(),
-                );
-            }
-            out
-        });
-
-        let sumed_tmps = tmps.reduce(
-            || vec![RLWECiphertext::allocate(self.ctx.poly_size); cols],
-            |mut xs, ys| {
-                for i in 0..xs.len() {
-                    xs[i].update_with_add(&ys[i]);
-                }
-                xs
-            },
-        );
-
-        let sumed_ls = ls.into_par_iter().reduce(
-            || {
-                vec![
-                    RGSWCiphertext::allocate(
-                        self.ctx.poly_size,
-                        self.ctx.base_log,
-                        self.ctx.level_count
-                    );
-                    cols
-                ]
-            },
-            |mut xs, ys| {
-                for i in 0..xs.len() {
-                    xs[i].update_with_add(&ys[i]);
-                }
-                xs
-            },
-        );
-
-        // finally update the db in parallel (over multiple indices)
+        // finally update the db in parallel (over multiple indices), applying the
+        // queries one after the other so that the last of several writes prevails
         (0..cols)
             .collect::<Vec<usize>>()
             .into_par_iter()
             .for_each(|j| {
                 let tid = buffer_index();
-                // sumed_tmps is already multiplied by the selectors, so only the
-                // current value needs the product; this keeps the item intact when
-                // more than one query selects it
-                let mut new_data = self.data[0].clone().read().unwrap()[j].clone();
-                let mut tmp = RLWECiphertext::allocate(self.ctx.poly_size);
-                sumed_ls[j].external_product_with_buf(
-                    &mut tmp,
-                    &new_data,
-                    &mut buf.pool[tid].clone().lock().unwrap(),
-                );
-                new_data.update_with_add(&sumed_tmps[j]);
-                new_data.update_with_sub(&tmp);
-                self.data[0].clone().write().unwrap()[j].fill_with_copy(&new_data);
+                let mut data = self.data[0].clone().read().unwrap()[j].clone();
+                for (query, l) in queries.iter().zip(&ls) {
+                    let tmp = rw(
+                        &query.op,
+                        &query.data,
+                        &data,
+                        &self.ctx,
+                        &mut buf.pool[tid].clone().lock().unwrap(),
+                    );
+                    let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
+                    l[j].cmux_with_buf(
+                        &mut new_data,
+                        &data,
+                        &tmp,
+                        &mut buf.pool[tid].clone().lock().unwrap(),
+                    ); // 0 -> data, 1 -> tmp
+                    data = new_data;
+                }
+                self.data[0].clone().write().unwrap()[j].fill_with_copy(&data);
             });
 
         (ys, dur)
-- 
2.43.0


From a39a441f599425a7961df6fbf5e4f4d8a299528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 01/25] fix: quotient filter remove must not touch the table
 when the item's quotient has no run

---
 src/quotient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a598c8..e9a9645 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -442,8 +442,8 @@ where
         let (quotient, remainder) =
             self.get_quotient_and_remainder(util::hash(&self.hash_builder, &item));
 
-        // empty slot
-        if self.slot_vec.get(quotient) & METADATA_MASK == 0 {
+        // no such run exists
+        if self.slot_vec.get(quotient) & OCCUPIED_MASK == 0 {
             return;
         }
 
-- 
2.43.0


From d016af7837cc23a3c6839ba6f7843e5a36141759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 02/25] fix: quotient filter remove must clear the occupied bit
 of a run it empties at a cluster end

---
 src/quotient.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index e9a9645..6af3cc5 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -481,6 +481,12 @@ where
         self.increment_index(&mut next_index);
         let mut next_slot = self.slot_vec.get(next_index);
 
+        // removing the only item of a run, so we can delete occupied bit of canonical position
+        if is_run_start && next_slot & CONTINUATION_MASK == 0 {
+            let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
+            self.slot_vec.set(quotient, canonical_slot);
+        }
+
         // continue until it is not shifted and not a continuation: the only cases are if it is an
         // item in its canonical position, or if the slot is empty
         while next_slot & CONTINUATION_MASK != 0 || next_slot & SHIFTED_MASK != 0 {
@@ -489,11 +495,6 @@ where
             // update number of runs since the entire run gets shifted to left
             if next_slot & CONTINUATION_MASK == 0 {
                 runs_count += 1;
-                // next slot is a new run, so we can delete occupied bit of canonical position
-                if is_run_start {
-                    let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
-                    self.slot_vec.set(quotient, canonical_slot);
-                }
             }
             // if first item is a start of a run, the next item must be a start of a run. The
             // next item is either already a start of a run or the new start of the removed
-- 
2.43.0


From 24089dd3036247daab5bbfd8c46fec7e01ba4f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 03/25] fix: quotient filter from_fpp must size the remainder
 so that the requested fpp holds at capacity

---
 src/quotient.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6af3cc5..2c7d376 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -267,8 +267,12 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
+        assert!(capacity > 0);
+        assert!(0.0 < fpp && fpp < 1.0);
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        // holding `capacity` items fills at most `1 / 1.33` of the slots
+        let fill_ratio = 1.0 / 1.33;
+        let remainder_bits = (-fill_ratio / (1.0 - fpp).ln()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From f8c0841b0fafa48711199e6bc711ccada9b3ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 04/25] fix: quotient filter must allocate one slot per
 quotient, not slot_bits slots

---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 2c7d376..6a37295 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -232,7 +232,7 @@ where
         assert!(remainder_bits > 0);
         assert!(quotient_bits + remainder_bits <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
-        let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
+        let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
             quotient_bits,
             remainder_bits,
-- 
2.43.0


From 651fea048f034e9ff5a7b71b4ac3152ab4752022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 05/25] fix: cuckoo filter capacity must count its entries, not
 the padding of the backing blocks

---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 9d3545a..002450b 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -649,7 +649,7 @@ where
     /// assert_eq!(filter.capacity(), 128);
     /// ```
     pub fn capacity(&self) -> usize {
-        self.fingerprint_vec.capacity()
+        self.fingerprint_vec.len()
     }
 
     /// Returns the length of each bucket in the cuckoo filter.
-- 
2.43.0


From dfd8eaf527ee95c381b43e51a5abf89e51ffb56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 06/25] fix: cuckoo filter from_entries_per_index must not ask
 for fingerprints wider than 64 bits

---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 002450b..e9bc322 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -321,7 +321,7 @@ where
         assert!(item_count > 0);
         assert!(entries_per_index > 0);
         let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * entries_per_index as f64)));
-        let fingerprint_bit_count = power.log2().ceil() as usize;
+        let fingerprint_bit_count = cmp::min(power.log2().ceil() as usize, 64);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From 381707c341c73a93a7286a5bd464a786e53a1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 07/25] fix: cuckoo filter must accept the documented minimum
 of 1 fingerprint bit

---
 src/cuckoo/cuckoo_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index e9bc322..c5f57a2 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -268,7 +268,7 @@ where
     ) -> Self {
         assert!(
             item_count > 0
-                && fingerprint_bit_count > 1
+                && fingerprint_bit_count >= 1
                 && fingerprint_bit_count <= 64
                 && entries_per_index > 0
         );
@@ -370,7 +370,7 @@ where
         hash_builders: [B; 2],
     ) -> Self {
         assert!(item_count > 0);
-        assert!(fingerprint_bit_count > 1 && fingerprint_bit_count <= 64);
+        assert!(fingerprint_bit_count >= 1 && fingerprint_bit_count <= 64);
         let fingerprints_count = 2.0f64.powi(fingerprint_bit_count as i32);
         let single_fpp = (fingerprints_count - 2.0) / (fingerprints_count - 1.0);
         let entries_per_index = ((1.0 - fpp).log(single_fpp) / 2.0).floor() as usize;
-- 
2.43.0


From 615bbe8ad66a5a9890ad04b82a1a95da45ad5cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 08/25] fix: hyperloglog raw estimate must divide by the
 harmonic sum, and linear counting needs an empty register

---
 src/hyperloglog.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index eece6a9..cb956af 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -176,14 +176,12 @@ where
 
     fn get_estimate(&self) -> f64 {
         let len = self.registers.len() as f64;
-        1.0 / (self.alpha
-            * len
-            * len
-            * self
+        self.alpha * len * len
+            / self
                 .registers
                 .iter()
                 .map(|value| 1.0 / 2.0f64.powi(i32::from(*value)))
-                .sum::<f64>())
+                .sum::<f64>()
     }
 
     /// Returns the estimated number of distinct items in the `HyperLogLog<T>`.
@@ -209,7 +207,12 @@ where
                     .iter()
                     .map(|value| u64::from(*value == 0))
                     .sum::<u64>();
-                len * (len / zeros as f64).ln()
+                // linear counting needs an empty register
+                if zeros == 0 {
+                    x
+                } else {
+                    len * (len / zeros as f64).ln()
+                }
             }
             x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
             x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
-- 
2.43.0


From 38c6322abf4a7ffc93f19fee16552e4748f2dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 09/25] fix: hyperloglog must not apply the 32-bit hash
 correction to 64-bit hashes

---
 src/hyperloglog.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index cb956af..c09fdbd 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -20,7 +20,7 @@ use std::marker::PhantomData;
 /// distributed items can be estimated by calculating the maximum number of leading zeros in the
 /// hash of each item in the multiset. It also buckets each item in a register and takes the
 /// harmonic mean of the count in order to reduce the variance. Finally, it uses linear counting
-/// for small cardinalities and small correction for large cardinalities.
+/// for small cardinalities.
 ///
 /// # Examples
 ///
@@ -214,8 +214,8 @@ where
                     len * (len / zeros as f64).ln()
                 }
             }
-            x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
-            x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
+            // hashes are 64 bits, so no correction for hash collisions is needed
+            x => x,
         }
     }
 
-- 
2.43.0


From 30f7d619d54562d909bc1fdd3fb8c6fdea7ec12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 10/25] fix: shingle iterator must be empty when there are
 fewer tokens than a shingle needs

---
 src/similarity/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/similarity/mod.rs b/src/similarity/mod.rs
index 9976323..1e60902 100644
--- a/src/similarity/mod.rs
+++ b/src/similarity/mod.rs
@@ -65,7 +65,7 @@ where
     type Item = Vec<&'a T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index > self.tokens.len() - self.token_count {
+        if self.index + self.token_count > self.tokens.len() {
             return None;
         }
         self.index += 1;
-- 
2.43.0


From 19101aaa7904e0e9245c6c316c94112d19db9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 11/25] fix: simhash report_similarities must not underflow
 when there are fewer inputs than the window

---
 src/similarity/sim_hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/similarity/sim_hash.rs b/src/similarity/sim_hash.rs
index dff83fb..e7c6582 100644
--- a/src/similarity/sim_hash.rs
+++ b/src/similarity/sim_hash.rs
@@ -161,6 +161,7 @@ where
             .map(|(index, shingles)| (self.get_sim_hash(shingles), index))
             .collect();
 
+        let window_size = cmp::min(window_size, sim_hashes.len());
         let mut similarities = HashSet::new();
 
         for _ in 0..64 {
-- 
2.43.0


From 25e2d1c876cc6146fed95ffa7397d79fd202c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 12/25] fix: bit vector clone_from must copy the number of ones

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index ce7f1b8..1df41f3 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -291,6 +291,7 @@ impl Clone for BitVec {
 
     fn clone_from(&mut self, source: &Self) {
         self.len = source.len;
+        self.one_count = source.one_count;
         self.blocks.clone_from(&source.blocks);
     }
 }
-- 
2.43.0


From e5875626a9731c0fc8e002d3532d18b21a32b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 13/25] fix: bit vector truncate must recount the number of
 ones

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 1df41f3..5902c2e 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -199,6 +199,7 @@ impl BitVec {
             self.len = len;
             self.blocks.truncate(Self::get_block_count(len));
             self.clear_extra_bits();
+            self.one_count = self.blocks().map(|block| block.count_ones() as usize).sum();
         }
     }
 
-- 
2.43.0


From ee337e3c62781d36bf1ed64c5d41177c8b335a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 14/25] fix: bit vector flip_all must leave the bits past its
 length clear

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 5902c2e..f582d0d 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -156,6 +156,7 @@ impl BitVec {
         for block in &mut self.blocks {
             *block = !*block;
         }
+        self.clear_extra_bits();
     }
 
     fn apply<F>(&mut self, other: &BitVec, mut op: F)
-- 
2.43.0


From 0a10579e2d5044c75668853ab4dbfb979da9278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 15/25] fix: bitstring vector pop must clear the popped bits

---
 src/bitstring_vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bitstring_vec.rs b/src/bitstring_vec.rs
index 6ffd09e..3aa4ac9 100644
--- a/src/bitstring_vec.rs
+++ b/src/bitstring_vec.rs
@@ -144,12 +144,11 @@ impl BitstringVec {
         assert!(!self.is_empty());
         let ret = self.get(self.len - 1);
         let len = self.len;
+        // the last block may be kept, so it must not hold the popped bitstring
+        self.set(len - 1, 0);
         let new_blocks_len = Self::get_block_count(self.bit_count, len - 1);
         self.blocks.truncate(new_blocks_len);
         self.len -= 1;
-        if ret != 0 {
-            self.occupied_len -= 1;
-        }
         ret
     }
 
-- 
2.43.0


From 7170dd4d0abd2a3a514d23596706d3a2ec078194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 16/25] fix: bloom filter from_fpp must not ask for infinitely
 many probes when the fpp underflows

---
 src/bloom/bloom_filter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bloom/bloom_filter.rs b/src/bloom/bloom_filter.rs
index 066ff85..05b5e74 100644
--- a/src/bloom/bloom_filter.rs
+++ b/src/bloom/bloom_filter.rs
@@ -188,6 +188,8 @@ where
     /// ```
     pub fn from_fpp_with_hashers(bit_count: usize, fpp: f64, hash_builders: [B; 2]) -> Self {
         let item_count = -(2f64.ln() * (bit_count as f64) / fpp.log2()).floor() as usize;
+        // `fpp` may have been tightened all the way down to 0
+        let item_count = item_count.max(1);
         BloomFilter {
             bit_vec: BitVec::new(bit_count),
             hasher: DoubleHasher::with_hashers(hash_builders),
-- 
2.43.0


From dc236b7eee92040194b798b1d192060cfabdc8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 17/25] verification hooks: fixed randomness and access to the
 bit vectors, behind cfg(verif_hooks)

---
 src/bloom/dd_bloom_filter.rs |  3 ++
 src/cuckoo/cuckoo_filter.rs  |  3 ++
 src/lib.rs                   |  3 ++
 src/verif_hooks.rs           | 70 ++++++++++++++++++++++++++++++++++++
 4 files changed, 79 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/bloom/dd_bloom_filter.rs b/src/bloom/dd_bloom_filter.rs
index ab60d27..322cec1 100644
--- a/src/bloom/dd_bloom_filter.rs
+++ b/src/bloom/dd_bloom_filter.rs
@@ -1,6 +1,9 @@
 use crate::bit_vec::BitVec;
+#[cfg(verif_hooks)]
+use crate::verif_hooks::XorShiftRng;
 use crate::{DoubleHasher, HashIter, SipHasherBuilder};
 use rand::{Rng, SeedableRng};
+#[cfg(not(verif_hooks))]
 use rand_xorshift::XorShiftRng;
 #[cfg(feature = "serde")]
 use serde_crate::{Deserialize, Serialize};
diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index c5f57a2..e202186 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -1,8 +1,11 @@
 use crate::bitstring_vec::BitstringVec;
 use crate::cuckoo::{DEFAULT_ENTRIES_PER_INDEX, DEFAULT_FINGERPRINT_BIT_COUNT, DEFAULT_MAX_KICKS};
 use crate::util;
+#[cfg(verif_hooks)]
+use crate::verif_hooks::XorShiftRng;
 use crate::SipHasherBuilder;
 use rand::{Rng, SeedableRng};
+#[cfg(not(verif_hooks))]
 use rand_xorshift::XorShiftRng;
 #[cfg(feature = "serde")]
 use serde_crate::{Deserialize, Serialize};
diff --git a/src/lib.rs b/src/lib.rs
index 24ca05e..f74782d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -102,6 +102,9 @@ pub mod hyperloglog;
 pub mod quotient;
 pub mod similarity;
 mod util;
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+pub mod verif_hooks;
 
 pub use self::util::SipHasherBuilder;
 use self::util::{DoubleHasher, HashIter};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..ef67956
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,70 @@
+//! Hooks for the external verification harness. Compiled only with `--cfg verif_hooks`.
+
+pub use crate::bit_vec::BitVec;
+pub use crate::bitstring_vec::BitstringVec;
+
+use rand::{Error, RngCore, SeedableRng};
+use std::cell::Cell;
+
+thread_local! {
+    static ENTROPY: Cell<u64> = Cell::new(0x9e37_79b9_7f4a_7c15);
+    static CONSTANT: Cell<Option<u64>> = Cell::new(None);
+}
+
+/// Fixes the source that stands in for entropy on this thread.
+pub fn set_entropy(seed: u64) {
+    ENTROPY.with(|entropy| entropy.set(seed));
+}
+
+/// Makes every generator on this thread return `value` (or resume its stream with `None`).
+pub fn set_constant(value: Option<u64>) {
+    CONSTANT.with(|constant| constant.set(value));
+}
+
+/// Stand-in for `rand_xorshift::XorShiftRng` whose entropy can be fixed from outside.
+#[derive(Clone, Debug)]
+pub struct XorShiftRng(rand_xorshift::XorShiftRng);
+
+impl RngCore for XorShiftRng {
+    fn next_u32(&mut self) -> u32 {
+        match CONSTANT.with(|constant| constant.get()) {
+            Some(value) => (value >> 32) as u32,
+            None => self.0.next_u32(),
+        }
+    }
+
+    fn next_u64(&mut self) -> u64 {
+        match CONSTANT.with(|constant| constant.get()) {
+            Some(value) => value,
+            None => self.0.next_u64(),
+        }
+    }
+
+    fn fill_bytes(&mut self, dest: &mut [u8]) {
+        self.0.fill_bytes(dest)
+    }
+
+    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
+        self.0.try_fill_bytes(dest)
+    }
+}
+
+impl SeedableRng for XorShiftRng {
+    type Seed = <rand_xorshift::XorShiftRng as SeedableRng>::Seed;
+
+    fn from_seed(seed: Self::Seed) -> Self {
+        XorShiftRng(rand_xorshift::XorShiftRng::from_seed(seed))
+    }
+
+    fn from_entropy() -> Self {
+        let seed = ENTROPY.with(|entropy| {
+            let next = entropy
+                .get()
+                .wrapping_mul(6_364_136_223_846_793_005)
+                .wrapping_add(1_442_695_040_888_963_407);
+            entropy.set(next);
+            next
+        });
+        Self::seed_from_u64(seed)
+    }
+}
-- 
2.43.0


From 93330358f8a380a6ba2462dd66a435df39af435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 18/25] fix: hyperloglog must count the run of ones only up to
 the end of the hash

---
 src/hyperloglog.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index c09fdbd..39d7c4d 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -132,7 +132,8 @@ where
     {
         let hash = util::hash(&self.hash_builder, &item);
         let register_index = hash as usize & (self.registers.len() - 1);
-        let value = (!hash >> self.p).trailing_zeros() as u8;
+        // the run of ones ends with the hash
+        let value = cmp::min((!hash >> self.p).trailing_zeros() as usize, 64 - self.p) as u8;
         self.registers[register_index] = cmp::max(self.registers[register_index], value + 1);
     }
 
-- 
2.43.0


From 27f81224caa6299912e409f838c715abcf209407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 19/25] fix: hyperloglog must choose its register count by the
 base 2 logarithm

---
 src/hyperloglog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 39d7c4d..4fe7840 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -102,7 +102,7 @@ where
     /// ```
     pub fn with_hasher(error_probability: f64, hash_builder: B) -> Self {
         assert!(0.0 < error_probability && error_probability < 1.0);
-        let p = (1.04 / error_probability).powi(2).ln().ceil() as usize;
+        let p = (1.04 / error_probability).powi(2).log2().ceil() as usize;
         let alpha = Self::get_alpha(p);
         let registers_len = 1 << p;
         HyperLogLog {
-- 
2.43.0


From b27e5bd01c62a2a637e79cf3dbe5b5fb2d96df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 20/25] fix: hyperloglog must accept error probabilities that
 need more than 2^16 registers

---
 src/hyperloglog.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 4fe7840..d8cb5f6 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,12 +77,11 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=16).contains(&p));
         match p {
             4 => 0.673,
             5 => 0.697,
             6 => 0.709,
-            p => 0.7213 / (1.0 + 1.079 / f64::from(1 << p)),
+            p => 0.7213 / (1.0 + 1.079 / (1u64 << p) as f64),
         }
     }
 
-- 
2.43.0


From 3e0edf04afa732f4ad1589d72fc014871699aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 21/25] fix: quotient filter must reject bit counts whose sum
 overflows a byte

---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a37295..7f5a990 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -230,7 +230,7 @@ where
     pub fn with_hasher(quotient_bits: u8, remainder_bits: u8, hash_builder: B) -> Self {
         assert!(quotient_bits > 0);
         assert!(remainder_bits > 0);
-        assert!(quotient_bits + remainder_bits <= 64);
+        assert!(u32::from(quotient_bits) + u32::from(remainder_bits) <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
         let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
-- 
2.43.0


From dc7bbc666a0ec91caae76d17fa6b6bf30de97b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 22/25] fix: quotient filter from_fpp must not lose an fpp
 below the float resolution around 1

---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 7f5a990..b39ba5e 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -272,7 +272,7 @@ where
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
         // holding `capacity` items fills at most `1 / 1.33` of the slots
         let fill_ratio = 1.0 / 1.33;
-        let remainder_bits = (-fill_ratio / (1.0 - fpp).ln()).log2().ceil().max(1.0) as u8;
+        let remainder_bits = (-fill_ratio / (-fpp).ln_1p()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From 1c0b49912a154fd7c0343f28f51b50a912acf2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 23/25] fix: cuckoo filter from_fingerprint_bit_count must
 accept fingerprints of more than 53 bits

---
 src/cuckoo/cuckoo_filter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index e202186..2097dca 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -375,9 +375,12 @@ where
         assert!(item_count > 0);
         assert!(fingerprint_bit_count >= 1 && fingerprint_bit_count <= 64);
         let fingerprints_count = 2.0f64.powi(fingerprint_bit_count as i32);
-        let single_fpp = (fingerprints_count - 2.0) / (fingerprints_count - 1.0);
-        let entries_per_index = ((1.0 - fpp).log(single_fpp) / 2.0).floor() as usize;
+        // log of the probability that a fingerprint does not match
+        let single_log = (-1.0 / (fingerprints_count - 1.0)).ln_1p();
+        let entries_per_index = ((-fpp).ln_1p() / single_log / 2.0).floor() as usize;
         assert!(entries_per_index > 0);
+        // a single bucket can hold all items, so more entries would never be used
+        let entries_per_index = cmp::min(entries_per_index, item_count);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From f08cb7a6ac0583439ed4057a26e83a7be9224bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 24/25] fix: cuckoo filter from_entries_per_index must not lose
 an fpp below the float resolution around 1

---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 2097dca..20a1974 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -323,7 +323,7 @@ where
     ) -> Self {
         assert!(item_count > 0);
         assert!(entries_per_index > 0);
-        let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * entries_per_index as f64)));
+        let power = -2.0 / ((-fpp).ln_1p() / (2.0 * entries_per_index as f64)).exp_m1();
         let fingerprint_bit_count = cmp::min(power.log2().ceil() as usize, 64);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
-- 
2.43.0


From 71e0f5298c11b52dd67aab7d893966322a99c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 25/25] fix: count-mean and median-bias estimates must be exact
 beyond the precision of f64

---
 src/count_min_sketch.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/count_min_sketch.rs b/src/count_min_sketch.rs
index 7787659..6e80695 100644
--- a/src/count_min_sketch.rs
+++ b/src/count_min_sketch.rs
@@ -33,7 +33,12 @@ pub struct CountMeanStrategy;
 
 impl CountStrategy for CountMeanStrategy {
     fn get_estimate(_items: i64, rows: usize, _cols: usize, iter: ItemValueIter<'_>) -> i64 {
-        (iter.sum::<i64>() as f64 / rows as f64).round() as i64
+        // exact also for sums that an f64 or an i64 cannot hold
+        let sum = iter.map(i128::from).sum::<i128>();
+        let rows = i128::max(rows as i128, 1);
+        // halves are rounded away from zero
+        let half = if sum < 0 { -rows } else { rows };
+        ((2 * sum + half) / (2 * rows)) as i64
     }
 }
 
@@ -47,7 +52,12 @@ impl CountStrategy for CountMedianBiasStrategy {
     fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
         let min_count = CountMinStrategy::get_estimate(items, rows, cols, iter.clone());
         let mut items_with_bias: Vec<i64> = iter
-            .map(|value| value - ((items - value) as f64 / (cols - 1) as f64).ceil() as i64)
+            .map(|value| {
+                // the total of all other items, spread over the other columns and rounded up
+                let others = i128::from(items) - i128::from(value);
+                let noise = -(-others).div_euclid(i128::max(cols as i128 - 1, 1));
+                (i128::from(value) - noise) as i64
+            })
             .collect();
         items_with_bias.sort();
         let median_count = items_with_bias[(items_with_bias.len() - 1) / 2];
-- 
2.43.0


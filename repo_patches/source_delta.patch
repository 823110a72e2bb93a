From 322e25c51f61d8438e985419a0cca80ada8ba39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 1/5] fix: lyra2 panicked for every output length above 96
 bytes

squeeze() copied the whole requested output out of the blocks produced so
far on every iteration, so any length needing more than one block indexed
past the end of the first block. Copy once, after all blocks were squeezed.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..b2f3fd4 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -154,10 +154,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //be care in case of len(out[i:])<len(tmp)
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
-- 
2.43.0


From 06d09c16c7960141b48cf69696a4fe2cf68e7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 2/5] fix: lyra2 silently wrapped the memory matrix size in
 release builds

With overflow checks off, n_rows * n_cols * 96 wrapped around, so e.g.
n_rows = 2^63 + 4, n_cols = 4 returned a digest computed over 4 rows (and
panicked in debug builds). Reject sizes that cannot be addressed.
---
 src/lyra2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index b2f3fd4..6c32ce2 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -253,6 +253,8 @@ pub fn lyra2(
     //============================= parameter check ============================//
     if time_cost < 1 {panic!()};
     if n_rows < 3 {panic!()};
+    //the memory matrix must be addressable: its size must not wrap around
+    if n_rows.checked_mul(n_cols).map_or(true, |n| n > isize::MAX as u64 / BLOCKLENBYTES as u64) {panic!()};
     //==========================================================================/
 
     //============================= Basic variables ============================//
-- 
2.43.0


From 12b0d8daa0b3818076f24702379d49b48ad96562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:24 +0000
Subject: [PATCH 3/5] hook: expose the private hash stages under
 cfg(lyra2_verif)

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a330a71..73125aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // for cfg(lyra2_verif), see verif_hooks
 mod bmw;
 mod cubehash;
 mod lyra2mod;
@@ -7,3 +8,18 @@ pub mod lyra2z;
 pub mod lyra2re;
 pub mod lyra2rev2;
 pub mod lyra2rev3;
+
+/// Access to the private hash stages for verification builds (`--cfg lyra2_verif`) only.
+#[cfg(lyra2_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub fn bmw256(input: Vec<u8>) -> Vec<u8> {
+        crate::bmw::sum(input)
+    }
+    pub fn cubehash256(input: Vec<u8>) -> Vec<u8> {
+        crate::cubehash::sum(input)
+    }
+    pub fn lyra2mod(input: Vec<u8>) -> Vec<u8> {
+        crate::lyra2mod::sum(input)
+    }
+}
-- 
2.43.0


From 03705bf1ac66498e834a4295be954f436e50cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 4/5] fix: lyra2 copied the rest of the memory matrix for every
 input block

Absorbing password and salt took time quadratic in their length: each
64-byte block was passed on as a copy of the whole rest of the matrix.
---
 src/lyra2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index 6c32ce2..ae13dec 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -336,7 +336,7 @@ pub fn lyra2(
     let mut ptr_word = 0;
     for _i in 0..n_blocks_input {
         let (_, mut _right) = &whole_matrix.split_at(ptr_word);
-        state = absorb_block_blake2_safe(state, _right.to_vec()); //absorbs each block of pad(pwd || salt || basil)
+        state = absorb_block_blake2_safe(state, _right[..BLOCKLENBLAKE2SAFEINT64 as usize].to_vec()); //absorbs each block of pad(pwd || salt || basil)
         ptr_word += BLOCKLENBLAKE2SAFEINT64 as usize; //goes to next block of pad(pwd || salt || basil)
     }
 
-- 
2.43.0


From 56561e5be853a26969014ec44b418cb42d50f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 5/5] fix: reject output lengths that are not addressable

On 32-bit platforms lyra2() returned an empty key for output lengths of
2^63 or more that are multiples of 2^32 (the length was truncated to
usize and no block squeezed), and ran out of memory for other lengths
beyond 2^32. 64-bit platforms panic; now all do, before any work.
---
 src/lyra2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index ae13dec..aabc79d 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -255,6 +255,8 @@ pub fn lyra2(
     if n_rows < 3 {panic!()};
     //the memory matrix must be addressable: its size must not wrap around
     if n_rows.checked_mul(n_cols).map_or(true, |n| n > isize::MAX as u64 / BLOCKLENBYTES as u64) {panic!()};
+    //and so must the output: on 32-bit platforms its length would be truncated
+    if k > isize::MAX as u64 {panic!()};
     //==========================================================================/
 
     //============================= Basic variables ============================//
-- 
2.43.0


From 9c054533d05c31d7ff9a79128e0543270c86faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:12 +0000
Subject: [PATCH 1/5] fix: lyra2 keys longer than 96 bytes no longer panic in
 squeeze

squeeze copied output_size bytes out of the first 96-byte block, so every
key length above one sponge block panicked with a range error although the
documentation only names time_cost and n_rows as panicking parameters.
Collect all blocks first and copy once.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..461c506 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -154,10 +154,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //tmp now holds every squeezed block, i.e. at least output_size bytes
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
-- 
2.43.0


From 2574cf32db646b50b98b7d8157490ee81153c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:13 +0000
Subject: [PATCH 2/5] fix: lyra2 visits rows modulo n_rows when n_rows is not a
 power of two

The lines marked for the generic case used the power-of-two mask: with, say,
n_rows = 5 or 6 the wandering phase touched row 0 only and row* was drawn
from a subset of the rows, so the digest was not Lyra2's and time_cost bought
almost nothing. Power-of-two row counts (all the coin algorithms) are
unchanged.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index 461c506..20e2b2c 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -539,7 +539,7 @@ pub fn lyra2(
             //Selects a pseudorandom index row*
             //------------------------------------------------------------------------------------------
             //rowa = ((unsigned int)state[0]) & (n_rows-1);	//(USE THIS IF n_rows IS A POWER OF 2)
-            rowa = (state[0] & (n_rows - 1)) as i64; //(USE THIS FOR THE "GENERIC" CASE)
+            rowa = (state[0] % n_rows) as i64; //(USE THIS FOR THE "GENERIC" CASE)
             //------------------------------------------------------------------------------------------
 
             //Performs a reduced-round duplexing operation over M[row*] XOR M[prev], updating both M[row*] and M[row]
@@ -634,7 +634,7 @@ pub fn lyra2(
             //updates row: goes to the next row to be computed
             //------------------------------------------------------------------------------------------
             //row = (row + step) & (n_rows-1);	//(USE THIS IF n_rows IS A POWER OF 2)
-            row = (row + step) & (n_rows as i64 -1); //(USE THIS FOR THE "GENERIC" CASE)
+            row = (row + step).rem_euclid(n_rows as i64); //(USE THIS FOR THE "GENERIC" CASE)
             //------------------------------------------------------------------------------------------
             if row == 0 {
                 break;
-- 
2.43.0


From 7fc6af89a817cee3d34f2dec718f6385f15b1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 3/5] fix: lyra2 accepts passwords and salts that do not fit in
 the matrix

password || salt || basil || padding was written into a buffer of exactly the
matrix size, so inputs near or above it panicked with an index error: for
lyra2::sum any input above 740 bytes, with no such limit in its documentation,
and even combined lengths below the matrix size, which the comment promised.
Size the buffer for the padded input and cut it back to the matrix once the
input is absorbed (one block copied per absorb, not the rest of the buffer).
n_cols = 0, which used to hit the same index error, keeps panicking, now
explicitly.
---
 src/lyra2.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index 20e2b2c..190d206 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -211,8 +211,7 @@ fn absorb_block_blake2_safe(mut s: [u64; 16], w: Vec<u64>) -> [u64; 16] {
 }
 
 // lyra2 Executes Lyra2 based on the G function from Blake2b. This version supports salts and passwords
-// whose combined length is smaller than the size of the memory matrix, (i.e., (n_rows x n_cols x b) bits,
-// where "b" is the underlying sponge's bitrate). In this implementation, the "basil" is composed by all
+// of any length. In this implementation, the "basil" is composed by all
 // integer parameters (treated as type "unsigned int") in the order they are provided, plus the value
 // of n_cols, (i.e., basil = kLen || pwdlen || saltlen || timeCost || n_rows || n_cols).
 //
@@ -240,7 +239,7 @@ fn absorb_block_blake2_safe(mut s: [u64; 16], w: Vec<u64>) -> [u64; 16] {
 ///
 /// # Panics
 ///
-/// `time_cost` < 1, `n_rows` < 3
+/// `time_cost` < 1, `n_rows` < 3, `n_cols` < 1
 ///
 pub fn lyra2(
     k: u64,
@@ -253,6 +252,7 @@ pub fn lyra2(
     //============================= parameter check ============================//
     if time_cost < 1 {panic!()};
     if n_rows < 3 {panic!()};
+    if n_cols < 1 {panic!()};
     //==========================================================================/
 
     //============================= Basic variables ============================//
@@ -271,8 +271,12 @@ pub fn lyra2(
 
     let row_len_int64: i64 = BLOCKLENINT64 * n_cols as i64;
     let mut _i: i64 = n_rows as i64 * row_len_int64;
-    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];
-    whole_matrix.resize(_i as usize, 0);
+    //Enough blocks for the password, salt, basil and padding
+    let n_blocks_input: i64 =
+        ((salt.len() + pwd.len() + 6 * 8) as i64 / BLOCKLENBLAKE2SAFEBYTES) + 1;
+    //The padded input may need more room than the matrix itself: it is cut back once absorbed
+    let mut whole_matrix: Vec<u64> =
+        vec![0; _i.max(n_blocks_input * BLOCKLENBLAKE2SAFEINT64) as usize];
 
     //==========================================================================/
 
@@ -280,9 +284,6 @@ pub fn lyra2(
     //OBS.:The memory matrix will temporarily hold the password: not for saving memory,
     //but this ensures that the password copied locally will be overwritten as soon as possible
 
-    //First, we clean enough blocks for the password, salt, basil and padding
-    let n_blocks_input: i64 =
-        ((salt.len() + pwd.len() + 6 * 8) as i64 / BLOCKLENBLAKE2SAFEBYTES) + 1;
     let mut ptr_byte: usize = 0; // (byte*) whole_matrix;
 
     // Prepends the password
@@ -333,10 +334,11 @@ pub fn lyra2(
     //Absorbing salt, password and basil: this is the only place in which the block length is hard-coded to 512 bits
     let mut ptr_word = 0;
     for _i in 0..n_blocks_input {
-        let (_, mut _right) = &whole_matrix.split_at(ptr_word);
-        state = absorb_block_blake2_safe(state, _right.to_vec()); //absorbs each block of pad(pwd || salt || basil)
+        let block = &whole_matrix[ptr_word..ptr_word + BLOCKLENBLAKE2SAFEINT64 as usize];
+        state = absorb_block_blake2_safe(state, block.to_vec()); //absorbs each block of pad(pwd || salt || basil)
         ptr_word += BLOCKLENBLAKE2SAFEINT64 as usize; //goes to next block of pad(pwd || salt || basil)
     }
+    whole_matrix.truncate(_i as usize);
 
     //Initializes M[0] and M[1]
     //reducedSqueezeRow0
-- 
2.43.0


From 4fd153d802a21d1105d9668ae1e3ef657148090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:01 +0000
Subject: [PATCH 4/5] hook: expose the cubehash, bmw and modified lyra2 stages
 under --cfg lyra2_verif

---
 src/lib.rs         |  4 ++++
 src/verif_hooks.rs | 27 +++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index a330a71..1c2a4b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 mod bmw;
 mod cubehash;
 mod lyra2mod;
@@ -7,3 +8,6 @@ pub mod lyra2z;
 pub mod lyra2re;
 pub mod lyra2rev2;
 pub mod lyra2rev3;
+#[cfg(lyra2_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..0ba8df5
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,27 @@
+//! Entry points for the verification harness, compiled only with `--cfg lyra2_verif`.
+//! Each one has a switch of its own, so that one that no longer fits can be left out.
+
+/// The CubeHash stage of Lyra2REv2 and Lyra2REv3.
+#[cfg(lyra2_verif_cubehash)]
+pub fn cubehash256(data: Vec<u8>) -> Vec<u8> {
+    crate::cubehash::sum(data)
+}
+
+/// The Blue Midnight Wish stage of Lyra2REv2 and Lyra2REv3.
+#[cfg(lyra2_verif_bmw)]
+pub fn bmw256(data: Vec<u8>) -> Vec<u8> {
+    crate::bmw::sum(data)
+}
+
+/// The modified Lyra2 stage of Lyra2REv3.
+#[cfg(lyra2_verif_lyra2mod)]
+pub fn lyra2mod(
+    k: u64,
+    pwd: Vec<u8>,
+    salt: Vec<u8>,
+    time_cost: u64,
+    n_rows: u64,
+    n_cols: u64,
+) -> Vec<u8> {
+    crate::lyra2mod::lyra2mod(k, pwd, salt, time_cost, n_rows, n_cols)
+}
-- 
2.43.0


From 8fc72f97d2d34fc77fc2d64f20f6027cef980b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:46 +0000
Subject: [PATCH 5/5] hook: accept stages that return arrays

---
 src/verif_hooks.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 0ba8df5..735603e 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -4,13 +4,13 @@
 /// The CubeHash stage of Lyra2REv2 and Lyra2REv3.
 #[cfg(lyra2_verif_cubehash)]
 pub fn cubehash256(data: Vec<u8>) -> Vec<u8> {
-    crate::cubehash::sum(data)
+    crate::cubehash::sum(data).to_vec()
 }
 
 /// The Blue Midnight Wish stage of Lyra2REv2 and Lyra2REv3.
 #[cfg(lyra2_verif_bmw)]
 pub fn bmw256(data: Vec<u8>) -> Vec<u8> {
-    crate::bmw::sum(data)
+    crate::bmw::sum(data).to_vec()
 }
 
 /// The modified Lyra2 stage of Lyra2REv3.
@@ -23,5 +23,5 @@ pub fn lyra2mod(
     n_rows: u64,
     n_cols: u64,
 ) -> Vec<u8> {
-    crate::lyra2mod::lyra2mod(k, pwd, salt, time_cost, n_rows, n_cols)
+    crate::lyra2mod::lyra2mod(k, pwd, salt, time_cost, n_rows, n_cols).to_vec()
 }
-- 
2.43.0


From 713852b3707bffac9c70692a8c3bbeb7787cfaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 1/7] fix: salsa20: wrap the block counter instead of panicking
 on overflow

Generating the block numbered 2^64-1 (reachable with an arbitrary
`SalsaCore::from_raw_state`, as scrypt uses it, and as the last block of
`try_apply_keystream_partial`) panicked in builds with overflow checks.
---
 salsa20/src/backends/soft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salsa20/src/backends/soft.rs b/salsa20/src/backends/soft.rs
index caf2693..7c3c0fd 100644
--- a/salsa20/src/backends/soft.rs
+++ b/salsa20/src/backends/soft.rs
@@ -22,7 +22,7 @@ impl<R: Unsigned> StreamCipherBackend for Backend<'_, R> {
     fn gen_ks_block(&mut self, block: &mut Block<Self>) {
         let res = run_rounds::<R>(&self.0.state);
 
-        self.0.set_block_pos(self.0.get_block_pos() + 1);
+        self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));
 
         for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
             chunk.copy_from_slice(&val.to_le_bytes());
-- 
2.43.0


From 728878b696d7d4b341df6e7e3433e09a8072c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 2/7] fix: chacha20: get_block_pos must not overflow when the
 block counter wrapped

---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index d8c2824..6d31489 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -252,7 +252,9 @@ macro_rules! impl_chacha_rng {
                 let counter = self.core.core.get_block_pos();
                 let offset = self.core.word_offset();
                 if offset != 0 {
-                    counter - u64::from(BUF_BLOCKS) + offset as u64 / u64::from(BLOCK_WORDS)
+                    counter
+                        .wrapping_sub(u64::from(BUF_BLOCKS))
+                        .wrapping_add(offset as u64 / u64::from(BLOCK_WORDS))
                 } else {
                     counter
                 }
-- 
2.43.0


From 0ab7497210093309cba4037fde121f4d1ee3569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 3/7] fix: chacha20: step the counter of 32-bit-counter cores
 correctly in the RNG form Filling RNG words with an IETF core whose 32-bit
 counter rolls over carried into the nonce (and backends disagreed).

---
 chacha20/src/backends/avx2.rs | 24 ++++++++++++++++++++----
 chacha20/src/backends/soft.rs |  4 +++-
 chacha20/src/backends/sse2.rs | 10 ++++++++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/chacha20/src/backends/avx2.rs b/chacha20/src/backends/avx2.rs
index 2d7c3f5..7cfd94e 100644
--- a/chacha20/src/backends/avx2.rs
+++ b/chacha20/src/backends/avx2.rs
@@ -93,11 +93,19 @@ where
         _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
     ];
     let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));
-    c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0));
+    c = match size_of::<V::Counter>() {
+        4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0)),
+        8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0)),
+        _ => unreachable!(),
+    };
     let mut ctr = [c; N];
     for i in 0..N {
         ctr[i] = c;
-        c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2));
+        c = match size_of::<V::Counter>() {
+            4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 2, 0, 0, 0, 2)),
+            8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2)),
+            _ => unreachable!(),
+        };
     }
     let mut backend = Backend::<R, V> {
         v,
@@ -108,7 +116,9 @@ where
     backend.rng_gen_par_ks_blocks(buffer);
 
     core.state[12] = _mm256_extract_epi32(backend.ctr[0], 0) as u32;
-    core.state[13] = _mm256_extract_epi32(backend.ctr[0], 1) as u32;
+    if size_of::<V::Counter>() == 8 {
+        core.state[13] = _mm256_extract_epi32(backend.ctr[0], 1) as u32;
+    }
 }
 
 struct Backend<R: Rounds, V: Variant> {
@@ -188,7 +198,13 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
 
             let pb = PAR_BLOCKS as i32;
             for c in self.ctr.iter_mut() {
-                *c = _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)));
+                *c = match size_of::<V::Counter>() {
+                    4 => _mm256_add_epi32(*c, _mm256_set_epi32(0, 0, 0, pb, 0, 0, 0, pb)),
+                    8 => {
+                        _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)))
+                    }
+                    _ => unreachable!(),
+                };
             }
 
             let mut block_ptr = blocks.as_mut_ptr().cast::<__m128i>();
diff --git a/chacha20/src/backends/soft.rs b/chacha20/src/backends/soft.rs
index ed448d4..cb6294b 100644
--- a/chacha20/src/backends/soft.rs
+++ b/chacha20/src/backends/soft.rs
@@ -54,7 +54,9 @@ impl<R: Rounds, V: Variant> Backend<'_, R, V> {
             let mut ctr = (u64::from(self.0.state[13]) << 32) | u64::from(self.0.state[12]);
             ctr = ctr.wrapping_add(1);
             self.0.state[12] = ctr as u32;
-            self.0.state[13] = (ctr >> 32) as u32;
+            if size_of::<V::Counter>() == 8 {
+                self.0.state[13] = (ctr >> 32) as u32;
+            }
 
             buffer[block * BLOCK_WORDS as usize..(block + 1) * BLOCK_WORDS as usize]
                 .copy_from_slice(&res);
diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index f6479a1..e5be8b8 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -130,7 +130,9 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    if size_of::<V::Counter>() == 8 {
+        core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    }
 }
 
 #[cfg(feature = "rng")]
@@ -140,7 +142,11 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
         const _: () = assert!(4 * PAR_BLOCKS * size_of::<__m128i>() == size_of::<[u32; 64]>());
         unsafe {
             let res = rounds::<R, V>(&self.v);
-            self.v[3] = _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64));
+            self.v[3] = match size_of::<V::Counter>() {
+                4 => _mm_add_epi32(self.v[3], _mm_set_epi32(0, 0, 0, PAR_BLOCKS as i32)),
+                8 => _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64)),
+                _ => unreachable!(),
+            };
 
             let blocks_ptr = block.as_mut_ptr().cast::<__m128i>();
             for block in 0..PAR_BLOCKS {
-- 
2.43.0


From 5e07450f3f10c7cb976a081907a394f9eada773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 4/7] fix: chacha20: from_seed of a 32-bit-counter core
 panicked

---
 chacha20/src/rng.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 6d31489..38c0142 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -37,7 +37,8 @@ impl<R: Rounds, V: Variant> SeedableRng for ChaChaCore<R, V> {
 
     #[inline]
     fn from_seed(seed: Self::Seed) -> Self {
-        ChaChaCore::new_internal(&seed, &[0u8; 8])
+        // The nonce takes what the counter leaves of the last row: 12 or 8 bytes
+        ChaChaCore::new_internal(&seed, &[0u8; 12][..16 - size_of::<V::Counter>()])
     }
 }
 
-- 
2.43.0


From d5deff73d5a86320a0f43fb2720d23da7eed7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 5/7] fix: chacha20: forced AVX-512 backend did not compile
 without chacha20_avx512

The chacha20_avx512 flag is documented as enabling AVX-512 with autodetection only; forcing the backend with
chacha20_backend="avx512" alone left the token types and modules inconsistent.
---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index f6305b2..dc12221 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -7,7 +7,7 @@ cfg_if! {
         pub(crate) mod soft;
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 pub(crate) mod avx512;
                 // AVX-2 backend needed for RNG if enabled
                 #[cfg(feature = "rng")]
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index dbf726c..0e2f032 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -84,7 +84,7 @@ cfg_if! {
         type Tokens = ();
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 #[cfg(not(all(target_feature = "avx512f", target_feature = "avx512vl")))]
                 compile_error!("You must enable `avx512f` and `avx512vl` target features with \
                     `chacha20_backend = "avx512"` configuration option");
@@ -245,7 +245,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                 f.call(&mut backends::soft::Backend(self));
             } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
                 cfg_if! {
-                    if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+                    if #[cfg(chacha20_backend = "avx512")] {
                         unsafe {
                             backends::avx512::inner::<R, _, V>(&mut self.state, f);
                         }
-- 
2.43.0


From 32cbb1b31bb7034651eb4ab796100f2580f8b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 6/7] fix: chacha20: do not use an SSE4.1 instruction in the
 SSE2 backend

_mm_extract_epi32 compiles to pextrd, which CPUs reporting only SSE2 to SSSE3 do
not have; read the upper counter word with SSE2 instructions instead.
---
 chacha20/src/backends/sse2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index e5be8b8..73622f7 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -51,7 +51,7 @@ where
 
     state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 1)) as u32;
     }
 }
 
@@ -131,7 +131,7 @@ where
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        core.state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 1)) as u32;
     }
 }
 
-- 
2.43.0


From 68188eaa0d0494ef068f929329779d822a501d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 7/7] fix: chacha20: do not use the NEON backend on big-endian
 AArch64

The backend views vectors of 32-bit words as other vector types and stores
them to byte arrays, which is only right with little-endian lane order: the
keystream was wrong and the counter words were written back swapped.
---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 2 +-
 chacha20/src/rng.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index dc12221..8ee8e7a 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -24,7 +24,7 @@ cfg_if! {
                 pub(crate) mod sse2;
             }
         }
-    } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+    } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
         pub(crate) mod neon;
     } else {
         pub(crate) mod soft;
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index 0e2f032..faf6758 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -286,7 +286,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::inner::<R, _, V>(&mut self.state, f);
diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 38c0142..9ea71ab 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -81,7 +81,7 @@ impl<R: Rounds, V: Variant> Generator for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::rng_inner::<R, V>(self, buffer);
-- 
2.43.0


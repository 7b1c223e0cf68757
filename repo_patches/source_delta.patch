From 487fa111d16c8fa6585be2ae9781f1a62213e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 01/15] fix: negate full quintic extension elements (matched
 dimension 3 instead of 5)

---
 starky/src/f5g.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..874de5f 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -488,9 +488,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From 3e50bf7857509ce100d729627d6619f00ede38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 02/15] fix: quintic extension ordering is lexicographic and lt
 terminates

---
 starky/src/f5g.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 874de5f..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
-- 
2.43.0


From 2fd4a6dafbeabc1d9b4fa92d7a11b55be13cfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 03/15] fix: worker count is at least one on a single-processor
 machine

---
 starky/src/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..a784533 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,5 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    core::cmp::max(num_cpus::get().saturating_sub(1), 1)
 }
-- 
2.43.0


From a7d674ed3ef1caa3147c45cfe9b2bc9b2edcd6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 04/15] fix: parallel transform of a single point no longer
 panics

---
 starky/src/fft_p.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index 35a1a7a..b4134b9 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -224,7 +224,7 @@ pub fn _fft<F: FieldExtension>(
     (bin, bout) = (bout, bin);
 
     rayon::scope(|_s| {
-        for i in (0..nbits).step_by(blockbits) {
+        for i in (0..nbits).step_by(blockbits.max(1)) {
             let s_inc = min(blockbits, nbits - i);
             bin.par_chunks_mut(blocksize * n_pols).enumerate().for_each(|(j, bb)| {
                 fft_block(bb, j * blocksize, n_pols, nbits, i + s_inc, blockbits, s_inc);
@@ -319,7 +319,7 @@ pub fn interpolate<F: FieldExtension>(
     interpolate_bit_reverse(bout, buffsrc, n_pols, nbits);
     (bin, bout) = (bout, bin);
 
-    for i in (0..nbits).step_by(blockbits) {
+    for i in (0..nbits).step_by(blockbits.max(1)) {
         log::trace!("Layer ifft {}", i);
         let s_inc = min(blockbits, nbits - i);
         bin.par_chunks_mut(blocksize * n_pols).enumerate().for_each(|(j, bb)| {
@@ -339,7 +339,7 @@ pub fn interpolate<F: FieldExtension>(
     bit_reverse(bout, bin, n_pols, nbitsext);
     (bin, bout) = (bout, bin);
 
-    for i in (0..nbitsext).step_by(blockbitsext) {
+    for i in (0..nbitsext).step_by(blockbitsext.max(1)) {
         log::trace!("Layer fft {}", i);
         let s_inc = min(blockbitsext, nbitsext - i);
         bin.par_chunks_mut(blocksizeext * n_pols).enumerate().for_each(|(j, bb)| {
-- 
2.43.0


From de7ade592111616074d93c007cf1ff180dd9387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 05/15] fix: bit-reversal cache is extended when the index
 equals its length

---
 starky/src/fft_p.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index b4134b9..8f49787 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -33,7 +33,7 @@ pub fn BR(x: usize, domain_pow: usize) -> usize {
     // check if need append more to cache
     let cache_len = cache.len();
     let n = 1 << domain_pow;
-    if cache_len <= n || cache_len < x {
+    if cache_len <= n || cache_len <= x {
         let end = if n >= x { n } else { x };
         // todo parallel
         for i in cache_len..=end {
-- 
2.43.0


From e42cfbe0116070467856e62aea09e22367c7454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 06/15] fix: the outer-field Merkle verifiers bind the opened
 row and its index to the root

---
 starky/src/merklehash_bls12381.rs | 4 +++-
 starky/src/merklehash_bn128.rs    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..789d30c 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -116,12 +116,14 @@ impl MerkleTreeBLS12381 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // the node under verification, not the one claimed by the proof
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..0003685 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -115,12 +115,14 @@ impl MerkleTreeBN128 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // the node under verification, not the one claimed by the proof
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
-- 
2.43.0


From b199487926c4d888eadeb6016db705a40790f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 07/15] fix: the root of a one-row Merkle tree is its leaf

---
 starky/src/merklehash.rs          | 4 ++++
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index af4649d..d2e22d4 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -45,6 +45,10 @@ pub struct MerkleTreeGL {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is the root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 2 + 1;
     let mut acc = next_n * 2;
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 789d30c..cce75a4 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -25,6 +25,10 @@ pub struct MerkleTreeBLS12381 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is the root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 0003685..8a11721 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -24,6 +24,10 @@ pub struct MerkleTreeBN128 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is the root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
-- 
2.43.0


From 9d7b3623b38409f37cca1da2ecaf551e106b4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 08/15] fix: outer-field leaf hashing of four elements agrees
 with the verifier's

---
 starky/src/linearhash_bls12381.rs | 2 +-
 starky/src/linearhash_bn128.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/linearhash_bls12381.rs b/starky/src/linearhash_bls12381.rs
index 1eb9fa3..aaac5ef 100644
--- a/starky/src/linearhash_bls12381.rs
+++ b/starky/src/linearhash_bls12381.rs
@@ -104,7 +104,7 @@ impl LinearHashBLS12381 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
diff --git a/starky/src/linearhash_bn128.rs b/starky/src/linearhash_bn128.rs
index f0eaee1..8cc56d0 100644
--- a/starky/src/linearhash_bn128.rs
+++ b/starky/src/linearhash_bn128.rs
@@ -105,7 +105,7 @@ impl LinearHashBN128 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
-- 
2.43.0


From f497cd3da7a876312f2a74ab904518510dfc66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 09/15] fix: absorbing into an outer-field transcript drops
 words squeezed before

---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From 10c629ab52153b00957c8be4959456d560997c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 10/15] fix: converting a base-field element to u64 yields its
 integer value, not the Montgomery word

---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..ce1fb2b 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -502,7 +502,7 @@ impl From<u64> for Fr {
 
 impl From<Fr> for u64 {
     fn from(val: Fr) -> Self {
-        val.0 .0[0]
+        val.as_int()
     }
 }
 
-- 
2.43.0


From 33822a26ea7bec14ad179dbc6a90dccc8b196ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 11/15] fix: packed negation of zero is zero, not the field
 order

---
 fields/src/arch/x86_64/avx2_field_gl.rs   | 4 +++-
 fields/src/arch/x86_64/avx512_field_gl.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fields/src/arch/x86_64/avx2_field_gl.rs b/fields/src/arch/x86_64/avx2_field_gl.rs
index 28d0a2c..8b13c58 100644
--- a/fields/src/arch/x86_64/avx2_field_gl.rs
+++ b/fields/src/arch/x86_64/avx2_field_gl.rs
@@ -352,7 +352,9 @@ unsafe fn sub(x: __m256i, y: __m256i) -> __m256i {
 #[inline]
 unsafe fn neg(y: __m256i) -> __m256i {
     let y_s = shift(y);
-    _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s))
+    let res = _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s));
+    // the negation of zero is zero, not the field order
+    shift(canonicalize_s(shift(res)))
 }
 
 /// Full 64-bit by 64-bit multiplication. This emulated multiplication is 1.33x slower than the
diff --git a/fields/src/arch/x86_64/avx512_field_gl.rs b/fields/src/arch/x86_64/avx512_field_gl.rs
index c853b58..2ffc102 100644
--- a/fields/src/arch/x86_64/avx512_field_gl.rs
+++ b/fields/src/arch/x86_64/avx512_field_gl.rs
@@ -291,7 +291,8 @@ unsafe fn sub(x: __m512i, y: __m512i) -> __m512i {
 
 #[inline]
 unsafe fn neg(y: __m512i) -> __m512i {
-    _mm512_sub_epi64(FIELD_ORDER, canonicalize(y))
+    // the negation of zero is zero, not the field order
+    canonicalize(_mm512_sub_epi64(FIELD_ORDER, canonicalize(y)))
 }
 
 const LO_32_BITS_MASK: __mmask16 = unsafe { transmute(0b0101010101010101u16) };
-- 
2.43.0


From 58d6c1eb2d6881103fd5b76c92a4176bd6807764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 12/15] fix: log2_any for values of more than 32 bits

---
 starky/src/helper.rs | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/starky/src/helper.rs b/starky/src/helper.rs
index fd054fd..ce8bd98 100644
--- a/starky/src/helper.rs
+++ b/starky/src/helper.rs
@@ -24,28 +24,10 @@ pub fn get_ks(n: usize) -> Vec<FGL> {
 
 #[inline(always)]
 pub fn log2_any(val: usize) -> usize {
-    let mut val = val;
-    (if (val & 0xFFFF0000) != 0 {
-        val &= 0xFFFF0000;
-        16
-    } else {
-        0
-    }) | (if (val & 0xFF00FF00) != 0 {
-        val &= 0xFF00FF00;
-        8
-    } else {
-        0
-    }) | (if (val & 0xF0F0F0F0) != 0 {
-        val &= 0xF0F0F0F0;
-        4
-    } else {
-        0
-    }) | (if (val & 0xCCCCCCCC) != 0 {
-        val &= 0xCCCCCCCC;
-        2
-    } else {
-        0
-    }) | (if (val & 0xAAAAAAAA) != 0 { 1 } else { 0 })
+    if val == 0 {
+        return 0;
+    }
+    (usize::BITS - 1 - val.leading_zeros()) as usize
 }
 
 #[inline(always)]
-- 
2.43.0


From a60428c1f8712ae90169170a469ea86b9fa6a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:54 +0000
Subject: [PATCH 13/15] fix: reject truncated and out-of-field witness files,
 accept every field's own prime

---
 algebraic-gpu/src/reader.rs                   | 24 ++++++++-----------
 .../src/witness/witness_calculator.rs         |  2 +-
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..e70d3b7 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -88,7 +88,10 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
+    // the modulus of E, which is odd, from its largest element
+    let mut modulus = (-E::ONE).to_repr();
+    modulus.as_mut()[0] += 1;
+    if prime != modulus.as_ref() {
         bail!("invalid curve prime".to_string());
     }
     let witness_len = reader.read_u32::<LittleEndian>()?;
@@ -98,24 +101,17 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
-        let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
+        reader.read_exact(repr.as_mut())?;
+        match Option::<E>::from(E::from_repr(repr)) {
+            Some(e) => result.push(e),
+            None => bail!("invalid field element".to_string()),
         }
-        let maybe_field_elem = E::from_repr(repr);
-        if maybe_field_elem.is_some().unwrap_u8() == 1 {
-            result.push(maybe_field_elem.unwrap());
-        } else {
-            continue;
-        }
-        // repr.read_le(&mut reader)?;
-        // result.push(E::Fr::from_repr(repr)?);
     }
     Ok(result)
 }
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..3dec413 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
-- 
2.43.0


From 49c5a72bb821cae21a531ec121f54517de3b9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:54 +0000
Subject: [PATCH 14/15] fix: r1cs reader returns errors for malformed files
 instead of panicking, hanging or allocating by their counts

---
 algebraic-gpu/src/r1cs_file.rs | 84 ++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..422c607 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -52,15 +52,22 @@ const WIRE2LABEL_TYPE: u32 = 3;
 const CUSTOM_GATES_LIST: u32 = 4;
 const CUSTOM_GATES_USE: u32 = 5;
 
+fn invalid(msg: &'static str) -> Error {
+    Error::new(ErrorKind::InvalidData, msg)
+}
+
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
+    if !(field_size == 32 || field_size == 8) {
+        return Err(invalid("This parser only supports 32-bytes or 8-bytes fields"));
+    }
     let mut prime_size = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid header section size"));
     }
 
-    Ok(Header {
+    let header = Header {
         field_size,
         prime_size,
         n_wires: reader.read_u32::<LittleEndian>()?,
@@ -70,7 +77,11 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
         n_labels: reader.read_u64::<LittleEndian>()?,
         n_constraints: reader.read_u32::<LittleEndian>()?,
         use_custom_gates: false,
-    })
+    };
+    if 1 + header.n_pub_out as u64 + header.n_pub_in as u64 > header.n_wires as u64 {
+        return Err(invalid("More public wires than wires"));
+    }
+    Ok(header)
 }
 
 fn read_constraint_vec<R: Read, E: PrimeField>(
@@ -78,7 +89,7 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<(usize, E)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -96,7 +107,7 @@ fn read_constraints<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -111,29 +122,29 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     if size != header.n_wires as u64 * 8 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid map section size"));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(ErrorKind::InvalidData, "Wire 0 should always be mapped to 0"));
     }
     Ok(vec)
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
@@ -145,7 +156,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -163,23 +174,20 @@ fn read_custom_gates_uses_list<R: Read>(
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
 
     let sz = size as usize / 4;
-    let mut b_r1cs32 = Vec::with_capacity(sz);
+    let mut b_r1cs32 = Vec::new();
     for _ in 0..sz {
         b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
     }
 
-    let n_custom_gate_uses = b_r1cs32[0];
-    let mut b_r1cs_pos = 1;
+    let mut words = b_r1cs32.into_iter();
+    let mut next = || words.next().ok_or_else(|| invalid("Truncated custom gates use section"));
+    let n_custom_gate_uses = next()?;
     for i in 0..n_custom_gate_uses {
-        let mut c = CustomGatesUses { id: b_r1cs32[b_r1cs_pos] as u64, ..Default::default() };
-        b_r1cs_pos += 1;
-        let num_signals = b_r1cs32[b_r1cs_pos];
-        b_r1cs_pos += 1;
+        let mut c = CustomGatesUses { id: next()? as u64, ..Default::default() };
+        let num_signals = next()?;
         for j in 0..num_signals {
-            let LSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
-            let MSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
+            let LSB = next()? as u64;
+            let MSB = next()? as u64;
             c.signals.push(MSB * 0x100000000u64 + LSB);
         }
         custom_gates_uses.push(c);
@@ -214,22 +222,23 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
         let offset = reader.stream_position()?;
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
-        reader.seek(SeekFrom::Current(section_size as i64))?;
+        let skip = i64::try_from(section_size).map_err(|_| invalid("Invalid section size"))?;
+        reader.seek(SeekFrom::Current(skip))?;
     }
 
-    reader.seek(SeekFrom::Start(*section_offsets.get(&HEADER_TYPE).unwrap()))?;
-    let mut header = read_header(&mut reader, *section_sizes.get(&HEADER_TYPE).unwrap())?;
+    let section = |t: u32| match (section_offsets.get(&t), section_sizes.get(&t)) {
+        (Some(offset), Some(size)) => Ok((*offset, *size)),
+        _ => Err(invalid("Missing section")),
+    };
+
+    let (offset, size) = section(HEADER_TYPE)?;
+    reader.seek(SeekFrom::Start(offset))?;
+    let mut header = read_header(&mut reader, size)?;
     if section_offsets.contains_key(&CUSTOM_GATES_USE)
         && section_offsets.contains_key(&CUSTOM_GATES_LIST)
     {
         header.use_custom_gates = true;
     }
-    if !(header.field_size == 32 || header.field_size == 8) {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-bytes or 8-bytes fields",
-        ));
-    }
     if header.field_size != E::NUM_BITS.div_ceil(8) {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
@@ -241,16 +250,13 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
-    reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
-    let constraints = read_constraints::<&mut R, E>(
-        &mut reader,
-        *section_sizes.get(&CONSTRAINT_TYPE).unwrap(),
-        &header,
-    )?;
+    let (offset, size) = section(CONSTRAINT_TYPE)?;
+    reader.seek(SeekFrom::Start(offset))?;
+    let constraints = read_constraints::<&mut R, E>(&mut reader, size, &header)?;
 
-    reader.seek(SeekFrom::Start(*section_offsets.get(&WIRE2LABEL_TYPE).unwrap()))?;
-    let wire_mapping =
-        read_map(&mut reader, *section_sizes.get(&WIRE2LABEL_TYPE).unwrap(), &header)?;
+    let (offset, size) = section(WIRE2LABEL_TYPE)?;
+    reader.seek(SeekFrom::Start(offset))?;
+    let wire_mapping = read_map(&mut reader, size, &header)?;
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     if section_offsets.contains_key(&CUSTOM_GATES_LIST) {
         reader.seek(SeekFrom::Start(*section_offsets.get(&CUSTOM_GATES_LIST).unwrap()))?;
-- 
2.43.0


From 120499b1fac43ea975b1c3e8607fc29c7fb4293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:22 +0000
Subject: [PATCH 15/15] fix: FRI verifier accepts final polynomials and rows of
 another length, and panics on missing parts

---
 starky/src/fri.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 428c878..9b9b723 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -192,7 +192,18 @@ impl FRI {
     ) -> Result<bool> {
         let tree = M::new();
         let mut standard_fft = FFT::new();
-        assert_eq!(proof.queries.len(), self.steps.len()); // the last +1 is omitted
+        // the steps fix the shape of the proof
+        let shaped = proof.queries.len() == self.steps.len() // the last +1 is omitted
+            && proof.last.len() == 1 << self.steps[self.steps.len() - 1].nBits
+            && proof.queries.iter().all(|q| q.pol_queries.len() == self.n_queries)
+            && proof.queries.iter().skip(1).zip(self.steps.windows(2)).all(|(q, s)| {
+                let row = 3 << (s[0].nBits - s[1].nBits);
+                q.pol_queries.iter().all(|o| o.len() == 1 && o[0].0.len() == row)
+            });
+        if !shaped {
+            log::error!("proof of another shape");
+            return Ok(false);
+        }
         let mut special_x: Vec<F> = vec![];
         for si in 0..self.steps.len() {
             special_x.push(transcript.get_field());
-- 
2.43.0


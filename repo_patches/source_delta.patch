From f6116b2f72034207f3e212b3cded8827beb86d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 01/13] fix: gear: GearIncr32::push reports the cut after the
 matching byte

The byte that completes the match is already consumed, so the chunk ends
after it (as find_chunk_edge() reports). Reporting its index instead made
the incremental cuts differ from find_chunk_edge(), and a match on the
first byte reported 0, so iter_slices() never terminated.
---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From 98325d83a1b44a3ffc3c989b9ea0b47fe4adbed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 02/13] fix: ram: RamIncr::push reports the cut after the
 matching byte

The maximum is consumed as the last byte of its chunk, as
find_chunk_edge() reports.
---
 src/ram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..1f5fc85 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -43,7 +43,7 @@ impl Chunk for Ram {
         data: &[u8],
     ) -> (Option<usize>, usize) {
         match state.push(self, data) {
-            Some(i) => (Some(i + 1), i + 1),
+            Some(i) => (Some(i), i),
             None => (None, data.len()),
         }
     }
@@ -69,7 +69,7 @@ impl RamState {
                 if ri > params.w {
                     self.i = 0;
                     self.max_val = 0;
-                    return Some(l_i);
+                    return Some(l_i + 1);
                 }
 
                 self.max_val = b;
-- 
2.43.0


From 1d4943ca4328d7e43e2741aa6c18cc7607981c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 03/13] fix: zstd: ZstdIncr::push reports the cut after the
 matching byte

---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From 13a3e7b7e6b60f6a1eafde3b924d6526310d2352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 04/13] fix: zstd: find_chunk_edge keeps the bytes following a
 cut

On a cut it discarded all but the last RSYNC_LENGTH bytes of data (even if
the cut was long before them) and left the search offset alone, so the
bytes between were skipped and later cuts were wrong.
---
 src/zstd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..29e91d2 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,7 +211,9 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
+                // everything after the cut is still to be examined, keep only the window before it
+                let discard_ct = i + 1 - RSYNC_LENGTH;
+                state.offset = RSYNC_LENGTH;
                 return (Some(i + 1), discard_ct);
             }
         }
-- 
2.43.0


From cb70a27deb7fb95056933ea65d8503ee7c5a3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 05/13] fix: bup: RollSumIncr handles windows that aren't a
 power of 2

Masking with len - 1 only wraps the window offset for powers of 2, so with
other window lengths the wrong bytes were dropped from the sum.
---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..a525cbb 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -198,7 +198,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From 88ebb37decf7c376f240eb8feae8b7622e49ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 06/13] fix: bup: RollSumIncr::push starts each chunk with a
 fresh window

find_chunk_edge(), bup itself and the rollsum crate reset the sum after a
split. Without it a split less than a window after the previous one
differs.
---
 src/bup.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bup.rs b/src/bup.rs
index a525cbb..7c5b471 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -194,6 +194,10 @@ impl RollSumIncr {
         self.state.add(self.window.len(), drop, add);
     }
 
+    fn reset(&mut self) {
+        *self = (&RollSum::with_window(self.window.len())).into();
+    }
+
     pub fn roll_byte(&mut self, ch: u8) {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
@@ -226,6 +230,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                self.reset();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From 13769ac28c05ee2e2bb8bfee00ecd358eaad782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 07/13] fix: buzhash: rotate the dropped byte by k modulo the
 hash width

The hash is 32 bits wide. With k % 8 the byte leaving the window isn't
cancelled for windows such as 16, so the hash depended on bytes outside of
the window.
---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From cdf9add8ef2fe67d18f318f8afd4caaf7249d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 08/13] fix: buzhash: find_chunk_edge respects max_chunk_size

Only BuzHashIncr did.
---
 src/buzhash.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..03b1a61 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -132,21 +132,17 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
     ) -> (Option<usize>, usize) {
         for i in state.offset..data.len() {
             state.state.add_buf(data, self, i);
+            state.input_idx += 1;
 
             if (state.state.h & self.mask) == self.mask {
                 state.reset();
                 return (Some(i + 1), i + 1);
             }
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            if state.input_idx > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -172,12 +168,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 #[derive(Debug, Clone, PartialEq, Eq, Default)]
 pub struct BuzHashSearchState {
     offset: usize,
+    /// number of bytes examined since the previous chunk edge
+    input_idx: u64,
     state: BuzHashState,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
+        self.input_idx = 0;
         self.state.reset();
     }
 }
-- 
2.43.0


From b6c48f53801a7c521be5929a0c7f908c19f3b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 09/13] fix: mii: MiiIncr::push starts each chunk like the
 first

After a split the previous byte was set to 0 rather than 0xff, so the first
byte of a chunk counted as an increment (find_chunk_edge() doesn't).
---
 src/mii.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..fb822d5 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -126,8 +126,7 @@ impl ChunkIncr for MiiIncr {
                 self.increment += 1;
                 if self.increment == self.w {
                     // this is a split
-                    self.increment = 0;
-                    self.prev = 0;
+                    self.reset();
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From 3d54899c2922ca25c1a6c8c2429bcb62fb77aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 10/13] fix: zpaq: keep block sizes inside of the configured
 range

find_chunk_edge() compared one more than the size of the block with both
ends of the range (so blocks could be one byte smaller than the minimum),
and ZpaqIncr the size itself (so blocks could be one byte larger than the
maximum): besides breaking the range, the two disagreed. The sizes calculated
by the constructors are inclusive, as documented and as in zpaq.
---
 src/zpaq.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..78c8630 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,11 +83,11 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..=8128 << fragment_ave
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-        max / 64..max
+        max / 64..=max
     }
 
     fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
@@ -153,7 +153,9 @@ impl Zpaq {
     */
 
     fn split_here(&self, hash: u32, index: u64) -> bool {
-        (hash < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
+        // split if the block can't be grown by another byte and stay in `range`
+        (hash < self.max_hash && !self.range.under_min(&index))
+            || self.range.exceeds_max(&(index + 1))
     }
 }
 
@@ -207,7 +209,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From c6591f05ebba24e480dc19fbfcec4372d8342d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 11/13] fix: zpaq: maximum block size is in units of the
 fragment size

The documented default maximum is 520192 bytes (as in zpaq), it was 1024
times that.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 78c8630..7f4feb3 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,7 +83,7 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..=8128 << fragment_ave
+        64 << (fragment_ave - 10)..=8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-- 
2.43.0


From cb618f62a4d26ff23fd4c9ca854a9d79e1df4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 12/13] fix: zpaq: average block size derived from a maximum is
 a quarter of it

As documented. go-dedup's calculation is in KiB, but `fragment_ave` is in
bytes, so the average was 1024 times too small (the minimum block size was in
effect), and a maximum below 8KiB overflowed the shift in
max_hash_from_fragment_ave().
---
 src/zpaq.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7f4feb3..9806e6a 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -52,10 +52,12 @@ pub struct Zpaq {
 }
 
 impl Zpaq {
-    /* this is taken from go-dedup */
+    /* this is taken from go-dedup, which uses `log2(max / (64 * 64))` in units of 2**10 bytes: it
+     * is `log2(max / 4)` in bytes. Limited to the averages `max_hash_from_fragment_ave()` accepts.
+     */
     fn fragment_ave_from_max(max: u64) -> u8 {
-        /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        let ave = std::cmp::max(max / 4, 2);
+        std::cmp::min(63 - ave.leading_zeros(), 32) as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0


From a17ff231e7034fa0c87645d1d806d19a8ec27c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 13/13] fix: fastcdc: find_chunk_edge doesn't exceed max_size
 (or data)

When a chunk reached max_size without a match, the byte following it was
included in the chunk without being examined. If there was no such byte
the returned offsets were past the end of data.
---
 src/fastcdc.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..64ae712 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -76,7 +76,7 @@ impl<'a> Chunk for FastCdc<'a> {
         data: &[u8],
     ) -> (Option<usize>, usize) {
         match state.push(self, data) {
-            Some(i) => (Some(i + 1), i + 1),
+            Some((_, end)) => (Some(end), end),
             None => (None, data.len()),
         }
     }
@@ -140,7 +140,8 @@ impl FastCdcState {
         self.fp = Wrapping(0);
     }
 
-    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<usize> {
+    /// On a match, returns the index of it in `data` and the end of the chunk in `data`.
+    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<(usize, usize)> {
         // global start/index
         let mut gi = self.l;
         // global end
@@ -177,7 +178,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_S) == 0 {
                 self.reset();
-                return Some(i);
+                return Some((i, i + 1));
             }
 
             gi += 1;
@@ -186,9 +187,9 @@ impl FastCdcState {
 
         loop {
             if gi >= params.max_size {
-                // no match found, emit fixed match at MAX_SIZE
+                // no match found, emit fixed match at MAX_SIZE: `data[i]` (if any) isn't examined
                 self.reset();
-                return Some(i);
+                return Some((i, i));
             }
             if i >= data.len() {
                 break;
@@ -198,7 +199,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_L) == 0 {
                 self.reset();
-                return Some(i);
+                return Some((i, i + 1));
             }
 
             gi += 1;
@@ -215,6 +216,9 @@ impl FastCdcState {
 
 impl<'a> ChunkIncr for FastCdcIncr<'a> {
     fn push(&mut self, src: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, src)
+        match self.state.push(&self.params, src) {
+            Some((i, _)) => Some(i),
+            None => None,
+        }
     }
 }
-- 
2.43.0


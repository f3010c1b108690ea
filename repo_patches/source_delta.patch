From e64bc0278e369b65b41c5478f7c995a39b239c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 01/35] fix: mtf must know byte value 255

---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..b0424b7 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(_) => break,
-- 
2.43.0


From 2b110ab0f8763bd20e82f0d175fe71e98b2a4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 02/35] fix: count_sigma must be able to count all 256 byte
 values

---
 src/bin/count_sigma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..eb0e603 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -8,9 +8,9 @@ use log::info;
 
 /// counts the number of different characters in a byte string
 // fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> usize {
+    let mut inc = 0_usize;
+    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From ef504b7b4d61008bbbc663cdb05338ee63d824f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/35] fix: write the last symbol of the power2 sequence
 instead of leaving a zero byte

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From ad3198e9be774a2a3b430d061605c1f8becae888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 04/35] fix: escape must process the whole input when no prefix
 length is given

---
 src/bin/escape.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..7e066a5 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -94,6 +94,13 @@ fn main() {
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
 
+    //@ a prefix length of zero means to process the entire input
+    let prefixlength = if args.prefixlength == 0 {
+        usize::MAX
+    } else {
+        args.prefixlength
+    };
+
     if args.is_reversion {
         let revert_mapping = {
             let mut revert_mapping = HashMap::new();
@@ -102,7 +109,7 @@ fn main() {
             }
             revert_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
@@ -129,7 +136,7 @@ fn main() {
             }
             char_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
-- 
2.43.0


From c455c8c2307f5dfe19942cee89f497cf301130b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/35] fix: escape must accept its symbol lists separated by
 commas as documented

---
 src/bin/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 7e066a5..f3b0d38 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -35,11 +35,11 @@ struct Args {
     escape_symbol: u8,
 
     /// byte codes that need to be escaped, a list separeted by commas
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     from_symbols: Vec<u8>,
 
     /// list byte codes that are safe and equal of length to from
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     to_symbols: Vec<u8>,
 
     /// if true, invert the conversion
-- 
2.43.0


From 4842f086d19906ffee68726bbb0b983a664f8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 06/35] fix: human-readable rle must count runs longer than 256

---
 src/bin/rle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..ed87028 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -10,7 +10,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
-- 
2.43.0


From ffecb23f38864a89ac15d9bb67f2e8543cf23beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 07/35] fix: binary rle must split runs longer than 256 instead
 of overflowing

---
 src/bin/rle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index ed87028..b4ecf33 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -42,8 +42,8 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                 match io::read_char(&mut reader) {
                     Err(_) => break,
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        //@ a run that does not fit into a pair is split into several pairs
+                        if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
-- 
2.43.0


From adc813868ed5950920e0db94b243d0c0c49091de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 08/35] fix: zero-only rle must keep the byte after a run and
 write true run lengths

---
 src/bin/rle.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index b4ecf33..9dd7bd4 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -1,7 +1,5 @@
 // extern crate byte_string;
 extern crate env_logger;
-#[macro_use]
-extern crate more_asserts;
 
 use stringology::core;
 use stringology::io;
@@ -60,12 +58,14 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
 }
 
 const CHR_ZERO: u8 = b'0';
+/// the number of repetitions a pair can encode at most
+const MAX_RUN: usize = u8::MAX as usize + 1;
 
 pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             if first_char == CHR_ZERO {
                 run_counter = 1;
             } else {
@@ -76,23 +76,28 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                     Err(_) => break,
                     Ok(next_char) => {
                         if next_char != CHR_ZERO {
-                            if run_counter == 0 {
-                                writer.write_all(&[next_char]).unwrap();
-                            } else {
-                                assert_lt!(run_counter - 1, u8::MAX);
+                            if run_counter > 0 {
                                 writer
-                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                     .unwrap();
                                 run_counter = 0;
                             }
+                            writer.write_all(&[next_char]).unwrap();
                         } else {
+                            //@ a run that does not fit into a pair is split into several pairs
+                            if run_counter == MAX_RUN {
+                                writer.write_all(&[CHR_ZERO, u8::MAX]).unwrap();
+                                run_counter = 0;
+                            }
                             run_counter += 1;
                         }
                     }
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer
+                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                    .unwrap();
             }
         }
     }
-- 
2.43.0


From b19882823113ab664ae98862cc4489a40938ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 09/35] fix: rle must not define its short options twice

---
 src/bin/rle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 9dd7bd4..35ed439 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -118,12 +118,12 @@ struct Args {
     #[arg(short, long)]
     outfilename: Option<String>,
 
-    /// the length of the prefix to parse
-    #[arg(short, long)]
+    /// only encode the runs of the character '0'
+    #[arg(long)]
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(long)]
     human: bool,
 }
 
-- 
2.43.0


From d00cdff6cb3b7059ca99d1b212bcccd722f9eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 10/35] fix: the binary string generator must enumerate in
 lexicographic order and stop

---
 src/core.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..e3033b5 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -500,12 +500,14 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        if self.m_rank == u64::MAX || self.m_rank.checked_shr(self.m_length as u32).unwrap_or(0) > 0
+        {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
-            let bit = self.m_rank & (1 << i);
+        //@ the first character is the most significant bit
+        for i in (0..self.m_length).rev() {
+            let bit = self.m_rank.checked_shr(i as u32).unwrap_or(0) & 1;
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
         self.m_rank += 1;
-- 
2.43.0


From dc2181c2edc41734f0a72c5aee676d7a95420722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 11/35] fix: the de Bruijn word generator must test for
 necklaces, not for their prefixes

---
 src/word.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..d2cf79d 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -487,8 +487,9 @@ fn quaternary_to_binary(text: &[u8]) -> Vec<u8> {
     output
 }
 
-/// checks whether T[1..n] is a necklace, i.e., the lexicographically smallest string among all its
-/// shifted conjugates of the form T[i+1..n]T[1..i]
+/// checks whether T[1..n] is a prefix of a necklace, where a necklace is the lexicographically
+/// smallest string among all its shifted conjugates of the form T[i+1..n]T[1..i].
+/// T[1..n] itself is a necklace if additionally its smallest period divides n.
 pub fn is_necklace<T>(text: &T, n: usize) -> bool
 where
     T: ?Sized + std::ops::Index<usize, Output = u8>,
@@ -532,6 +533,20 @@ fn test_is_necklace() {
     assert!(!is_necklace_slice(b"bbba"));
 }
 
+/// the smallest period of T[1..n] if it is a prefix of a necklace, cf. `is_necklace`
+fn smallest_period<T>(text: &T, n: usize) -> usize
+where
+    T: ?Sized + std::ops::Index<usize, Output = u8>,
+{
+    let mut period = 1;
+    for j in 1..n {
+        if text.index(j) != text.index(j - period) {
+            period = j + 1;
+        }
+    }
+    period
+}
+
 fn reverse(c: u8) -> u8 {
     if c == CHR_A {
         CHR_B
@@ -554,7 +569,7 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
+        if is_necklace(&word, n) && n % smallest_period(&word, n) == 0 {
             first_char = reverse(first_char);
         }
         *word.back_mut().unwrap() = first_char;
-- 
2.43.0


From b26ec5743d358387d13494ed0511366834526aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 12/35] fix: the PLCP value of the smallest suffix must be zero

---
 src/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index e3033b5..677eaa0 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -268,6 +268,10 @@ pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
         {
             length += 1;
         }
+        if position_b + length == text.len() {
+            //@ this is the smallest suffix, which phi maps to the largest one for lack of a predecessor
+            length = 0;
+        }
         plcp[position_b] = length as u32;
         length = length.saturating_sub(1);
     }
-- 
2.43.0


From a3268cf6fd8d953a4e51fa320b3339fefc6699ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 13/35] fix: mus must terminate texts that do not end with the
 sentinel it needs

---
 src/bin/mus.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/mus.rs b/src/bin/mus.rs
index a81400f..9770e74 100644
--- a/src/bin/mus.rs
+++ b/src/bin/mus.rs
@@ -65,8 +65,13 @@ fn main() {
     info!("Build DS");
     let now = Instant::now();
 
-    let text =
+    let mut text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
+    let length = text.len();
+    //@ get_mus needs a sentinel at the end
+    if text.last() != Some(&0u8) {
+        text.push(0u8);
+    }
 
     let sa = {
         let mut sa = vec![0; text.len()];
@@ -85,7 +90,7 @@ fn main() {
     let result_format = format!(
         "RESULT file={} length={} ",
         core::get_filename(&args.infilename),
-        sa.len()
+        length
     );
 
     println!(
-- 
2.43.0


From f940a43c84db1e1590d30571d30699ff980777c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 14/35] fix: matrix mode must not fail on long texts with the
 terminating zero byte

---
 src/bin/bwt.rs     | 3 ++-
 src/bin/count_r.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/bwt.rs b/src/bin/bwt.rs
index 87a1944..f5ff8a7 100644
--- a/src/bin/bwt.rs
+++ b/src/bin/bwt.rs
@@ -59,7 +59,8 @@ fn main() {
     info!("build bwt");
     let bwt = match args.use_matrix {
         true => {
-            if text.len() < 100 {
+            //@ bwt_by_matrix needs a text without zero bytes
+            if text.len() < 100 || text.contains(&0u8) {
                 core::bwt_by_matrix_naive(&text)
             } else {
                 core::bwt_by_matrix(&text)
diff --git a/src/bin/count_r.rs b/src/bin/count_r.rs
index d9b0185..4f85f1b 100644
--- a/src/bin/count_r.rs
+++ b/src/bin/count_r.rs
@@ -58,7 +58,8 @@ fn main() {
     info!("build bwt");
     let bwt = match args.use_matrix {
         true => {
-            if text.len() < 100 {
+            //@ bwt_by_matrix needs a text without zero bytes
+            if text.len() < 100 || text.contains(&0u8) {
                 core::bwt_by_matrix_naive(&text)
             } else {
                 core::bwt_by_matrix(&text)
-- 
2.43.0


From 16bd8a1fa522990859293679e6a41a852a22422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 15/35] fix: is_stringattractor must not panic on substrings
 that are not valid UTF-8

---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From b32cf1b9862484294f5e53b5e8d23bd3a3892d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 16/35] fix: a prefix longer than standard input must mean the
 whole input, as for files

---
 src/io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..ee5fb90 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -33,8 +33,11 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
+        let mut buffer = Vec::new();
+        reader
+            .take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
         buffer
     } else {
         let mut buffer = Vec::new();
-- 
2.43.0


From a3d25b4784e3cd6a0892f4fcfd155ef9da3b70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 17/35] fix: read named pipes, whose file size is zero,
 completely

---
 src/io.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ee5fb90..4280bd3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -5,24 +5,16 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
     use std::io::Read;
 
     let path = std::path::Path::new(filename);
-    let mut f = fs::File::open(path).expect("no file found");
-    let metadata = fs::metadata(path).expect("unable to read metadata");
-    let buffer_length = if prefix_length > 0 {
-        std::cmp::min(prefix_length as u64, metadata.len())
+    let f = fs::File::open(path).expect("no file found");
+    //@ do not rely on the file size, which is zero for pipes
+    let limit = if prefix_length > 0 {
+        prefix_length as u64
     } else {
-        metadata.len()
+        u64::MAX
     };
-    assert!(buffer_length <= usize::MAX as u64);
 
-    let mut buffer = vec![0; buffer_length as usize];
-    f.read_exact(&mut buffer).unwrap();
-
-    // let mut buffer = Vec::new();
-    // buffer.reserve_exact(buffer_length as usize);
-    // match f.read_to_end(&mut buffer) {
-    //     Ok(length) => assert_eq!(length, buffer.len()),
-    //     Err(x) => panic!("in file2byte_vector: {}", x),
-    // };
+    let mut buffer = Vec::new();
+    f.take(limit).read_to_end(&mut buffer).unwrap();
     buffer
 }
 
-- 
2.43.0


From 41ee95591fe2bb4b0095e52c342460c3203ccc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 18/35] fix: lyndonfactorization must report the length of the
 text, not of the requested prefix

---
 src/bin/lyndonfactorization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..d0d1e58 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -37,17 +37,17 @@ fn main() {
     env_logger::init();
     use std::time::Instant;
 
-    let result_format = format!(
-        "RESULT file={} length={} ",
-        core::get_filename(&args.infilename),
-        args.prefixlength
-    );
-
     info!("read text");
 
     let text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
 
+    let result_format = format!(
+        "RESULT file={} length={} ",
+        core::get_filename(&args.infilename),
+        text.len()
+    );
+
     let timenow = Instant::now();
 
     let factors = core::duval(&text);
-- 
2.43.0


From e83fd06330ec9b6f8473dc3dd3bc5e802af4631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 19/35] fix: flush the output such that write errors do not get
 lost

---
 src/bin/lyndonfactorization.rs | 1 +
 src/bin/randomstring.rs        | 1 +
 src/bin/word.rs                | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index d0d1e58..5998358 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From 3e0739f02890b2b452c7baa27df96dcf84dd62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 20/35] fix: the streaming tools must not mistake read errors
 for the end of the input

---
 src/bin/escape.rs | 14 +++++++-------
 src/bin/mtf.rs    |  6 +++---
 src/bin/rle.rs    | 36 ++++++++++++++++++------------------
 src/core.rs       | 12 ++++++------
 src/io.rs         | 17 ++++++++++++++++-
 5 files changed, 50 insertions(+), 35 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index f3b0d38..380b0ee 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -110,11 +110,11 @@ fn main() {
             revert_mapping
         };
         for _ in 0..prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::next_char(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
-                        let next_char = io::read_char(&mut reader).unwrap();
+                        let next_char = io::next_char(&mut reader).unwrap();
                         if next_char == args.escape_symbol {
                             writer.write_all(&[args.escape_symbol]).unwrap();
                             continue;
@@ -137,9 +137,9 @@ fn main() {
             char_mapping
         };
         for _ in 0..prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::next_char(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
                         writer
                             .write_all(&[args.escape_symbol, args.escape_symbol])
diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index b0424b7..dd3d65e 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -7,9 +7,9 @@ use stringology::io;
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
-        match io::read_char(&mut reader) {
-            Err(_) => break,
-            Ok(cur_char) => {
+        match io::next_char(&mut reader) {
+            None => break,
+            Some(cur_char) => {
                 let pos = mtfvector.iter().position(|&c| c == cur_char).unwrap();
                 for j in 0..pos {
                     mtfvector[pos - j] = mtfvector[pos - j - 1];
diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 35ed439..db49330 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -5,15 +5,15 @@ use stringology::core;
 use stringology::io;
 
 pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
                             prev_char = next_char;
@@ -31,15 +31,15 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
 }
 
 pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_u8; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         //@ a run that does not fit into a pair is split into several pairs
                         if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
@@ -62,9 +62,9 @@ const CHR_ZERO: u8 = b'0';
 const MAX_RUN: usize = u8::MAX as usize + 1;
 
 pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_usize; //@ counts the number of character runs
             if first_char == CHR_ZERO {
                 run_counter = 1;
@@ -72,9 +72,9 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                 writer.write_all(&[first_char]).unwrap();
             }
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != CHR_ZERO {
                             if run_counter > 0 {
                                 writer
diff --git a/src/core.rs b/src/core.rs
index 677eaa0..4d2f48f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -559,15 +559,15 @@ impl<C: Eq + Copy + Clone> Iterator for ConjugateIterator<'_, C> {
 
 /// counts the number of runs in an array `arr`
 pub fn number_of_runs<R: std::io::Read>(reader: &mut R) -> usize {
-    match io::read_char(reader) {
-        Err(_) => 0,
-        Ok(first_char) => {
+    match io::next_char(reader) {
+        None => 0,
+        Some(first_char) => {
             let mut run_counter = 1; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             prev_char = next_char;
                             run_counter += 1;
diff --git a/src/io.rs b/src/io.rs
index 4280bd3..7d50867 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -79,7 +79,7 @@ pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
                 Ok(buffer[0])
             } else {
                 Err(std::io::Error::new(
-                    std::io::ErrorKind::Other,
+                    std::io::ErrorKind::UnexpectedEof,
                     "end of file",
                 ))
             }
@@ -88,3 +88,18 @@ pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
         Err(error) => Err(error),
     }
 }
+
+/// read a single u8 character, or `None` at the end of the file.
+/// A read error must not be mistaken for the end of the file, so it panics.
+pub fn next_char<R: std::io::Read>(reader: &mut R) -> Option<u8> {
+    loop {
+        match read_char(reader) {
+            Ok(c) => return Some(c),
+            Err(error) => match error.kind() {
+                std::io::ErrorKind::Interrupted => continue,
+                std::io::ErrorKind::UnexpectedEof => return None,
+                _ => panic!("cannot read the input: {}", error),
+            },
+        }
+    }
+}
-- 
2.43.0


From 7d92a4b5916e974d8887acee4a1ac888249b09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 21/35] fix: is_stringattractor does not name the terminator as
 an uncovered substring

---
 src/bin/is_stringattractor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index 63618a6..12900e7 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -229,6 +229,9 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
         let lcplength = edge.parent.borrow().depth as usize + 1;
         let lcpinterval = edge.child.borrow();
         info!("{:?}", lcpinterval);
+        if lcplength > lcpinterval.depth as usize {
+            continue; // the edge to the terminator represents no substring of the text
+        }
         let rmq = d_rmq.query(lcpinterval.begin as usize, lcpinterval.end as usize + 1) as usize;
         if lcplength <= rmq {
             is_attractor = false;
-- 
2.43.0


From 086b671b5ed39b294aec076f0cb7ab781be8875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 22/35] fix: vtm_word and fibonacci_lyndonfactor compute their
 size hint without overflow

---
 src/word.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index d2cf79d..b062390 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -699,7 +699,7 @@ pub fn vtm_morphism(c: u8) -> &'static [u8] {
 /// Francine Blanchet-Sadri, James D. Currie, Narad Rampersad, Nathan Fox:
 /// Abelian Complexity of Fixed Point of Morphism 0 ↦ 012, 1 ↦ 02, 2 ↦ 1. Integers 14: A11 (2014)
 pub fn vtm_word(k: u8) -> Vec<u8> {
-    iterate_general_morphism(k, vtm_morphism, (1 + (3 << (k))) as usize)
+    iterate_general_morphism(k, vtm_morphism, 1 + (3_usize << k))
 }
 
 #[test]
@@ -726,7 +726,7 @@ pub fn fibonacci_lyndonfactor(k: u8) -> Vec<u8> {
     iterate_general_morphism_with_startsymbol(
         k,
         fibonacci_lyndonfactor_morphism,
-        (1 + (3 << (k))) as usize,
+        1 + (3_usize << k),
         STR_AB,
     )
 }
-- 
2.43.0


From 5d007570c2c8a93d6055a6e5566b9778d6b39e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 23/35] fix: kolakoski_word does not allocate 2^(k+2) bytes for
 a word of about 2*1.5^k

---
 src/word.rs | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index b062390..deb0820 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -126,57 +126,39 @@ fn test_thuemorse_word() {
     assert_eq!(b"abbabaabbaababba", thuemorse_word(4).as_slice());
 }
 
-/// upper bound on the length of the k-th kolakoski word
-fn kolakoski_length_estimate(k: u8) -> f64 {
-    (2.0f64).powi(k as i32)
-}
-
 /// Computes the k-th Kolakoski word starting with 22
 /// https://oeis.org/A078880
 pub fn kolakoski_word(k: u8) -> Vec<u8> {
-    let length = (kolakoski_length_estimate(k + 2) + 1.0) as usize + 1;
-    let mut text = vec![0_u8; length];
-    // let mut text : Vec<u8> = Vec::with_capacity(length);
-    // unsafe { text.set_len(length); }
-    info!("allocate text length = {}", length);
-    text[0] = CHR_B;
-    text[1] = CHR_B;
+    let mut text = vec![CHR_B, CHR_B];
 
     // let mut previous_number = 2;
     // let mut current_number = 1; //@ stores in the end the k-th Fibonacci number
     let mut source = 1; //@ pointer in `text` where to read the next input character
-    let mut target = 2; //@ pointer in text where to write the next output character
     let mut current_size = 2;
     let mut old_size = 0;
 
     for _ in 0..k {
         //@ counts for each fibonacci number
         loop {
-            let current_symbol = if text[target - 1] == CHR_A {
+            let current_symbol = if text[text.len() - 1] == CHR_A {
                 CHR_B
             } else {
                 CHR_A
             };
             if text[source] == CHR_A {
-                text[target] = current_symbol;
-                target += 1;
-            }
-            if text[source] == CHR_B {
-                text[target] = current_symbol;
-                text[target + 1] = current_symbol;
-                target += 2;
+                text.push(current_symbol);
+            } else {
+                text.push(current_symbol);
+                text.push(current_symbol);
             }
             source += 1;
             if source == current_size {
-                current_size = old_size + target;
-                old_size = current_size - target;
+                current_size = old_size + text.len();
+                old_size = current_size - text.len();
                 break;
             }
         }
     }
-    unsafe {
-        text.set_len(target);
-    }
     text
 }
 
-- 
2.43.0


From 167c531916732fda5d4cfc8efbc8ea18d3d87028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 24/35] fix: generator_kmer printed garbage in release builds
 (unsound coroutine)

---
 src/bin/generator_kmer.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/bin/generator_kmer.rs b/src/bin/generator_kmer.rs
index dadb222..89175c3 100644
--- a/src/bin/generator_kmer.rs
+++ b/src/bin/generator_kmer.rs
@@ -1,20 +1,16 @@
-use generator::{done, Gn};
 use std::str;
 
 fn main() {
     let length: usize = 8;
     let alphabet_size: usize = 4;
-    let g = Gn::new_scoped(|mut s| {
-        for num in 0..usize::pow(alphabet_size, length as u32) {
-            let mut text = vec![b'a'; length];
-            let mut remainder = num;
-            for letter in &mut text {
-                *letter = b'a' + ((remainder % alphabet_size) as u8);
-                remainder /= alphabet_size;
-            }
-            s.yield_(text);
+    let g = (0..usize::pow(alphabet_size, length as u32)).map(|num| {
+        let mut text = vec![b'a'; length];
+        let mut remainder = num;
+        for letter in &mut text {
+            *letter = b'a' + ((remainder % alphabet_size) as u8);
+            remainder /= alphabet_size;
         }
-        done!();
+        text
     });
 
     for i in g {
-- 
2.43.0


From 28c3cf2ae58d4d857010262c96100e85f7d6f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 25/35] fix: call the tools in compute_stats.sh by the options
 they have

---
 compute_stats.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 09a8294..7550e7d 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -8,7 +8,7 @@ function die {
 kFilename="$1"
 [[ -r "$kFilename" ]] || die "cannot read $kFilename"
 
-result_line=$(cargo run --bin=count_sigma -- --input "$kFilename" | grep '^RESULT')
+result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT')
 
 echo "dataset & \$n\$ & \$\\sigma\$ & \$z\$ & \$r\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
 
@@ -18,13 +18,13 @@ echo -n $result_line | sed 's@.* length=\([0-9]\+\) .*@\1@'
 echo -n " & "
 echo -n $result_line | sed 's@.* sigma=\([0-9]\+\) .*@\1@'
 
-bwtruns=$(cargo run --bin=count_r -- -d --input "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
+bwtruns=$(cargo run --bin=count_r -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
 echo -n " & $bwtruns " 
-lz77factors=$(cargo run --bin=count_z -- --input "$kFilename" | grep '^RESULT' | sed 's@.* factors=\([0-9]\+\).*@\1@')
+lz77factors=$(cargo run --bin=count_z -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* factors=\([0-9]\+\).*@\1@')
 echo -n " & $lz77factors " 
 
 for k in $(seq 0 4); do
-	entropy=$(cargo run --bin=entropy -- --order "$k" --input "$kFilename" | grep '^RESULT' | sed 's@.* entropy=\([0-9\.]\+\) .*@\1@')
+	entropy=$(cargo run --bin=entropy -- --order "$k" --infilename "$kFilename" | grep '^RESULT' | sed 's@.* entropy=\([0-9\.]\+\) .*@\1@')
 	echo -n " & $entropy "
 done
 
-- 
2.43.0


From 0e44f20690b69cfb3b40ac3465af934b63c3790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 26/35] fix: order the header of compute_stats.sh as its rows

---
 compute_stats.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 7550e7d..016d0f2 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -10,7 +10,7 @@ kFilename="$1"
 
 result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT')
 
-echo "dataset & \$n\$ & \$\\sigma\$ & \$z\$ & \$r\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
+echo "dataset & \$n\$ & \$\\sigma\$ & \$r\$ & \$z\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
 
 echo -n $(basename "$kFilename")
 echo -n " & "
-- 
2.43.0


From a35bdc309d3f451466b4c5e7be278d279ed6ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 27/35] fix: the text generator panicked for ranges of numbers
 above 2^63

The start of the range was doubled, which overflows.
---
 src/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 4d2f48f..10d175f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -396,7 +396,7 @@ impl Iterator for RandomStringGenerator {
 
     fn next(&mut self) -> Option<Vec<u8>> {
         //TODO: not long enough! -> need random strings!
-        if self.m_range.start * 2 >= self.m_range.end {
+        if self.m_range.start >= self.m_range.end.div_ceil(2) {
             None
         } else if self.m_range.start >= self.m_range.end {
             use rand::Rng;
-- 
2.43.0


From 3c7c4b2dd16be06ef5623ae29c0188a8aa01d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:55 +0000
Subject: [PATCH 28/35] fix: compute_stats.sh changed file names with
 backslashes, several blanks or a leading hyphen

---
 compute_stats.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 016d0f2..77c1892 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -12,7 +12,7 @@ result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^
 
 echo "dataset & \$n\$ & \$\\sigma\$ & \$r\$ & \$z\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
 
-echo -n $(basename "$kFilename")
+printf '%s' "$(basename -- "$kFilename")"
 echo -n " & "
 echo -n $result_line | sed 's@.* length=\([0-9]\+\) .*@\1@'
 echo -n " & "
-- 
2.43.0


From 461c8cf271768efe596e9855a4199ee0d61d282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:03 +0000
Subject: [PATCH 29/35] fix: compute_stats.sh lost columns for file names with
 escape sequences of echo

---
 compute_stats.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 77c1892..981996a 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -14,9 +14,9 @@ echo "dataset & \$n\$ & \$\\sigma\$ & \$r\$ & \$z\$ & \$H_0\$ & \$H_1\$ & \$H_2\
 
 printf '%s' "$(basename -- "$kFilename")"
 echo -n " & "
-echo -n $result_line | sed 's@.* length=\([0-9]\+\) .*@\1@'
+printf '%s' "$result_line" | sed 's@.* length=\([0-9]\+\) .*@\1@'
 echo -n " & "
-echo -n $result_line | sed 's@.* sigma=\([0-9]\+\) .*@\1@'
+printf '%s' "$result_line" | sed 's@.* sigma=\([0-9]\+\) .*@\1@'
 
 bwtruns=$(cargo run --bin=count_r -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
 echo -n " & $bwtruns " 
-- 
2.43.0


From d71c9783d2e40201be18de9d58b7fa6e7e5b1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:47 +0000
Subject: [PATCH 30/35] fix: compute_stats.sh printed a row without values and
 succeeded for a directory

---
 compute_stats.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 981996a..9022150 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -6,7 +6,7 @@ function die {
 
 [[ $# -eq 1 ]] || die "Usage: $0 filename"
 kFilename="$1"
-[[ -r "$kFilename" ]] || die "cannot read $kFilename"
+[[ -f "$kFilename" && -r "$kFilename" ]] || die "cannot read $kFilename"
 
 result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT')
 
-- 
2.43.0


From d4e7501424a2fa183cccd88ba1159dd0a9486514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:33 +0000
Subject: [PATCH 31/35] fix: the release build answered word orders that do not
 fit into a machine word with a wrong word

---
 src/word.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index deb0820..53a9a46 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -5,19 +5,26 @@ use log::info;
 const CHR_A: u8 = b'a';
 const CHR_B: u8 = b'b';
 
+const TOO_LARGE: &str = "the length does not fit into a machine word";
+
 #[allow(clippy::excessive_precision)]
 const SQRT_5: f64 = 2.23606797749978969641; //(5.0 as f64).sqrt();
 const GOLDEN_RATIO: f64 = (1.0 + SQRT_5) / 2.0;
 const PSI: f64 = -1.0 / GOLDEN_RATIO;
 
+/// 2^k, which is used as a length and must therefore fit into a machine word
+fn power_of_two(k: u8) -> usize {
+    1_usize.checked_shl(k as u32).expect(TOO_LARGE)
+}
+
 pub fn fibonacci_number(k: u8) -> usize {
     if k == 0 {
         return 1;
     }
 
-    let [mut sum, mut cur, mut old] = [1, 1, 0];
-    for _ in 0..k + 1 {
-        sum = cur + old;
+    let [mut sum, mut cur, mut old]: [usize; 3] = [1, 1, 0];
+    for _ in 0..=k {
+        sum = cur.checked_add(old).expect(TOO_LARGE);
         old = cur;
         cur = sum;
     }
@@ -33,7 +40,8 @@ fn fibonacci_number_estimate(k: u8) -> f64 {
 /// https://oeis.org/A003849
 /// Reference: Patrice Séébold: "Sequences generated by infinitely iterated morphisms". Discret. Appl. Math. 11(3): 255-264 (1985)
 pub fn fibonacci_word(k: u8) -> Vec<u8> {
-    let length = (fibonacci_number_estimate(k + 2) + 1.0) as usize + 1;
+    let order = k.checked_add(2).expect(TOO_LARGE);
+    let length = (fibonacci_number_estimate(order) + 1.0) as usize + 1;
     let mut text = vec![0_u8; length];
     // let mut text : Vec<u8> = Vec::with_capacity(length);
     // unsafe { text.set_len(length); }
@@ -103,7 +111,7 @@ fn test_fibonacci_number() {
 /// a) TM_k = TM_k-1 \bar{TM_k-1}
 /// b) TM_k is a prefix of TM_{k+1}
 pub fn thuemorse_word(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = power_of_two(k);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -221,7 +229,7 @@ fn iterate_2morphism(rounds: u8, morphism: fn(u8) -> &'static [u8]) -> Vec<u8> {
     if rounds == 0 {
         return vec![CHR_A];
     }
-    let n = 1 << (rounds);
+    let n = power_of_two(rounds);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -396,7 +404,7 @@ pub fn paperfolding_word(i: u8) -> Vec<u8> {
 /// https://oeis.org/A014577
 /// where a = 00, b = 01, c = 10, d = 11
 pub fn quaternary_paperfolding_word(i: u8) -> Vec<u8> {
-    let n = 1 << i;
+    let n = power_of_two(i);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -589,7 +597,7 @@ fn test_binary_debrujin_word() {
 /// is https://oeis.org/A209229 and
 /// resembles https://oeis.org/A267366
 pub fn power2_sequence(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = power_of_two(k);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -640,9 +648,12 @@ pub fn tribonacci_number(k: u8) -> usize {
         return 1;
     }
 
-    let [mut sum, mut cur, mut old, mut ancient] = [0, 1, 1, 0];
+    let [mut sum, mut cur, mut old, mut ancient]: [usize; 4] = [0, 1, 1, 0];
     for _ in 0..k {
-        sum = cur + old + ancient;
+        sum = cur
+            .checked_add(old)
+            .and_then(|n| n.checked_add(ancient))
+            .expect(TOO_LARGE);
         ancient = old;
         old = cur;
         cur = sum;
@@ -681,7 +692,7 @@ pub fn vtm_morphism(c: u8) -> &'static [u8] {
 /// Francine Blanchet-Sadri, James D. Currie, Narad Rampersad, Nathan Fox:
 /// Abelian Complexity of Fixed Point of Morphism 0 ↦ 012, 1 ↦ 02, 2 ↦ 1. Integers 14: A11 (2014)
 pub fn vtm_word(k: u8) -> Vec<u8> {
-    iterate_general_morphism(k, vtm_morphism, 1 + (3_usize << k))
+    iterate_general_morphism(k, vtm_morphism, 1 + 3 * power_of_two(k))
 }
 
 #[test]
@@ -708,7 +719,7 @@ pub fn fibonacci_lyndonfactor(k: u8) -> Vec<u8> {
     iterate_general_morphism_with_startsymbol(
         k,
         fibonacci_lyndonfactor_morphism,
-        1 + (3_usize << k),
+        1 + 3 * power_of_two(k),
         STR_AB,
     )
 }
-- 
2.43.0


From 212f510c3384d6575b95004131b743df32d9d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:35 +0000
Subject: [PATCH 32/35] fix: escape --is-reversion counted the prefix in
 unescaped symbols instead of input bytes

---
 src/bin/escape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 380b0ee..c472569 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -69,7 +69,7 @@ fn main() {
     // let from_symbols : Vec<u8> = matches.value_of("from").unwrap().split(",").map(|s| -> u8 { s.parse::<u8>().unwrap()  }).collect();
     // let to_symbols : Vec<u8> = matches.value_of("to").unwrap().split(",").map(|s| -> u8 { s.parse::<u8>().unwrap()  }).collect();
     // let is_reversion = matches.is_present("revert");
-    let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
+    let reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     //@ sanity checks
@@ -100,6 +100,8 @@ fn main() {
     } else {
         args.prefixlength
     };
+    //@ the prefix is one of the input, in which escaped symbols take two bytes
+    let mut reader = std::io::Read::take(reader, prefixlength as u64);
 
     if args.is_reversion {
         let revert_mapping = {
-- 
2.43.0


From d60ed3d5c09595f82db9df7771ceab57ff01703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:57 +0000
Subject: [PATCH 33/35] fix: compute_stats.sh took values out of file names
 that look like result fields

---
 compute_stats.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 9022150..cd07555 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -8,7 +8,7 @@ function die {
 kFilename="$1"
 [[ -f "$kFilename" && -r "$kFilename" ]] || die "cannot read $kFilename"
 
-result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT')
+result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT' | sed 's@ file=.*@ @')
 
 echo "dataset & \$n\$ & \$\\sigma\$ & \$r\$ & \$z\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
 
@@ -18,13 +18,13 @@ printf '%s' "$result_line" | sed 's@.* length=\([0-9]\+\) .*@\1@'
 echo -n " & "
 printf '%s' "$result_line" | sed 's@.* sigma=\([0-9]\+\) .*@\1@'
 
-bwtruns=$(cargo run --bin=count_r -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
+bwtruns=$(cargo run --bin=count_r -- --infilename "$kFilename" | grep '^RESULT' | sed 's@ file=.*@ @; s@.* bwt_runs=\([0-9]\+\) .*@\1@')
 echo -n " & $bwtruns " 
 lz77factors=$(cargo run --bin=count_z -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* factors=\([0-9]\+\).*@\1@')
 echo -n " & $lz77factors " 
 
 for k in $(seq 0 4); do
-	entropy=$(cargo run --bin=entropy -- --order "$k" --infilename "$kFilename" | grep '^RESULT' | sed 's@.* entropy=\([0-9\.]\+\) .*@\1@')
+	entropy=$(cargo run --bin=entropy -- --order "$k" --infilename "$kFilename" | grep '^RESULT' | sed 's@ input=.*@ @; s@.* entropy=\([0-9\.]\+\) .*@\1@')
 	echo -n " & $entropy "
 done
 
-- 
2.43.0


From 8f8205da97333fb7b2cfbc62d50c1124a2bcffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:14 +0000
Subject: [PATCH 34/35] fix: entropy: count more than 2^31 symbols

---
 src/bin/entropy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/entropy.rs b/src/bin/entropy.rs
index 0b7eff0..df90ee3 100644
--- a/src/bin/entropy.rs
+++ b/src/bin/entropy.rs
@@ -15,7 +15,7 @@ use log::info;
 
 fn zero_order_entropy<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> f64 {
     let mut char_counters: Vec<usize> = vec![0; u8::MAX as usize + 1];
-    let mut total_count = 0;
+    let mut total_count: usize = 0;
     for c in text_iter {
         let index: usize = (*c).into();
         char_counters[index] += 1;
-- 
2.43.0


From 05e9891d9bd98ac9a36a90e554c5d79ff6366a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:55 +0000
Subject: [PATCH 35/35] fix: entropy_kmer: count more than 2^31 occurrences

---
 src/bin/entropy_kmer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index f4450b5..685c978 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -26,7 +26,7 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     order: usize,
 ) -> (f64, usize) {
     let mut kmers = HashMap::new();
-    let mut kplusmers = HashMap::new();
+    let mut kplusmers: HashMap<u64, u64> = HashMap::new();
     let mut ringbuf: u64 = 0;
     for _ in 0..order {
         ringbuf <<= 8;
-- 
2.43.0


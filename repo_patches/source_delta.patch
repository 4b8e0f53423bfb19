From 665841aa14329062225ab3d132b0defd234139d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/12] fix: Reed-Solomon correction of errors within the
 capacity of a block

Dividing zero in GF(2^8) gave a non-zero result, and the elimination never
looked for a non-zero pivot, so a single damaged codeword could already make
the decoder return wrong text or fail.
---
 src/decode/qr/correct.rs | 7 +++++++
 src/decode/qr/galois.rs  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 6d02755..e7007b5 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -141,6 +141,13 @@ where
     }
 
     for i in 0..num_eq {
+        // find an equation to normalise; if there is none the solution for i can be chosen freely
+        match (i..num_eq).find(|r| eq[*r][i] != zero) {
+            Some(pivot) => eq.swap(i, pivot),
+            None if fail_on_rank => return None,
+            None => continue,
+        }
+
         // normalise equation
         for j in (i..num_coeff).rev() {
             // divide all coefficients by the first nonzero
diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 208881e..62b3fa5 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -46,6 +46,10 @@ impl Div<GF8> for GF8 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF8) -> GF8 {
+        if self.0 == 0 {
+            return EXP8[255];
+        }
+
         let log_self = LOG8[self.0 as usize];
         let log_other = LOG8[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From d9ba923a993a912e2e7e6df3886a7adaa9f3fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 02/12] fix: do not accept a corrected block that is not a
 valid codeword

Only one syndrome was looked at after correcting (and only part of them
before), so a block with too many errors could be returned as wrong text.
---
 src/decode/qr/correct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index e7007b5..b43c556 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -42,7 +42,7 @@ pub fn correct_with_error_count(
         block[block_info.total_per as usize - 1 - locs[i] as usize] ^= distance[i].0;
     }
 
-    if syndrome(&block, EXP8[0]) != GF8(0) {
+    if !calculate_syndromes(&block, block_info).0 {
         return Err(QRError {
             msg: String::from("Error correcting did not fix corrupted data"),
         });
@@ -52,10 +52,12 @@ pub fn correct_with_error_count(
 }
 
 fn calculate_syndromes(block: &[u8], block_info: &BlockInfo) -> (bool, Vec<GF8>) {
-    let mut syndromes = vec![GF8(0); (block_info.ec_cap * 2) as usize];
+    // every error correction codeword takes part, also the ones that are only there to detect misdecodes
+    let nr_syndromes = block_info.total_per - block_info.data_per;
+    let mut syndromes = vec![GF8(0); nr_syndromes as usize];
 
     let mut all_fine = true;
-    for i in 0..block_info.ec_cap * 2 {
+    for i in 0..nr_syndromes {
         syndromes[i as usize] = syndrome(block, EXP8[i as usize]);
         if syndromes[i as usize] != GF8(0) {
             all_fine = false;
-- 
2.43.0


From 497ac1bc91c92e2c9c0b02c2f4f9bfcb20bdb08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 03/12] fix: correct up to three errors in either copy of the
 format information

Errors in the last bit were skipped, three errors could cancel out in the only
syndrome that was checked, and dividing zero in GF(2^4) was not zero.
---
 src/decode/qr/format.rs | 49 ++++++++++++++++++-----------------------
 src/decode/qr/galois.rs |  4 ++++
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 4350edb..9537362 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -65,41 +65,26 @@ fn format2(data: &QRData) -> Result<Vec<u8>, QRError> {
 }
 
 fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
-    let mut s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
+    let (s1, s3, s5) = syndromes(&format);
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if (s1, s3, s5) == (GF4(0), GF4(0), GF4(0)) {
+        // syndromes == 0, no error detected
         return Ok(format);
     }
 
     let s2 = s1 * s1;
     let s4 = s2 * s2;
 
-    let mut s3 = GF4(0);
-    let mut s5 = GF4(0);
-
-    for i in 0..format.len() {
-        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
-        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
-    }
-
     let sigma1 = s1;
     let sigma2 = ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2);
     let sigma3 = s3 + s2 * sigma1 + s1 * sigma2;
 
     let mut error_pos = vec![];
 
-    for i in 0..16 {
+    for i in 1..16 {
         let x = GF4(i);
         if sigma3 + sigma2 * x + sigma1 * x * x + x * x * x == GF4(0) {
-            let log = LOG4[i as usize];
-            if log != 0 {
-                error_pos.push(log);
-            }
+            error_pos.push(LOG4[i as usize]);
         }
     }
 
@@ -108,14 +93,8 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
         format[len - error as usize - 1] ^= 1;
     }
 
-    s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
-
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if syndromes(&format) == (GF4(0), GF4(0), GF4(0)) {
+        // syndromes == 0, all errors corrected
         return Ok(format);
     }
 
@@ -124,6 +103,20 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
     })
 }
 
+fn syndromes(format: &[u8]) -> (GF4, GF4, GF4) {
+    let mut s1 = GF4(0);
+    let mut s3 = GF4(0);
+    let mut s5 = GF4(0);
+
+    for i in 0..format.len() {
+        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
+        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
+        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
+    }
+
+    (s1, s3, s5)
+}
+
 fn error_correction(bytes: u8) -> Option<ECLevel> {
     match bytes {
         0b01 => Some(ECLevel::LOW),
diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 62b3fa5..09ff935 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -102,6 +102,10 @@ impl Div<GF4> for GF4 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF4) -> GF4 {
+        if self.0 == 0 {
+            return EXP4[15];
+        }
+
         let log_self = LOG4[self.0 as usize];
         let log_other = LOG4[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From 6825c6b11380b7e3b6bd8e785282d90b4469fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 04/12] fix: report an invalid last alphanumeric character
 instead of panicking

---
 src/decode/qr/data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 5643416..6b96c76 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -123,7 +123,10 @@ fn alphanumeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let chars = read_bits_u16(chomp, 6)?;
-            result.push(ALPHANUMERIC[chars as usize]);
+            let char1 = ALPHANUMERIC.get(chars as usize).ok_or(QRError {
+                msg: format!("Invalid character in alphanumeric data {}", chars),
+            })?;
+            result.push(*char1);
 
             break;
         }
-- 
2.43.0


From 2eab0b7c180fe05a76d3aacc8bbc8273aede2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 05/12] fix: report digits that are out of range in numeric
 data

They came out as more digits than the segment declares.
---
 src/decode/qr/data.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 6b96c76..5f480f7 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -45,7 +45,7 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
     while length > 0 {
         if length >= 3 {
-            let digits = read_bits_u16(chomp, 10)?;
+            let digits = check_digits(read_bits_u16(chomp, 10)?, 999)?;
             result.push_str(&format!("{:03}", digits));
 
             length -= 3;
@@ -53,14 +53,14 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
         }
 
         if length == 2 {
-            let digits = read_bits_u16(chomp, 7)?;
+            let digits = check_digits(read_bits_u16(chomp, 7)?, 99)?;
             result.push_str(&format!("{:02}", digits));
 
             break;
         }
 
         if length == 1 {
-            let digits = read_bits_u16(chomp, 4)?;
+            let digits = check_digits(read_bits_u16(chomp, 4)?, 9)?;
             result.push_str(&format!("{:01}", digits));
 
             break;
@@ -72,6 +72,16 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
     Ok(result)
 }
 
+fn check_digits(digits: u16, max: u16) -> Result<u16, QRError> {
+    if digits > max {
+        return Err(QRError {
+            msg: format!("Invalid digits in numeric data {}", digits),
+        });
+    }
+
+    Ok(digits)
+}
+
 const ALPHANUMERIC: [char; 45] = [
     '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I',
     'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', ' ', '$',
-- 
2.43.0


From 816712c6d7f7f88256ba3ac16a94b72ace6c7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 06/12] fix: keep count of the bits left in Chomp

Bits taken within a byte were not counted, so that a read refused for lack of
bits could make the bits that are left unreadable. Also refuse to read more
than 16 bits as a u16, as documented, and do not consume bits when refusing.
---
 src/util/chomp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index e31e9cf..57a0a87 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -59,6 +59,10 @@ impl Chomp {
     /// Try to chomp `nr_bits` bits. If not enough bits are left, or requesting more than 16 bits the provided `err` will be returned
     /// If requesting fewer than 16 bits, the result will be in the least significant bits of the u16
     pub fn chomp_or_u16<E: Clone>(&mut self, nr_bits: u8, err: E) -> Result<u16, E> {
+        if nr_bits > 16 || BitCount(nr_bits as usize) > self.bits_left {
+            return Err(err);
+        }
+
         let mut bits = nr_bits;
 
         let mut result: u16 = 0;
@@ -124,6 +128,7 @@ impl Chomp {
             let result = *byte >> (8 - nr_bits.0);
             *byte <<= nr_bits.0;
 
+            self.bits_left -= nr_bits;
             self.bits_left_in_byte -= nr_bits;
 
             Some(result)
-- 
2.43.0


From e11a9fe025b8a364cdc79ad7cebec34b4864e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 07/12] fix: prepare images that are smaller than a block

The range of blocks to take the mean of was empty (and its end underflowed) for
images less than a block wide or high, and for a block mean size below 3.
---
 src/prepare/blockedmean.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 8100593..77cbf52 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -235,10 +235,11 @@ impl Iterator for BlockCoordRangeInclusive {
     }
 }
 
+// Always contains at least the start, so there is something to take the mean of
 fn range(start: BlockCoord, end: BlockCoord) -> BlockCoordRangeInclusive {
     BlockCoordRangeInclusive {
         current: start.0,
-        end: end.0 - 1,
+        end: max(start.0 + 1, end.0) - 1,
     }
 }
 
-- 
2.43.0


From 3824544ea50efa30c9bdbfa15ae29061387afc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 08/12] fix: do not read pixels outside of the image when
 extracting

Parts of a code can be outside of the image (a cropped or rotated code, or three
patterns that only look like one), which made the decoder panic.
---
 src/extract/qr/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 30fda7f..b70c082 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -55,8 +55,9 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             let mut line = start - 3.0 * dx;
 
             for _ in 0..size {
-                let x = line.x.round() as u32;
-                let y = line.y.round() as u32;
+                // the edge of the code can end up just outside of the image
+                let x = (line.x.round() as u32).min(prepared.width() - 1);
+                let y = (line.y.round() as u32).min(prepared.height() - 1);
                 let pixel = prepared.get_pixel(x, y)[0];
 
                 #[cfg(feature = "debug-images")]
@@ -318,15 +319,20 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
     }
 
     let top_left = p - 2.0 * dx - 2.0 * dy;
-    if top_left.x < 0.0 || top_left.y < 0.0 {
-        return false;
-    }
-
+    let top_right = p + 2.0 * dx - 2.0 * dy;
+    let bottom_left = p - 2.0 * dx + 2.0 * dy;
     let bottom_right = p + 2.0 * dx + 2.0 * dy;
     let dims = prepared.dimensions();
 
-    if bottom_right.x.round() >= f64::from(dims.0) || bottom_right.y.round() >= f64::from(dims.1) {
-        return false;
+    // The code can be rotated so any of the corners can be outside of the image on any side
+    for corner in &[top_left, top_right, bottom_left, bottom_right] {
+        if corner.x < 0.0 || corner.y < 0.0 {
+            return false;
+        }
+
+        if corner.x.round() >= f64::from(dims.0) || corner.y.round() >= f64::from(dims.1) {
+            return false;
+        }
     }
 
     for x in -2..2 {
-- 
2.43.0


From e7c69c5cdc6c1c7cc6c19f634514e005a33236fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 09/12] fix: find finder patterns that follow a wide gap in the
 same row

The line scan takes a run shorter than a tenth of the one before for noise.
The first module of a finder pattern is as short as that when something else
lies more than ten modules to the left of it, so the pattern was missed.
---
 src/detect/linescan.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3c26e3b..e05e4b2 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -46,17 +46,22 @@ impl Detect<GrayImage> for LineScan {
 
         let mut last_pixel = 127;
         let mut pattern = QRFinderPattern::new();
+        // The same without ignoring noise, because what looks like noise after a large gap
+        // can just as well be the first module of a finder
+        let mut exact = QRFinderPattern::new();
         'pixels: for (x, y, p) in prepared.enumerate_pixels() {
             // Step 1
             // A new line, construct a new QRFinderPattern
             if x == 0 {
                 last_pixel = 127;
                 pattern = QRFinderPattern::new();
+                exact = QRFinderPattern::new();
             }
 
             // A pixel of the same color, add to the count in the last position
             if p.channels()[0] == last_pixel {
                 pattern.6 += 1;
+                exact.6 += 1;
 
                 if x != prepared.dimensions().0 - 1 {
                     continue 'pixels;
@@ -65,13 +70,18 @@ impl Detect<GrayImage> for LineScan {
 
             // A pixel color switch, but the current pattern does not look like a finder
             // Slide the pattern and continue searching
-            if !pattern.looks_like_finder() {
+            if !pattern.looks_like_finder() && !exact.looks_like_finder() {
                 last_pixel = p.channels()[0];
                 pattern.slide();
+                exact.shift();
                 continue 'pixels;
             }
 
-            let mut module_size = pattern.est_mod_size();
+            let mut module_size = if pattern.looks_like_finder() {
+                pattern.est_mod_size()
+            } else {
+                exact.est_mod_size()
+            };
 
             // A finder pattern is 1-1-3-1-1 modules wide, so subtract 3.5 modules to get the x coordinate in the center
             let mut finder = Point {
@@ -84,6 +94,7 @@ impl Detect<GrayImage> for LineScan {
                     // The candidate location we have found was already detected and stored on a previous line.
                     last_pixel = p.channels()[0];
                     pattern.slide();
+                    exact.shift();
 
                     continue 'pixels;
                 }
@@ -97,6 +108,7 @@ impl Detect<GrayImage> for LineScan {
                 if vert.is_none() {
                     last_pixel = p.channels()[0];
                     pattern.slide();
+                    exact.shift();
 
                     continue 'pixels;
                 }
@@ -120,6 +132,7 @@ impl Detect<GrayImage> for LineScan {
 
             last_pixel = p.channels()[0];
             pattern.slide();
+            exact.shift();
         }
 
         debug!("Candidate QR Locators {:#?}", candidates);
@@ -384,16 +397,20 @@ impl QRFinderPattern {
             self.0 = 0;
         } else {
             // the pixels inverted so slide the pattern down and start a new count in the last position
-            self.0 = self.1;
-            self.1 = self.2;
-            self.2 = self.3;
-            self.3 = self.4;
-            self.4 = self.5;
-            self.5 = self.6;
-            self.6 = 1;
+            self.shift();
         }
     }
 
+    fn shift(&mut self) {
+        self.0 = self.1;
+        self.1 = self.2;
+        self.2 = self.3;
+        self.3 = self.4;
+        self.4 = self.5;
+        self.5 = self.6;
+        self.6 = 1;
+    }
+
     fn est_mod_size(&self) -> f64 {
         f64::from(self.2 + self.3 + self.4 + self.5 + self.6) / 7.0
     }
-- 
2.43.0


From 12500c9a0c69c7117978e5d317dd81719ffe4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 10/12] fix: prepare images that are 0 pixels wide

---
 src/prepare/blockedmean.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 77cbf52..fe5d36b 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -34,6 +34,11 @@ impl BlockedMean {
 
 impl <D> Prepare<D, GrayImage> for BlockedMean where D: GenericImageView<Pixel = Rgba<u8>> {
     fn prepare(&self, input: &D) -> GrayImage {
+        // converting an image that is higher than 0 but 0 wide panics
+        if input.width() == 0 {
+            return GrayImage::new(0, input.height());
+        }
+
         let grayscale = grayscale(input);
 
         let dimensions = grayscale.dimensions();
-- 
2.43.0


From 7a01b8f932f401ccc43aaf89c1c22c709a0f67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 11/12] fix: check both inner sides of the alignment pattern

The right side was never checked, the left one twice.
---
 src/extract/qr/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index b70c082..b63d6f5 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -364,7 +364,7 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
             return false;
         }
 
-        let right = p - dx + f64::from(y) * dy;
+        let right = p + dx + f64::from(y) * dy;
         if prepared.get_pixel(right.x.round() as u32, right.y.round() as u32)[0] == 0 {
             return false;
         }
-- 
2.43.0


From 0deb8cdc7f775d3c1ac199e581759541eb431c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 12/12] fix: keep debug images of wide pictures inside of the
 picture

---
 src/detect/linescan.rs | 2 +-
 src/extract/qr/mod.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index e05e4b2..ffaf910 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -148,7 +148,7 @@ impl Detect<GrayImage> for LineScan {
                 let x_start = (loc.x - 3.5 * c.module_size).max(0.0_f64) as u32;
                 let x_end = min(img.dimensions().0, (loc.x + 3.5 * c.module_size) as u32);
                 let y_start = (loc.y - 3.5 * c.module_size).max(0.0_f64) as u32;
-                let y_end = min(img.dimensions().0, (loc.y + 3.5 * c.module_size) as u32);
+                let y_end = min(img.dimensions().1, (loc.y + 3.5 * c.module_size) as u32);
 
                 for x in x_start..x_end {
                     for y in y_start..y_end {
diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index b63d6f5..e2f7547 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -64,7 +64,7 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 {
                     if pixel == 0 {
                         for i in max(0, x.saturating_sub(2))..min(img.dimensions().0, x + 2) {
-                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().0, y + 2) {
+                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().1, y + 2) {
                                 img.put_pixel(i, j, Rgb([255, 0, 0]));
                             }
                         }
@@ -237,7 +237,7 @@ fn determine_perspective(
         );
         let y_start = max(0, (est_alignment.y - 2.5 * loc.module_size) as u32);
         let y_end = min(
-            img.dimensions().0,
+            img.dimensions().1,
             (est_alignment.y + 2.5 * loc.module_size) as u32,
         );
 
-- 
2.43.0


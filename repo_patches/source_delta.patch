From 4682fc33026e77fcc8b4d8f1ac05e54c1b9277e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 01/16] monitor hooks: expose private stages under --cfg
 sia_monitor

---
 lib/sia/rust/embedding/src/lib.rs    | 9 +++++++++
 lib/sia/rust/signature/src/lib.rs    | 6 ++++++
 lib/sia/rust/watermarking/src/lib.rs | 7 +++++++
 3 files changed, 22 insertions(+)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index b070bcf..7673380 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -8,6 +8,15 @@ use crate::io::data::{deserialize, Data};
 mod haar;
 mod io;
 
+/// Runtime-monitoring access to private stages; only with `--cfg sia_monitor`.
+#[cfg(sia_monitor)]
+pub mod monitor {
+    pub use crate::haar::dwt_2d;
+    pub use crate::io::data::{deserialize, Data};
+    pub use crate::io::steganography::get_capacity;
+    pub use crate::io::{read, write};
+}
+
 fn get_domain_capacity(domain_width: usize, domain_height: usize) -> usize {
     let capacity = io::steganography::get_capacity(domain_width, domain_height);
     println!("domain capacity: {:?} bytes", capacity);
diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 1b418d6..f3f77e9 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -8,6 +8,12 @@ use crate::ecdsa::{DalekSigner, DalekVerifier};
 mod ecdsa;
 mod keypair;
 
+/// Runtime-monitoring access to private stages; only with `--cfg sia_monitor`.
+#[cfg(sia_monitor)]
+pub mod monitor {
+    pub use crate::keypair::generate;
+}
+
 pub type DSSigner = DalekSigner<Keypair>;
 pub type DSVerifier = DalekVerifier<PublicKey>;
 
diff --git a/lib/sia/rust/watermarking/src/lib.rs b/lib/sia/rust/watermarking/src/lib.rs
index 581e3ce..32edcd9 100644
--- a/lib/sia/rust/watermarking/src/lib.rs
+++ b/lib/sia/rust/watermarking/src/lib.rs
@@ -3,6 +3,13 @@ extern crate core;
 mod process;
 mod watermark;
 
+/// Runtime-monitoring access to private stages; only with `--cfg sia_monitor`.
+#[cfg(sia_monitor)]
+pub mod monitor {
+    pub use crate::process::{authenticate_channel, watermark_channel};
+    pub use crate::watermark::{deserialize, Watermark};
+}
+
 use crate::process::watermark_channel;
 use image::{
     imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, Pixel, Rgba,
-- 
2.43.0


From 5a914b5b0b62d6e5bbb3b489912a64ed708add32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 02/16] fix: address the coefficients of non-square domains row
 by row

---
 lib/sia/rust/embedding/src/io/steganography.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..56b7b38 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -19,8 +19,8 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
     ((width * height) as f64 / 8.).floor() as usize
 }
 
-fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
+fn get_column_and_row(offset: usize, height: usize) -> (usize, usize) {
+    let column = offset % height;
     let row = (offset as f64 / height as f64).floor() as usize;
     (column, row)
 }
@@ -57,8 +57,8 @@ impl<'a> WatermarkToDwtCoefficientsWriter<'a> {
 
     fn write_bit(&mut self, bit: bool) {
         let reminder = if bit { 0.25 } else { -0.25 };
-        let (width, height) = self.domain.dim();
-        let (column, row) = get_column_and_row(self.offset, width, height);
+        let (_, height) = self.domain.dim();
+        let (column, row) = get_column_and_row(self.offset, height);
 
         let coefficient = self.domain.get_mut(Ix2(row, column)).unwrap();
         //let original_coefficient = coefficient.clone();
@@ -127,8 +127,8 @@ impl<'a> WatermarkFromDwtCoefficientsReader<'a> {
     }
 
     fn read_bit(&mut self) -> bool {
-        let (width, height) = self.domain.dim();
-        let (column, row) = get_column_and_row(self.offset, width, height);
+        let (_, height) = self.domain.dim();
+        let (column, row) = get_column_and_row(self.offset, height);
 
         let coefficient_option = self.domain.get(Ix2(row, column));
         match coefficient_option {
-- 
2.43.0


From cb21366643fbe4b1ec27fbe23fb9768033275d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 03/16] fix: compute Zernike moments of rectangular images

---
 lib/sia/rust/zernike/src/calc.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..d81a495 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,15 +12,18 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    // A rectangular image is centred in the square the polynomial is sampled on
+    let dimension = width.max(height);
+    let x_offset = (dimension - width) / 2;
+    let y_offset = (dimension - height) / 2;
+    let zernike_matrix = get_zernike_matrix(order, index as isize, dimension);
 
     let integral =
         image
-            .iter()
-            .enumerate()
-            .fold(Complex::new(0., 0.), |accumulator, (i, &next)| {
+            .indexed_iter()
+            .fold(Complex::new(0., 0.), |accumulator, ((x, y), &next)| {
                 let next_pixel = next as f64;
-                let zernike_multiplier = zernike_matrix_vector.get(i).unwrap();
+                let zernike_multiplier = zernike_matrix[[x + x_offset, y + y_offset]];
 
                 return accumulator + zernike_multiplier * next_pixel;
             });
-- 
2.43.0


From f9b77d18bbbb5f6c536d78c6df3186151b708ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 04/16] fix: lay channels out as rows of the image's width

---
 lib/sia/rust/watermarking/src/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index f5729ef..8a678e1 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -24,7 +24,7 @@ pub fn watermark_channel(
     let raw_data = Vec::from(channel.as_raw().clone());
 
     let &(width, height) = &channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
@@ -76,7 +76,7 @@ pub fn authenticate_channel(
 ) -> bool {
     let raw_data = Vec::from(channel.as_raw().clone());
     let (width, height) = channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
-- 
2.43.0


From 05a4fa99541049c22db6fd1f7e0247e5551bff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 05/16] fix: ignore the incomplete codeword at the end of the
 domain when decoding

---
 lib/sia/rust/encoding/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..6b36e73 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -113,7 +113,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         None => bytes.clone(),
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From 880a8cc731a7484bca6708af4938c05babdef763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 06/16] fix: strip the length header of data stored without an
 error correcting code

---
 lib/sia/rust/encoding/src/lib.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 6b36e73..6f32c7c 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -109,7 +109,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
 
     // let code_option = get_code_for_decode(bits_length);
     let code_option = get_code_by_codeword_length(codeword_length);
-    match code_option {
+    let decoded_bytes = match code_option {
         None => bytes.clone(),
         Some(code) => {
             let mut decoded_bytes = vec![];
@@ -128,19 +128,20 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
                 //println!("decoded word: {:?}", decoded_word_bytes);
                 decoded_bytes.append(&mut decoded_word_bytes);
             }
+            decoded_bytes
+        }
+    };
 
-            // Get data bytes length
-            let bytes_length = bytes_to_u16(decoded_bytes[0], decoded_bytes[1]) as usize;
+    // Get data bytes length
+    let bytes_length = bytes_to_u16(decoded_bytes[0], decoded_bytes[1]) as usize;
 
-            println!("expected data bytes length: {:?}", bytes_length);
+    println!("expected data bytes length: {:?}", bytes_length);
 
-            // Return decoded data
-            let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
+    // Return decoded data
+    let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
 
-            //println!("decoded bytes: {:?}", decoded_bytes);
-            decoded_bytes
-        }
-    }
+    //println!("decoded bytes: {:?}", decoded_bytes);
+    decoded_bytes
 }
 
 #[cfg(test)]
-- 
2.43.0


From 18da08c85b0dd6590d6288961fefc2c9618b0b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 07/16] fix: refuse data whose length does not fit the length
 header

---
 lib/sia/rust/encoding/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 6f32c7c..4f34065 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -49,6 +49,10 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 }
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    if input.len() > u16::MAX as usize {
+        panic!("too long data to be encoded: {:?}", input.len());
+    }
+
     // Prepend input data with amount of bytes
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
-- 
2.43.0


From 63e9c472d016f45d095e7deb3f37d1f44a01ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 08/16] fix: restore quantized features without rounding across
 a cell boundary

---
 lib/sia/rust/three-bit-quantization/src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/sia/rust/three-bit-quantization/src/lib.rs b/lib/sia/rust/three-bit-quantization/src/lib.rs
index 8e4dc21..bf8d018 100644
--- a/lib/sia/rust/three-bit-quantization/src/lib.rs
+++ b/lib/sia/rust/three-bit-quantization/src/lib.rs
@@ -117,8 +117,7 @@ pub fn three_bit_dequantization(
             let calculated_perturbation_bits =
                 *calculated_perturbation_vector_chunks.get(i).unwrap();
 
-            let noised_feature: f64 = *(*noised_features).get(i).unwrap();
-            //let noised_quantized_feature: i64 = *(*noised_quantized_features).get(i).unwrap();
+            let noised_quantized_feature: i64 = *noised_quantized_features.get(i).unwrap();
 
             let given_bit1 = given_perturbation_bits.get(0).unwrap().as_u8();
             let given_bit2 = given_perturbation_bits.get(1).unwrap().as_u8();
@@ -154,20 +153,20 @@ pub fn three_bit_dequantization(
             );*/
 
             if a == 0 && given_bit3 == 0 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 0 && given_bit3 == 1 && calculated_bit3 == 1 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 1 && given_bit3 == 1 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else if a == 1 && given_bit3 == 0 && calculated_bit3 == 0 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else {
-                noised_feature
+                noised_quantized_feature
             }
         })
         .collect();
 
-    quantize(&restored_features, step)
+    restored_features
 }
 
 #[cfg(test)]
-- 
2.43.0


From 847e16b051babb5ae65a6b1ba341a7cd9025c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 09/16] fix: reject a malformed signature instead of panicking

---
 lib/sia/rust/signature/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index f3f77e9..a2d731a 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -40,8 +40,10 @@ pub fn verify(data: &Vec<u8>, signature: &Vec<u8>, public_key: &str) -> bool {
 
     let verifier = DSVerifier { verify_key };
 
-    let sig = Signature::from_bytes(signature.as_slice()).unwrap();
-    verifier.verify(data.as_slice(), &sig).is_ok()
+    match Signature::from_bytes(signature.as_slice()) {
+        Ok(sig) => verifier.verify(data.as_slice(), &sig).is_ok(),
+        Err(_) => false,
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 10afa6fe7a71eea038499c16724a8d0b70c12af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 10/16] fix: report malformed hex text instead of panicking or
 accepting a sign

---
 lib/sia/rust/utils/src/format.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..341cabd 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -1,9 +1,15 @@
 use std::{fmt::Write, num::ParseIntError};
 
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
-    (0..s.len())
-        .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+    s.as_bytes()
+        .chunks(2)
+        .map(|pair| match std::str::from_utf8(pair) {
+            Ok(digits) if pair.len() == 2 && pair.iter().all(u8::is_ascii_hexdigit) => {
+                u8::from_str_radix(digits, 16)
+            }
+            // not a pair of hex digits: report it the way an invalid number is
+            _ => u8::from_str_radix("", 16),
+        })
         .collect()
 }
 
-- 
2.43.0


From 4f71f5d0665d1bdd398c0648bffb2635666a5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 11/16] fix: give a verdict for images that carry no
 well-formed watermark

---
 lib/sia/rust/embedding/src/io/data.rs      |  4 ++--
 lib/sia/rust/encoding/src/lib.rs           |  5 +++--
 lib/sia/rust/watermarking/src/process.rs   |  8 ++++++--
 lib/sia/rust/watermarking/src/watermark.rs | 15 ++++++++++++---
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 921eec4..e3a54bb 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -30,7 +30,7 @@ pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("serialized data bytes: {:?}", bytes);
     let length = bytes.len();
     if length < 3 {
-        panic!("too short data");
+        return Data::new(vec![]);
     }
 
     let data_length_bytes = &bytes[0..2];
@@ -40,7 +40,7 @@ pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("data length: {:?}", data_length);
 
     let data_start = 2;
-    let data_end = data_start + data_length as usize;
+    let data_end = (data_start + data_length as usize).min(length);
     println!("data bytes: ({:?} - {:?})", data_start, data_end);
 
     let data_bytes: Vec<u8> = bytes[data_start..data_end].to_vec();
diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 4f34065..6de4f87 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -141,8 +141,9 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
 
     println!("expected data bytes length: {:?}", bytes_length);
 
-    // Return decoded data
-    let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
+    // Return decoded data, no more than there is if the length header is damaged
+    let data_end = (bytes_length + 2).min(decoded_bytes.len());
+    let decoded_bytes = Vec::from(&decoded_bytes[2..data_end]);
 
     //println!("decoded bytes: {:?}", decoded_bytes);
     decoded_bytes
diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index 8a678e1..0e1a27b 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -9,7 +9,7 @@ use signature::{sign, verify};
 use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
 use utils::bytes::vec_i64_to_bytes;
 
-use crate::watermark::{deserialize, Watermark};
+use crate::watermark::{try_deserialize, Watermark};
 
 const PRIVATE_KEY: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
 const PUBLIC_KEY: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";
@@ -95,7 +95,11 @@ pub fn authenticate_channel(
     let extracted_data = extract(pixels_array, embedding_depth, dwt_levels);
     println!("extracted watermark data: {:?}", extracted_data);
 
-    let watermark = deserialize(&extracted_data);
+    let watermark = match try_deserialize(&extracted_data) {
+        // three bits of perturbation per feature
+        Some(watermark) if watermark.perturbation_vector.len() == 3 * features.len() => watermark,
+        _ => return false,
+    };
     println!("deserialized watermark data: {:?}", watermark);
 
     let quantized_features = three_bit_dequantization(
diff --git a/lib/sia/rust/watermarking/src/watermark.rs b/lib/sia/rust/watermarking/src/watermark.rs
index 1bb5df4..38bed50 100644
--- a/lib/sia/rust/watermarking/src/watermark.rs
+++ b/lib/sia/rust/watermarking/src/watermark.rs
@@ -51,9 +51,14 @@ impl Watermark {
 }
 
 pub fn deserialize(bytes: &Vec<u8>) -> Watermark {
+    try_deserialize(bytes).expect("malformed watermark")
+}
+
+/// Returns nothing if the bytes are not a serialized watermark.
+pub fn try_deserialize(bytes: &Vec<u8>) -> Option<Watermark> {
     let length = bytes.len();
     if length < 3 {
-        panic!("too short data");
+        return None;
     }
 
     let perturbation_vector_length = *bytes.get(0).unwrap() as usize;
@@ -72,13 +77,17 @@ pub fn deserialize(bytes: &Vec<u8>) -> Watermark {
     let t_end = t_start + text_length;
     // println!("t: ({:?} - {:?})", t_start, t_end);
 
+    if t_end > length {
+        return None;
+    }
+
     let p: BitVec<u8> =
         perturbation_vector_from_bytes(&bytes[p_start..p_end].to_vec(), perturbation_vector_length);
     let s: Vec<u8> = bytes[s_start..s_end].to_vec();
 
-    let t: String = String::from_utf8(bytes[t_start..t_end].to_vec()).unwrap();
+    let t: String = String::from_utf8(bytes[t_start..t_end].to_vec()).ok()?;
 
-    Watermark::new(p, s, t)
+    Some(Watermark::new(p, s, t))
 }
 
 #[cfg(test)]
-- 
2.43.0


From f825178d76d803349da8741597556b18712f5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 12/16] fix: strip the header of data URLs of every media type

---
 src/Content/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Content/utils.ts b/src/Content/utils.ts
index cc165a9..a940b3c 100644
--- a/src/Content/utils.ts
+++ b/src/Content/utils.ts
@@ -5,7 +5,7 @@ import {
 } from 'sia-watermarking-lib';
 import { ImageModel, WatermarkingProcess } from './image';
 
-const mimeRegex = /^data:image\/[a-zA-Z0-9]+;base64,/;
+const mimeRegex = /^data:[^,]*;base64,/;
 
 const removeMime = (dataUri: string) => dataUri.replace(mimeRegex, '');
 
-- 
2.43.0


From 18495dc647b18bf4b54924e9d65dceceb544b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 13/16] fix: show the file selected last when an earlier one is
 read later

---
 src/Content/Content.tsx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Content/Content.tsx b/src/Content/Content.tsx
index 36e2c21..303e140 100644
--- a/src/Content/Content.tsx
+++ b/src/Content/Content.tsx
@@ -1,4 +1,4 @@
-import React, { useEffect, useState } from 'react';
+import React, { useEffect, useRef, useState } from 'react';
 import WatermarkingPreview from '../WatermarkingPreview/WatermarkingPreview';
 import init from 'sia-watermarking-lib';
 import * as loadImage from './peppers.jpg';
@@ -35,9 +35,15 @@ const Content = (_: ContentProps) => {
     });
   }, []);
 
+  // A slowly read file must not replace one that was selected after it
+  const selectedFile = useRef<File>();
+
   const loadImageFromFile = (file: File) => {
+    selectedFile.current = file;
     fileToBase64(file).then(base64EncodedImage => {
-      setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      if (selectedFile.current === file) {
+        setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      }
     });
   };
 
-- 
2.43.0


From 9e9c9f621042d23c955e0c431766e268baf9a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 14/16] fix: factorial of negative whole numbers and of very
 large ones ends

---
 lib/sia/rust/utils/src/math.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sia/rust/utils/src/math.rs b/lib/sia/rust/utils/src/math.rs
index 7ced46f..96955a6 100644
--- a/lib/sia/rust/utils/src/math.rs
+++ b/lib/sia/rust/utils/src/math.rs
@@ -6,6 +6,8 @@ pub fn factorial(num: f64) -> f64 {
     }
     match num.round() as i64 {
         0 | 1 => 1.,
+        // poles of the gamma function, and values no f64 can hold
+        i64::MIN..=-1 | 171..=i64::MAX => f64::INFINITY,
         _ => factorial(num - 1.) * num,
     }
 }
-- 
2.43.0


From a1b0295c7d5fa3d2a55854525f186e054d2e0162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 15/16] fix: factorial of fractions next to whole numbers does
 not overflow

---
 lib/sia/rust/utils/src/math.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sia/rust/utils/src/math.rs b/lib/sia/rust/utils/src/math.rs
index 96955a6..37ac0f2 100644
--- a/lib/sia/rust/utils/src/math.rs
+++ b/lib/sia/rust/utils/src/math.rs
@@ -1,6 +1,8 @@
 use puruspe::gamma;
 
 pub fn factorial(num: f64) -> f64 {
+    // where 1 + num rounds to a whole number, num is as good as one (and gamma overflows for those above 21)
+    let num = if (1. + num).fract() == 0.0 { num.round() } else { num };
     if num.fract() != 0.0 {
         return gamma(1. + num);
     }
-- 
2.43.0


From 942a50360afd0f213f65de0eb55811906fe64282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:23 +0000
Subject: [PATCH 16/16] fix: keep the selected file when the file dialog is
 cancelled

---
 src/Content/Content.tsx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Content/Content.tsx b/src/Content/Content.tsx
index 303e140..2632780 100644
--- a/src/Content/Content.tsx
+++ b/src/Content/Content.tsx
@@ -38,7 +38,11 @@ const Content = (_: ContentProps) => {
   // A slowly read file must not replace one that was selected after it
   const selectedFile = useRef<File>();
 
-  const loadImageFromFile = (file: File) => {
+  const loadImageFromFile = (file?: File) => {
+    // The selection is empty when the file dialog is cancelled
+    if (!file) {
+      return;
+    }
     selectedFile.current = file;
     fileToBase64(file).then(base64EncodedImage => {
       if (selectedFile.current === file) {
-- 
2.43.0


From 06b4926e66e1c7b019cf0fceba746913971b05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 1/9] Add verification hook, compiled only with --cfg verif

---
 rust/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6757cdf..e32d38e 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #[macro_use]
 extern crate lazy_static;
 
@@ -19,6 +20,10 @@ use crate::sequences::equivalence::generate_equivalent_quad_seqs;
 use crate::sequences::{williamson::*, sequence::*, symmetries::*, equivalence::{negated, half_shift}};
 use sequences::matrix_equivalence::hadamard_equivalence_from_file;
 
+// Verification hook: only compiled with `--cfg verif`, the harness file is named by the environment variable VERIF_HARNESS
+#[cfg(verif)]
+mod verif { include!(env!("VERIF_HARNESS")); }
+
 fn find_pqs(symmetry : Option<Symmetry>){
     for i in 1..18{
         find_pqs_of_type(i, &symmetry);
@@ -333,6 +338,9 @@ fn str_to_isize(source : &str) -> isize {
 }
 
 fn main() {
+    #[cfg(verif)]
+    if verif::run() { return; }
+
     let args : Vec<String> = std::env::args().collect();
 
     if args.len() == 1 {
-- 
2.43.0


From 7d6fa8b67b05a0c4dbc065a872e587af271602ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 2/9] fix: reduce_to_equivalence_set_dif keeps one member of
 each class

Two members of one class that are both in the list removed each other, so
the class was lost. A sequence that was already removed has a representative.
---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 107f68b..fadbdd7 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -127,6 +127,9 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     
     for seq in sequences {
+        // An earlier sequence already represents this class
+        if !res.contains(seq) { continue; }
+
         let mut new_class = generate_equivalence_class_fast(seq, &symmetry_group);
         new_class.remove(seq);
 
-- 
2.43.0


From e92d7e2af4f03da97fcda8fa4035565fc3241c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 3/9] fix: canonical representatives of Williamson sequences do
 not use the shift

Shifting is not one of the equivalences of Williamson sequences. With it, the
representative returned for a symmetric quadruple could be non-symmetric.
---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index fadbdd7..7b067bb 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -193,6 +193,9 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+    } else if matches!(seqtype, SequenceType::Williamson) {
+        // Shifting is not an equivalence of Williamson sequences: it does not preserve symmetry
+        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
     } else {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
     }
-- 
2.43.0


From 8a2035776b446d82ea17028f8173a7486d45165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 4/9] fix: HM::dephased dephases the columns of the matrix it
 has dephased the rows of

---
 rust/src/sequences/matrices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index dc35232..7104669 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -357,7 +357,7 @@ impl HM {
         for inv_col in 0..self.size {
             for row in 0..self.size {
                 let col = self.size - 1 - inv_col;
-                new_mat[row][col] = self.matrix[row][0]*self.matrix[row][col];
+                new_mat[row][col] = new_mat[row][0]*new_mat[row][col];
             }
         }
 
-- 
2.43.0


From 73eecf5a6632ebf91d08389887e0758ed65417f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 5/9] fix: HM::verify sums the inner product of two rows in a
 wide integer

---
 rust/src/sequences/matrices.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index 7104669..ffcc732 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -457,9 +457,9 @@ impl HM {
                 let row2_vec = self.row(row2);
 
                 // Perform inner product
-                let mut result = 0;
+                let mut result : isize = 0;
                 for i in 0..n {
-                    result += row1_vec[i] * row2_vec[i];
+                    result += (row1_vec[i] * row2_vec[i]) as isize;
                 }
 
                 if result != 0 {
-- 
2.43.0


From 6621251d39ed59ad6a2ecc256bd70ea02cd754b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 6/9] fix: compare match keys in the order of the sorted pair
 files

The last component of a key was compared without its separator, so that 1 came
before 10 while the file has 10_ before 1_, and the join skipped matching lines.
---
 rust/src/find/find_write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 933e241..b55ae39 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -763,7 +763,8 @@ pub fn get_line_from(seq : &Option<Result<String, Error>>) -> (String, (usize, u
     let s = seq.as_ref().unwrap().as_ref().expect("Error when reading file").clone();
     let mut s_parts = s.split("_:_");
 
-    let line = s_parts.next().expect("Expected something before ':' !").to_string();
+    // The separator stays part of the key: without it, keys such as "1" and "10" would not compare in the byte order of the lines "1_:_" and "10_:_"
+    let line = s_parts.next().expect("Expected something before ':' !").to_string() + "_:_";
     let mut indices_parts = s_parts.next().expect("Expected something after ':' !").split("_");
     let indices = (indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"), indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"));
 
-- 
2.43.0


From 765fbcbd06c18250c0dda3b713a483f601fa4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 7/9] fix: keep pairs whose power spectral density meets the
 bound exactly

The bound 4n on the sum of two power spectral densities is met exactly when the
other two sequences vanish at that frequency. The transforms round, so such a
pair could be computed as exceeding the bound and be removed with its solution
(first seen for Williamson sequences of length 30).
---
 rust/src/sequences/fourier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a9d35d0..28a4579 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -6,6 +6,9 @@ use itertools::iproduct;
 use num_complex::Complex;
 use std::sync::{OnceLock, Mutex};
 
+// The transforms carry rounding errors: a value that meets a bound exactly must not count as exceeding it
+const ROUNDING_TOLERANCE : f64 = 1e-6;
+
 static R2C_PLAN : OnceLock<Mutex<R2CPlan64>> = OnceLock::new();
 static C2R_PLAN : OnceLock<Mutex<C2RPlan64>> = OnceLock::new();
 
@@ -63,7 +66,7 @@ pub fn iter_over_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + ROUNDING_TOLERANCE {return false;}
             }
             true
         })
@@ -78,7 +81,7 @@ pub fn iter_over_enumerate_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, s
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {                
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + ROUNDING_TOLERANCE {return false;}
             }
             true
         })
@@ -103,7 +106,7 @@ pub fn iter_over_enumerate_filtered_couples_psds<'a>(sequences1: &'a Vec<Vec<i8>
         let norm1: Vec<f64> = dft1.iter().map(|elm| elm.norm_sqr()).collect();
         let norm2: Vec<f64> = dft2.iter().map(|elm| elm.norm_sqr()).collect();
         
-        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound);
+        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound + ROUNDING_TOLERANCE);
 
         if bound_exceeded {
             None
-- 
2.43.0


From 3e8f3e461b8a50a86205ab624a3f974a3cd8dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 8/9] fix: write result files completely

File::write may accept only a part of what it is given and then returns Ok with
the number of bytes taken; the rest was dropped without an error, leaving a
truncated file. write_all writes everything or reports the error.
---
 rust/src/find/find_with_rowsum.rs        |  4 ++--
 rust/src/find/find_write.rs              |  8 ++++----
 rust/src/main.rs                         | 14 +++++++-------
 rust/src/sequences/matrix_equivalence.rs |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rust/src/find/find_with_rowsum.rs b/rust/src/find/find_with_rowsum.rs
index 754f541..318612c 100644
--- a/rust/src/find/find_with_rowsum.rs
+++ b/rust/src/find/find_with_rowsum.rs
@@ -84,8 +84,8 @@ pub fn find(p : usize, seqtype : SequenceType) {
                 if equations != "" {
                     let mut f = File::create(path).expect("Invalid file ?");
                     let comment = generate_comment(seq1, &tag1, seq2, &tag2, &rs);
-                    f.write(comment.as_bytes()).expect("Error when writing in the file");
-                    f.write(equations.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(comment.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(equations.as_bytes()).expect("Error when writing in the file");
                     count +=1;
                 }
 
diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index b55ae39..fc42c25 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -25,7 +25,7 @@ pub fn write_rowsums(p : usize, seqtype : SequenceType) {
 
     let s = rs.iter().map(|e| quad_to_string(*e)).fold("".to_string(), |a,b| a + &b);
 
-    f.write(s.as_bytes()).expect("Error writing file");
+    f.write_all(s.as_bytes()).expect("Error writing file");
 }
 
 
@@ -89,7 +89,7 @@ pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_pat
     let mut f = File::create(path).expect("Invalid file ?");
 
     for seq in sequences {
-        f.write((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
+        f.write_all((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -229,7 +229,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         counter += 1;
 
         if counter % 1000 == 0 {
-            f.write(buffer.as_bytes()).expect("Error when writing in the file");
+            f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
             buffer = "".to_string();
         }
 
@@ -245,7 +245,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         println!("WARNING (pair {}{}): CPSD values approximate half-integer with error as small as {}", tags.0.to_string(), tags.1.to_string(), min_half_int_difference_cpsd);
     }
     
-    f.write(buffer.as_bytes()).expect("Error when writing in the file");
+    f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
 
     counter
 }
diff --git a/rust/src/main.rs b/rust/src/main.rs
index e32d38e..6300497 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -91,7 +91,7 @@ fn find_unique_williamson_type_of_size(i : usize){
     let path = Path::new(s);
     let mut f = File::create(path).expect("Invalid file ?");
     
-    f.write(result.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
 }
 
 fn find_write_quad_seq(i : usize, seqtype : SequenceType){
@@ -122,8 +122,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
     let seq_res_string = result.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
     let qseq_res_string = result.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
 
-    f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-    f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
 
     // When doing a Williamson-type enumeration, additionally generate an enumeratation up to QT equivalences for the later Hadamard equivalence check
     if matches!(seqtype, SequenceType::WilliamsonType) {
@@ -168,8 +168,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
         let mut f_qseq = File::create(path_qseq).expect("Invalid file ?");
         let seq_res_string = qt_reduced.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
         let qseq_res_string = qt_reduced.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
-        f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-        f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -207,7 +207,7 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
                 result += &"\n";
             }
         }
-        f.write(result.as_bytes()).expect("Error when writing in the file");
+        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
@@ -238,7 +238,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
     for seq in &equ {
         let qhm = QHM::from_pqs(seq.to_qs()).dephased();
         //assert!(qhm.verify());
-        fout.write((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
+        fout.write_all((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
     }
 }
 
diff --git a/rust/src/sequences/matrix_equivalence.rs b/rust/src/sequences/matrix_equivalence.rs
index 2af4c58..a13fed4 100644
--- a/rust/src/sequences/matrix_equivalence.rs
+++ b/rust/src/sequences/matrix_equivalence.rs
@@ -118,6 +118,6 @@ pub fn hadamard_equivalence_from_file(pathname : String, seqtype : SequenceType)
         result_string += &"\n";
     }
 
-    result_file.write(result_string.as_bytes()).expect("Error when writing in the file");
+    result_file.write_all(result_string.as_bytes()).expect("Error when writing in the file");
 
 }
-- 
2.43.0


From 752b66ca595b03d3fd41a95a2a94a68300eb63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 9/9] fix: reducing an empty list of sequences gives an empty
 list

---
 rust/src/find/find_unique.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 7b067bb..ee0ce4e 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -121,6 +121,7 @@ fn find_recursive(will : &mut QuadSeq, size : usize, index : usize, sequences :
 
 // Algorithm 6
 pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() { return vec![]; }
     let mut res = HashSet::new();
     res.extend(sequences.clone().into_iter());
 
@@ -143,6 +144,7 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
 
 // Algorithm 7
 pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() { return vec![]; }
     let mut res = HashSet::new();
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     let mut count = 0;
@@ -162,6 +164,7 @@ pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceTy
 // Original algorithm
 pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
     // This function reduces a set of QTS up to the Sequence equivalence defined in our paper
+    if sequences.is_empty() { return vec![]; }
     
     let mut classes : Vec<HashSet<QuadSeq>> = vec![];
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
@@ -190,6 +193,7 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
 }
 
 pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceType) -> Vec<QuadSeq> {
+    if sequences.is_empty() { return vec![]; }
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
-- 
2.43.0


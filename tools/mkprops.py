#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below and checks.json (run after editing either)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "rust/src/sequences/"
F = "rust/src/find/"
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, **({"state": state} if state else {}),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": obs} if obs else {}), **({"hook_needed": hook} if hook else {})}})

HOOK = "cfg(verif) module in rust/src/main.rs that includes the search harness; it reaches crate-private items of main.rs"

p("C01", "Periodic correlations are exact",
  "For every ±1 sequence the periodic autocorrelation at an offset equals the sum of x[i]*x[(i+offset) mod n], and the periodic cross-correlation of two sequences of equal length at an offset in 0..n equals the sum of x[i]*y[(i-offset) mod n]. Neither overflows, whatever the length.",
  ["inputs"], "all lengths, all ±1 sequences, all offsets (autocorrelation: any offset; cross-correlation: 0..=n)",
  "the tests compare a handful of fixed sequences of small length; the statement is about every length and offset",
  [S + "williamson.rs"], [("periodic_autocorrelation", S + "williamson.rs"), ("cross_correlation", S + "williamson.rs")])

p("C02", "Validity tests decide exactly the QT / WT / W definitions",
  "A quadruple of ±1 sequences is accepted as Quaternion-type exactly if its four autocorrelations sum to zero at every nonzero offset and the three cross-correlation difference equations hold at every offset; as Williamson-type exactly if the autocorrelations cancel and all six pairs are amicable; as Williamson exactly if they cancel and all four sequences are symmetric. Every other sequence type is rejected, and so is every quadruple that misses one condition at one offset.",
  ["inputs"], "all quadruples of ±1 sequences of one length n >= 1, all sequence types",
  "accepting an invalid quadruple needs a near miss (one offset, one pair) that the fixed test sequences do not contain",
  [S + "williamson.rs"], [("verify / verify_qts / verify_wts / verify_ws", S + "williamson.rs"), ("is_periodic_complementary, is_amicable, verify_cross_correlation, is_symmetric", S + "williamson.rs")])

p("C03", "Quaternion-type quadruples are exactly the perfect quaternion sequences",
  "For every quadruple of ±1 sequences of one length, the quaternion sequence obtained from it is perfect if and only if the quadruple is Quaternion-type, and converting that quaternion sequence back yields the same quadruple. The perfection test itself answers true exactly when the periodic quaternion autocorrelation is zero at every nonzero offset.",
  ["inputs"], "all quadruples of ±1 sequences of one length n >= 1; all sequences over the 24 quaternion units",
  "the tests check known sequences of a few lengths; the correspondence is a claim about all 16^n quadruples of every n",
  [S + "williamson.rs", S + "sequence.rs"], [("QuadSeq::to_qs / from_pqs / quaternion_to_quad", S + "williamson.rs"), ("QS::is_perfect / periodic_autocorrelation", S + "sequence.rs")])

p("C04", "Text encodings of sequences round-trip",
  "Writing a ±1 sequence as a +/- string and reading it back gives the same sequence, and writing a quaternion sequence over the 24 units as a string and parsing it gives the same quaternion sequence; distinct sequences have distinct encodings. Every quaternion unit has its own one-letter code.",
  ["inputs"], "all ±1 sequences and all sequences over the 24 units, every length including 0",
  "the tests round-trip a few strings; one swapped letter in the table shows only for the sequences that contain it",
  [S + "sequence.rs", S + "rowsum.rs", F + "find_write.rs"], [("QS::from_str / to_string_raw / quaternion_to_string", S + "sequence.rs"), ("sequence_to_string", S + "rowsum.rs"), ("string_to_sequence", F + "find_write.rs")])

p("C05", "Each equivalence operation yields exactly its documented images, all valid",
  "Each equivalence operation (uniform shift, reverse, negation, double negation, alternated negation, automorphism, reorderings, disjoint swaps, negate-swap, half-shifts) returns the original quadruple and exactly the quadruples its description names - none missing, none extra. Every operation in the list of a sequence type maps valid quadruples of that type to valid quadruples of that type.",
  ["inputs"], "all quadruples of every length (automorphisms: lengths up to the size of the coprime table, 100), all sequence types",
  "tests apply the operations to a few known sequences; a missing image (one couple, one offset, one parity) leaves every tested sequence valid",
  [S + "equivalence.rs", S + "symmetries.rs"], [("equivalent_*", S + "equivalence.rs"), ("SequenceType::equivalences", S + "symmetries.rs"), ("coprime / COPRIMES", S + "equivalence.rs")])

p("C06", "Negate/swap canonical forms are equivalent to the input and constant on classes",
  "The canonical form under negate-and-swap (and under single negations and single swaps) is reachable from its input by those operations. Two quadruples related by those operations always get the same canonical form, so two inputs get equal forms exactly if they are related.",
  ["inputs"], "all quadruples of nonempty ±1 sequences of one length, and every signed permutation (384; 192 even ones) relating two of them",
  "only quadruples with ties (equal or opposite sequences) or odd sign patterns expose a wrong tie-break; tests have few of them",
  [S + "equivalence.rs"], [("ns_canonical", S + "equivalence.rs"), ("sn_ss_canonical", S + "equivalence.rs"), ("has_duplicate_seq", S + "williamson.rs")])

p("C07", "Equivalence classes are complete and reduction keeps one member per class",
  "The generated equivalence class of a quadruple is exactly the set of quadruples reachable from it by the operations of its type. Reducing a list up to equivalence returns, for every class met by the list, exactly one member of that class and nothing else; the reductions agree on the number of classes, and equivalent inputs get the same canonical representative.",
  ["inputs", "histories"], "all nonempty lists of valid quadruples of one length n (n <= 31), all three sequence types, any number of operation steps",
  "the tests reduce the results of a few lengths; losing or duplicating a class needs a class with particular stabilisers or a long chain of operations",
  [S + "equivalence.rs", F + "find_unique.rs", S + "symmetries.rs"], [("generate_equivalence_class", S + "equivalence.rs"), ("generate_canonical_representative", S + "equivalence.rs"), ("qt_canonical", S + "equivalence.rs"), ("reduce_to_canonical_reps / reduce_to_equivalence / _par / _set_dif / find_minimum", F + "find_unique.rs")], hook=HOOK)

p("C08", "The symbolic symmetry group reproduces the equivalence class",
  "For every quadruple and every list of equivalence operations, the class computed by applying the symbolic symmetry group of that length equals the class computed by closing the quadruple under the operations. This holds for every length whose 4n symbols fit the encoding (n <= 31).",
  ["inputs"], "all quadruples of ±1 sequences of length 1..31, all lists of the equivalence operations",
  "tests compare both on a few sequences; the encoding of positions and signs can fail only at particular lengths or positions",
  [S + "equivalence.rs"], [("generate_symmetry_group", S + "equivalence.rs"), ("generate_equivalence_class_fast", S + "equivalence.rs")])

p("C09", "Rowsum decompositions are complete and exact",
  "The decomposition of p into four squares lists every sorted quadruple of non-negative integers whose squares sum to p exactly once and nothing else. The rowsums generated for length n are exactly the sorted decompositions of 4n whose entries have the parity of n, plus, for Quaternion-type, the copy with the last entry negated when the four entries are nonzero and distinct.",
  ["inputs"], "all p and n (within machine range), all sequence types",
  "tests check a few values of p; the enumeration skips by early increments, so a wrong prune loses a tuple only for some p",
  [S + "rowsum.rs"], [("sum_of_four_squares / increment_squares", S + "rowsum.rs"), ("generate_rowsums", S + "rowsum.rs")])

p("C10", "All sequences with a given rowsum are generated, each once",
  "For every length and every rowsum between minus and plus the length, the generator returns exactly the ±1 sequences of that length whose entries add up to the rowsum, each exactly once; it returns none when the parities differ. The computed rowsum of a sequence is the sum of its entries.",
  ["inputs"], "all lengths, all rowsums r with |r| <= length",
  "tests count results for a few lengths",
  [S + "rowsum.rs"], [("generate_sequences_with_rowsum / gen_seq_rec", S + "rowsum.rs"), ("rowsum", S + "rowsum.rs")])

p("C11", "Searching sorted rowsums loses no equivalence class",
  "The squares of the four rowsums of every valid quadruple of length n sum to 4n. Every Quaternion-type, Williamson-type and Williamson quadruple is equivalent to one whose rowsums are among the generated rowsum tuples of its length and pass the sorted-rowsums test.",
  ["inputs"], "all valid quadruples of every length, all three sequence types",
  "a lost class shows only at lengths where that class exists, which no test enumerates",
  [S + "rowsum.rs", S + "williamson.rs"], [("generate_rowsums", S + "rowsum.rs"), ("has_sorted_rowsums / quad_contains_zero / quad_contains_dup", S + "rowsum.rs"), ("is_periodic_complementary", S + "williamson.rs")])

p("C12", "Quaternion-type quadruples give Hadamard matrices, and the matrix code is exact",
  "The ±1 matrix of order 4n built from a Quaternion-type quadruple has pairwise orthogonal rows, and its quadruple can be read back unchanged. The Hadamard test accepts a ±1 matrix exactly if its rows are pairwise orthogonal, for every order; dephasing, in place or by copy, makes the first row and first column all ones and yields the same matrix both ways.",
  ["inputs"], "all Quaternion-type quadruples of every length; all ±1 matrices of every order (dephasing: all ±1 matrices)",
  "tests build matrices for a few short sequences; an error at large order or in one block/row needs a particular size",
  [S + "matrices.rs"], [("HM::from_williamson / from_sequence / copy_block_to / get_qts", S + "matrices.rs"), ("HM::verify", S + "matrices.rs"), ("HM::dephase / dephased", S + "matrices.rs")])

p("C13", "Perfect quaternion sequences give quaternionic Hadamard matrices",
  "The circulant matrix built from a quaternion sequence has in row r the sequence shifted right by r, and it passes the quaternionic Hadamard test exactly if the sequence is perfect. Dephasing, in place or by copy, makes the first row and column all one, and the non-commuting test is true exactly if two entries outside the first row and column do not commute.",
  ["inputs"], "all sequences over the 24 quaternion units, every length",
  "tests check a few known sequences",
  [S + "matrices.rs", S + "sequence.rs"], [("QHM::from_pqs / verify / dephase / dephased / contains_non_commuting_elements", S + "matrices.rs")])

p("C14", "Joining two sorted pair files finds every valid match and only valid ones",
  "Joining two pair files sorted in byte order returns, with multiplicity, exactly the quadruples of the requested type that combine a line of the first file with a line of the second file with the same key, each sequence taken from the list and index its line names. No equal key is skipped, whatever the keys look like and however many lines share a key.",
  ["inputs"], "all pairs of byte-sorted pair files (sorted as LC_ALL=C sort does), all tag orders, all sequence types",
  "tests do not join files; skipping needs a key that is a prefix of another or a run of equal keys at the end of a file",
  [F + "find_write.rs"], [("join_pairs_files / get_line_from / get_sequences", F + "find_write.rs")])

p("C15", "Match keys of two pairs agree exactly when the pairs complement each other",
  "For every pairing of the four sequences, the key of the first pair equals the complementary key of the second exactly if, at every nonzero offset, the summed autocorrelations of the four cancel and so do the oriented cross-correlation differences of the two pairs. Keys cover the offsets up to half the length, which determine all offsets. The quadruples whose keys match for a pairing and which pass the remaining cross-correlation test are exactly the Quaternion-type ones.",
  ["inputs"], "all quadruples of ±1 sequences of one length and all ordered pairings of tags",
  "tests evaluate a few pairs; a wrong sign for one ordered pairing shows only for that pairing and asymmetric sequences",
  [S + "matching.rs"], [("MatchData, compute_auto_correlation_pair, compute_cross_correlations, compute_complementary_*", S + "matching.rs"), ("verify_cross_correlation", S + "matching.rs")])

p("C16", "The sequence order is a strict total lexicographic order",
  "The comparison of sequences is the strict lexicographic order on entries, and the comparison of quadruples is the lexicographic order on the four sequences in turn: irreflexive, transitive, and exactly one of two different quadruples of one length is less. The minimum picked from a set of quadruples is a member that no other member precedes.",
  ["inputs"], "all pairs and triples of sequences and quadruples of one length",
  "tests compare a few pairs",
  [S + "equivalence.rs", S + "williamson.rs", F + "find_unique.rs"], [("seq_less_than (two copies), will_less_than", S + "equivalence.rs"), ("find_minimum", F + "find_unique.rs")])

p("C17", "The product of perfect sequences of coprime lengths is perfect",
  "The product of two quaternion sequences of coprime lengths p and q has length pq and at index k the product of the entries at k mod p and k mod q. If both are perfect, so is the product.",
  ["inputs"], "all pairs of quaternion-unit sequences with coprime lengths",
  "tests multiply a few known pairs",
  [S + "product.rs", S + "sequence.rs"], [("sequence_product", S + "product.rs")])

p("C18", "Coprimality and the coprime table are exact",
  "Two positive integers are reported coprime exactly if their only common positive divisor is one, in either argument order. For every n from 1 to 100 the table lists exactly the numbers from 1 to n coprime to n, in increasing order and each once.",
  ["inputs"], "all pairs of machine integers not both zero; all table rows",
  "tests check a few pairs; a wrong entry affects only the lengths that use it",
  [S + "equivalence.rs"], [("coprime", S + "equivalence.rs"), ("COPRIMES", S + "equivalence.rs")])

p("C19", "The rowsum/pair/join pipeline enumerates every class of a length",
  "Running the search of a length with correlation matching (rowsums, pair files, byte-order sort, join) outputs exactly one member of every equivalence class of valid quadruples of that length and type, whichever pairing is used and however the pair files are written (all at once, rowsum by rowsum, or one half at a time), and in whatever order a directory lists its files.",
  ["inputs", "configurations"], "all lengths up to 31, three sequence types, three pairings, three ways to write the pair files, every listing order",
  "no test runs the pipeline end to end",
  [F + "find_write.rs", "rust/src/main.rs"], [("write_pairs / write_pairs_rowsum / write_pair_single_rowsum / write_seq_pairs", F + "find_write.rs"), ("join_pairs / get_sequences_from_dir / get_order_from_dir", F + "find_write.rs")], hook=HOOK)

p("C20", "PSD filtering never discards a completable pair",
  "A pair of sequences that is part of some valid quadruple is never removed by the power-spectral-density filter. The keys computed through the Fourier transform stand for the exact ones: correlation keys are equal to the integer correlations, and the PSD and cross-PSD keys of the two pairs of a valid quadruple cancel up to rounding error.",
  ["inputs"], "all lengths up to 1000 and all pairs of sequences",
  "a pair exactly at the bound is affected by rounding; tests use few pairs",
  [S + "fourier.rs", S + "matching.rs"], [("iter_over_enumerate_filtered_couples_psds", S + "fourier.rs"), ("compute_psd_pair / compute_cross_psd_pair / compute_*_dft", S + "matching.rs")])

p("C21", "Brute-force search lists every perfect quadruple once",
  "The brute-force search of a length returns exactly the quadruples of ±1 sequences of that length whose quaternion sequence is perfect, each exactly once. The table of value quadruples it draws from contains each of the 16 sign patterns once.",
  ["inputs"], "all lengths",
  "tests run one or two small lengths and compare counts",
  [F + "find_unique.rs", S + "williamson.rs"], [("find_aux / find_recursive", F + "find_unique.rs"), ("QUADRUPLETS", S + "williamson.rs")], hook=HOOK)

p("C22", "Expanding Williamson-type results covers their Quaternion-type classes",
  "Every Quaternion-type class that contains a Williamson-type quadruple equivalent to a found one is represented exactly once in the expanded Quaternion-type list.",
  ["inputs"], "all lists of Williamson-type representatives of one length n <= 31",
  "no test runs the expansion",
  ["rust/src/main.rs", S + "equivalence.rs"], [("find_write_quad_seq", "rust/src/main.rs")], hook=HOOK)

p("C23", "Result files contain every sequence found",
  "Every file the search writes contains all lines it is meant to contain, each terminated, even when the operating system accepts only part of a write.",
  ["inputs", "fault_sequences"], "all result sizes and all short-write behaviours of the file system",
  "tests write no files",
  [F + "find_write.rs", "rust/src/main.rs"], [("write_sequences / write_seq_pairs / find_write_quad_seq", F + "find_write.rs")])

p("C24", "Hadamard matrices are reduced up to equivalence correctly",
  "Two matrices are merged by the reduction up to Hadamard equivalence exactly if one arises from the other by permuting and negating rows and columns.",
  ["inputs"], "all ±1 matrices of one order",
  "tests compare one or two pairs",
  [S + "matrix_equivalence.rs"], [("reduce_to_hadamard_equivalence", S + "matrix_equivalence.rs")])

p("C25", "Matching by power spectral densities finds the same classes",
  "Running the search of a length with power-spectral-density matching outputs exactly one member of every equivalence class of valid quadruples of that length and type, as with correlation matching, whichever pairing is used and however the pair files are written.",
  ["inputs", "configurations"], "all lengths up to 31 for which no sum that is rounded to a key lies within 1e-6 of a half-integer, three sequence types, three pairings, three ways to write the pair files",
  "no test runs the pipeline end to end",
  [F + "find_write.rs", S + "matching.rs", "rust/src/main.rs"], [("write_seq_pairs (PSD)", F + "find_write.rs"), ("compute_psd_pair / compute_cross_psd_pair", S + "matching.rs")], hook=HOOK)

NA = {
 "C24": "the decision is made by canonical labelling in the graph_canon dependency, whose correctness is itself the property; an assumed contract on it would assume the conclusion",
}
LEVELNOTE = {}

cfg = json.load(open(os.path.join(V, "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
checks, na = [], []
for x in P:
    i = x["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"python3 bin/check.py {i} --tier thorough",
                       "technique": c.get("technique", "contract-based deductive verification (Verus/Z3) of functions extracted from the current source; bounded search of the real crate for a concrete failing input"),
                       "level": c["level"], "level_note": c["level_note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup",
     "hooks": {"guard": "cfg verif (RUSTFLAGS-style --cfg verif passed to rustc)",
               "enable": "VERIF_HARNESS=<file> cargo rustc --bin rust -- --cfg verif (done by bin/check.py); off by default",
               "source_commits": cfg.get("_hooks", [])},
     "checks": checks, "not_applicable": na,
     "notes": "bin/check.py decides one property; tools/vx extracts the functions from /repo on every run; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(checks), "claimed", len(na), "not applicable")

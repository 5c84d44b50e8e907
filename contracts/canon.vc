@fn sequences/williamson.rs QuadSeq::has_duplicate_seq
@spec
    ensures r == (self.a@ == self.b@ || self.a@ == self.c@ || self.a@ == self.d@ || self.b@ == self.c@ || self.b@ == self.d@ || self.c@ == self.d@),
@at fs
    broadcast use lemma_vec_eq;

@fn sequences/equivalence.rs sn_ss_canonical
@spec
    requires wfq(*seq), seq.size >= 1,
    ensures wfq(r), r@.n == seq@.n, reach(step_sn(), seq@, r@), nf_sn(r@),
@at fs
    lemma_sn_all(seq@); lemma_lex_all(seq@.n);

@fn sequences/equivalence.rs ns_canonical
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::loop_isolation(false)]
@spec
    requires wfq(*seq), seq.size >= 1,
    ensures wfq(r), r@.n == seq@.n, reach(step_ns(), seq@, r@), nf_ns(r@),
@at fs
    lemma_par_all(seq@); lemma_lex_all(seq@.n);
@loop 0
    invariant par(seq@, false, canonical@), wfq(canonical), canonical@.n == seq@.n, wfq(*seq), seq.size >= 1,
    ensures canonical.a@[0] == -1, canonical.b@[0] == -1, canonical.c@[0] == -1, canonical.d@[0] == -1,
    decreases pos1(canonical@),
@at L0s
    lemma_par_all(seq@);
@at fe
    let c = canonical@; let w = SequenceTag::W; let x = SequenceTag::X; let y = SequenceTag::Y; let z = SequenceTag::Z;
    assert(c.a == c.b ==> swapq(c, w, x) == c); assert(c.a == c.c ==> swapq(c, w, y) == c); assert(c.a == c.d ==> swapq(c, w, z) == c);
    assert(c.b == c.c ==> swapq(c, x, y) == c); assert(c.b == c.d ==> swapq(c, x, z) == c); assert(c.c == c.d ==> swapq(c, y, z) == c);

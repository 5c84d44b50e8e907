@fn sequences/sequence.rs Q0
@spec
    ensures flat(r), hv(r) == h0(), r == hq(h0()),
@fn sequences/sequence.rs Q1
@spec
    ensures flat(r), hv(r) == hh(2, 0, 0, 0),
@fn sequences/sequence.rs QI
@spec
    ensures flat(r), hv(r) == hh(0, 2, 0, 0),
@fn sequences/sequence.rs QJ
@spec
    ensures flat(r), hv(r) == hh(0, 0, 2, 0),
@fn sequences/sequence.rs QK
@spec
    ensures flat(r), hv(r) == hh(0, 0, 0, 2),
@fn sequences/sequence.rs QQ
@spec
    ensures flat(r), hv(r) == hh(1, 1, 1, 1),
@fn sequences/sequence.rs QS
@spec
    ensures flat(r), hv(r) == hh(1, -1, -1, -1),
@fn sequences/sequence.rs QPLUS
@spec
    ensures unit_table(r@, 16),
@at fs
    lemma_products(8);
@fn sequences/sequence.rs Q24
@spec
    ensures unit_table(r@, 24),
@at fs
    lemma_products(8); lemma_products(16);
@subst \bQS\b => vx_init_QS()

@fn sequences/sequence.rs QS::new
@spec
    ensures r.size == size, r.values@ == Seq::new(size as nat, |i: int| hq(h1())), r.symmetry == symmetry, size <= maxq() && symmetry is None ==> wfqs(r),
@at fe
    assert(vx_ret.values@ =~= Seq::new(size as nat, |i: int| hq(h1())));

@fn sequences/sequence.rs QS::set_value
@spec
    requires old(self).symmetry is None, index < old(self).values@.len(),
    ensures final(self).values@ == old(self).values@.update(index as int, value), final(self).size == old(self).size, final(self).symmetry is None,

@fn sequences/sequence.rs QS::set_values
@spec
    ensures final(self).values@ == values@, final(self).size == old(self).size, final(self).symmetry == old(self).symmetry,

@fn sequences/sequence.rs QS::size
@spec
    ensures r == self.size,
@fn sequences/sequence.rs QS::values
@spec
    ensures r@ == self.values@,
@fn sequences/sequence.rs QS::search_size
@spec
    requires self.size < usize::MAX,
    ensures r == (if self.symmetry is None { self.size as int } else { (self.size + 1) / 2 }),

@fn sequences/sequence.rs QS::periodic_autocorrelation
@spec
    requires wfqs(*self), t <= 2 * maxq(),
    ensures flat(r), hv(r) == qac(self.values@, t as int), r == hq(qac(self.values@, t as int)),
@at fs
    lemma_hsum0(qterm(self.values@, t as int));
@loop 0
    invariant flat(sum_res), hv(sum_res) == hsum(qterm(self.values@, t as int), i as int), hbd(hv(sum_res), 2 * i),
@at L0s
    lemma_qac_step(self.values@, t as int, i as int, sum_res);

@fn sequences/sequence.rs QS::is_perfect
@spec
    requires wfqs(*self), self.size >= 1,
    ensures r == perfect(self.values@),
@at fs
    lemma_hq(hq(h0()));
@loop 0
    invariant forall|u: int| 1 <= u < t && u < self.size ==> #[trigger] zero_at(self.values@, u),
@at L0s
    assert(zero_at(self.values@, t as int) == (hq(qac(self.values@, t as int)) == hq(h0()))) by { lemma_hq(hq(qac(self.values@, t as int))); }
@at fe
    lemma_half_enough(self.values@);

@fn sequences/williamson.rs QUADRUPLETS
@spec
    ensures quad_table(r@),

@fn sequences/williamson.rs quaternion_to_quad
@spec
    requires plus(*quat),
    ensures quad_is(r, hv(*quat)),
@at fs
!raw let vx_quads = vx_init_QUADRUPLETS(); let vx_units = vx_Q24(); proof { lemma_unit_table(vx_units@, 24); lemma_hq(*quat); lemma_unit_no(hv(*quat)); }
@subst \bQUADRUPLETS\[ => vx_quads[
@subst \bQ24\.iter => vx_units.iter
@loop 0
    invariant
        it0.seq().len() == 24, forall|j: int| 0 <= j < 24 ==> *#[trigger] it0.seq()[j] == vx_units@[j], vx_n1_1 == it0.index@,
        it0.index@ <= unit_no(hv(*quat)) ==> vx_out1.is_none(),
        it0.index@ > unit_no(hv(*quat)) ==> vx_out1 == Some((unit_no(hv(*quat)) as usize, &vx_units@[unit_no(hv(*quat))])),
@at L0s
    lemma_hq(vx_units@[it0.index@]);
    if q24h(it0.index@) == hv(*quat) { lemma_q24h_inj(it0.index@, unit_no(hv(*quat))); }

@fn sequences/williamson.rs QuadSeq::to_qs
@spec
    requires wfq(*self), self.size <= maxq(),
    ensures r.size == self.size, wfqs(r), qs_of(self@, r.values@), allplus(r.values@), self.size >= 1 ==> (perfect(r.values@) <==> is_qts(self@)),
@loop 0
    invariant qs.size == self.size, qs.values@.len() == self.size, qs.symmetry is None, wfq(*self),
        forall|m: int| 0 <= m < i ==> entry_of(self@, #[trigger] qs.values@[m], m),
@at L0s
!raw let vx_units = vx_QPLUS(); let ghost before = qs.values@; proof { lemma_unit_table(vx_units@, 16); assert(pm4(self.a@[i as int], self.b@[i as int], self.c@[i as int], self.d@[i as int])); }
@subst \bQPLUS\[ => vx_units[
@at L0e
    assert(forall|m: int| 0 <= m < i ==> qs.values@[m] == before[m]);
    assert(entry_of(self@, qs.values@[i as int], i as int));
@at fe
    lemma_qs_of_units(self@, vx_ret.values@);
    if self.size >= 1 { lemma_perfect_iff_qts(self@, vx_ret.values@); }

@fn sequences/williamson.rs QuadSeq::from_pqs
@spec
    requires wfqs(*pqs), allplus(pqs.values@),
    ensures wfq(r), r@.n == pqs.size, qs_of(r@, pqs.values@), forall|q: QV| wfv(q) && #[trigger] qs_of(q, pqs.values@) ==> r@ == q, pqs.size >= 1 ==> (perfect(pqs.values@) <==> is_qts(r@)),
@loop 0
    invariant
        it0.seq().len() == pqs.size, forall|j: int| 0 <= j < pqs.size ==> *#[trigger] it0.seq()[j] == pqs.values@[j],
        seqw@.len() == it0.index@, seqx@.len() == it0.index@, seqy@.len() == it0.index@, seqz@.len() == it0.index@, qts.size == pqs.size,
        forall|m: int| 0 <= m < it0.index@ ==> quad_is((#[trigger] seqw@[m], seqx@[m], seqy@[m], seqz@[m]), hv(pqs.values@[m])),
@at L0s
    assert(plus(pqs.values@[it0.index@]));
@at fe
    assert(pm(vx_ret.a@) && pm(vx_ret.b@) && pm(vx_ret.c@) && pm(vx_ret.d@)) by {
        assert forall|m: int| 0 <= m < pqs.size implies pm1(#[trigger] vx_ret.a@[m]) && pm1(vx_ret.b@[m]) && pm1(vx_ret.c@[m]) && pm1(vx_ret.d@[m]) by { assert(quad_is((seqw@[m], seqx@[m], seqy@[m], seqz@[m]), hv(pqs.values@[m]))); }
        assert forall|m: int| 0 <= m < pqs.size implies pm1(#[trigger] vx_ret.b@[m]) by { assert(pm1(vx_ret.a@[m])); }
        assert forall|m: int| 0 <= m < pqs.size implies pm1(#[trigger] vx_ret.c@[m]) by { assert(pm1(vx_ret.a@[m])); }
        assert forall|m: int| 0 <= m < pqs.size implies pm1(#[trigger] vx_ret.d@[m]) by { assert(pm1(vx_ret.a@[m])); }
    }
    assert forall|m: int| 0 <= m < pqs.size implies entry_of(vx_ret@, #[trigger] pqs.values@[m], m) by { assert(isu(pqs.values@[m])); assert(quad_is((vx_ret.a@[m], vx_ret.b@[m], vx_ret.c@[m], vx_ret.d@[m]), hv(pqs.values@[m]))); }
    assert forall|q: QV| wfv(q) && #[trigger] qs_of(q, pqs.values@) implies vx_ret@ == q by { lemma_qs_of_inj(vx_ret@, q, pqs.values@); }
    if pqs.size >= 1 { lemma_perfect_iff_qts(vx_ret@, pqs.values@); }

@fn sequences/williamson.rs periodic_autocorrelation
@spec
    requires pm(seq@), seq@.len() <= maxn(), offset <= maxn(),
    ensures r == auto(seq@, offset as int), -seq@.len() <= r <= seq@.len(),
@loop 0
    invariant res == sum(auto_f(seq@, offset as int), i as int), -i <= res <= i,
@at L0s
    lemma_auto_f(seq@, offset as int, i as int);
    lemma_pm_mul(seq@[i as int], seq@[(i + offset) % (n as int)]);

@fn sequences/williamson.rs cross_correlation
@spec
    requires pm(seq1@), pm(seq2@), seq1@.len() == seq2@.len(), seq1@.len() <= maxn(), offset <= seq1@.len(),
    ensures r == cross(seq1@, seq2@, offset as int), -seq1@.len() <= r <= seq1@.len(),
@loop 0
    invariant res == sum(cross_f(seq1@, seq2@, offset as int), i as int), -i <= res <= i,
@at L0s
    lemma_mod_cong(i + n - offset, i - offset, 1, n as int);
    lemma_pm_mul(seq1@[i as int], seq2@[(i + n - offset) % (n as int)]);

@fn sequences/williamson.rs QuadSeq::new
@spec
    ensures r.size == size, r.a@ == Seq::new(size as nat, |i: int| -1i8), r.b@ == Seq::new(size as nat, |i: int| -1i8), r.c@ == Seq::new(size as nat, |i: int| -1i8), r.d@ == Seq::new(size as nat, |i: int| -1i8), size <= maxn() ==> wfq(r),
@at fe
    assert(vx_ret.a@ =~= Seq::new(size as nat, |i: int| -1i8));
    assert(vx_ret.b@ =~= Seq::new(size as nat, |i: int| -1i8));
    assert(vx_ret.c@ =~= Seq::new(size as nat, |i: int| -1i8));
    assert(vx_ret.d@ =~= Seq::new(size as nat, |i: int| -1i8));

@fn sequences/williamson.rs QuadSeq::search_size
@spec
    ensures r == self.size,
@fn sequences/williamson.rs QuadSeq::size
@spec
    ensures r == self.size,
@fn sequences/williamson.rs QuadSeq::sequence
@spec
    ensures r@ == get(self@, seqtag),
@fn sequences/williamson.rs QuadSeq::sequences
@spec
    ensures r.0@ == self.a@, r.1@ == self.b@, r.2@ == self.c@, r.3@ == self.d@,
@fn sequences/williamson.rs QuadSeq::values
@spec
    requires index < self.a@.len(), index < self.b@.len(), index < self.c@.len(), index < self.d@.len(),
    ensures r == (self.a@[index as int], self.b@[index as int], self.c@[index as int], self.d@[index as int]),
@fn sequences/williamson.rs QuadSeq::set_all_values
@spec
    ensures final(self)@ == (QV { n: old(self).size as int, a: values.0@, b: values.1@, c: values.2@, d: values.3@ }),
@fn sequences/williamson.rs QuadSeq::set_sequence
@spec
    ensures final(self)@ == set(old(self)@, *tag, seq@),
@fn sequences/williamson.rs QuadSeq::set_single_value
@spec
    requires index < get(old(self)@, *tag).len(),
    ensures final(self)@ == set(old(self)@, *tag, get(old(self)@, *tag).update(index as int, value)),
@fn sequences/williamson.rs QuadSeq::set_sequence_value
@spec
    requires index < old(self).a@.len(), index < old(self).b@.len(), index < old(self).c@.len(), index < old(self).d@.len(),
    ensures final(self)@ == (QV { n: old(self).size as int, a: old(self).a@.update(index as int, value.0), b: old(self).b@.update(index as int, value.1), c: old(self).c@.update(index as int, value.2), d: old(self).d@.update(index as int, value.3) }),

@fn sequences/williamson.rs QuadSeq::verify
@spec
    requires wfq(*self), self.size >= 1,
    ensures r == is_type(self@, seqtype),
@fn sequences/williamson.rs QuadSeq::verify_qts
@spec
    requires wfq(*self), self.size >= 1,
    ensures r == is_qts(self@),
@fn sequences/williamson.rs QuadSeq::verify_wts
@spec
    requires wfq(*self), self.size >= 1,
    ensures r == is_wts(self@),
@fn sequences/williamson.rs QuadSeq::verify_ws
@spec
    requires wfq(*self), self.size >= 1,
    ensures r == is_ws(self@),

@fn sequences/williamson.rs QuadSeq::is_periodic_complementary
@spec
    requires wfq(*self), self.size >= 1,
    ensures r == complementary(self@),
@loop 0
    invariant forall|t: int| 1 <= t < offset ==> #[trigger] compl_at(self@, t),
@at L0s
    assert(complementary(self@) ==> compl_at(self@, offset as int));
@at L0a
    assert forall|t: int| 1 <= t < self@.n implies #[trigger] compl_at(self@, t) by { lemma_compl_half(self@, t); }

@fn sequences/williamson.rs QuadSeq::is_amicable
@spec
    requires wfq(*self),
    ensures r == amicable(self@),
@loop 0
    invariant forall|t: int| 0 <= t < offset ==> #[trigger] amic_at(self@, t),
@at L0s
    assert(amicable(self@) ==> amic_at(self@, offset as int));
@at L0b
    lemma_qcross0(self@);
@at L0a
    assert forall|t: int| 0 <= t < self@.n implies #[trigger] amic_at(self@, t) by { lemma_qcross0(self@); lemma_amic_half(self@, t); }

@fn sequences/williamson.rs QuadSeq::verify_cross_correlation
@spec
    requires wfq(*self),
    ensures r == qcross(self@),
@loop 0
    invariant forall|t: int| 0 <= t < offset ==> #[trigger] qcross_at(self@, t),
@at L0s
    assert(qcross(self@) ==> qcross_at(self@, offset as int));
@at L0b
    lemma_qcross0(self@);
@at L0a
    assert forall|t: int| 0 <= t < self@.n implies #[trigger] qcross_at(self@, t) by { lemma_qcross0(self@); lemma_qcross_half(self@, t); }

@fn sequences/williamson.rs QuadSeq::is_symmetric
@spec
    requires wfq(*self),
    ensures r == symmetric(self@),
@loop 0
    invariant forall|j: int| 1 <= j < t ==> #[trigger] sym_at(self@, j),
@at L0s
    assert(symmetric(self@) ==> sym_at(self@, t as int));
@at L0a
    assert forall|j: int| 1 <= j < n implies #[trigger] sym_at(self@, j) by {
        if j > n / 2 { let k = n - j; assert(1 <= k <= n / 2); assert(sym_at(self@, k)); }
    }
    assert forall|j: int| 1 <= j < n implies #[trigger] self@.a[j] == self@.a[n - j] by { assert(sym_at(self@, j)); }
    assert forall|j: int| 1 <= j < n implies #[trigger] self@.b[j] == self@.b[n - j] by { assert(sym_at(self@, j)); }
    assert forall|j: int| 1 <= j < n implies #[trigger] self@.c[j] == self@.c[n - j] by { assert(sym_at(self@, j)); }
    assert forall|j: int| 1 <= j < n implies #[trigger] self@.d[j] == self@.d[n - j] by { assert(sym_at(self@, j)); }

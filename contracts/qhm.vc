@fn sequences/matrices.rs QHM::new
@spec
    requires size <= maxq(),
    ensures wfqm(r), r.size == size, forall|i: int, j: int| 0 <= i < size && 0 <= j < size ==> #[trigger] qent(r, i, j) == hq(h1()),

@fn sequences/matrices.rs QHM::get
@spec
    requires wfqm(*self), i < self.size, j < self.size,
    ensures r == qent(*self, i as int, j as int),

@fn sequences/matrices.rs QHM::row
@spec
    requires wfqm(*self), row < self.size,
    ensures r@ == self.matrix@[row as int]@,
@at fe
    assert(vx_ret@ =~= self.matrix@[row as int]@);

@fn sequences/matrices.rs QHM::col
@spec
    requires wfqm(*self), col < self.size,
    ensures r@.len() == self.size, forall|i: int| 0 <= i < self.size ==> #[trigger] r@[i] == qent(*self, i, col as int),
@loop 0
    invariant col_vec@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] col_vec@[k] == qent(*self, k, col as int),

@fn sequences/matrices.rs QHM::size
@spec
    ensures r == self.size,

@fn sequences/matrices.rs QHM::from_pqs
@spec
    requires wfqs(pqs),
    ensures is_qcirc(r, pqs.values@), unitm(r), is_qhm(r) <==> perfect(pqs.values@),
@loop 0
    invariant circ_rows(matrix@, row as int, pqs.values@),
@loop 1
    invariant row_vec@.len() == col, forall|j: int| 0 <= j < col ==> #[trigger] row_vec@[j] == pqs.values@[(j - row) % (size as int)],
@at L1s
    lemma_mod_cong(col + size - row, col - row, 1, size as int); lemma_mod_range(col + size - row, size as int);
@at fe
    assert forall|i: int, j: int| 0 <= i < size && 0 <= j < size implies #[trigger] qent(vx_ret, i, j) == pqs.values@[(j - i) % (size as int)] by { assert(vx_ret.matrix@[i]@[j] == pqs.values@[(j - i) % (size as int)]); }
    assert forall|i: int, j: int| 0 <= i < size && 0 <= j < size implies isu(#[trigger] qent(vx_ret, i, j)) by { lemma_mod_range(j - i, size as int); assert(isu(pqs.values@[(j - i) % (size as int)])); }
    lemma_qhm_iff_perfect(vx_ret, pqs.values@);

@fn sequences/matrices.rs QHM::dephase
@spec
    requires wfqm(*old(self)), unitm(*old(self)),
    ensures is_dephased_q(*old(self), *final(self)),
@at fs
!raw let ghost m = *self;
@loop 0
    invariant wfqm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] qent(*self, i, j) == if j < col { dc(m, i, j) } else { qent(m, i, j) },
@loop 1
    invariant wfqm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] qent(*self, i, j) == if j < col || (j == col && i >= m.size - inv_row) { dc(m, i, j) } else { qent(m, i, j) },
@at L1s
!raw let ghost s1 = *self; proof {
    assert(qent(*self, 0, col as int) == qent(m, 0, col as int)); assert(qent(*self, m.size - 1 - inv_row, col as int) == qent(m, m.size - 1 - inv_row, col as int)); lemma_dc(m, m.size - 1 - inv_row, col as int); }
@at L1e
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size && !(i == m.size - 1 - inv_row && j == col) implies #[trigger] qent(*self, i, j) == qent(s1, i, j) by { }
@loop 2
    invariant wfqm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] qent(*self, i, j) == if i < row { dr(m, i, j) } else { dc(m, i, j) },
@loop 3
    invariant wfqm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] qent(*self, i, j) == if i < row || (i == row && j >= m.size - inv_col) { dr(m, i, j) } else { dc(m, i, j) },
@at L3s
!raw let ghost s3 = *self; proof {
    assert(qent(*self, row as int, 0) == dc(m, row as int, 0)); assert(qent(*self, row as int, m.size - 1 - inv_col) == dc(m, row as int, m.size - 1 - inv_col)); lemma_dr(m, row as int, m.size - 1 - inv_col); }
@at L3e
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size && !(i == row && j == m.size - 1 - inv_col) implies #[trigger] qent(*self, i, j) == qent(s3, i, j) by { }
@at fe
    lemma_dephased(m, *self);

@fn sequences/matrices.rs QHM::dephased
@spec
    requires wfqm(*self), unitm(*self),
    ensures is_dephased_q(*self, r),
@at fs
!raw let ghost m = *self;
@loop 0
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < col ==> #[trigger] new_mat@[i]@[j] == dc(m, i, j),
@loop 1
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size && (j < col || (j == col && i >= m.size - inv_row)) ==> #[trigger] new_mat@[i]@[j] == dc(m, i, j),
@at L1s
    lemma_dc(m, m.size - 1 - inv_row, col as int);
@loop 2
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] new_mat@[i]@[j] == if i < row { dr(m, i, j) } else { dc(m, i, j) },
@loop 3
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] new_mat@[i]@[j] == if i < row || (i == row && j >= m.size - inv_col) { dr(m, i, j) } else { dc(m, i, j) },
@at L3s
    assert(new_mat@[row as int]@[0] == dc(m, row as int, 0)); assert(new_mat@[row as int]@[m.size - 1 - inv_col] == dc(m, row as int, m.size - 1 - inv_col)); lemma_dr(m, row as int, m.size - 1 - inv_col);
@at fe
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size implies #[trigger] qent(vx_ret, i, j) == dr(m, i, j) by { assert(vx_ret.matrix@[i]@[j] == dr(m, i, j)); }
    lemma_dephased(m, vx_ret);

@fn sequences/matrices.rs QHM::contains_non_commuting_elements
@spec
    requires wfqm(*self), unitm(*self),
    ensures r == has_noncommuting(*self),
@at fs
    lemma_uniq_start(*self);
@at L0b
    assert(unique_elements@ =~= Seq::<Quaternion>::empty()); assert(uniq_all(*self, Seq::<Quaternion>::empty(), 1, 1)); assert(uniq_all(*self, unique_elements@, 1, 1));
@subst (\w+)\.contains\(&(\w+)\) => vx_qcontains(&\1, &\2)
@loop 0
    invariant uniq_of(*self, unique_elements@), uniq_commute(unique_elements@), uniq_all(*self, unique_elements@, i as int, 1),
@loop 1
    invariant uniq_of(*self, unique_elements@), uniq_commute(unique_elements@), uniq_all(*self, unique_elements@, i as int, j as int),
@at L1s
!raw let ghost before = unique_elements@; proof { assert(isu(qent(*self, i as int, j as int))); }
@loop 2
    invariant unique_elements@ == before, it2.seq().len() == before.len(), forall|k: int| 0 <= k < before.len() ==> *#[trigger] it2.seq()[k] == before[k],
        forall|k: int| 0 <= k < it2.index@ ==> commutes(new, #[trigger] before[k]),
@at L2s
    lemma_uniq_entry(*self, before, it2.index@);
    lemma_hq(hq(hmul(hv(new), hv(before[it2.index@])))); lemma_hq(hq(hmul(hv(before[it2.index@]), hv(new))));
    if !commutes(new, before[it2.index@]) { lemma_noncommuting(*self, before, it2.index@, i as int, j as int); }
@at L1e
    lemma_uniq_step(*self, before, unique_elements@, i as int, j as int);
@at L0e
    lemma_uniq_row(*self, unique_elements@, i as int);
@at fe
    lemma_uniq_end(*self, unique_elements@);

@fn sequences/matrices.rs QHM::verify
@spec
    requires wfqm(*self), unitm(*self),
    ensures r == is_qhm(*self),
@loop 0
    invariant forall|a: int, b: int| 0 <= a < row1 && 0 <= b < n ==> #[trigger] inner_ok(*self, a, b),
@loop 1
    invariant forall|b: int| 0 <= b < row2 ==> #[trigger] inner_ok(*self, row1 as int, b),
@loop 2
    invariant flat(result), hv(result) == hsum(inner_f(*self, row1 as int, row2 as int), i as int), hbd(hv(result), 2 * i),
@at L2b
    lemma_hsum0(inner_f(*self, row1 as int, row2 as int));
@at L2s
    assert(row1_vec@[i as int] == qent(*self, row1 as int, i as int) && row2_vec@[i as int] == qent(*self, row2 as int, i as int));
    lemma_inner_step(*self, row1 as int, row2 as int, i as int, result);
@at L2a
    assert(inner_ok(*self, row1 as int, row2 as int) == (hv(result) == (if row1 == row2 { hh(2 * n, 0, 0, 0) } else { h0() })));
@at L1e
    assert(inner_ok(*self, row1 as int, row2 as int));

@fn sequences/matrices.rs HM::new
@spec
    requires size <= 4 * maxn(),
    ensures wfm(r), r.size == size, forall|i: int, j: int| 0 <= i < size && 0 <= j < size ==> #[trigger] ent(r, i, j) == 1,

@fn sequences/matrices.rs HM::get
@spec
    requires wfm(*self), i < self.size, j < self.size,
    ensures r == ent(*self, i as int, j as int), r == self.matrix@[i as int]@[j as int],

@fn sequences/matrices.rs HM::size
@spec
    ensures r == self.size,

@fn sequences/matrices.rs HM::set_value
@spec
    requires wfm(*old(self)), row < old(self).size, col < old(self).size,
    ensures wfm(*final(self)), final(self).size == old(self).size,
        forall|i: int, j: int| 0 <= i < old(self).size && 0 <= j < old(self).size ==> #[trigger] ent(*final(self), i, j) == if i == row && j == col { value as int } else { ent(*old(self), i, j) },

@fn sequences/matrices.rs HM::row
@spec
    requires wfm(*self), row < self.size,
    ensures r@ == self.matrix@[row as int]@,

@fn sequences/matrices.rs HM::get_with_op_mat
@spec
    requires wfm(*self), row < self.size, col < self.size, pmm(*self),
    ensures r == op_val(*opmat, *self, row as int, col as int),
@at fs
    assert(is1(ent(*self, row as int, col as int))); assert(is1(ent(*self, col as int, row as int)));

@fn sequences/matrices.rs HM::from_sequence
@spec
    requires seq@.len() <= maxn(),
    ensures is_circ(r, seq@), pm(seq@) ==> pmm(r),
@at fs
    let n = seq@.len() as int;
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n implies (#[trigger] ((j - i) % n) == k <==> #[trigger] ((i + k) % n) == j) by {
        lemma_mod_range(j - i, n); lemma_mod_range(i + k, n);
        lemma_mod_add_l(j - i, i, n); lemma_mod_add_l(i + k, -i, n); lemma_mod_range(j, n); lemma_mod_range(k, n);
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies 0 <= #[trigger] ((j - i) % n) < n by { lemma_mod_range(j - i, n); }
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies 0 <= #[trigger] ((i + k) % n) < n by { lemma_mod_range(i + k, n); }
    assert forall|s: Seq<i8>, i: int, j: int| #![trigger circ(s, i, j)] pm(s) && s.len() >= 1 implies is1(circ(s, i, j)) by { lemma_mod_range(j - i, s.len() as int); assert(s[(j - i) % (s.len() as int)] == 1 || s[(j - i) % (s.len() as int)] == -1); }
@loop 0
    invariant wfm(hm), hm.size == size, forall|i: int, j: int| 0 <= i < size && 0 <= j < size && (j - i) % (size as int) < index ==> #[trigger] ent(hm, i, j) == circ(seq@, i, j),
@loop 1
    invariant wfm(hm), hm.size == size, forall|a: int, j: int| 0 <= a < size && 0 <= j < size && ((j - a) % (size as int) < index || ((j - a) % (size as int) == index && a < i)) ==> #[trigger] ent(hm, a, j) == circ(seq@, a, j),

@fn sequences/matrices.rs HM::copy_block_to
@spec
    requires wfm(*old(self)), wfm(*block), pmm(*block), row_offset + block.size <= old(self).size, col_offset + block.size <= old(self).size,
    ensures wfm(*final(self)), final(self).size == old(self).size, copied(*old(self), *final(self), *block, row_offset as int, col_offset as int, *opmat),
        forall|r: int, c: int, s: Seq<i8>, g: int| #[trigger] blk(*old(self), r, c, s, g) && apart(row_offset as int, col_offset as int, block.size as int, r, c, s.len() as int) && 0 <= r && 0 <= c && r + s.len() <= old(self).size && c + s.len() <= old(self).size ==> blk(*final(self), r, c, s, g),
        forall|s: Seq<i8>| #[trigger] is_circ(*block, s) && op_sign(*opmat) != 0 ==> blk(*final(self), row_offset as int, col_offset as int, s, op_sign(*opmat)),
@at fs
!raw let ghost m0 = *self;
@loop 0
    invariant wfm(*self), self.size == m0.size,
        forall|i: int, j: int| 0 <= i < m0.size && 0 <= j < m0.size && !(inb(*block, row_offset as int, col_offset as int, i, j) && i < row_offset + row) ==> #[trigger] ent(*self, i, j) == ent(m0, i, j),
        forall|i: int, j: int| 0 <= i < m0.size && 0 <= j < m0.size && inb(*block, row_offset as int, col_offset as int, i, j) && i < row_offset + row ==> #[trigger] ent(*self, i, j) == op_val(*opmat, *block, i - row_offset, j - col_offset),
@loop 1
    invariant wfm(*self), self.size == m0.size,
        forall|i: int, j: int| 0 <= i < m0.size && 0 <= j < m0.size && !(inb(*block, row_offset as int, col_offset as int, i, j) && (i < row_offset + row || (i == row_offset + row && j < col_offset + col))) ==> #[trigger] ent(*self, i, j) == ent(m0, i, j),
        forall|i: int, j: int| 0 <= i < m0.size && 0 <= j < m0.size && inb(*block, row_offset as int, col_offset as int, i, j) && (i < row_offset + row || (i == row_offset + row && j < col_offset + col)) ==> #[trigger] ent(*self, i, j) == op_val(*opmat, *block, i - row_offset, j - col_offset),
@at L1s
!raw let ghost s1 = *self;
@at L1e
    assert forall|i: int, j: int| 0 <= i < m0.size && 0 <= j < m0.size && !(i == row_offset + row && j == col_offset + col) implies #[trigger] ent(*self, i, j) == ent(s1, i, j) by { }
@at fe
    assert(copied(m0, *self, *block, row_offset as int, col_offset as int, *opmat)) by { reveal(copied); }
    lemma_copied(m0, *self, *block, row_offset as int, col_offset as int, *opmat);

@fn sequences/matrices.rs HM::from_williamson
@spec
    requires wfq(*will), seqtype is QuaternionType, will.size >= 1,
    ensures built(r, will@), is_qts(will@) ==> pmm(r) && orthogonal_rows(r),
        col0(r, 0) == will@.a, col0(r, will@.n) == will@.b, col0(r, 2 * will@.n) == will@.c, col0(r, 3 * will@.n) == will@.d,
@at fe
    let n = will@.n;
    let q = will@;
    assert(blk(vx_ret, 0, 0, q.a, 1)); assert(blk(vx_ret, n, 0, q.b, 1)); assert(blk(vx_ret, 2 * n, 0, q.c, 1)); assert(blk(vx_ret, 3 * n, 0, q.d, 1));
    assert(blk(vx_ret, 0, n, q.b, 1)); assert(blk(vx_ret, n, n, q.a, -1)); assert(blk(vx_ret, 2 * n, n, q.d, 1)); assert(blk(vx_ret, 3 * n, n, q.c, -1));
    assert(blk(vx_ret, 0, 2 * n, q.c, 1)); assert(blk(vx_ret, n, 2 * n, q.d, -1)); assert(blk(vx_ret, 2 * n, 2 * n, q.a, -1)); assert(blk(vx_ret, 3 * n, 2 * n, q.b, 1));
    assert(blk(vx_ret, 0, 3 * n, q.d, 1)); assert(blk(vx_ret, n, 3 * n, q.c, 1)); assert(blk(vx_ret, 2 * n, 3 * n, q.b, -1)); assert(blk(vx_ret, 3 * n, 3 * n, q.a, -1));
    lemma_readback(vx_ret, q);
    if is_qts(q) { lemma_hadamard(vx_ret, q); }

@fn sequences/matrices.rs HM::get_qts
@spec
    requires wfm(*self), self.size % 4 == 0,
    ensures r@ == (QV { n: self.size as int / 4, a: col0(*self, 0), b: col0(*self, self.size as int / 4), c: col0(*self, 2 * (self.size as int / 4)), d: col0(*self, 3 * (self.size as int / 4)) }),
@loop 0
    invariant wfm(*self), 4 * len == self.size, vx_out1@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] vx_out1@[j] == self.matrix@[0]@[j],
@at L0a
    assert(vx_out1@ =~= col0(*self, 0));
@loop 1
    invariant wfm(*self), 4 * len == self.size, vx_out2@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] vx_out2@[j] == self.matrix@[len as int]@[j],
@at L1a
    assert(vx_out2@ =~= col0(*self, len as int));
@loop 2
    invariant wfm(*self), 4 * len == self.size, vx_out3@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] vx_out3@[j] == self.matrix@[2 * len]@[j],
@at L2a
    assert(vx_out3@ =~= col0(*self, 2 * len));
@loop 3
    invariant wfm(*self), 4 * len == self.size, vx_out4@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] vx_out4@[j] == self.matrix@[3 * len]@[j],
@at L3a
    assert(vx_out4@ =~= col0(*self, 3 * len));

@fn sequences/matrices.rs HM::dephase
@spec
    requires wfm(*old(self)), pmm(*old(self)),
    ensures is_dephased(*old(self), *final(self)),
@at fs
!raw let ghost m = *self; proof { lemma_rv(m); }
@loop 0
    invariant wfm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] ent(*self, i, j) == if i >= m.size - inv_row { rv(m, i, j) } else { ent(m, i, j) },
@loop 1
    invariant wfm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] ent(*self, i, j) == if i >= m.size - inv_row || (i == m.size - 1 - inv_row && j < col) { rv(m, i, j) } else { ent(m, i, j) },
@at L1s
!raw let ghost s1 = *self;
    assert(ent(*self, 0, col as int) == ent(m, 0, col as int)); assert(ent(*self, m.size - 1 - inv_row, col as int) == ent(m, m.size - 1 - inv_row, col as int)); assert(is1(rv(m, m.size - 1 - inv_row, col as int)));
@loop 2
    invariant wfm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] ent(*self, i, j) == if j >= m.size - inv_col { cv(m, i, j) } else { rv(m, i, j) },
@loop 3
    invariant wfm(*self), self.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] ent(*self, i, j) == if j >= m.size - inv_col || (j == m.size - 1 - inv_col && i < row) { cv(m, i, j) } else { rv(m, i, j) },
@at L1e
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size && !(i == m.size - 1 - inv_row && j == col) implies #[trigger] ent(*self, i, j) == ent(s1, i, j) by { }
@at L3s
!raw let ghost s3 = *self;
    assert(ent(*self, row as int, 0) == rv(m, row as int, 0)); assert(ent(*self, row as int, m.size - 1 - inv_col) == rv(m, row as int, m.size - 1 - inv_col)); assert(is1(cv(m, row as int, m.size - 1 - inv_col)));
@at L3e
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size && !(i == row && j == m.size - 1 - inv_col) implies #[trigger] ent(*self, i, j) == ent(s3, i, j) by { }

@fn sequences/matrices.rs HM::dephased
@spec
    requires wfm(*self), pmm(*self),
    ensures is_dephased(*self, r),
@at fs
!raw let ghost m = *self; proof { lemma_rv(m); }
@loop 0
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| m.size - inv_row <= i < m.size && 0 <= j < m.size ==> #[trigger] new_mat@[i]@[j] == rv(m, i, j),
@loop 1
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size && (i >= m.size - inv_row || (i == m.size - 1 - inv_row && j < col)) ==> #[trigger] new_mat@[i]@[j] == rv(m, i, j),
@at L1s
    assert(is1(ent(m, 0, col as int)) && is1(ent(m, m.size - 1 - inv_row, col as int)) && is1(rv(m, m.size - 1 - inv_row, col as int)));
@loop 2
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] new_mat@[i]@[j] == if j >= m.size - inv_col { cv(m, i, j) } else { rv(m, i, j) },
@loop 3
    invariant new_mat@.len() == m.size, forall|i: int| 0 <= i < m.size ==> (#[trigger] new_mat@[i])@.len() == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] new_mat@[i]@[j] == if j >= m.size - inv_col || (j == m.size - 1 - inv_col && i < row) { cv(m, i, j) } else { rv(m, i, j) },
@at L3s
    assert(new_mat@[row as int]@[0] == rv(m, row as int, 0)); assert(new_mat@[row as int]@[m.size - 1 - inv_col] == rv(m, row as int, m.size - 1 - inv_col)); assert(is1(cv(m, row as int, m.size - 1 - inv_col)));
@at fe
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size implies #[trigger] ent(vx_ret, i, j) == cv(m, i, j) by { assert(vx_ret.matrix@[i]@[j] == cv(m, i, j)); }

@fn sequences/matrices.rs HM::verify
@spec
    requires wfm(*self), pmm(*self),
    ensures r == orthogonal_rows(*self),
@at fs
    assert forall|i: int, j: int, k: int| 0 <= k < self.size implies #[trigger] dot_f(*self, i, j)(k) == ent(*self, i, k) * ent(*self, j, k) by { }
@loop 0
    invariant wfm(*self), forall|i: int, j: int| 0 <= i < j < self.size && i < row1 ==> #[trigger] dot(*self, i, j) == 0,
@loop 1
    invariant wfm(*self), forall|i: int, j: int| 0 <= i < j < self.size && (i < row1 || (i == row1 && j < row2)) ==> #[trigger] dot(*self, i, j) == 0,
@loop 2
    invariant row1_vec@ == self.matrix@[row1 as int]@, row2_vec@ == self.matrix@[row2 as int]@, result == sum(dot_f(*self, row1 as int, row2 as int), i as int), -i <= result <= i,
@at L2s
    assert(is1(ent(*self, row1 as int, i as int))); assert(is1(ent(*self, row2 as int, i as int)));
    lemma_pm_prod(row1_vec@[i as int] as int, row2_vec@[i as int] as int);
@at L2a
    assert(result == dot(*self, row1 as int, row2 as int));

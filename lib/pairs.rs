// ===== lib/pairs.rs: the lines of a pair file =====
/// the pairs the filter keeps, in order (floating point: left open)
pub uninterp spec fn kept_pairs<'a>(a: Vec<Vec<i8>>, b: Vec<Vec<i8>>, bound: F64) -> Seq<SequencePairData<'a>>;
pub uninterp spec fn auto_key(a: Vec<F64>, la: usize, b: Vec<F64>, lb: usize) -> Seq<isize>;
pub uninterp spec fn cross_key(a: Vec<Complex<F64>>, b: Vec<Complex<F64>>, t: (SequenceTag, SequenceTag), n: usize) -> Seq<isize>;
pub uninterp spec fn psd_key(a: Vec<F64>, b: Vec<F64>, n: usize, side: EquationSide) -> Seq<F64>;
pub uninterp spec fn cpsd_key(a: Vec<Complex<F64>>, b: Vec<Complex<F64>>, t: (SequenceTag, SequenceTag), n: usize) -> Seq<Complex<F64>>;

/// what a pair file is written from
pub ghost struct Pairs { pub ty: SequenceType, pub tags: (SequenceTag, SequenceTag), pub p: usize, pub side: EquationSide, pub by: MatchOption }
pub open spec fn signs_on(side: EquationSide, v: Seq<isize>) -> Seq<int> { Seq::new(v.len(), |i: int| signed(side, v[i] as int)) }
pub open spec fn rounds(v: Seq<F64>) -> Seq<int> { Seq::new(v.len(), |i: int| rounded(v[i]) as int) }
pub open spec fn im_rounds(side: EquationSide, v: Seq<Complex<F64>>) -> Seq<int> { Seq::new(v.len(), |i: int| signed(side, rounded(v[i].im) as int)) }
pub open spec fn auto_of<'a>(d: SequencePairData<'a>) -> Seq<isize> { auto_key(d.norm1, d.seq_enum1.1@.len() as usize, d.norm2, d.seq_enum2.1@.len() as usize) }
pub open spec fn cross_of<'a>(c: Pairs, d: SequencePairData<'a>) -> Seq<isize> { cross_key(d.dft1, d.dft2, c.tags, d.seq_enum1.1@.len() as usize) }
pub open spec fn cpsd_of<'a>(c: Pairs, d: SequencePairData<'a>) -> Seq<Complex<F64>> { cpsd_key(d.dft1, d.dft2, c.tags, d.seq_enum1.1@.len() as usize) }
/// the key of a pair: the values of its side of the equations
pub open spec fn pair_key<'a>(c: Pairs, d: SequencePairData<'a>) -> Seq<char> {
    match c.by {
        MatchOption::CORRELATION => if c.ty is QuaternionType { num_key(signs_on(c.side, auto_of(d))) + num_key(signs_on(c.side, cross_of(c, d))) } else { num_key(signs_on(c.side, auto_of(d))) },
        MatchOption::PSD => if c.ty is QuaternionType { num_key(rounds(psd_key(d.norm1, d.norm2, c.p, c.side))) + num_key(im_rounds(c.side, cpsd_of(c, d))) } else { num_key(rounds(psd_key(d.norm1, d.norm2, c.p, c.side))) },
    }
}
/// a pair of a Williamson-type quadruple has no cross values
pub open spec fn pair_kept<'a>(c: Pairs, d: SequencePairData<'a>) -> bool {
    c.ty is WilliamsonType ==> match c.by {
        MatchOption::CORRELATION => forall|i: int| 0 <= i < cross_of(c, d).len() ==> #[trigger] cross_of(c, d)[i] == 0,
        MatchOption::PSD => forall|i: int| 0 <= i < cpsd_of(c, d).len() ==> !exceeds(fabs((#[trigger] cpsd_of(c, d)[i]).im), fdec("0.0001"@)),
    }
}
pub open spec fn pair_line<'a>(c: Pairs, d: SequencePairData<'a>) -> Seq<char> {
    let k = pair_key(c, d);
    (if k.len() == 0 { k + "_"@ } else { k }) + (":_"@ + int_text(d.seq_enum1.0 as int) + "_"@ + int_text(d.seq_enum2.0 as int) + "\n"@)
}
pub open spec fn pair_lines<'a>(c: Pairs, v: Seq<SequencePairData<'a>>) -> Seq<Seq<char>>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { let r = pair_lines(c, v.drop_last()); if pair_kept(c, v.last()) { r.push(pair_line(c, v.last())) } else { r } }
}
pub proof fn lemma_pair_lines<'a>(c: Pairs, v: Seq<SequencePairData<'a>>, i: int)
    requires 0 <= i < v.len(),
    ensures joined_text(pair_lines(c, v.take(i + 1))) == joined_text(pair_lines(c, v.take(i))) + (if pair_kept(c, v[i]) { pair_line(c, v[i]) } else { Seq::empty() }),
        pair_lines(c, v.take(i + 1)).len() == pair_lines(c, v.take(i)).len() + (if pair_kept(c, v[i]) { 1int } else { 0int }),
{
    assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]);
    lemma_joined_push(pair_lines(c, v.take(i)), pair_line(c, v[i]));
    assert(joined_text(pair_lines(c, v.take(i))) + Seq::empty() =~= joined_text(pair_lines(c, v.take(i))));
}

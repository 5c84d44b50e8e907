// ===== lib/wkeys.rs: the exact keys of pairs of sequences, for matching by correlations =====
pub open spec fn option_is(m: MatchOption) -> bool { m is CORRELATION }
pub open spec fn avals(x: Seq<i8>, y: Seq<i8>) -> Seq<int> { Seq::new((x.len() / 2) as nat, |i: int| auto(x, i + 1) + auto(y, i + 1)) }
pub open spec fn cvals(x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag)) -> Seq<int> { Seq::new((x.len() / 2) as nat, |i: int| od(x, y, t, i + 1)) }
/// exact keys are never ambiguous
pub open spec fn clear_pair(ty: SequenceType, t: (SequenceTag, SequenceTag), x: Seq<i8>, y: Seq<i8>) -> bool { true }
pub proof fn theorem_unambiguous(ty: SequenceType, n: int, p: Option<RowsumPairing>) ensures unambiguous(ty, n, p) { }
pub open spec fn side_a(c: Side, v: Seq<int>) -> Seq<int> { on_side(c.side, v) }
pub open spec fn side_x(c: Side, v: Seq<int>) -> Seq<int> { on_side(c.side, v) }
pub open spec fn on_side(side: EquationSide, v: Seq<int>) -> Seq<int> { Seq::new(v.len(), |i: int| signed(side, v[i])) }
/// a pair of a Williamson-type quadruple has no cross values
pub open spec fn wkept(c: Side, x: Seq<i8>, y: Seq<i8>) -> bool { c.ty is WilliamsonType ==> forall|i: int| 0 <= i < x.len() / 2 ==> #[trigger] od(x, y, c.tags, i + 1) == 0 }
pub proof fn lemma_auto_vals(k: Seq<isize>, x: Seq<i8>, y: Seq<i8>)
    requires is_auto_key(k, x, y), pm(x), pm(y), x.len() == y.len(), 0 < x.len() <= maxdft(),
    ensures k.len() == avals(x, y).len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == avals(x, y)[i] && k[i] > isize::MIN,
{
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] == avals(x, y)[i] && k[i] > isize::MIN by {
        lemma_auto_is_cross(x, i + 1); lemma_auto_is_cross(y, i + 1); lemma_cross_bounded(x, x, i + 1); lemma_cross_bounded(y, y, i + 1);
    }
}
pub proof fn lemma_cross_vals(k: Seq<isize>, x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag))
    requires is_cross_key(k, x, y, t), pm(x), pm(y), x.len() == y.len(), 0 < x.len() <= maxdft(),
    ensures k.len() == cvals(x, y, t).len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == cvals(x, y, t)[i] && k[i] > isize::MIN,
{
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] == cvals(x, y, t)[i] && k[i] > isize::MIN by {
        lemma_cross_bounded(x, y, i + 1); lemma_cross_bounded(y, x, i + 1);
    }
}
pub open spec fn any_cross(x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag), m: int) -> bool { exists|i: int| 0 <= i < m && #[trigger] cvals(x, y, t)[i] != 0 }
pub proof fn lemma_wkept(c: Side, x: Seq<i8>, y: Seq<i8>)
    requires c.ty is WilliamsonType,
    ensures wkept(c, x, y) <==> !any_cross(x, y, c.tags, cvals(x, y, c.tags).len() as int),
{
    if wkept(c, x, y) { assert forall|i: int| 0 <= i < cvals(x, y, c.tags).len() implies #[trigger] cvals(x, y, c.tags)[i] == 0 by { assert(od(x, y, c.tags, i + 1) == 0); } }
    else { let i = choose|i: int| 0 <= i < x.len() / 2 && #[trigger] od(x, y, c.tags, i + 1) != 0; assert(cvals(x, y, c.tags)[i] != 0); }
}
pub proof fn lemma_same_key(ty: SequenceType, q: QV, p: Option<RowsumPairing>)
    requires wfv(q), is_type(q, ty), q.n >= 1, clear_quad(ty, q, p),
    ensures ({ let g = tags_for(p); ckey(left(ty, q.n, g), get(q, g.0), get(q, g.1)) == ckey(right(ty, q.n, g), get(q, g.2), get(q, g.3)) }),
{
    let g = tags_for(p);
    let (x, y, u, v) = (get(q, g.0), get(q, g.1), get(q, g.2), get(q, g.3));
    assert(on_side(EquationSide::LEFT, avals(x, y)) =~= on_side(EquationSide::RIGHT, avals(u, v))) by {
        assert forall|i: int| 0 <= i < x.len() / 2 implies avals(x, y)[i] == -avals(u, v)[i] by { assert(compl_at(q, i + 1)); }
    }
    if ty is QuaternionType {
        assert(on_side(EquationSide::LEFT, cvals(x, y, (g.0, g.1))) =~= on_side(EquationSide::RIGHT, cvals(u, v, (g.2, g.3)))) by {
            assert forall|i: int| 0 <= i < x.len() / 2 implies cvals(x, y, (g.0, g.1))[i] == -cvals(u, v, (g.2, g.3))[i] by { lemma_opposite(q, p, i + 1); }
        }
    }
}
pub proof fn lemma_fits(ty: SequenceType, q: QV, s: SequenceTag, t: SequenceTag, side: EquationSide)
    requires wfv(q), is_type(q, ty), q.n >= 1, s != t, clear_pair(ty, (s, t), get(q, s), get(q, t)),
    ensures fits(get(q, s), get(q, t), (4 * q.n) as real, 1), wkept(Side { ty: ty, tags: (s, t), n: q.n, side: side }, get(q, s), get(q, t)),
{
    theorem_kept(q, tag_no(s), tag_no(t), 1);
    assert(fourth(q, tag_no(s)) == get(q, s) && fourth(q, tag_no(t)) == get(q, t));
    if ty is WilliamsonType {
        assert forall|i: int| 0 <= i < get(q, s).len() / 2 implies #[trigger] od(get(q, s), get(q, t), (s, t), i + 1) == 0 by { assert(amic_at(q, i + 1)); }
    }
}

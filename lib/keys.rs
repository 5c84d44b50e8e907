// ===== lib/keys.rs: match keys of pairs of sequences =====
/// the orientation of an ordered pair of different tags: Z comes first, and W before X before Y before W
pub open spec fn forward(t: (SequenceTag, SequenceTag)) -> bool {
    t.0 == SequenceTag::Z || (t.0 == SequenceTag::W && t.1 == SequenceTag::X) || (t.0 == SequenceTag::X && t.1 == SequenceTag::Y) || (t.0 == SequenceTag::Y && t.1 == SequenceTag::W)
}
/// the oriented cross-correlation difference
pub open spec fn od(x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag), u: int) -> int { if forward(t) { xd(x, y, u) } else { xd(y, x, u) } }
pub open spec fn is_auto_key(k: Seq<isize>, x: Seq<i8>, y: Seq<i8>) -> bool {
    k.len() == x.len() / 2 && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == auto(x, i + 1) + auto(y, i + 1))
}
pub open spec fn is_auto_ckey(k: Seq<isize>, x: Seq<i8>, y: Seq<i8>) -> bool {
    k.len() == x.len() / 2 && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == -(auto(x, i + 1) + auto(y, i + 1)))
}
pub open spec fn is_cross_key(k: Seq<isize>, x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag)) -> bool {
    k.len() == x.len() / 2 && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == od(x, y, t, i + 1))
}
pub open spec fn is_cross_ckey(k: Seq<isize>, x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag)) -> bool {
    k.len() == x.len() / 2 && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == -od(x, y, t, i + 1))
}
/// the summed autocorrelations and the oriented differences of two pairs cancel at offset t
pub open spec fn cancel_at(x: Seq<i8>, y: Seq<i8>, s: (SequenceTag, SequenceTag), u: Seq<i8>, v: Seq<i8>, r: (SequenceTag, SequenceTag), t: int) -> bool {
    auto(x, t) + auto(y, t) + auto(u, t) + auto(v, t) == 0 && od(x, y, s, t) + od(u, v, r, t) == 0
}
pub proof fn lemma_auto_is_cross(s: Seq<i8>, t: int)
    requires s.len() >= 1,
    ensures cross(s, s, t) == auto(s, t),
{
    let n = s.len() as int;
    let f = cross_f(s, s, t);
    lemma_sum_shift(f, t, n);
    let g = |i: int| f((i + t) % n);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == auto_f(s, t)(i) by {
        lemma_mod_range(i + t, n); lemma_mod_add_l(i + t, -t, n); lemma_mod_range(i, n);
        let (x, y) = (s[(i + t) % n] as int, s[i] as int);
        assert(x * y == y * x) by(nonlinear_arith);
    }
    lemma_sum_ext(g, auto_f(s, t), n);
}

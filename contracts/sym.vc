@fn sequences/williamson.rs QuadSeq::into_iter
@subst Self\s*::\s*IntoIter => Vec<i8>
@subst \.chain\( => .vx_chain(
@subst \.into_iter\(\) => 
@spec
    ensures r@ == self.a@ + self.b@ + self.c@ + self.d@,

@fn sequences/equivalence.rs generate_symmetry_group
@spec
    requires 1 <= len <= 31,
    ensures is_group(equivalences@, len as int, r@), forall|s: QV| #[trigger] r@.contains(s) ==> symb(s, len as int),
@at fe
    assert forall|s: QV| #[trigger] vx_ret@.contains(s) implies symb(s, n) by { lemma_group_syms(equivalences@, n, s); }
@at fs
!raw let ghost n = len as int; proof {
    assert forall|s: QV| #[trigger] symb(s, n) implies wfl(s) by { lemma_symb_wfl(s, n); } }
@loop 0
    invariant it0.seq().len() == len, vx_n1_1 == it0.index@, vx_out1@.len() == it0.index@, forall|j: int| 0 <= j < it0.index@ ==> #[trigger] vx_out1@[j] == j + 1,
@loop 1
    invariant it1.seq().len() == len, vx_n1_2 == it1.index@, vx_out2@.len() == it1.index@, forall|j: int| 0 <= j < it1.index@ ==> #[trigger] vx_out2@[j] == j + n + 1,
@loop 2
    invariant it2.seq().len() == len, vx_n1_3 == it2.index@, vx_out3@.len() == it2.index@, forall|j: int| 0 <= j < it2.index@ ==> #[trigger] vx_out3@[j] == j + 2 * n + 1,
@loop 3
    invariant it3.seq().len() == len, vx_n1_4 == it3.index@, vx_out4@.len() == it3.index@, forall|j: int| 0 <= j < it3.index@ ==> #[trigger] vx_out4@[j] == j + 3 * n + 1,
@at L3a
    let q = idsym(n);
    let z = Seq::new(n as nat, |i: int| 0i8); let zq = QV { n, a: z, b: z, c: z, d: z }; lemma_id(zq);
    assert(w1@ =~= q.a && w2@ =~= q.b && w3@ =~= q.c && vx_out4@ =~= q.d);

@fn sequences/equivalence.rs generate_equivalence_class_fast
@subst (\w+)\[([^\[\]]*)\.\.([^\[\]]*)\]\s*\.to_vec\(\) => vx_slice(&\1, \2, \3)
@spec
    requires wfx(*seq), 1 <= seq.size <= 31, forall|s: QV| #[trigger] symmetries@.contains(s) ==> symb(s, seq@.n),
    ensures forall|p: QV| #[trigger] r@.contains(p) <==> has_app(symmetries@, seq@, p),
        forall|fs: Seq<VxOp>, p: QV| #[trigger] is_group(fs, seq@.n, symmetries@) ==> (#[trigger] r@.contains(p) <==> reach(step_of(fs), seq@, p)),
        forall|fs: Seq<VxOp>| #[trigger] is_group(fs, seq@.n, symmetries@) ==> is_cls(step_of(fs), seq@, r@),
@at fe
    assert forall|fs: Seq<VxOp>, p: QV| #[trigger] is_group(fs, seq@.n, symmetries@) implies (#[trigger] vx_ret@.contains(p) <==> reach(step_of(fs), seq@, p)) by { lemma_group_class(fs, symmetries@, seq@, p); }
@loop 0
    invariant
        forall|j: int| 0 <= j < it0.seq().len() ==> symmetries@.contains(#[trigger] it0.seq()[j]@),
        forall|p: QV| #[trigger] symmetries@.contains(p) ==> 0 <= vx_pos(*symmetries, p) < it0.seq().len() && it0.seq()[vx_pos(*symmetries, p)]@ == p,
        forall|p: QV| #[trigger] class@.contains(p) ==> has_app(symmetries@, seq@, p),
        forall|j: int| 0 <= j < it0.index@ ==> class@.contains(app(#[trigger] it0.seq()[j]@, seq@)),
@at L0s
!raw let ghost s0 = symmetry@; let ghost all = s0.a + s0.b + s0.c + s0.d; proof { assert(it0.seq()[it0.index@]@ == s0); assert(symmetries@.contains(s0)); lemma_all_syms(s0, seq@); }
@loop 1
    invariant
        n == seq@.n, it1.seq() == all, res_vec@.len() == it1.index@,
        forall|j: int| 0 <= j < it1.index@ ==> #[trigger] res_vec@[j] == sval(seq@, all[j]),
@at L1s
    let e = elm as int; let m = (if e < 0 { -e } else { e }) - 1;
    assert(elm == all[it1.index@]);
    assert(0 <= m < 4 * n && (e < 0 ==> flat(seq@, -e - 1) > -128));
    lemma_block(m, n as int);
@at L0e
    assert(all.len() == 4 * n);
    let p = app(s0, seq@);
    assert(result.a@ =~= p.a && result.b@ =~= p.b && result.c@ =~= p.c && result.d@ =~= p.d);
    assert(result@ == p);

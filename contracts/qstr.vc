@fn sequences/sequence.rs Q24_STRING
@spec
    ensures code_table(r@),
@at fs
    reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("2"); reveal_strlit("3"); reveal_strlit("4"); reveal_strlit("5"); reveal_strlit("6"); reveal_strlit("7"); reveal_strlit("8"); reveal_strlit("9"); reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("c"); reveal_strlit("d"); reveal_strlit("e"); reveal_strlit("f"); reveal_strlit("g"); reveal_strlit("h"); reveal_strlit("i"); reveal_strlit("j"); reveal_strlit("k"); reveal_strlit("l"); reveal_strlit("m"); reveal_strlit("n"); reveal_strlit("o"); reveal_strlit("p"); reveal_strlit("q"); reveal_strlit("r"); reveal_strlit("s"); reveal_strlit("t"); reveal_strlit("u"); reveal_strlit("v"); reveal_strlit("w"); reveal_strlit("x"); reveal_strlit("y"); reveal_strlit("z"); reveal_strlit("A"); reveal_strlit("B"); reveal_strlit("C"); reveal_strlit("D"); reveal_strlit("E"); reveal_strlit("F"); reveal_strlit("G"); reveal_strlit("H"); reveal_strlit("I"); reveal_strlit("J"); reveal_strlit("K"); reveal_strlit("L"); reveal_strlit("M"); reveal_strlit("N"); reveal_strlit("O"); reveal_strlit("P"); reveal_strlit("Q"); reveal_strlit("R"); reveal_strlit("S"); reveal_strlit("T"); reveal_strlit("U"); reveal_strlit("V"); reveal_strlit("W"); reveal_strlit("X"); reveal_strlit("Y"); reveal_strlit("Z");

@fn sequences/sequence.rs quaternion_to_string
@spec
    requires isu(*quat),
    ensures r@ == seq![letter(unit_no(hv(*quat)))],
@at fs
!raw let vx_units = vx_Q24(); let vx_codes = vx_Q24_STRING(); proof { lemma_unit_table(vx_units@, 24); lemma_hq(*quat); lemma_unit_no(hv(*quat)); assert(vx_codes@[unit_no(hv(*quat))]@ =~= seq![letter(unit_no(hv(*quat)))]); }
@subst \bQ24\.iter => vx_units.iter
@subst Q24_STRING\[(\w+)\]\.to_string\(\) => vx_str_owned(vx_codes[\1])
@loop 0
    invariant
        it0.seq().len() == 24, forall|j: int| 0 <= j < 24 ==> *#[trigger] it0.seq()[j] == vx_units@[j], vx_n1_1 == it0.index@,
        it0.index@ <= unit_no(hv(*quat)) ==> vx_out1.is_none(),
        it0.index@ > unit_no(hv(*quat)) ==> vx_out1 == Some((unit_no(hv(*quat)) as usize, &vx_units@[unit_no(hv(*quat))])),
@at L0s
    lemma_hq(vx_units@[it0.index@]);
    if q24h(it0.index@) == hv(*quat) { lemma_q24h_inj(it0.index@, unit_no(hv(*quat))); }

@fn sequences/sequence.rs QS::to_string_raw
@spec
    requires allu(self.values@),
    ensures codes_of(r@, self.values@), all_known(r@), ascii(r@), forall|w: Seq<Quaternion>| #[trigger] read_as(r@, w) ==> w == self.values@,
@subst \b(\w+)\.to_string\(\) => vx_str_owned(&\1)
@loop 0
    invariant it0.seq().len() == self.values@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == self.values@[j],
        codes_of(res_str@, self.values@.take(it0.index@)),
@at fs
!raw let vx_codes = vx_Q24_STRING();
@at L0b
    reveal_strlit("");
@at L0s
!raw let ghost before = res_str@; proof { assert(isu(self.values@[it0.index@])); }
@at L0e
    assert(res_str@ =~= before.push(letter(unit_no(hv(self.values@[it0.index@ as int])))));
@at fe
    assert(self.values@.take(self.values@.len() as int) =~= self.values@);
    lemma_text_round_trip(vx_ret@, self.values@);

@fn sequences/sequence.rs QS::from_str
@spec
    requires all_known(s@), ascii(s@),
    ensures read_as(s@, r.values@), r.size == s@.len(), r.symmetry is None, r.values@.len() == r.size, allu(r.values@),
@at fs
!raw let vx_units = vx_Q24(); let vx_codes = vx_Q24_STRING(); proof { lemma_unit_table(vx_units@, 24); }
@subst Q24\[ => vx_units[
@subst Q24_STRING\.iter => vx_codes.iter
@subst \*\s*\*\s*\*\s*c == (\w+)\.to_string\(\) => vx_char_is(**c, \1)
@loop 0
    invariant it0.seq() == s@, values@.len() == it0.index@, read_as(s@.take(it0.index@), values@), allu(values@),
@at L0s
!raw let ghost before = values@; let ghost no = letter_no(s@[it0.index@]); proof { assert(known(s@[it0.index@])); assert(is_letter(char, no)); }
@loop 1
    invariant
        it1.seq().len() == 24, forall|j: int| 0 <= j < 24 ==> *#[trigger] it1.seq()[j] == the_codes()[j], vx_n1_1 == it1.index@,
        it1.index@ <= no ==> vx_out1.is_none(),
        it1.index@ > no ==> vx_out1 == Some((no as usize, &vx_codes@[no])),
@at L1s
    if the_codes()[it1.index@]@ =~= seq![char] { lemma_letter_inj(it1.index@, no); }
    if it1.index@ == no { assert(the_codes()[it1.index@]@ =~= seq![char]); }
@at L0e
    assert(values@ == before.push(hq(q24h(no)))); assert(isu(vx_units@[no]));
    assert(s@.take(it0.index@ + 1) =~= s@.take(it0.index@ as int).push(char));
@at fe
    assert(s@.take(s@.len() as int) =~= s@);

@fn sequences/rowsum.rs sequence_to_string
@spec
    requires pm(seq@),
    ensures signs_of(r@, seq@),
@subst \b(\w+)\.to_string\(\) => vx_str_owned(&\1)
@loop 0
    invariant it0.seq().len() == seq@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == seq@[j],
        signs_of(res_str@, seq@.take(it0.index@)),
@at L0b
    reveal_strlit(""); reveal_strlit("+"); reveal_strlit("-");
@at L0s
!raw let ghost before = res_str@; proof { assert(seq@[it0.index@] == 1 || seq@[it0.index@] == -1); }
@at L0e
    assert(res_str@ =~= before.push(sign_char(seq@[it0.index@ as int])));
@at fe
    assert(seq@.take(seq@.len() as int) =~= seq@);

@fn find/find_write.rs string_to_sequence
@spec
    requires signs_only(s@),
    ensures r@.len() == s@.len(), pm(r@), signs_of(s@, r@), forall|v: Seq<i8>| pm(v) && #[trigger] signs_of(s@, v) ==> v == r@,
@loop 0
    invariant it0.seq() == s@, pm(res@), signs_of(s@.take(it0.index@), res@),
@at L0s
!raw let ghost before = res@; proof { assert(s@[it0.index@] == '+' || s@[it0.index@] == '-'); }
@at L0e
    assert(res@ == before.push(if elm == '+' { 1i8 } else { -1i8 }));
@at fe
    assert(s@.take(s@.len() as int) =~= s@);
    assert forall|v: Seq<i8>| pm(v) && #[trigger] signs_of(s@, v) implies v == vx_ret@ by { lemma_signs_inj(s@, v, vx_ret@); }

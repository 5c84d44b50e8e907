// ===== lib/veceq.rs: == on vectors compares their contents =====
pub broadcast proof fn lemma_vec_eq(a: Vec<i8>, b: Vec<i8>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@),
{
    assert(forall|x: i8, y: i8| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&x, &y) == (x == y));
    if vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) { assert(a@ =~= b@); }
}

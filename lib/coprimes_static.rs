// the lazy_static COPRIMES: assumed to yield the value of its initialiser, which is verified as vx_init_COPRIMES
#[verifier::external_body]
pub fn vx_COPRIMES() -> (r: &'static Vec<Vec<usize>>)
    ensures coprime_table(r@),
{
    unimplemented!()
}

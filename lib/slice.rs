// ===== lib/slice.rs: x[i..j].to_vec(), and chained vectors =====
pub fn vx_slice(v: &Vec<i8>, i: usize, j: usize) -> (r: Vec<i8>)
    requires i <= j <= v@.len(),
    ensures r@ == v@.subrange(i as int, j as int),
{
    let mut out: Vec<i8> = Vec::new();
    let mut k = i;
    while k < j
        invariant i <= k <= j <= v@.len(), out@ =~= v@.subrange(i as int, k as int),
        decreases j - k,
    { out.push(v[k]); k += 1; }
    out
}
pub trait VxChain: Sized { spec fn vx_seq(self) -> Seq<i8>; fn vx_chain(self, o: Vec<i8>) -> (r: Vec<i8>) ensures r@ == self.vx_seq() + o@; }
impl VxChain for Vec<i8> { open spec fn vx_seq(self) -> Seq<i8> { self@ }
fn vx_chain(self, o: Vec<i8>) -> (r: Vec<i8>)
{ let mut a = self; let mut b = o; a.append(&mut b); a } }

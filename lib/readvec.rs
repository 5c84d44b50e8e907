// ===== lib/readvec.rs: a file read line by line, as the list of its lines =====
#[verifier::external_body]
pub fn read_lines(name: &VxStr) -> (r: Result<Vec<Result<VxStr, Error>>, Error>)
    ensures readable(name@) ==> r is Ok && r->Ok_0@.len() == file_lines(name@).len() && forall|i: int| 0 <= i < file_lines(name@).len() ==> (#[trigger] r->Ok_0@[i]) is Ok && r->Ok_0@[i]->Ok_0@ == file_lines(name@)[i] { unimplemented!() }

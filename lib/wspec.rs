// ===== lib/wspec.rs: files written, and what those of a rowsum hold =====
pub mod vx_disk {
use vstd::prelude::*;
/// a file of this name with these bytes was written (and closed)
pub uninterp spec fn wrote(name: Seq<char>, data: Seq<u8>) -> bool;
}
pub use vx_disk::wrote;
pub open spec fn nl() -> Seq<char> { "\n"@ }
pub open spec fn ended(v: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i] + nl()) }
/// a file with these lines, each ended, was written
pub open spec fn wrote_lines(name: Seq<char>, v: Seq<Seq<char>>) -> bool { wrote(name, utf8(joined_text(ended(v)))) }
pub open spec fn texts_v(v: Seq<Vec<i8>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| sign_text(v[i]@)) }
pub open spec fn seq_file(dir: Seq<char>, t: SequenceTag, v: Seq<Vec<i8>>) -> bool { wrote_lines(dir + "/seq_"@ + tag_text(t) + ".seq"@, texts_v(v)) }
pub type V4 = (Seq<Vec<i8>>, Seq<Vec<i8>>, Seq<Vec<i8>>, Seq<Vec<i8>>);
pub open spec fn v4(v: V4, t: SequenceTag) -> Seq<Vec<i8>> { match t { SequenceTag::W => v.0, SequenceTag::X => v.1, SequenceTag::Y => v.2, SequenceTag::Z => v.3 } }
/// the tags of the pairings: W with X, Y or Z
pub open spec fn tags_for(p: Option<RowsumPairing>) -> Tg {
    match p {
        Some(RowsumPairing::WX) => (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z),
        Some(RowsumPairing::WY) => (SequenceTag::W, SequenceTag::Y, SequenceTag::X, SequenceTag::Z),
        _ => (SequenceTag::W, SequenceTag::Z, SequenceTag::X, SequenceTag::Y),
    }
}
pub open spec fn dir_name(folder: Seq<char>, p: int, rs: Quad) -> Seq<char> {
    "results/pairs/"@ + folder + "/find_"@ + int_text(p) + "/rowsum_"@ + int_text(rs.0 as int) + "_"@ + int_text(rs.1 as int) + "_"@ + int_text(rs.2 as int) + "_"@ + int_text(rs.3 as int)
}
pub open spec fn seqs_of(v: Seq<Vec<i8>>) -> Seq<Seq<i8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn sl_of(v: V4) -> SL { SL { w: seqs_of(v.0), x: seqs_of(v.1), y: seqs_of(v.2), z: seqs_of(v.3) } }
/// files written into dir hold every valid quadruple with rowsums t
pub open spec fn dir_holds(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, g: Tg, v: V4, a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool {
    &&& rs_files(ty, n, t, sl_of(v), PF { g: g, a: a, b: b })
    &&& seq_file(dir, SequenceTag::W, v.0) && seq_file(dir, SequenceTag::X, v.1) && seq_file(dir, SequenceTag::Y, v.2) && seq_file(dir, SequenceTag::Z, v.3)
    &&& wrote_lines(dir + "/pair_"@ + tag_text(g.0) + tag_text(g.1) + ".pair"@, a) && wrote_lines(dir + "/pair_"@ + tag_text(g.2) + tag_text(g.3) + ".pair"@, b)
}
pub open spec fn held(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, g: Tg) -> bool { exists|v: V4, a: Seq<Seq<char>>, b: Seq<Seq<char>>| #[trigger] dir_holds(ty, n, dir, t, g, v, a, b) }
/// so it is for every rowsum of length n
pub open spec fn all_held(ty: SequenceType, n: int, p: Option<RowsumPairing>) -> bool {
    forall|t: Quad| #[trigger] rowsums4(n, ty is QuaternionType, t) ==> held(ty, n, dir_name(type_text(ty), n, t), t, tags_for(p))
}

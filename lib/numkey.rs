// ===== lib/numkey.rs: keys of numbers as texts, and the rowsums of lists =====
pub open spec fn signed(side: EquationSide, a: int) -> int { if side is LEFT { a } else { -a } }
pub open spec fn num_lines(v: Seq<int>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| int_text(v[i]) + "_"@) }
pub open spec fn num_key(v: Seq<int>) -> Seq<char> { joined_text(num_lines(v)) }
pub proof fn lemma_num_key(v: Seq<int>, i: int)
    requires 0 <= i < v.len(),
    ensures num_key(v.take(i + 1)) == num_key(v.take(i)) + (int_text(v[i]) + "_"@),
{
    assert(num_lines(v.take(i + 1)) =~= num_lines(v.take(i)).push(int_text(v[i]) + "_"@));
    lemma_joined_push(num_lines(v.take(i)), int_text(v[i]) + "_"@);
}
pub proof fn lemma_num_key0(v: Seq<int>) ensures num_key(v.take(0)) == Seq::<char>::empty(), v.take(v.len() as int) == v
{ assert(num_lines(v.take(0)) =~= Seq::<Seq<char>>::empty()); assert(v.take(v.len() as int) =~= v); }
pub open spec fn tag_rowsum(t: SequenceTag, rs: (isize, isize, isize, isize)) -> int { match t { SequenceTag::W => rs.0 as int, SequenceTag::X => rs.1 as int, SequenceTag::Y => rs.2 as int, SequenceTag::Z => rs.3 as int } }
pub open spec fn all_rowsum(v: Seq<Vec<i8>>, k: int) -> bool { forall|i: int| 0 <= i < v.len() ==> rowsum_of((#[trigger] v[i])@) == k }
pub open spec fn all_short(v: Seq<Vec<i8>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() <= maxn() }

// ===== lib/results.rs: the lines of the result files =====
//@subst \bfind_write\s*::\s* => 
//@subst \bfind_unique\s*::\s*find\b => find_unique
/// a quaternion sequence: only its text matters here
pub struct QS { x: u8 }
pub uninterp spec fn qs_of(q: QuadSeq) -> QS;
pub uninterp spec fn raw_text(q: QS) -> Seq<char>;
/// the text find_unique returns
pub uninterp spec fn unique_text(i: int) -> Seq<char>;
pub uninterp spec fn quad_text(q: QuadSeq) -> Seq<char>;
pub open spec fn raw_lines(v: Seq<QuadSeq>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| raw_text(qs_of(v[i])) + "\n"@) }
pub open spec fn text_lines(v: Seq<QuadSeq>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| quad_text(v[i]) + "\n"@) }
/// the texts collected after i steps
pub open spec fn text_at(s: Seq<char>, lines: Seq<Seq<char>>, i: int) -> bool { s == joined_text(lines.take(i)) }
pub proof fn lemma_text_at(lines: Seq<Seq<char>>)
    ensures joined_text(lines.take(0)) == Seq::<char>::empty(), lines.take(lines.len() as int) == lines,
        forall|i: int| 0 <= i < lines.len() ==> #[trigger] joined_text(lines.take(i + 1)) == joined_text(lines.take(i)) + lines[i],
{
    assert(lines.take(0) =~= Seq::<Seq<char>>::empty()); assert(lines.take(lines.len() as int) =~= lines);
    assert forall|i: int| 0 <= i < lines.len() implies #[trigger] joined_text(lines.take(i + 1)) == joined_text(lines.take(i)) + lines[i] by { lemma_joined_take(lines, i); }
}
pub open spec fn result_path(t: SequenceType, i: usize, name: Seq<char>) -> Seq<char> { "./results/pairs/"@ + type_text(t) + "/find_"@ + int_text(i as int) + name }


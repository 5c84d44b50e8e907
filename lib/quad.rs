// ===== lib/quad.rs: abstraction of QuadSeq =====
impl View for QuadSeq {
    type V = QV;
    open spec fn view(&self) -> QV { QV { n: self.size as int, a: self.a@, b: self.b@, c: self.c@, d: self.d@ } }
}
pub open spec fn wfq(q: QuadSeq) -> bool { wfv(q@) && q.size <= maxn() }

pub open spec fn get(q: QV, t: SequenceTag) -> Seq<i8> {
    match t { SequenceTag::W => q.a, SequenceTag::X => q.b, SequenceTag::Y => q.c, SequenceTag::Z => q.d }
}
pub open spec fn set(q: QV, t: SequenceTag, s: Seq<i8>) -> QV {
    match t {
        SequenceTag::W => QV { a: s, ..q },
        SequenceTag::X => QV { b: s, ..q },
        SequenceTag::Y => QV { c: s, ..q },
        SequenceTag::Z => QV { d: s, ..q },
    }
}
pub open spec fn is_type(q: QV, ty: SequenceType) -> bool {
    match ty {
        SequenceType::QuaternionType => is_qts(q),
        SequenceType::WilliamsonType => is_wts(q),
        SequenceType::Williamson => is_ws(q),
        _ => false,
    }
}

// ===== lib/rscover.rs: rowsums that every class meets =====
pub struct R4 { pub w: int, pub x: int, pub y: int, pub z: int }
pub open spec fn rs4(q: QV) -> R4 { R4 { w: rowsum_of(q.a), x: rowsum_of(q.b), y: rowsum_of(q.c), z: rowsum_of(q.d) } }
pub open spec fn zero4(r: R4) -> bool { r.w == 0 || r.x == 0 || r.y == 0 || r.z == 0 }
pub open spec fn dup4(r: R4) -> bool { r.w == r.x || r.w == r.y || r.w == r.z || r.x == r.y || r.x == r.z || r.y == r.z }
pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }
/// the order asked of the rowsums: increasing and not negative, where the last may be negative if all are different and none is zero
pub open spec fn sorted_rs(r: R4) -> bool {
    0 <= r.w <= r.x <= r.y && (if zero4(r) || dup4(r) { r.y <= r.z } else { r.y <= abs(r.z) })
}
pub open spec fn r4(t: Quad) -> R4 { R4 { w: t.0 as int, x: t.1 as int, y: t.2 as int, z: t.3 as int } }
/// related by the operations of the type
pub open spec fn related(ty: SequenceType, q: QV, p: QV) -> bool { forall|fs: Seq<VxOp>| #[trigger] is_type_ops(ty, fs) ==> reach(step_of(fs), q, p) }
pub open spec fn sorted_member(ty: SequenceType, l: Seq<Quad>, q: QV, p: QV, t: Quad) -> bool {
    wfv(p) && p.n == q.n && related(ty, q, p) && l.contains(t) && rs4(p) == r4(t) && sorted_rs(rs4(p))
}
/// q has an equivalent quadruple whose rowsums are in the list and sorted
pub open spec fn covered(ty: SequenceType, l: Seq<Quad>, q: QV) -> bool { exists|p: QV, t: Quad| #[trigger] sorted_member(ty, l, q, p, t) }
pub open spec fn sqs(r: R4) -> int { r.w * r.w + r.x * r.x + r.y * r.y + r.z * r.z }
/// every valid quadruple of length n is covered, and the squares of its rowsums add up to 4n
pub open spec fn all_covered(ty: SequenceType, n: int, l: Seq<Quad>) -> bool {
    forall|q: QV| wfv(q) && q.n == n && is_type(q, ty) ==> #[trigger] covered(ty, l, q) && sqs(rs4(q)) == 4 * n
}

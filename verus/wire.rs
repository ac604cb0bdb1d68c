//@import h1g.rs
//@import ser.rs
verus! {
// ================= fields as written =================
/// names distinct, tokens; values without line ends, not beginning with a space
pub open spec fn distinct(m: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> !same(#[trigger] m[i].0, #[trigger] m[j].0) }
pub open spec fn writable(m: Seq<Ent>) -> bool { distinct(m) && legal(m) && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i].1).len() > 0 ==> m[i].1[0] != 32 }
pub open spec fn fl_of(e: Ent) -> Fl { Fl { n: e.0, a: 0, b: 1, v: e.1, e: true } }
pub open spec fn fls_of(m: Seq<Ent>) -> Seq<Fl> { m.map_values(|e: Ent| fl_of(e)) }
pub open spec fn fields_text(m: Seq<Ent>) -> Seq<u8> { lines(m) + seq![13u8, 10] }
pub proof fn lines_front(m: Seq<Ent>)
    requires m.len() > 0 ensures lines(m) == line(m[0]) + lines(m.skip(1)) decreases m.len()
{
    if m.len() == 1 { assert(m.drop_last() =~= Seq::empty()); assert(m.skip(1) =~= Seq::empty()); assert(lines(m) =~= line(m[0]) + lines(m.skip(1))); }
    else { lines_front(m.drop_last()); assert(m.drop_last().skip(1) =~= m.skip(1).drop_last()); assert(m.skip(1).last() == m.last()); assert(lines(m) =~= line(m[0]) + lines(m.skip(1))); }
}
#[verifier::spinoff_prover] pub proof fn line_is(e: Ent, t: Seq<u8>) ensures line(e) + t == fl_text(fl_of(e), t)
{ assert(line(e) + t =~= fl_text(fl_of(e), t)); }
#[verifier::spinoff_prover] pub proof fn fields_text_is(m: Seq<Ent>, rest: Seq<u8>)
    ensures fields_text(m) + rest == fls_text(fls_of(m), true, rest) decreases m.len()
{
    hide(line); hide(fl_text); hide(fl_of);
    if m.len() == 0 { assert(fields_text(m) + rest =~= nlt(true) + rest); }
    else {
        lines_front(m); fields_text_is(m.skip(1), rest); assert(fls_of(m).skip(1) =~= fls_of(m.skip(1))); let t = fls_text(fls_of(m.skip(1)), true, rest);
        assert(fields_text(m) + rest =~= line(m[0]) + (fields_text(m.skip(1)) + rest)); line_is(m[0], t); assert(fls_of(m)[0] == fl_of(m[0]));
    }
}
/// read back, distinct names give the same list
pub proof fn fls_map_is(m: Seq<Ent>, k: int)
    requires distinct(m), 0 <= k <= m.len() ensures fls_map(m.take(k), fls_of(m.skip(k))) == m decreases m.len() - k
{
    let fs = fls_of(m.skip(k));
    if k == m.len() { assert(m.take(k) =~= m); }
    else {
        assert(fs[0] == fl_of(m[k])); let a = m.take(k);
        assert(pos(a, m[k].0) == a.len()) by { assert forall|j: int| 0 <= j < a.len() implies !same(#[trigger] a[j].0, m[k].0) by { assert(!same(m[j].0, m[k].0)); } lemma_pos_none(a, m[k].0); }
        assert(m_insert(a, m[k].0, m[k].1) =~= m.take(k + 1)); assert(fs.skip(1) =~= fls_of(m.skip(k + 1))); fls_map_is(m, k + 1);
    }
}
pub proof fn fls_of_ok(m: Seq<Ent>) requires writable(m) ensures fls_ok(fls_of(m)), fls_map(Seq::empty(), fls_of(m)) == m
{
    assert forall|i: int| 0 <= i < m.len() implies fl_ok(#[trigger] fls_of(m)[i]) by { assert(legal_ent(m[i])); assert(m[i].1.len() > 0 ==> m[i].1[0] != 32); }
    fls_map_is(m, 0); assert(m.take(0) =~= Seq::empty()); assert(m.skip(0) =~= m);
}
impl BinaryMut {
    #[verifier::external_body]
    pub fn into_slice_all(self) -> (r: Vec<u8>) ensures r@ == self.out() { unimplemented!() }
}
/// src/extensions.rs: not looked at here
#[verifier::external_body] pub struct Extensions { p: () }
impl Extensions { #[verifier::external_body] pub fn new() -> (r: Extensions) { unimplemented!() } }
}
fn main() {}

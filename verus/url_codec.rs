//@include prelude.rs
//@include text_model.rs
//@include htok.rs
//@strings
//@globsub &\s*str\b => &Str
//@globsub \bString\b => Text
verus! {
// ================= percent coding =================
/// what the URL writer keeps: unreserved characters and / ? : @ & =
pub open spec fn kept(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 90 || 97 <= b <= 122 || b == 45 || b == 46 || b == 95 || b == 47 || b == 63 || b == 58 || b == 64 || b == 38 || b == 61 }
pub open spec fn is_hexd(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn hexv(b: u8) -> int { if 48 <= b <= 57 { b - 48 } else if 65 <= b <= 70 { b - 55 } else { b - 87 } }
pub open spec fn uphex(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn pct1(b: u8) -> Seq<u8> { seq![37u8, uphex(b as int / 16), uphex(b as int % 16)] }
/// s with every octet that is not to be kept written as %XX
pub open spec fn pct(s: Seq<u8>, keep: spec_fn(u8) -> bool) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { pct(s.drop_last(), keep) + if keep(s.last()) { seq![s.last()] } else { pct1(s.last()) } }
}
/// s with its escapes replaced, unless one is malformed
pub open spec fn unpct(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] != 37 { match unpct(s.skip(1)) { Some(r) => Some(seq![s[0]] + r), None => None } }
    else if s.len() < 3 || !is_hexd(s[1]) || !is_hexd(s[2]) { None }
    else { match unpct(s.skip(3)) { Some(r) => Some(seq![(hexv(s[1]) * 16 + hexv(s[2])) as u8] + r), None => None } }
}
/// a character that may stand in a URL (RFC 3986: unreserved, reserved, and the escape sign)
pub open spec fn url_char(b: u8) -> bool {
    48 <= b <= 57 || 65 <= b <= 90 || 97 <= b <= 122 || b == 45 || b == 46 || b == 95 || b == 126 || b == 37
    || b == 58 || b == 47 || b == 63 || b == 35 || b == 91 || b == 93 || b == 64 || b == 33 || b == 36 || b == 38 || b == 39 || b == 40 || b == 41 || b == 42 || b == 43 || b == 44 || b == 59 || b == 61
}
pub open spec fn k_url() -> spec_fn(u8) -> bool { |b: u8| kept(b) }
pub proof fn lemma_uphex(n: int)
    requires 0 <= n < 16 ensures is_hexd(uphex(n)), hexv(uphex(n)) == n, kept(uphex(n))
{}
#[verifier::spinoff_prover] pub proof fn lemma_unpct_cat(a: Seq<u8>, b: Seq<u8>)
    requires unpct(a) is Some
    ensures unpct(a + b) == (match unpct(b) { Some(r) => Some(unpct(a)->0 + r), None => None::<Seq<u8>> })
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); if unpct(b) is Some { assert(Seq::<u8>::empty() + unpct(b)->0 =~= unpct(b)->0); } }
    else if a[0] != 37 {
        assert((a + b).skip(1) =~= a.skip(1) + b); lemma_unpct_cat(a.skip(1), b);
        if unpct(b) is Some { assert(seq![a[0]] + (unpct(a.skip(1))->0 + unpct(b)->0) =~= seq![a[0]] + unpct(a.skip(1))->0 + unpct(b)->0); }
    } else {
        assert((a + b).skip(3) =~= a.skip(3) + b); lemma_unpct_cat(a.skip(3), b);
        let h = (hexv(a[1]) * 16 + hexv(a[2])) as u8;
        if unpct(b) is Some { assert(seq![h] + (unpct(a.skip(3))->0 + unpct(b)->0) =~= seq![h] + unpct(a.skip(3))->0 + unpct(b)->0); }
    }
}
pub proof fn lemma_unpct1(b: u8)
    ensures unpct(pct1(b)) == Some(seq![b]), b != 37 ==> unpct(seq![b]) == Some(seq![b])
{
    lemma_uphex(b as int / 16); lemma_uphex(b as int % 16);
    assert(pct1(b).skip(3) =~= Seq::empty()); assert(seq![b].skip(1) =~= Seq::empty());
    assert(unpct(Seq::<u8>::empty()) == Some(Seq::<u8>::empty()));
    assert((b as int / 16) * 16 + b as int % 16 == b);
    assert(seq![b] + Seq::<u8>::empty() =~= seq![b]);
}
/// decoding gives back what was encoded, whatever is kept besides the escape sign
pub proof fn lemma_unpct_pct(s: Seq<u8>, keep: spec_fn(u8) -> bool)
    requires !keep(37)
    ensures unpct(pct(s, keep)) == Some(s)
    decreases s.len()
{
    if s.len() == 0 { assert(s =~= Seq::empty()); }
    else {
        let t = if keep(s.last()) { seq![s.last()] } else { pct1(s.last()) };
        lemma_unpct_pct(s.drop_last(), keep); lemma_unpct1(s.last()); lemma_unpct_cat(pct(s.drop_last(), keep), t);
        assert(s.drop_last() + seq![s.last()] =~= s);
    }
}
/// only characters legal in a URL come out
pub proof fn lemma_pct_legal(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < pct(s, k_url()).len() ==> url_char(#[trigger] pct(s, k_url())[i]), is_ascii(pct(s, k_url()))
    decreases s.len()
{
    if s.len() > 0 {
        let t = if k_url()(s.last()) { seq![s.last()] } else { pct1(s.last()) };
        lemma_pct_legal(s.drop_last()); let p = pct(s.drop_last(), k_url());
        lemma_uphex(s.last() as int / 16); lemma_uphex(s.last() as int % 16);
        assert forall|i: int| 0 <= i < pct(s, k_url()).len() implies url_char(#[trigger] pct(s, k_url())[i]) by { if i < p.len() { assert(url_char(p[i])); } else { assert(url_char(t[i - p.len()])); } }
    }
}
/// digits of an octet, however the code takes them apart and puts them together
pub proof fn nib()
    ensures
        forall|b: u8| #[trigger] (b >> 4) == b / 16, forall|b: u8| #[trigger] (b & 15) == b % 16,
        forall|t: u8| t < 16 ==> #[trigger] (t << 4) == t * 16, forall|t: u8, u: u8| t < 16 && u < 16 ==> #[trigger] ((t << 4) | u) == t * 16 + u,
        forall|t: u8, u: u8| t < 16 && u < 16 ==> #[trigger] ((t << 4) ^ u) == t * 16 + u,
{
    assert(forall|b: u8| #[trigger] (b >> 4) == b / 16) by (bit_vector); assert(forall|b: u8| #[trigger] (b & 15) == b % 16) by (bit_vector);
    assert(forall|t: u8| t < 16 ==> #[trigger] (t << 4) == t * 16) by (bit_vector);
    assert(forall|t: u8, u: u8| t < 16 && u < 16 ==> #[trigger] ((t << 4) | u) == t * 16 + u) by (bit_vector);
    assert(forall|t: u8, u: u8| t < 16 && u < 16 ==> #[trigger] ((t << 4) ^ u) == t * 16 + u) by (bit_vector);
}
pub proof fn lemma_pct_step(s: Seq<u8>, k: int, keep: spec_fn(u8) -> bool)
    requires 0 <= k < s.len()
    ensures pct(s.take(k + 1), keep) == pct(s.take(k), keep) + if keep(s[k]) { seq![s[k]] } else { pct1(s[k]) }
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
#[verifier::external_body]
pub fn slice_contains(s: &[u8], b: &u8) -> (r: bool) ensures r == s@.contains(*b) { unimplemented!() }
impl Text {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Text) ensures r.bytes() == Seq::<u8>::empty() { unimplemented!() }
    /// of an ASCII character
    #[verifier::external_body]
    pub fn push(&mut self, c: char) requires (c as u32) < 128 ensures final(self).bytes() == old(self).bytes().push(c as u8) { unimplemented!() }
}
impl Helper {
//@bytemap src/helper.rs | URITRANS_MAP
//@item src/helper.rs | const | HEX_MAP
//@fn src/helper.rs | impl Helper | is_not_uritrans
//@ret r
//@spec
        ensures r == kept(b)
//@end
//@fn src/helper.rs | impl Helper | to_hex
//@ret r
//@spec
        requires b < 16
        ensures r == uphex(b as int)
//@end
//@fn src/helper.rs | impl Helper | convert_hex
//@ret r
//@spec
        ensures match r { Some(v) => is_hexd(b) && v == hexv(b), None => !is_hexd(b) }
//@end
}
pub struct UrlCodec;   // the coding functions of impl Url
impl UrlCodec {
//@fn src/url/url.rs | impl Url | url_encode
//@ret r
//@sub Vec::with_capacity\(\(1\.2.*?as usize\) => Vec::with_capacity(0)
//@sub from_utf8_lossy\(&vec\) => from_utf8_lossy(vec.as_slice())
//@sub \(b / 16\) => (*b / 16)
//@sub \(b % 16\) => (*b % 16)
//@sub \(b >> 4\) => (*b >> 4)
//@sub \(b & (15|0xf|0xF|0x0f|0x0F)\) => (*b & 15)
//@spec
        ensures r.bytes() == pct(val.bytes(), k_url())
//@loop 0
            invariant bytes@ == val.bytes(), it0.seq().len() == bytes@.len(), forall|j: int| 0 <= j < bytes@.len() ==> *it0.seq()[j] == bytes@[j],
                vec@ == pct(bytes@.take(it0.index@), k_url()),
//@at start 0
            proof { nib(); lemma_pct_step(bytes@, it0.index@, k_url()); }
            let ghost v0 = vec@;
//@at end 0
            proof { assert(vec@ =~= v0 + if kept(*b) { seq![*b] } else { pct1(*b) }); }
//@at after 0
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); lemma_pct_legal(bytes@); ascii_utf8(vec@); }
//@end
//@fn src/url/url.rs | impl Url | escape
//@ret r
//@sub !reserved\.contains\(&b\) => !slice_contains(reserved, &b)
//@spec
        ensures r.bytes() == pct(val.bytes(), k_esc(reserved@))
//@loop 0
            invariant it0.seq().len() == val.bytes().len(), forall|j: int| 0 <= j < val.bytes().len() ==> *it0.seq()[j] == val.bytes()[j],
                result.bytes() == pct(val.bytes().take(it0.index@), k_esc(reserved@)),
//@at start 0
            proof { nib(); lemma_pct_step(val.bytes(), it0.index@, k_esc(reserved@)); lemma_uphex(*b_ref as int / 16); lemma_uphex(*b_ref as int % 16); }
            let ghost v0 = result.bytes();
//@at end 0
            proof { assert(result.bytes() =~= v0 + if k_esc(reserved@)(*b_ref) { seq![*b_ref] } else { pct1(*b_ref) }); }
//@at after 0
        proof { assert(val.bytes().take(val.bytes().len() as int) =~= val.bytes()); }
//@end
//@fn src/url/url.rs | impl Url | url_decode
//@ret r
//@sub from_utf8_lossy\(&vec\) => from_utf8_lossy(vec.as_slice())
//@spec
        ensures match unpct(val.bytes()) { Some(v) => r is Ok && (utf8(v) ==> r->Ok_0.bytes() == v), None => r is Err }
//@loop 0
            invariant bytes@ == val.bytes(), idx <= bytes@.len() <= isize::MAX,
                unpct(val.bytes()) == (match unpct(bytes@.skip(idx as int)) { Some(x) => Some(vec@ + x), None => None::<Seq<u8>> }),
            ensures idx == bytes@.len(),
            decreases bytes@.len() - idx
//@at start 0
            let ghost i0: int = idx as int; let ghost v0: Seq<u8> = vec@;
            proof { nib(); }
            proof { if i0 < bytes@.len() { let t = bytes@.skip(i0); assert(t[0] == bytes@[i0]); assert(t.skip(1) =~= bytes@.skip(i0 + 1)); if i0 + 2 < bytes@.len() { assert(t[1] == bytes@[i0 + 1]); assert(t[2] == bytes@[i0 + 2]); assert(t.skip(3) =~= bytes@.skip(i0 + 3)); } } }
//@at end 0
            proof { let x = unpct(bytes@.skip(idx as int)); if x is Some { assert(vec@ + x->0 =~= v0 + (seq![vec@.last()] + x->0)); } }
//@at before 0
        proof { assert(bytes@.skip(0) =~= bytes@); if unpct(bytes@) is Some { assert(Seq::<u8>::empty() + unpct(bytes@)->0 =~= unpct(bytes@)->0); } }
//@at after 0
        proof { assert(bytes@.skip(bytes@.len() as int) =~= Seq::empty()); assert(vec@ + Seq::<u8>::empty() =~= vec@); }
//@end
}
/// what escape keeps: printable octets that are neither the escape sign nor reserved there
pub open spec fn k_esc(res: Seq<u8>) -> spec_fn(u8) -> bool { |b: u8| vchar(b) && b != 37 && !res.contains(b) }
}
fn main() {}

//@include h2_header.rs
verus! {
// reading what was written gives the same header and consumes exactly its octets
pub proof fn lemma_fh_roundtrip(h: FrameHeader, t: Seq<u8>)
    requires h.length < 0x1000000, h.id.0 < 0x80000000, h.flag.b & 0x2d == h.flag.b,
    ensures fh_octets(h).len() == 9, fh_some(fh_octets(h) + t),
        (fh_octets(h) + t).skip(9) == t,
        h.kind != Kind::Unregistered ==> fh_is(fh_octets(h) + t, h),
        forall|g: FrameHeader| fh_is(fh_octets(h) + t, g) ==> g.length == h.length && g.id == h.id && g.flag == h.flag && g.kind == h.kind,
{
    let s = fh_octets(h) + t;
    reveal_with_fuel(pow256, 5);
    be_inverse(h.length as nat, 3); be_inverse(h.id.0 as nat, 4);
    assert(s.take(3) =~= be_bytes(h.length as nat, 3));
    assert(s.skip(5).take(4) =~= be_bytes(h.id.0 as nat, 4));
    assert(s.skip(9) =~= t);
    assert(s[3] == kind_num(h.kind)); assert(s[4] == h.flag.b);
    assert(kind_of(kind_num(h.kind)) == h.kind);
}
// the reserved bit is ignored, the rest of the nine octets matters
pub proof fn lemma_fh_reserved(s: Seq<u8>, v: u8, h: FrameHeader)
    requires fh_some(s), fh_is(s, h), v % 128 == s[5] % 128,
    ensures fh_some(s.update(5, v)), fh_is(s.update(5, v), h),
{
    let u = s.update(5, v);
    assert(u.take(3) =~= s.take(3));
    let (a, b) = (s.skip(5).take(4), u.skip(5).take(4));
    be4(a); be4(b);
    assert(a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[0] == s[5] && b[0] == v);
    let r = a[1] * 65536 + a[2] * 256 + a[3];
    assert(be(a) % 0x80000000 == be(b) % 0x80000000) by {
        assert(be(a) == s[5] * 0x1000000 + r); assert(be(b) == v * 0x1000000 + r);
        assert(s[5] * 0x1000000 == (s[5] / 128) * 0x80000000 + (s[5] % 128) * 0x1000000);
        assert(v * 0x1000000 == (v / 128) * 0x80000000 + (v % 128) * 0x1000000);
    }
}
// nothing but 10..255 reads as unregistered
pub proof fn lemma_kinds(n: u8)
    ensures n <= 9 ==> kind_num(kind_of(n)) == n, n > 9 <==> kind_of(n) == Kind::Unregistered,
{ }
}
fn main() {}

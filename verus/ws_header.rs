//@include prelude.rs
//@import bits.rs
//@globsub &\s*mut\s+dyn\s+BtMut => &mut impl BtMut
verus! {
// ---------------- RFC 6455 section 5.2 ----------------
//@bitflags src/ws/frame_header.rs | WsFrameFlags
//@item src/ws/frame_header.rs | struct | WsFrameHeader | derive=Clone, Copy
pub open spec fn ext_len(len: u64) -> nat { if len <= 125 { 0 } else if len <= 65535 { 2 } else { 8 } }
pub open spec fn len7(len: u64) -> u8 { if len <= 125 { len as u8 } else if len <= 65535 { 126 } else { 127 } }
pub open spec fn hdr_octets(h: WsFrameHeader) -> Seq<u8> {
    seq![h.flags.b | h.opcode, (if h.mask is Some { (128 + len7(h.len)) as u8 } else { len7(h.len) })]
        + be_bytes(h.len as nat, ext_len(h.len)) + (match h.mask { Some(m) => m@, None => Seq::empty() })
}
pub open spec fn hdr_size(len: nat, masked: bool) -> nat {
    2 + (if len <= 125 { 0nat } else if len <= 65535 { 2 } else { 8 }) + (if masked { 4nat } else { 0 })
}
/// header and number of octets, or None: incomplete or not allowed
pub open spec fn hdr_read(s: Seq<u8>) -> Option<(nat, nat)> // (payload length, offset after the length)
{
    if s.len() < 2 { None } else {
        let l = s[1] % 128;
        if l <= 125 { Some((l as nat, 2)) }
        else if l == 126 { if s.len() >= 4 && be(s.skip(2).take(2)) > 125 { Some((be(s.skip(2).take(2)), 4)) } else { None } }
        else { if s.len() >= 10 && be(s.skip(2).take(8)) > 65535 { Some((be(s.skip(2).take(8)), 10)) } else { None } }
    }
}
/// octets of a complete, allowed header at the start of s
pub open spec fn hdr_total(s: Seq<u8>) -> Option<nat> {
    match hdr_read(s) {
        None => None,
        Some((len, k)) => if s[0] % 16 >= 8 && (len > 125 || s[0] < 128) { None }
            else if s[1] < 128 { Some(k) }
            else if s.len() >= k + 4 { Some(k + 4) } else { None } }
}
pub open spec fn hdr_is(s: Seq<u8>, h: WsFrameHeader) -> bool {
    match hdr_read(s) {
        None => false,
        Some((len, k)) => {
            &&& h.len == len && h.opcode == s[0] % 16 && h.flags.b == s[0] - s[0] % 16
            &&& if s[1] >= 128 { h.mask is Some && h.mask->0@ =~= s.skip(k as int).take(4) } else { h.mask is None }
        }
    }
}
//@fn src/ws/frame_header.rs | | write_header
//@ret r
//@spec
        ensures
            r is Err <==> (header.opcode > 15 || (header.opcode >= 8 && header.len > 125)),
            r is Err ==> final(writer).out() == old(writer).out(),
            r is Ok ==> final(writer).out() == old(writer).out() + hdr_octets(header),
//@at start
    proof { bits8(); reveal_with_fuel(be_bytes, 9); }
    let ghost o0 = writer.out();
//@end
//@fn src/ws/frame_header.rs | | read_header
//@ret r
//@spec
        ensures match r {
            Ok(h) => hdr_total(old(reader).rem()) is Some && final(reader).rem() == old(reader).rem().skip(hdr_total(old(reader).rem())->0 as int) && hdr_is(old(reader).rem(), h),
            Err(_) => hdr_total(old(reader).rem()) is None },
//@at start
    proof { bits8(); broadcast use skip_skip; }
//@end
// ---- the property ----
pub open spec fn hdr_wf(h: WsFrameHeader) -> bool {
    h.opcode <= 15 && h.flags.b % 16 == 0 && (h.opcode >= 8 ==> h.len <= 125 && h.flags.b >= 128)
}
proof fn ored(f: u8, o: u8)
    requires f % 16 == 0, o <= 15
    ensures (f | o) == f + o, (f | o) % 16 == o,
{ assert((f | o) == add(f, o) && (f | o) % 16 == o && f <= 240) by (bit_vector) requires f % 16 == 0, o <= 15; }
/// what is written is read back, with exactly its octets, whatever follows; its size is the announced one
pub proof fn w01_roundtrip(h: WsFrameHeader, rest: Seq<u8>)
    requires hdr_wf(h),
    ensures
        hdr_total(hdr_octets(h) + rest) == Some(hdr_octets(h).len()), hdr_is(hdr_octets(h) + rest, h),
        hdr_octets(h).len() == hdr_size(h.len as nat, h.mask is Some),
{
    let o = hdr_octets(h); let s = o + rest; let e = ext_len(h.len);
    ored(h.flags.b, h.opcode);
    be_bytes_len(h.len as nat, e);
    assert(pow256(2) == 65536 && pow256(8) == 18446744073709551616) by (compute);
    if e > 0 {
        be_inverse(h.len as nat, e);
        assert(s.skip(2).take(e as int) =~= be_bytes(h.len as nat, e));
    }
    if h.mask is Some { assert(s.skip(2 + e as int).take(4) =~= h.mask->0@); }
}
/// a part of a header is refused
pub proof fn w01_prefix(h: WsFrameHeader, k: int)
    requires hdr_wf(h), 0 <= k < hdr_octets(h).len(),
    ensures hdr_total(hdr_octets(h).take(k)) is None,
{
    let o = hdr_octets(h); let s = o.take(k); let e = ext_len(h.len);
    w01_roundtrip(h, Seq::empty());
    be_bytes_len(h.len as nat, e);
    if e > 0 && k >= 2 + e {
        assert(s.skip(2).take(e as int) =~= (o + Seq::<u8>::empty()).skip(2).take(e as int));
    }
}
/// and only one way of writing a header is read at all
pub proof fn w01_canonical(s: Seq<u8>, h: WsFrameHeader)
    requires hdr_total(s) is Some, hdr_is(s, h),
    ensures hdr_octets(h) == s.take(hdr_total(s)->0 as int), hdr_wf(h),
{
    let e = ext_len(h.len); let n = hdr_total(s)->0 as int;
    ored(h.flags.b, h.opcode);
    assert(pow256(2) == 65536 && pow256(8) == 18446744073709551616) by (compute);
    if e > 0 { be_inverse2(s.skip(2).take(e as int)); }
    be_inverse2(s.skip(2).take(2));
    assert(hdr_octets(h) =~= s.take(n));
}
}

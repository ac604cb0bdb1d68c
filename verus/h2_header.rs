//@include prelude.rs
//@include bin_model.rs
//@globsub \bsuper\s*::\s*Kind\b => Kind
verus! {
// ---------------- RFC 7540 section 4.1 ----------------
pub proof fn be2(s: Seq<u8>) requires s.len() == 2 ensures be(s) == s[0] * 256 + s[1] { reveal_with_fuel(be, 3); }
pub proof fn be3(s: Seq<u8>) requires s.len() == 3 ensures be(s) == s[0] * 65536 + s[1] * 256 + s[2] { reveal_with_fuel(be, 4); assert(s.drop_last().drop_last()[0] == s[0]); }
pub proof fn be4(s: Seq<u8>) requires s.len() == 4 ensures be(s) == s[0] * 0x1000000 + s[1] * 65536 + s[2] * 256 + s[3] { reveal_with_fuel(be, 5); let a = s.drop_last().drop_last().drop_last(); assert(a[0] == s[0] && a.len() == 1); assert(s.drop_last().drop_last()[1] == s[1]); assert(be(a.drop_last()) == 0); }
pub proof fn be_bytes2(v: nat) ensures be_bytes(v, 2) =~= seq![(v / 256 % 256) as u8, (v % 256) as u8] { reveal_with_fuel(be_bytes, 3); }
pub proof fn be_bytes3(v: nat) ensures be_bytes(v, 3) =~= seq![(v / 65536 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8] {
    reveal_with_fuel(be_bytes, 4);
    assert(v / 256 / 256 == v / 65536) by (nonlinear_arith);
}
impl Binary {
//@fn src/serialize.rs | impl Serialize for Binary | serialize
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(old(self).rem().len() as usize), final(self).rem() == old(self).rem(), final(buffer).out() == old(buffer).out() + old(self).rem(),
//@end
}
//@bitflags src/http/http2/frame/flag.rs | Flag
impl Flag {
//@fn src/http/http2/frame/flag.rs | impl Flag | zero
//@ret r
//@spec
        ensures r.b == 0,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | new
//@ret r
//@spec
        ensures match r { Ok(f) => f.b == data && data & 0x2d == data, Err(_) => data & 0x2d != data },
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | ack
//@ret r
//@spec
        ensures r.b == 1,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | is_ack
//@ret r
//@spec
        ensures r == (self.b & 1 == 1),
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | is_end_stream
//@ret r
//@spec
        ensures r == (self.b & 1 == 1),
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | end_stream
//@ret r
//@spec
        ensures r.b == 1,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | set_end_stream
//@spec
        ensures final(self).b == old(self).b | 1,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | unset_end_stream
//@spec
        ensures final(self).b == old(self).b & !1u8,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | end_headers
//@ret r
//@spec
        ensures r.b == 4,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | is_end_headers
//@ret r
//@spec
        ensures r == (self.b & 4 == 4),
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | set_end_headers
//@spec
        ensures final(self).b == old(self).b | 4,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | unset_end_headers
//@spec
        ensures final(self).b == old(self).b & !4u8,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | padded
//@ret r
//@spec
        ensures r.b == 8,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | is_padded
//@ret r
//@spec
        ensures r == (self.b & 8 == 8),
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | set_padded
//@spec
        ensures final(self).b == old(self).b | 8,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | unset_padded
//@spec
        ensures final(self).b == old(self).b & !8u8,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | priority
//@ret r
//@spec
        ensures r.b == 0x20,
//@end
//@fn src/http/http2/frame/flag.rs | impl Flag | is_priority
//@ret r
//@spec
        ensures r == (self.b & 0x20 == 0x20),
//@end
}
//@item src/http/http2/frame/kind.rs | enum | Kind | derive=Clone, Copy, PartialEq, Eq, Structural
pub open spec fn kind_of(n: u8) -> Kind {
    if n == 0 { Kind::Data } else if n == 1 { Kind::Headers } else if n == 2 { Kind::Priority } else if n == 3 { Kind::Reset } else if n == 4 { Kind::Settings }
    else if n == 5 { Kind::PushPromise } else if n == 6 { Kind::Ping } else if n == 7 { Kind::GoAway } else if n == 8 { Kind::WindowUpdate }
    else if n == 9 { Kind::Continuation } else { Kind::Unregistered }
}
pub open spec fn kind_num(k: Kind) -> u8 {
    match k { Kind::Data => 0, Kind::Headers => 1, Kind::Priority => 2, Kind::Reset => 3, Kind::Settings => 4, Kind::PushPromise => 5, Kind::Ping => 6,
        Kind::GoAway => 7, Kind::WindowUpdate => 8, Kind::Continuation => 9, Kind::Unregistered => 255 }
}
impl Kind {
//@fn src/http/http2/frame/kind.rs | impl Kind | new
//@ret r
//@spec
        ensures r == kind_of(byte),
//@end
//@fn src/http/http2/frame/kind.rs | impl Kind | encode
//@sub match\s+\*\s*self => match self
//@ret r
//@spec
        ensures r == kind_num(*self),
//@end
}
//@item src/http/http2/frame/mod.rs | struct | StreamIdentifier | derive=Clone, Copy, PartialEq, Eq, Structural
//@item src/http/http2/frame/mod.rs | const | MASK_U31
//@sub const MASK_U31\s*:\s*u32\s*=\s*([^;]*); => exec const MASK_U31: u32 ensures MASK_U31 == 0x7fffffff { proof { m31(); } \1 }
/// 32-bit operations as arithmetic
proof fn m31()
    ensures 0x7fffffffu32 == ((1u32 << 31) - 1), (1u32 << 31) == 0x80000000u32, forall|v: u32| #[trigger] (v & 0x7fffffff) == v % 0x80000000,
        forall|v: u32| #[trigger] (v & !0x80000000u32) == v % 0x80000000, !0x7fffffffu32 == 0x80000000u32, !0x80000000u32 == 0x7fffffffu32,
        forall|v: u32| v < 0x80000000 ==> #[trigger] (v | 0x80000000) == v + 0x80000000, forall|v: u32| #[trigger] (v | 0) == v,
        forall|v: u32| #[trigger] (v & 0x80000000) == (if v >= 0x80000000 { 0x80000000u32 } else { 0u32 }), forall|v: u32| #[trigger] (v >> 31) == v / 0x80000000,
        forall|v: u32| #[trigger] (v & 0xff) == v % 256, forall|v: u32| #[trigger] (v >> 24) == v / 0x1000000, forall|v: u32| #[trigger] (v >> 16) == v / 65536, forall|v: u32| #[trigger] (v >> 8) == v / 256, forall|v: u32| #[trigger] (v >> 0) == v,
        forall|v: u32| v < 256 ==> #[trigger] (v << 24) == v * 0x1000000, forall|v: u32| v < 256 ==> #[trigger] (v << 16) == v * 65536, forall|v: u32| v < 65536 ==> #[trigger] (v << 8) == v * 256,
        forall|a: u32, b: u32| #[trigger] (a | b) == b | a, forall|a: u32, b: u32| #[trigger] (a & b) == b & a, (0u32 << 31) == 0u32,
        // parts that share no bit
        forall|a: u32, b: u32| a % 256 == 0 && b < 256 ==> #[trigger] (a | b) == a + b, forall|a: u32, b: u32| a % 65536 == 0 && b < 65536 ==> #[trigger] (a | b) == a + b,
{
    assert((1u32 << 31) == 0x80000000u32 && (0u32 << 31) == 0u32) by (bit_vector);
    assert(forall|v: u32| #[trigger] (v & 0x7fffffff) == v % 0x80000000) by (bit_vector);
    assert(forall|v: u32| #[trigger] (v & !0x80000000u32) == v % 0x80000000) by (bit_vector);
    assert(!0x7fffffffu32 == 0x80000000u32) by (bit_vector); assert(!0x80000000u32 == 0x7fffffffu32) by (bit_vector);
    assert(forall|v: u32| v < 0x80000000 ==> #[trigger] (v | 0x80000000) == add(v, 0x80000000)) by (bit_vector); assert(forall|v: u32| #[trigger] (v | 0) == v) by (bit_vector);
    assert(forall|v: u32| #[trigger] (v & 0x80000000) == (if v >= 0x80000000 { 0x80000000u32 } else { 0u32 })) by (bit_vector); assert(forall|v: u32| #[trigger] (v >> 31) == v / 0x80000000) by (bit_vector);
    assert(forall|v: u32| #[trigger] (v & 0xff) == v % 256) by (bit_vector); assert(forall|v: u32| #[trigger] (v >> 24) == v / 0x1000000) by (bit_vector); assert(forall|v: u32| #[trigger] (v >> 16) == v / 65536) by (bit_vector); assert(forall|v: u32| #[trigger] (v >> 8) == v / 256) by (bit_vector);
    assert(forall|v: u32| #[trigger] (v >> 0) == v) by (bit_vector);
    assert(forall|v: u32| v < 256 ==> #[trigger] (v << 24) == mul(v, 0x1000000)) by (bit_vector); assert(forall|v: u32| v < 256 ==> #[trigger] (v << 16) == mul(v, 65536)) by (bit_vector); assert(forall|v: u32| v < 65536 ==> #[trigger] (v << 8) == mul(v, 256)) by (bit_vector);
    assert(forall|a: u32, b: u32| #[trigger] (a | b) == b | a) by (bit_vector); assert(forall|a: u32, b: u32| #[trigger] (a & b) == b & a) by (bit_vector);
    assert(forall|a: u32, b: u32| a % 256 == 0 && b < 256 ==> #[trigger] (a | b) == add(a, b)) by (bit_vector); assert(forall|a: u32, b: u32| a % 65536 == 0 && b < 65536 ==> #[trigger] (a | b) == add(a, b)) by (bit_vector);
    assert forall|a: u32, b: u32| a % 256 == 0 && b < 256 implies #[trigger] (a | b) == a + b by {} assert forall|a: u32, b: u32| a % 65536 == 0 && b < 65536 implies #[trigger] (a | b) == a + b by {}
}
//@fn src/http/http2/frame/mod.rs | | read_u31
//@ret r
//@spec
        ensures old(buf).rem().len() >= 4 ==> r == be(old(buf).rem().take(4)) % 0x80000000 && final(buf).rem() == old(buf).rem().skip(4),
            old(buf).rem().len() < 4 ==> r == 0 && final(buf).rem() == old(buf).rem(),
//@at start
    proof { m31(); }
//@end
//@fn src/http/http2/frame/mod.rs | | read_u24
//@ret r
//@spec
        ensures old(buf).rem().len() >= 3 ==> r == be(old(buf).rem().take(3)) && final(buf).rem() == old(buf).rem().skip(3),
            old(buf).rem().len() < 3 ==> r == 0 && final(buf).rem() == old(buf).rem(),
//@at start
    proof { broadcast use skip_skip; if buf.rem().len() >= 3 { m31(); let t = buf.rem(); be3(t.take(3)); be2(t.take(2)); be2(t.skip(1).take(2)); } }
//@end
/// what `as u8` keeps
#[verifier::spinoff_prover]
proof fn trunc8(v: u32) ensures (v / 65536) as u8 == (v as nat / 65536 % 256) as u8, (v / 256) as u8 == (v as nat / 256 % 256) as u8, v as u8 == (v as nat % 256) as u8,
    ((v as u16) as nat / 256 % 256) as u8 == (v as nat / 256 % 256) as u8, ((v as u16) as nat % 256) as u8 == (v as nat % 256) as u8, ((v / 256) as u16 as nat / 256 % 256) as u8 == (v as nat / 65536 % 256) as u8, ((v / 256) as u16 as nat % 256) as u8 == (v as nat / 256 % 256) as u8,
    ((v / 65536) % 256) as u8 == (v as nat / 65536 % 256) as u8, ((v / 256) % 256) as u8 == (v as nat / 256 % 256) as u8
{
    assert((v / 65536) as u8 == ((v / 65536) % 256) as u8 && (v / 256) as u8 == ((v / 256) % 256) as u8 && v as u8 == (v % 256) as u8) by (bit_vector);
    assert((v as u16) / 256 == ((v / 256) % 256) as u16 && (v as u16) % 256 == (v % 256) as u16) by (bit_vector);
    assert(((v / 256) as u16) / 256 == ((v / 65536) % 256) as u16 && ((v / 256) as u16) % 256 == ((v / 256) % 256) as u16) by (bit_vector);
    assert(((v as u16) / 256) % 256 == (v as u16) / 256) by (bit_vector); assert((((v / 256) as u16) / 256) % 256 == ((v / 256) as u16) / 256) by (bit_vector);
}
//@fn src/http/http2/frame/mod.rs | | encode_u24
//@ret r
//@spec
        ensures r == 3, final(buf).out() == old(buf).out() + be_bytes(val as nat, 3),
//@at start
    proof { be_bytes3(val as nat); m31(); let o = buf.out(); let (x, y, z) = ((val / 65536) as u8, (val / 256) as u8, val as u8); trunc8(val); be_bytes2((val as u16) as nat); be_bytes2((val / 256) as u16 as nat); assert(o + seq![x] + seq![y, z] =~= (o + seq![x, y, z])); assert(o + seq![x, y] + seq![z] =~= (o + seq![x, y, z])); assert(o + seq![x] + seq![y] + seq![z] =~= (o + seq![x, y, z])); }
//@end
impl StreamIdentifier {
//@fn src/http/http2/frame/mod.rs | impl StreamIdentifier | parse
//@ret r
//@spec
        ensures old(buf).rem().len() >= 4 ==> r.0 == be(old(buf).rem().take(4)) % 0x80000000 && final(buf).rem() == old(buf).rem().skip(4),
            old(buf).rem().len() < 4 ==> r.0 == 0 && final(buf).rem() == old(buf).rem(),
//@end
//@fn src/http/http2/frame/mod.rs | impl StreamIdentifier | zero
//@ret r
//@spec
        ensures r.0 == 0,
//@end
//@fn src/http/http2/frame/mod.rs | impl StreamIdentifier | is_zero
//@ret r
//@spec
        ensures r == (self.0 == 0),
//@end
//@fn src/http/http2/frame/mod.rs | impl StreamIdentifier | encode
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(4), final(buffer).out() == old(buffer).out() + be_bytes(self.0 as nat, 4),
//@end
}
//@item src/http/http2/frame/frame.rs | struct | FrameHeader | derive=Clone, Copy
//@item src/http/http2/frame/frame.rs | const | FRAME_HEADER_BYTES
pub open spec fn fh_octets(h: FrameHeader) -> Seq<u8> {
    be_bytes(h.length as nat, 3) + seq![kind_num(h.kind), h.flag.b] + be_bytes(h.id.0 as nat, 4)
}
pub open spec fn fh_some(s: Seq<u8>) -> bool { s.len() >= 9 && s[4] & 0x2d == s[4] }
pub open spec fn fh_is(s: Seq<u8>, h: FrameHeader) -> bool {
    h.length == be(s.take(3)) && h.kind == kind_of(s[3]) && h.flag.b == s[4] && h.id.0 == be(s.skip(5).take(4)) % 0x80000000
}
impl FrameHeader {
//@fn src/http/http2/frame/frame.rs | impl FrameHeader | new
//@ret r
//@spec
        ensures r == (FrameHeader { length: 0, kind, flag, id }),
//@end
//@fn src/http/http2/frame/frame.rs | impl FrameHeader | kind
//@ret r
//@spec
        ensures *r == self.kind,
//@end
//@fn src/http/http2/frame/frame.rs | impl FrameHeader | stream_id
//@ret r
//@spec
        ensures r == self.id,
//@end
//@fn src/http/http2/frame/frame.rs | impl FrameHeader | flag
//@ret r
//@spec
        ensures r == self.flag,
//@end
//@fn src/http/http2/frame/frame.rs | impl FrameHeader | flags_mut
//@ret r
//@spec
        ensures *r == old(self).flag, *final(r) == final(self).flag, final(self).length == old(self).length, final(self).kind == old(self).kind, final(self).id == old(self).id,
//@end
//@fn src/http/http2/frame/frame.rs | impl FrameHeader | parse
//@sub \|\s*\(\s*\)\s*\| => |_e: ()|
//@ret r
//@spec
        ensures match r {
            Ok(h) => fh_some(old(buffer).rem()) && fh_is(old(buffer).rem(), h) && final(buffer).rem() == old(buffer).rem().skip(9),
            Err(_) => !fh_some(old(buffer).rem()) },
//@at start
        proof { broadcast use skip_skip; let s = buffer.rem(); if s.len() >= 9 { assert(s.skip(3).skip(1).skip(1).skip(4) =~= s.skip(9)); } }
//@end
//@fn src/http/http2/frame/frame.rs | impl FrameHeader | encode
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(9), final(buffer).out() == old(buffer).out() + fh_octets(*self),
//@at start
        proof { let o = buffer.out(); let (a, k, f, i) = (be_bytes(self.length as nat, 3), kind_num(self.kind), self.flag.b, be_bytes(self.id.0 as nat, 4)); assert(o + a + seq![k] + seq![f] + i =~= (o + (a + seq![k, f] + i))); }
//@end
}
}
fn main() {}

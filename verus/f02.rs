//@include h2_control.rs
verus! {
// a frame's octets are a header announcing the length carried, followed by the payload
pub proof fn lemma_frame(kind: Kind, flag: u8, id: nat, payload: Seq<u8>, h: FrameHeader)
    requires payload.len() < 0x1000000, id < 0x80000000, flag & 0x2d == flag, fh_is(frame_octets(kind, flag, id, payload), h),
    ensures fh_some(frame_octets(kind, flag, id, payload)), frame_octets(kind, flag, id, payload).skip(9) == payload,
        h.length == payload.len(), h.kind == kind, h.flag.b == flag, h.id.0 == id,
{
    let s = frame_octets(kind, flag, id, payload);
    reveal_with_fuel(pow256, 5);
    be_inverse(payload.len() as nat, 3); be_inverse(id, 4);
    assert(s.take(3) =~= be_bytes(payload.len(), 3));
    assert(s.skip(5).take(4) =~= be_bytes(id, 4));
    assert(s.skip(9) =~= payload);
    assert(s[3] == kind_num(kind)); assert(s[4] == flag);
}
proof fn fl() ensures 0u8 & 0x2d == 0u8, 1u8 & 0x2d == 1u8, 0u8 & 1 == 0u8, 1u8 & 1 == 1u8 {
    assert(0u8 & 0x2d == 0u8) by (bit_vector); assert(1u8 & 0x2d == 1u8) by (bit_vector); assert(0u8 & 1 == 0u8) by (bit_vector); assert(1u8 & 1 == 1u8) by (bit_vector);
}
pub proof fn lemma_ping(p: Ping, h: FrameHeader)
    requires fh_is(ping_octets(p), h),
    ensures fh_some(ping_octets(p)), h.kind == Kind::Ping, h.length == 8, ping_some(h, ping_octets(p).skip(9)), ping_is(h, ping_octets(p).skip(9), p),
        forall|q: Ping| ping_is(h, ping_octets(p).skip(9), q) ==> q.ack == p.ack && q.payload@ == p.payload@,
{ fl(); lemma_frame(Kind::Ping, if p.ack { 1 } else { 0 }, 0, p.payload@, h); }
pub proof fn lemma_reset(p: Reset, h: FrameHeader)
    requires fh_is(reset_octets(p), h), p.stream_id.0 < 0x80000000,
    ensures fh_some(reset_octets(p)), h.kind == Kind::Reset, h.length == 4, reset_octets(p).skip(9).len() == 4,
        forall|q: Reset| reset_is(h, reset_octets(p).skip(9), q) <==> q == p,
{ fl(); reveal_with_fuel(pow256, 5); be_inverse(p.error_code.0 as nat, 4); lemma_frame(Kind::Reset, 0, p.stream_id.0 as nat, be_bytes(p.error_code.0 as nat, 4), h); }
pub proof fn lemma_winup(p: WindowUpdate, h: FrameHeader)
    requires fh_is(winup_octets(p), h), p.stream_id.0 < 0x80000000, 0 < p.size_increment < 0x80000000,
    ensures fh_some(winup_octets(p)), h.kind == Kind::WindowUpdate, h.length == 4, winup_some(winup_octets(p).skip(9)),
        forall|q: WindowUpdate| winup_is(h, winup_octets(p).skip(9), q) <==> q == p,
{ fl(); reveal_with_fuel(pow256, 5); be_inverse(p.size_increment as nat, 4); lemma_frame(Kind::WindowUpdate, 0, p.stream_id.0 as nat, be_bytes(p.size_increment as nat, 4), h); }
pub proof fn lemma_goaway(p: GoAway, h: FrameHeader)
    requires fh_is(goaway_octets(p), h), p.last_stream_id.0 < 0x80000000, p.debug_data.rem().len() + 8 < 0x1000000,
    ensures fh_some(goaway_octets(p)), h.kind == Kind::GoAway, h.length == 8 + p.debug_data.rem().len(), goaway_octets(p).skip(9).len() >= 8,
        forall|q: GoAway| goaway_is(goaway_octets(p).skip(9), q) ==> q.last_stream_id == p.last_stream_id && q.error_code == p.error_code && q.debug_data.rem() == p.debug_data.rem(),
        goaway_is(goaway_octets(p).skip(9), p),
{
    fl(); reveal_with_fuel(pow256, 5); be_inverse(p.error_code.0 as nat, 4); be_inverse(p.last_stream_id.0 as nat, 4);
    let s = goaway_payload(p);
    lemma_frame(Kind::GoAway, 0, 0, s, h);
    assert(s.take(4) =~= be_bytes(p.last_stream_id.0 as nat, 4));
    assert(s.skip(4).take(4) =~= be_bytes(p.error_code.0 as nat, 4));
    assert(s.skip(8) =~= p.debug_data.rem());
}
pub proof fn lemma_prio(p: Priority, h: FrameHeader)
    requires fh_is(prio_octets(p), h), p.stream_id.0 < 0x80000000, p.dependency.dependency_id.0 < 0x80000000, p.dependency.dependency_id != p.stream_id,
    ensures fh_some(prio_octets(p)), h.kind == Kind::Priority, h.length == 5, prio_some(h, prio_octets(p).skip(9)), h.id == p.stream_id,
        forall|q: StreamDependency| dep_is(prio_octets(p).skip(9), q) <==> q == p.dependency,
{
    fl(); reveal_with_fuel(pow256, 5); let n = p.dependency.dependency_id.0 as nat + if p.dependency.is_exclusive { 0x80000000nat } else { 0 };
    be_inverse(n, 4);
    let s = dep_octets(p.dependency);
    lemma_frame(Kind::Priority, 0, p.stream_id.0 as nat, s, h);
    assert(s.take(4) =~= be_bytes(n, 4));
}
}
fn main() {}

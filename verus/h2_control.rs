//@include h2_header.rs
//@globsub \bsuper\s*::\s*Kind\b => Kind
//@globsub \bflags\s*\.\s*into\s*\(\s*\) => flags
//@globsub \bcrate\s*::\s*WebResult\b => WebResult
verus! {
//@item src/http/http2/frame/reason.rs | struct | Reason | derive=Clone, Copy, PartialEq, Eq, Structural
//@item src/http/http2/frame/ping.rs | type | Payload
//@item src/http/http2/frame/ping.rs | struct | Ping
//@item src/http/http2/frame/reset.rs | struct | Reset
//@item src/http/http2/frame/window_update.rs | struct | WindowUpdate
//@item src/http/http2/frame/window_update.rs | const | SIZE_INCREMENT_MASK
//@sub const SIZE_INCREMENT_MASK\s*:\s*u32\s*=\s*([^;]*); => exec const SIZE_INCREMENT_MASK: u32 ensures SIZE_INCREMENT_MASK == 0x80000000 { proof { m31(); } \1 }
//@item src/http/http2/frame/go_away.rs | struct | GoAway
//@item src/http/http2/frame/priority.rs | struct | Priority
//@item src/http/http2/frame/priority.rs | struct | StreamDependency

impl vstd::std_specs::convert::FromSpecImpl<u32> for Reason { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: u32) -> Reason { Reason(e) } }
impl From<u32> for Reason {
//@fn src/http/http2/frame/reason.rs | impl From<u32> for Reason | from
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Reason> for u32 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Reason) -> u32 { e.0 } }
impl From<Reason> for u32 {
//@fn src/http/http2/frame/reason.rs | impl From<Reason> for u32 | from
//@end
}
// the octets of each frame (RFC 7540 6.3, 6.4, 6.7, 6.8, 6.9)
pub open spec fn frame_octets(kind: Kind, flag: u8, id: nat, payload: Seq<u8>) -> Seq<u8> {
    be_bytes(payload.len(), 3) + seq![kind_num(kind), flag] + be_bytes(id, 4) + payload
}
pub open spec fn ping_octets(p: Ping) -> Seq<u8> { frame_octets(Kind::Ping, if p.ack { 1 } else { 0 }, 0, p.payload@) }
pub open spec fn reset_octets(p: Reset) -> Seq<u8> { frame_octets(Kind::Reset, 0, p.stream_id.0 as nat, be_bytes(p.error_code.0 as nat, 4)) }
pub open spec fn winup_octets(p: WindowUpdate) -> Seq<u8> { frame_octets(Kind::WindowUpdate, 0, p.stream_id.0 as nat, be_bytes(p.size_increment as nat, 4)) }
pub open spec fn goaway_payload(p: GoAway) -> Seq<u8> { be_bytes(p.last_stream_id.0 as nat, 4) + be_bytes(p.error_code.0 as nat, 4) + p.debug_data.rem() }
pub open spec fn goaway_octets(p: GoAway) -> Seq<u8> { frame_octets(Kind::GoAway, 0, 0, goaway_payload(p)) }
pub open spec fn dep_octets(d: StreamDependency) -> Seq<u8> { be_bytes(d.dependency_id.0 as nat + if d.is_exclusive { 0x80000000nat } else { 0 }, 4) + seq![d.weight] }
pub open spec fn prio_octets(p: Priority) -> Seq<u8> { frame_octets(Kind::Priority, 0, p.stream_id.0 as nat, dep_octets(p.dependency)) }
// what a payload means under a header
pub open spec fn ping_some(h: FrameHeader, s: Seq<u8>) -> bool { h.id.0 == 0 && s.len() == 8 }
pub open spec fn ping_is(h: FrameHeader, s: Seq<u8>, p: Ping) -> bool { p.payload@ == s && p.ack == (h.flag.b & 1 == 1) }
pub open spec fn reset_is(h: FrameHeader, s: Seq<u8>, p: Reset) -> bool { p.stream_id == h.id && p.error_code.0 == be(s) }
pub open spec fn winup_some(s: Seq<u8>) -> bool { s.len() == 4 && be(s) % 0x80000000 != 0 }
pub open spec fn winup_is(h: FrameHeader, s: Seq<u8>, p: WindowUpdate) -> bool { p.stream_id == h.id && p.size_increment == be(s) % 0x80000000 }
pub open spec fn goaway_is(s: Seq<u8>, p: GoAway) -> bool {
    p.last_stream_id.0 == be(s.take(4)) % 0x80000000 && p.error_code.0 == be(s.skip(4).take(4)) && p.debug_data.rem() == s.skip(8)
}
pub open spec fn dep_is(s: Seq<u8>, d: StreamDependency) -> bool {
    d.dependency_id.0 == be(s.take(4)) % 0x80000000 && d.is_exclusive == (be(s.take(4)) >= 0x80000000) && d.weight == s[4]
}
pub open spec fn prio_some(h: FrameHeader, s: Seq<u8>) -> bool { s.len() >= 5 && be(s.take(4)) % 0x80000000 != h.id.0 }

proof fn ffo(o: Seq<u8>, h: FrameHeader, p: Seq<u8>)
    requires h.length == p.len(),
    ensures o + fh_octets(h) + p == o + frame_octets(h.kind, h.flag.b, h.id.0 as nat, p),
        fh_octets(h) + p == frame_octets(h.kind, h.flag.b, h.id.0 as nat, p),
{ assert(o + fh_octets(h) + p =~= o + frame_octets(h.kind, h.flag.b, h.id.0 as nat, p));
  assert(fh_octets(h) + p =~= frame_octets(h.kind, h.flag.b, h.id.0 as nat, p)); }

impl Ping {
//@fn src/http/http2/frame/ping.rs | impl Ping | new
//@ret r
//@spec
        ensures r == (Ping { ack: false, payload }),
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | pong
//@ret r
//@spec
        ensures r == (Ping { ack: true, payload }),
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | ret_pong
//@ret r
//@spec
        ensures r == (Ping { ack: true, payload: self.payload }),
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | is_ack
//@ret r
//@spec
        ensures r == self.ack,
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | payload
//@ret r
//@spec
        ensures *r == self.payload,
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | into_payload
//@ret r
//@spec
        ensures r == self.payload,
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | parse
//@ret r
//@spec
        requires head.kind == Kind::Ping,
        ensures match r {
            Ok(p) => ping_some(head, old(bytes).rem()) && ping_is(head, old(bytes).rem(), p),
            Err(_) => !ping_some(head, old(bytes).rem()) },
//@at start
        proof { let s = bytes.rem(); assert(s.len() == 8 ==> s.take(8) =~= s); }
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | head
//@ret r
//@spec
        ensures r == (FrameHeader { length: 8, kind: Kind::Ping, flag: Flag { b: if self.ack { 1 } else { 0 } }, id: StreamIdentifier(0) }),
//@at start
        proof { assert(self.payload@.len() == 8); }
//@end
//@fn src/http/http2/frame/ping.rs | impl Ping | encode
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(17), final(dst).out() == old(dst).out() + ping_octets(*self),
//@at start
        proof { let o = dst.out(); ffo(o, FrameHeader { length: 8, kind: Kind::Ping, flag: Flag { b: if self.ack { 1 } else { 0 } }, id: StreamIdentifier(0) }, self.payload@); }
//@end
//@fn src/http/http2/frame/ping.rs | impl Serialize for Ping | serialize
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(17), final(buffer).out() == old(buffer).out() + ping_octets(*old(self)),
//@at start
        proof { let o = buffer.out(); ffo(o, FrameHeader { length: 8, kind: Kind::Ping, flag: Flag { b: if self.ack { 1 } else { 0 } }, id: StreamIdentifier(0) }, self.payload@); }
//@end
}
impl Reset {
//@fn src/http/http2/frame/reset.rs | impl Reset | new
//@ret r
//@spec
        ensures r == (Reset { stream_id, error_code: error }),
//@end
//@fn src/http/http2/frame/reset.rs | impl Reset | stream_id
//@ret r
//@spec
        ensures r == self.stream_id,
//@end
//@fn src/http/http2/frame/reset.rs | impl Reset | reason
//@ret r
//@spec
        ensures r == self.error_code,
//@end
//@fn src/http/http2/frame/reset.rs | impl Reset | parse
//@ret r
//@spec
        ensures match r {
            Ok(p) => old(payload).rem().len() == 4 && reset_is(head, old(payload).rem(), p),
            Err(_) => old(payload).rem().len() != 4 },
//@at start
        proof { let s = payload.rem(); assert(s.len() == 4 ==> s.take(4) =~= s); }
//@end
//@fn src/http/http2/frame/reset.rs | impl Reset | head
//@ret r
//@spec
        ensures r == (FrameHeader { length: 4, kind: Kind::Reset, flag: Flag { b: 0 }, id: self.stream_id }),
//@end
//@fn src/http/http2/frame/reset.rs | impl Reset | encode
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(13), final(buffer).out() == old(buffer).out() + reset_octets(*self),
//@at start
        proof { let p = be_bytes(self.error_code.0 as nat, 4); be_bytes_len(self.error_code.0 as nat, 4);
            ffo(buffer.out(), FrameHeader { length: 4, kind: Kind::Reset, flag: Flag { b: 0 }, id: self.stream_id }, p); }
//@end
}
impl WindowUpdate {
//@fn src/http/http2/frame/window_update.rs | impl WindowUpdate | new
//@ret r
//@spec
        ensures r == (WindowUpdate { stream_id, size_increment }),
//@end
//@fn src/http/http2/frame/window_update.rs | impl WindowUpdate | stream_id
//@ret r
//@spec
        ensures r == self.stream_id,
//@end
//@fn src/http/http2/frame/window_update.rs | impl WindowUpdate | size_increment
//@ret r
//@spec
        ensures r == self.size_increment,
//@end
//@fn src/http/http2/frame/window_update.rs | impl WindowUpdate | parse
//@ret r
//@spec
        requires head.kind == Kind::WindowUpdate,
        ensures match r {
            Ok(p) => winup_some(old(payload).rem()) && winup_is(head, old(payload).rem(), p),
            Err(_) => !winup_some(old(payload).rem()) },
//@at start
        proof { m31(); let s = payload.rem(); assert(s.len() == 4 ==> s.take(4) =~= s); }
//@end
//@fn src/http/http2/frame/window_update.rs | impl WindowUpdate | head
//@ret r
//@spec
        ensures r == (FrameHeader { length: 4, kind: Kind::WindowUpdate, flag: Flag { b: 0 }, id: self.stream_id }),
//@end
//@fn src/http/http2/frame/window_update.rs | impl WindowUpdate | encode
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(13), final(buffer).out() == old(buffer).out() + winup_octets(*self),
//@at start
        proof { let p = be_bytes(self.size_increment as nat, 4); be_bytes_len(self.size_increment as nat, 4);
            ffo(buffer.out(), FrameHeader { length: 4, kind: Kind::WindowUpdate, flag: Flag { b: 0 }, id: self.stream_id }, p); }
//@end
}
impl GoAway {
//@fn src/http/http2/frame/go_away.rs | impl GoAway | new
//@ret r
//@spec
        ensures r.last_stream_id == last_stream_id, r.error_code == reason, r.debug_data.rem().len() == 0,
//@end
//@fn src/http/http2/frame/go_away.rs | impl GoAway | with_debug_data
//@ret r
//@spec
        ensures r == (GoAway { last_stream_id, error_code: reason, debug_data }),
//@end
//@fn src/http/http2/frame/go_away.rs | impl GoAway | last_stream_id
//@ret r
//@spec
        ensures r == self.last_stream_id,
//@end
//@fn src/http/http2/frame/go_away.rs | impl GoAway | reason
//@ret r
//@spec
        ensures r == self.error_code,
//@end
//@fn src/http/http2/frame/go_away.rs | impl GoAway | debug_data
//@ret r
//@spec
        ensures *r == self.debug_data,
//@end
//@fn src/http/http2/frame/go_away.rs | impl GoAway | parse
//@ret r
//@spec
        ensures match r {
            Ok(p) => old(payload).rem().len() >= 8 && goaway_is(old(payload).rem(), p),
            Err(_) => old(payload).rem().len() < 8 },
//@at start
        proof { broadcast use skip_skip; }
//@end
//@fn src/http/http2/frame/go_away.rs | impl GoAway | head
//@ret r
//@spec
        requires self.debug_data.rem().len() + 8 < 0x1000000,
        ensures r == (FrameHeader { length: (8 + self.debug_data.rem().len()) as u32, kind: Kind::GoAway, flag: Flag { b: 0 }, id: StreamIdentifier(0) }),
//@end
//@fn src/http/http2/frame/go_away.rs | impl GoAway | encode
//@ret r
//@spec
        requires self.debug_data.rem().len() + 8 < 0x1000000,
        ensures r == Ok::<usize, WebError>((17 + self.debug_data.rem().len()) as usize), final(buffer).out() == old(buffer).out() + goaway_octets(*self),
//@at start
        proof { let p = goaway_payload(*self); let o = buffer.out(); be_bytes_len(self.last_stream_id.0 as nat, 4); be_bytes_len(self.error_code.0 as nat, 4);
            let h = FrameHeader { length: p.len() as u32, kind: Kind::GoAway, flag: Flag { b: 0 }, id: StreamIdentifier(0) };
            ffo(o, h, p); assert(o + fh_octets(h) + be_bytes(self.last_stream_id.0 as nat, 4) + be_bytes(self.error_code.0 as nat, 4) + self.debug_data.rem() =~= o + fh_octets(h) + p); }
//@end
}
impl Priority {
//@fn src/http/http2/frame/priority.rs | impl Priority | parse
//@ret r
//@spec
        ensures match r {
            Ok(p) => prio_some(head, old(payload).rem()) && p.stream_id == head.id && dep_is(old(payload).rem(), p.dependency),
            Err(_) => !prio_some(head, old(payload).rem()) },
//@end
//@fn src/http/http2/frame/priority.rs | impl Priority | into
//@ret r
//@spec
        ensures r == (self.stream_id, self.dependency.dependency_id, self.dependency.weight),
//@end
//@fn src/http/http2/frame/priority.rs | impl Priority | stream_id
//@ret r
//@spec
        ensures r == self.stream_id,
//@end
//@fn src/http/http2/frame/priority.rs | impl Priority | dependency_id
//@ret r
//@spec
        ensures r == self.dependency.dependency_id,
//@end
//@fn src/http/http2/frame/priority.rs | impl Priority | weight
//@ret r
//@spec
        ensures r == self.dependency.weight,
//@end
//@fn src/http/http2/frame/priority.rs | impl Priority | encode
//@ret r
//@spec
        requires self.dependency.dependency_id.0 < 0x80000000,
        ensures r == Ok::<usize, WebError>(14), final(dst).out() == old(dst).out() + prio_octets(*self),
//@at start
        proof { let p = dep_octets(self.dependency); be_bytes_len(self.dependency.dependency_id.0 as nat + if self.dependency.is_exclusive { 0x80000000nat } else { 0 }, 4);
            ffo(dst.out(), FrameHeader { length: 5, kind: Kind::Priority, flag: Flag { b: 0 }, id: self.stream_id }, p); }
//@end
}
impl StreamDependency {
//@fn src/http/http2/frame/priority.rs | impl StreamDependency | new
//@ret r
//@spec
        ensures r == (StreamDependency { dependency_id, weight, is_exclusive }),
//@end
//@fn src/http/http2/frame/priority.rs | impl StreamDependency | load
//@ret r
//@spec
        ensures match r { Ok(d) => old(src).rem().len() >= 5 && dep_is(old(src).rem(), d) && final(src).rem() == old(src).rem().skip(5), Err(_) => old(src).rem().len() < 5 },
//@at start
        proof { m31(); broadcast use skip_skip; }
//@end
//@fn src/http/http2/frame/priority.rs | impl StreamDependency | dependency_id
//@ret r
//@spec
        ensures r == self.dependency_id,
//@end
//@fn src/http/http2/frame/priority.rs | impl StreamDependency | encode
//@ret r
//@spec
        requires self.dependency_id.0 < 0x80000000,
        ensures r == Ok::<usize, WebError>(5), final(dst).out() == old(dst).out() + dep_octets(*self),
//@at start
        proof { m31(); let o = dst.out(); let (a, b) = (be_bytes(self.dependency_id.0 as nat + if self.is_exclusive { 0x80000000nat } else { 0 }, 4), self.weight); assert(o + a + seq![b] =~= o + (a + seq![b])); }
//@end
}
}
fn main() {}

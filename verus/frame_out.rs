//@import h2_headers.rs
//@import f02.rs
//@import f03.rs
//@import f05.rs
//@import frame.rs
//@strings
//@globsub (?<!::)\bDecoder\b => HDecoder
//@globsub (?<!::)\bEncoder\b => HEncoder
//@globsub \bcrate\s*::\s*(WebError|WebResult)\b => \1
verus! {
// what the frame type writes is what the frame it holds writes
pub open spec fn frame_ready(f: Frame<Binary>, e: HEncoder) -> bool {
    match f {
        Frame::Data(d) => 1 <= e.max_frame_size < 0x1000000 && 10 * d.data.rem().len() + 9 <= usize::MAX,
        Frame::Headers(h) => 16 <= e.max_frame_size < 0x1000000 && (h.header_block.parts.status is Some ==> h.header_block.parts.status->0.wf())
            && (forall|i: int| 0 <= i < header_list(h.hv()).len() ==> small(#[trigger] header_list(h.hv())[i])),
        Frame::Priority(p) => p.dependency.dependency_id.0 < 0x80000000,
        Frame::GoAway(g) => g.debug_data.rem().len() + 8 < 0x1000000,
        Frame::PushPromise(_) => false,
        _ => true,
    }
}
pub open spec fn frame_written(f: Frame<Binary>, a: Seq<u8>, e: HEncoder, b: Seq<u8>, e2: HEncoder) -> bool {
    match f {
        Frame::Data(d) => b == a + frames_octets(split(d.data.rem(), e.max_frame_size as int, d.flags.b), d.stream_id.0),
        Frame::Headers(h) => exists|o: Seq<u8>| emits_all(e.st(), header_list(h.hv()), o, e2.st())
                && b == a + #[trigger] block_frames(chunks(o, e.max_frame_size as int), chunks(o, e.max_frame_size as int).len() as int, (h.flags.b & !8u8) & !0x20u8, h.stream_id.0),
        Frame::Priority(p) => b == a + prio_octets(p),
        Frame::Settings(s) => b == a + settings_octets(s),
        Frame::Ping(p) => b == a + ping_octets(p),
        Frame::GoAway(g) => b == a + goaway_octets(g),
        Frame::WindowUpdate(w) => b == a + winup_octets(w),
        Frame::Reset(r) => b == a + reset_octets(r),
        Frame::PushPromise(_) => true,
    }
}
/// PUSH_PROMISE is not written here (frame_ready excludes it)
pub fn not_written() -> (r: WebResult<usize>) requires false { Ok(0) }
impl PushPromise {
//@fn src/http/http2/frame/headers.rs | impl PushPromise | stream_id
//@ret r
//@spec
        ensures r == self.stream_id
//@end
//@fn src/http/http2/frame/headers.rs | impl PushPromise | flags
//@ret r
//@spec
        ensures r == self.flags
//@end
//@fn src/http/http2/frame/headers.rs | impl PushPromise | promised_id
//@ret r
//@spec
        ensures r == self.promised_id
//@end
}
impl Frame<Binary> {
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | stream_id
//@ret r
//@spec
        ensures r == (match *self { Frame::Data(d) => d.stream_id, Frame::Headers(h) => h.stream_id, Frame::PushPromise(p) => p.stream_id, Frame::WindowUpdate(w) => w.stream_id, Frame::Reset(x) => x.stream_id, _ => StreamIdentifier(0) })
//@end
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | flags
//@ret r
//@spec
        ensures r == (match *self { Frame::Data(d) => d.flags, Frame::Headers(h) => h.flags, Frame::PushPromise(p) => p.flags, Frame::Settings(s) => s.flags, _ => Flag { b: 0 } })
//@end
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | is_header
//@ret r
//@spec
        ensures r == (*self is Headers)
//@end
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | is_data
//@ret r
//@spec
        ensures r == (*self is Data)
//@end
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | is_end_headers
//@ret r
//@spec
        ensures r == (*self matches Frame::Headers(h) && h.flags.b & 4 == 4)
//@end
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | is_end_stream
//@ret r
//@spec
        ensures r == (match *self { Frame::Headers(h) => h.flags.b & 1 == 1, Frame::Data(d) => d.flags.b & 1 == 1, _ => false })
//@end
#[verifier::spinoff_prover]
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | encode
//@ret r
//@sub let\s+name\s*=\s*self\.display_name\(\)\s*; =>
//@sub log\s*::\s*trace!\([^;]*\)\s*; =>
//@sub Frame::PushPromise\(p\)\s*=>\s*p\.encode\(encoder, buf\)\? => Frame::PushPromise(p) => not_written()?
//@spec
        requires old(encoder).wf(), frame_ready(self, *old(encoder))
        ensures r is Ok, final(encoder).wf(),
            self is Data ==> frame_written(self, old(buf).out(), *old(encoder), final(buf).out(), *final(encoder)),
            self is Headers ==> frame_written(self, old(buf).out(), *old(encoder), final(buf).out(), *final(encoder)),
            self is Settings ==> frame_written(self, old(buf).out(), *old(encoder), final(buf).out(), *final(encoder)),
            self is Priority || self is Ping || self is GoAway || self is WindowUpdate || self is Reset ==> frame_written(self, old(buf).out(), *old(encoder), final(buf).out(), *final(encoder)),
//@at start
        hide(emits_all); hide(block_frames); hide(chunks); hide(header_list); hide(frames_octets); hide(split); hide(settings_octets); hide(fh_octets); hide(small); hide(ping_octets); hide(goaway_octets); hide(prio_octets); hide(winup_octets); hide(reset_octets);
//@end
}
}
fn main() {}

//@import h2_headers.rs
//@import f02.rs
//@import f03.rs
//@import f05.rs
//@globsub (?<!::)\bDecoder\b => HDecoder
//@globsub (?<!::)\bEncoder\b => HEncoder
//@globsub \bcrate\s*::\s*(WebError|WebResult)\b => \1
verus! {
// ================= RFC 7540 6.1, 6.2, 6.6: padding =================
/// padding is defined for DATA, HEADERS and PUSH_PROMISE
pub open spec fn padded(h: FrameHeader) -> bool { h.flag.b & 8 == 8 && (h.kind == Kind::Data || h.kind == Kind::Headers || h.kind == Kind::PushPromise) }
pub open spec fn pad_len(h: FrameHeader, s: Seq<u8>) -> nat { if padded(h) && s.len() > 0 { s[0] as nat } else { 0 } }
/// what is left without the pad length octet
pub open spec fn unpad(h: FrameHeader, s: Seq<u8>) -> Seq<u8> { if padded(h) && s.len() > 0 { s.skip(1) } else { s } }
/// the padding fits in the payload, after the pad length octet
pub open spec fn pad_fits(h: FrameHeader, s: Seq<u8>) -> bool { pad_len(h, s) <= unpad(h, s).len() }
/// the content: the payload without pad length and padding
pub open spec fn body(h: FrameHeader, s: Seq<u8>) -> Seq<u8> { unpad(h, s).take(unpad(h, s).len() - pad_len(h, s)) }
//@item src/http/http2/frame/frame.rs | enum | Frame
//@sub <T = Binary> => <T>
/// what parsing a payload under a header may give
pub open spec fn frame_read<T: Bt>(h: FrameHeader, s: Seq<u8>, st: HState, max: nat, r: WebResult<Frame<T>>, st2: HState) -> bool {
    match h.kind {
        Kind::Data => match r {
            // the padding itself stays in the data: known finding data-padding-kept
            Ok(f) => h.id.0 != 0 && (h.length == s.len() ==> pad_fits(h, s)) && (f matches Frame::Data(d) && d.stream_id == h.id && d.flags == h.flag && (d.data.rem() == unpad(h, s) || d.data.rem() == body(h, s))),
            Err(_) => h.id.0 == 0 || (h.length == s.len() ==> !pad_fits(h, s)) },
        Kind::Headers => match r {
            Ok(f) => pad_fits(h, s) && headers_ok(h.flag.b, body(h, s), st, max, no_hv()) && (f matches Frame::Headers(x) && x.stream_id == h.id && headers_are(h.flag.b, body(h, s), st, st2, no_hv(), x)),
            Err(_) => (h.length == s.len() ==> !pad_fits(h, s) || headers_bad(h.flag.b, body(h, s), st, max, no_hv())) },
        Kind::PushPromise => match r {
            Ok(f) => (h.length == s.len() ==> pad_fits(h, s)) && (f matches Frame::PushPromise(p) && promise_is(h, unpad(h, s), p)),
            Err(_) => h.length == s.len() ==> !pad_fits(h, s) || body(h, s).len() < 4 },
        Kind::Priority => match r { Ok(f) => prio_some(h, s) && (f matches Frame::Priority(p) && p.stream_id == h.id && dep_is(s, p.dependency)), Err(_) => !prio_some(h, s) },
        Kind::Reset => match r { Ok(f) => s.len() == 4 && (f matches Frame::Reset(p) && reset_is(h, s, p)), Err(_) => s.len() != 4 },
        Kind::Settings => match r { Ok(f) => f matches Frame::Settings(p) && settings_read(h, s) == Some(p), Err(_) => settings_read(h, s) is None },
        Kind::Ping => match r { Ok(f) => ping_some(h, s) && (f matches Frame::Ping(p) && ping_is(h, s, p)), Err(_) => !ping_some(h, s) },
        Kind::GoAway => match r { Ok(f) => s.len() >= 8 && (f matches Frame::GoAway(p) && goaway_is(s, p)), Err(_) => s.len() < 8 },
        Kind::WindowUpdate => match r { Ok(f) => winup_some(s) && (f matches Frame::WindowUpdate(p) && winup_is(h, s, p)), Err(_) => !winup_some(s) },
        _ => r is Err,
    }
}
/// the part of frame_read that is about padding
pub open spec fn pad_read<T: Bt>(h: FrameHeader, s: Seq<u8>, st: HState, max: nat, r: WebResult<Frame<T>>, st2: HState) -> bool {
    if h.kind == Kind::Data { match r {
        Ok(f) => (h.length == s.len() ==> pad_fits(h, s)) && (f matches Frame::Data(d) ==> d.data.rem() == unpad(h, s) || d.data.rem() == body(h, s)),
        Err(_) => h.id.0 == 0 || (h.length == s.len() ==> !pad_fits(h, s)) } }
    else { frame_read(h, s, st, max, r, st2) }
}
/// the padding flag means nothing where padding is not defined
pub proof fn lemma_pad_flag(h: FrameHeader, s: Seq<u8>)
    requires h.kind != Kind::Data, h.kind != Kind::Headers, h.kind != Kind::PushPromise
    ensures unpad(h, s) == s, body(h, s) == s, pad_fits(h, s)
{ assert(s.take(s.len() as int) =~= s); }
/// padding octets are not content: two payloads that differ in them only read alike
pub proof fn lemma_padding_ignored(h: FrameHeader, s: Seq<u8>, t: Seq<u8>, c: int)
    requires padded(h), s.len() == t.len(), s.len() > 0, s[0] == t[0], c == s.len() - s[0], c >= 1, s.take(c) == t.take(c)
    ensures body(h, s) == body(h, t), pad_fits(h, s), pad_fits(h, t)
{
    let (a, b) = (body(h, s), body(h, t));
    assert(a.len() == c - 1 && b.len() == c - 1);
    assert forall|i: int| 0 <= i < c - 1 implies a[i] == b[i] by { assert(a[i] == s[i + 1] && b[i] == t[i + 1]); let (x, y) = (s.take(c), t.take(c)); assert(x == y && x[i + 1] == s[i + 1] && y[i + 1] == t[i + 1]); }
    assert(a =~= b);
}
impl Frame<Binary> {
//@fn src/http/http2/frame/frame.rs | impl Frame<Binary> | trim_padding
//@ret r
//@spec
        ensures match r {
            Ok(_) => final(buf).rem() == (if header.flag.b & 8 == 8 && old(buf).rem().len() > 0 { old(buf).rem().skip(1) } else { old(buf).rem() })
                && (header.flag.b & 8 == 8 && header.length == old(buf).rem().len() && old(buf).rem().len() > 0 ==> old(buf).rem()[0] < old(buf).rem().len()),
            Err(_) => header.flag.b & 8 == 8 && old(buf).rem().len() > 0 && (header.length == old(buf).rem().len() ==> old(buf).rem()[0] >= old(buf).rem().len()) }
//@end
}
impl<T: Bt> Frame<T> {
//@fn src/http/http2/frame/frame.rs | impl<T: Bt> Frame<T> | parse
//@ret r
//@spec
        requires old(decoder).wf(), buf.rem().len() < 0x10000000
        ensures final(decoder).wf(),
            header.flag.b & 8 == 8 ==> pad_read(header, buf.rem(), old(decoder).st(), max_header_list_size as nat, r, final(decoder).st()),
            header.kind == Kind::Headers && header.flag.b & 8 == 0 ==> frame_read(header, buf.rem(), old(decoder).st(), max_header_list_size as nat, r, final(decoder).st()),
            frame_read(header, buf.rem(), old(decoder).st(), max_header_list_size as nat, r, final(decoder).st()),
//@end
}
}
fn main() {}

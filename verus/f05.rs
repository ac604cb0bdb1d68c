//@import h2_encoder.rs
//@include h2_header.rs
//@globsub \bEncoder\b => HEncoder
//@globsub \bflags\s*\.\s*into\s*\(\s*\) => flags
//@globsub \bstd\s*::\s*cmp\s*::\s*min\b => cmp_min
verus! {
pub fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
//@item src/http/http2/frame/data.rs | struct | Data
//@sub <T = Binary> => <T>

// the DATA frames of a body: each frame's flags and payload
pub struct Df { pub flag: u8, pub payload: Seq<u8> }
pub open spec fn df_octets(f: Df, id: u32) -> Seq<u8> { fh_octets(FrameHeader { length: f.payload.len() as u32, kind: Kind::Data, flag: Flag { b: f.flag }, id: StreamIdentifier(id) }) + f.payload }
pub open spec fn frames_octets(fs: Seq<Df>, id: u32) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { df_octets(fs[0], id) + frames_octets(fs.skip(1), id) }
}
pub open spec fn body_of(fs: Seq<Df>) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { fs[0].payload + body_of(fs.skip(1)) }
}
pub open spec fn split(d: Seq<u8>, max: int, flag: u8) -> Seq<Df> decreases d.len() {
    if max <= 0 || d.len() <= max { seq![Df { flag: flag & !8, payload: d }] }
    else { seq![Df { flag: (flag & !8) & !1, payload: d.take(max) }] + split(d.skip(max), max, flag) }
}
proof fn split_step(d: Seq<u8>, max: int, flag: u8, id: u32)
    requires max >= 1,
    ensures d.len() <= max ==> frames_octets(split(d, max, flag), id) == df_octets(Df { flag: flag & !8, payload: d }, id),
        d.len() > max ==> frames_octets(split(d, max, flag), id) == df_octets(Df { flag: (flag & !8) & !1, payload: d.take(max) }, id) + frames_octets(split(d.skip(max), max, flag), id),
{
    reveal_with_fuel(frames_octets, 2);
    let fs = split(d, max, flag);
    if d.len() <= max { assert(fs.skip(1) =~= Seq::<Df>::empty()); assert(frames_octets(fs, id) =~= df_octets(fs[0], id)); }
    else { assert(fs.skip(1) =~= split(d.skip(max), max, flag)); }
}
// the frames are no longer than the maximum, their payloads are the body, END_STREAM is on the last exactly when the body ends the stream, nothing is padded
pub proof fn lemma_split(d: Seq<u8>, max: int, flag: u8)
    requires max >= 1,
    ensures split(d, max, flag).len() >= 1, body_of(split(d, max, flag)) == d,
        forall|i: int| 0 <= i < split(d, max, flag).len() ==> {
            let f = #[trigger] split(d, max, flag)[i];
            &&& f.payload.len() <= max
            &&& (i < split(d, max, flag).len() - 1 ==> f.flag & 1 == 0)
            &&& (i == split(d, max, flag).len() - 1 ==> f.flag & 1 == flag & 1)
            &&& f.flag & 8 == 0 && f.flag | flag == flag },
    decreases d.len()
{
    let fs = split(d, max, flag);
    assert((flag & !8u8) & 8u8 == 0 && (flag & !8u8) & 1u8 == flag & 1u8 && (flag & !8u8) | flag == flag) by (bit_vector);
    assert(((flag & !8u8) & !1u8) & 8u8 == 0 && ((flag & !8u8) & !1u8) & 1u8 == 0u8 && ((flag & !8u8) & !1u8) | flag == flag) by (bit_vector);
    if d.len() > max {
        lemma_split(d.skip(max), max, flag);
        let gs = split(d.skip(max), max, flag);
        assert(fs.skip(1) =~= gs);
        assert(body_of(fs) =~= d);
        assert forall|i: int| 0 <= i < fs.len() implies ({
            let f = #[trigger] fs[i];
            &&& f.payload.len() <= max
            &&& (i < fs.len() - 1 ==> f.flag & 1 == 0)
            &&& (i == fs.len() - 1 ==> f.flag & 1 == flag & 1)
            &&& f.flag & 8 == 0 && f.flag | flag == flag }) by { if i > 0 { assert(fs[i] == gs[i - 1]); } }
    } else { reveal_with_fuel(body_of, 2); assert(fs.skip(1) =~= Seq::<Df>::empty()); assert(body_of(fs) =~= d); }
}
impl<T> Data<T> {
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | new
//@ret r
//@spec
        requires header.id.0 != 0,
        ensures r.stream_id == header.id, r.data == payload, r.flags == header.flag,
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | stream_id
//@ret r
//@spec
        ensures r == self.stream_id,
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | is_end_stream
//@ret r
//@spec
        ensures r == (self.flags.b & 1 == 1),
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | set_end_stream
//@spec
        ensures final(self).flags.b & 1 == if val { 1u8 } else { 0 }, final(self).flags.b & !1u8 == old(self).flags.b & !1u8, final(self).stream_id == old(self).stream_id, final(self).data == old(self).data,
//@at start
        proof { let b = self.flags.b; assert((b | 1u8) & 1u8 == 1u8 && (b & !1u8) & 1u8 == 0u8 && (b | 1u8) & !1u8 == b & !1u8 && (b & !1u8) & !1u8 == b & !1u8) by (bit_vector); }
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | flags
//@ret r
//@spec
        ensures r == self.flags,
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | is_padded
//@ret r
//@spec
        ensures r == (self.flags.b & 8 == 8),
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | set_padded
//@spec
        ensures final(self).flags.b == old(self).flags.b | 8, final(self).data == old(self).data, final(self).stream_id == old(self).stream_id,
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | payload
//@ret r
//@spec
        ensures *r == self.data,
//@end
//@fn src/http/http2/frame/data.rs | impl<T> Data<T> | into_payload
//@ret r
//@spec
        ensures r == self.data,
//@end
}
impl Data<Binary> {
//@fn src/http/http2/frame/data.rs | impl Data<Binary> | encode
//@sub let\s+mut\s+size\s*=\s*0\s*; => let mut size: usize = 0;
//@ret r
//@spec
        requires 1 <= encoder.max_frame_size < 0x1000000, 10 * old(self).data.rem().len() + 9 <= usize::MAX,
        ensures r == Ok::<usize, WebError>(frames_octets(split(old(self).data.rem(), old(encoder).max_frame_size as int, old(self).flags.b), old(self).stream_id.0).len() as usize),
            final(dst).out() == old(dst).out() + frames_octets(split(old(self).data.rem(), old(encoder).max_frame_size as int, old(self).flags.b), old(self).stream_id.0), *final(encoder) == *old(encoder),
//@loop 0
            invariant_except_break
                *encoder == *old(encoder), self.flags == old(self).flags, self.stream_id == old(self).stream_id,
                1 <= encoder.max_frame_size < 0x1000000,
                size + 10 * self.data.rem().len() + 9 <= usize::MAX,
                dst.out() + frames_octets(split(self.data.rem(), encoder.max_frame_size as int, self.flags.b), self.stream_id.0)
                    == old(dst).out() + frames_octets(split(old(self).data.rem(), old(encoder).max_frame_size as int, old(self).flags.b), old(self).stream_id.0),
                size == dst.out().len() - old(dst).out().len(),
            ensures *encoder == *old(encoder),
                dst.out() == old(dst).out() + frames_octets(split(old(self).data.rem(), old(encoder).max_frame_size as int, old(self).flags.b), old(self).stream_id.0),
                size == dst.out().len() - old(dst).out().len(),
            decreases self.data.rem().len(),
//@at start 0
            let ghost d0 = self.data.rem(); let ghost o0 = dst.out();
            proof {
                let max = encoder.max_frame_size as int;
                split_step(d0, max, self.flags.b, self.stream_id.0);
                let b = self.flags.b; assert((b & !1u8) & !8u8 == (b & !8u8) & !1u8) by (bit_vector);
                be_bytes_len(d0.len(), 3); be_bytes_len(max as nat, 3); be_bytes_len(self.stream_id.0 as nat, 4);
                let f = Df { flag: (b & !8u8) & !1u8, payload: d0.take(max) };
                let h = fh_octets(FrameHeader { length: max as u32, kind: Kind::Data, flag: Flag { b: f.flag }, id: self.stream_id });
                let r = frames_octets(split(d0.skip(max), max, b), self.stream_id.0);
                if d0.len() > max { assert(o0 + (h + f.payload + r) =~= o0 + h + f.payload + r); }
                let g = fh_octets(FrameHeader { length: d0.len() as u32, kind: Kind::Data, flag: Flag { b: (b & !8u8) }, id: self.stream_id });
                assert(o0 + (g + d0) =~= o0 + g + d0);
            }
//@end
}
}
fn main() {}

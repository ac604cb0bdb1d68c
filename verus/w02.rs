//@include ws_frame.rs
//@globsub &\s*mut\s+dyn\s+BtMut => &mut impl Sink
//@globsub (frame_header|mask)\s*::\s*(read_header|write_header|mask_data) => \2
//@globsub io\s*::\s*Error\s*::\s*new\s*\(\s*io\s*::\s*ErrorKind\s*::\s*\w+\s*,\s*"[^"]*"\s*,?\s*\) => IoError
verus! {
impl DataFrameable for DataFrame {
    open spec fn sp_last(&self) -> bool { self.finished }
    open spec fn sp_op(&self) -> u8 { op_num(self.opcode) }
    open spec fn sp_rsv(&self) -> Seq<bool> { self.reserved@ }
    open spec fn sp_payload(&self) -> Seq<u8> { self.data@ }
//@fn src/ws/dataframe.rs | impl DataFrameable for DataFrame | is_last
//@end
//@fn src/ws/dataframe.rs | impl DataFrameable for DataFrame | opcode
//@end
//@fn src/ws/dataframe.rs | impl DataFrameable for DataFrame | reserved
//@end
//@fn src/ws/dataframe.rs | impl DataFrameable for DataFrame | size
//@end
//@fn src/ws/dataframe.rs | impl DataFrameable for DataFrame | write_payload
//@sub fn\s+write_payload\s*\( => fn write_payload<S: Sink>(
//@sub impl\s+Sink => S
//@end
//@fn src/ws/dataframe.rs | impl DataFrameable for DataFrame | take_payload
//@end
}
pub open spec fn frame_of(f: DataFrame, h: WsFrameHeader, body: Seq<u8>) -> bool {
    &&& f.finished == (h.flags.b >= 128)
    &&& f.reserved@ == seq![h.flags.b / 64 % 2 == 1, h.flags.b / 32 % 2 == 1, h.flags.b / 16 % 2 == 1]
    &&& op_num(f.opcode) == h.opcode
    &&& f.data@ == (match h.mask { Some(k) => masked(k@, 0, body), None => body })
}
proof fn cbits()
    ensures
        forall|b: u8| (#[trigger] (b & 0x80) == 0x80) == (b >= 128), forall|b: u8| (#[trigger] (b & 0x40) == 0x40) == (b / 64 % 2 == 1),
        forall|b: u8| (#[trigger] (b & 0x20) == 0x20) == (b / 32 % 2 == 1), forall|b: u8| (#[trigger] (b & 0x10) == 0x10) == (b / 16 % 2 == 1),
{
    assert(forall|b: u8| (#[trigger] (b & 0x80) == 0x80) == (b >= 128)) by (bit_vector); assert(forall|b: u8| (#[trigger] (b & 0x40) == 0x40) == (b / 64 % 2 == 1)) by (bit_vector);
    assert(forall|b: u8| (#[trigger] (b & 0x20) == 0x20) == (b / 32 % 2 == 1)) by (bit_vector); assert(forall|b: u8| (#[trigger] (b & 0x10) == 0x10) == (b / 16 % 2 == 1)) by (bit_vector);
}
/// a complete frame at the start of s: its total size
pub open spec fn frame_total(s: Seq<u8>) -> Option<nat> {
    match (hdr_total(s), hdr_read(s)) {
        (Some(n), Some((len, _))) => if s.len() >= n + len { Some(n + len) } else { None },
        _ => None }
}
pub open spec fn frame_is(s: Seq<u8>, f: DataFrame) -> bool {
    exists|h: WsFrameHeader| #[trigger] hdr_is(s, h) && frame_of(f, h, s.skip(hdr_total(s)->0 as int).take(h.len as int))
}
impl DataFrame {
//@fn src/ws/dataframe.rs | impl DataFrame | new
//@ret r
//@spec
        ensures r.finished == finished, r.reserved@ == seq![false, false, false], r.opcode == opcode, r.data == data,
//@end
//@fn src/ws/dataframe.rs | impl DataFrame | read_dataframe_body
//@ret r
//@spec
        requires header.opcode <= 15,
        ensures r is Ok, frame_of(r->Ok_0, header, body@),
//@at start
        proof { cbits(); }
//@end
//@fn src/ws/dataframe.rs | impl DataFrame | read_dataframe
//@ret r
//@sub (DataFrame|Self)\s*::\s*read_dataframe_body => proof { let s = old(reader).rem(); let n = hdr_total(s)->0 as int; assert(data@ =~= s.skip(n).take(header.len as int)); assert(hdr_is(s, header)); } DataFrame::read_dataframe_body
//@spec
        ensures match r {
            Ok(f) => frame_total(old(reader).rem()) is Some && frame_is(old(reader).rem(), f) && final(reader).rem() == old(reader).rem().skip(frame_total(old(reader).rem())->0 as int),
            Err(_) => frame_total(old(reader).rem()) is None },
//@at start
        proof { broadcast use skip_skip; }
//@end
//@fn src/ws/dataframe.rs | impl DataFrame | read_dataframe_with_limit
//@ret r
//@sub (DataFrame|Self)\s*::\s*read_dataframe_body => proof { let s = old(reader).rem(); let n = hdr_total(s)->0 as int; assert(data@ =~= s.skip(n).take(header.len as int)); assert(hdr_is(s, header)); } DataFrame::read_dataframe_body
//@spec
        ensures match r {
            Ok(f) => frame_total(old(reader).rem()) is Some && frame_is(old(reader).rem(), f) && final(reader).rem() == old(reader).rem().skip(frame_total(old(reader).rem())->0 as int)
                && (hdr_read(old(reader).rem())->0).0 <= limit,
            Err(_) => frame_total(old(reader).rem()) is None || (hdr_read(old(reader).rem())->0).0 > limit },
//@at start
        proof { broadcast use skip_skip; }
//@end
}

// ---- the property ----
proof fn flag_bits(fin: bool, rsv: Seq<bool>)
    requires rsv.len() == 3
    ensures flag_octet(fin, rsv) % 16 == 0, (flag_octet(fin, rsv) >= 128) == fin,
        seq![flag_octet(fin, rsv) / 64 % 2 == 1, flag_octet(fin, rsv) / 32 % 2 == 1, flag_octet(fin, rsv) / 16 % 2 == 1] =~= rsv,
{ }
#[verifier::spinoff_prover] pub proof fn w02_roundtrip(fin: bool, rsv: Seq<bool>, op: u8, key: Option<[u8; 4]>, payload: Seq<u8>, rest: Seq<u8>, f: DataFrame)
    requires rsv.len() == 3, op <= 15, op >= 8 ==> fin && payload.len() <= 125, payload.len() <= u64::MAX,
    ensures
        frame_total(frame_octets(fin, rsv, op, key, payload) + rest) == Some(frame_octets(fin, rsv, op, key, payload).len()),
        frame_octets(fin, rsv, op, key, payload).len() == hdr_size(payload.len(), key is Some) + payload.len(),
        frame_is(frame_octets(fin, rsv, op, key, payload) + rest, f) ==> f.finished == fin && f.reserved@ == rsv && op_num(f.opcode) == op && f.data@ == payload,
{
    let h = frame_hdr(fin, rsv, op, key, payload.len());
    let body = (match key { Some(k) => masked(k@, 0, payload), None => payload });
    let s = frame_octets(fin, rsv, op, key, payload) + rest;
    flag_bits(fin, rsv);
    assert(s =~= hdr_octets(h) + (body + rest));
    w01_roundtrip(h, body + rest);
    if frame_is(s, f) {
        let g = choose|g: WsFrameHeader| #[trigger] hdr_is(s, g) && frame_of(f, g, s.skip(hdr_total(s)->0 as int).take(g.len as int));
        assert(s.skip(hdr_total(s)->0 as int).take(g.len as int) =~= body);
        if key is Some { w02_involution(key->0@, 0, payload); }
        assert(f.data@ == payload);
    }
}
pub proof fn w02_prefix(fin: bool, rsv: Seq<bool>, op: u8, key: Option<[u8; 4]>, payload: Seq<u8>, k: int)
    requires rsv.len() == 3, op <= 15, op >= 8 ==> fin && payload.len() <= 125, payload.len() <= u64::MAX, 0 <= k < frame_octets(fin, rsv, op, key, payload).len(),
    ensures frame_total(frame_octets(fin, rsv, op, key, payload).take(k)) is None,
{
    let h = frame_hdr(fin, rsv, op, key, payload.len());
    let o = frame_octets(fin, rsv, op, key, payload);
    flag_bits(fin, rsv);
    let n = hdr_octets(h).len();
    if k < n {
        w01_prefix(h, k);
        assert(o.take(k) =~= hdr_octets(h).take(k));
    } else {
        assert(o.take(k) =~= hdr_octets(h) + o.take(k).skip(n as int));
        w01_roundtrip(h, o.take(k).skip(n as int));
    }
}
}
fn main() {}

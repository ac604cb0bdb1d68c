//@include ws_header.rs
//@globsub &\s*mut\s+dyn\s+BtMut => &mut impl Sink
//@globsub (frame_header|mask)\s*::\s*(read_header|write_header|mask_data) => \2
//@globsub io\s*::\s*Error\s*::\s*new\s*\(\s*io\s*::\s*ErrorKind\s*::\s*\w+\s*,\s*"[^"]*"\s*,?\s*\) => IoError
verus! {
// An octet sink that may transform what it is given (Masker): out() is what was put in.
// ok(): its representation invariant; fut(): the prophesied final state of what it borrows, fixed for its life.
pub trait Sink {
    spec fn out(&self) -> Seq<u8>;
    spec fn ok(&self) -> bool;
    #[verifier::prophetic]
    spec fn fut(&self) -> (Seq<u8>, Seq<u8>, Seq<u8>);
    fn put_slice(&mut self, src: &[u8]) -> (n: usize)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).fut() == old(self).fut(), final(self).out() == old(self).out() + src@, n == src@.len();
    // the provided methods of the crate's trait pass their octets to put_slice
    fn put_u16(&mut self, v: u16) -> (n: usize)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).fut() == old(self).fut(), final(self).out() == old(self).out() + be_bytes(v as nat, 2), n == 2;
}
impl Sink for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fut(&self) -> (Seq<u8>, Seq<u8>, Seq<u8>) { (Seq::empty(), Seq::empty(), Seq::empty()) }
    #[verifier::external_body]
    fn put_slice(&mut self, src: &[u8]) -> (n: usize) { self.extend_from_slice(src); src.len() }
    #[verifier::external_body]
    fn put_u16(&mut self, v: u16) -> (n: usize) { self.extend_from_slice(&v.to_be_bytes()); 2 }
}
impl BtMut for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn taken(&self) -> nat { 0 }
    #[verifier::external_body]
    fn put_slice(&mut self, src: &[u8]) -> (n: usize) { self.extend_from_slice(src); src.len() }
    #[verifier::external_body]
    fn put_u8(&mut self, v: u8) -> (n: usize) { self.push(v); 1 }
    #[verifier::external_body]
    fn put_u16(&mut self, v: u16) -> (n: usize) { self.extend_from_slice(&v.to_be_bytes()); 2 }
    #[verifier::external_body]
    fn put_u32(&mut self, v: u32) -> (n: usize) { self.extend_from_slice(&v.to_be_bytes()); 4 }
    #[verifier::external_body]
    fn put_u64(&mut self, v: u64) -> (n: usize) { self.extend_from_slice(&v.to_be_bytes()); 8 }
}
// ---------------- RFC 6455 section 5.3 ----------------
pub open spec fn masked(key: Seq<u8>, start: int, data: Seq<u8>) -> Seq<u8> {
    Seq::new(data.len(), |i: int| data[i] ^ key[(start + i) % 4])
}
// data.iter().zip(key.iter().cycle()): octet i of the data with octet i mod 4 of the key
#[verifier::external_body]
pub fn zip_cycle<'a>(data: &'a [u8], key: &'a [u8; 4]) -> (r: Vec<(&'a u8, &'a u8)>)
    ensures r@.len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] r@[i]).0 == data@[i] && *r@[i].1 == key@[i % 4],
{ data.iter().zip(key.iter().cycle()).collect() }
//@fn src/ws/mask.rs | | mask_data
//@mustsub data\s*\.\s*iter\s*\(\s*\)\s*\.\s*zip\s*\(\s*mask\s*\.\s*iter\s*\(\s*\)\s*\.\s*cycle\s*\(\s*\)\s*\) => zip_cycle(data, &mask)
//@ret r
//@spec
        ensures r@ == masked(mask@, 0, data@),
//@loop 0
        invariant
            it0.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it0.seq()[i]).0 == data@[i] && *it0.seq()[i].1 == mask@[i % 4],
            out@ =~= masked(mask@, 0, data@.take(it0.index@)),
//@at after 0
        proof { assert(data@.take(data@.len() as int) =~= data@); }
//@end
// Masker: the sink under the mask is a Vec<u8> where the crate itself uses it
pub struct Masker<'w> { pub key: [u8; 4], pub pos: usize, pub end: &'w mut Vec<u8>, pub base: Ghost<Seq<u8>> }
impl<'w> Masker<'w> {
//@fn src/ws/mask.rs | impl<'w> Masker<'w> | new
//@mustsub &\s*'w\s+mut\s+(dyn\s+BtMut|impl\s+Sink) => &'w mut Vec<u8>
//@mustsub end\s*:\s*endpoint\s*,? => end: endpoint, base: Ghost(o)
//@ret r
//@spec
        ensures r.ok(), r.out() == Seq::<u8>::empty(), r.fut() == (old(endpoint)@, key@, final(endpoint)@),
//@at start
        let ghost o = endpoint@;
//@end
}
pub proof fn xor_twice()
    ensures forall|a: u8, k: u8| #[trigger] ((a ^ k) ^ k) == a
{ assert(forall|a: u8, k: u8| #[trigger] ((a ^ k) ^ k) == a) by (bit_vector); }
impl<'w> Masker<'w> {
    // the provided method inner_put_slice copies into the storage chunk_mut/advance_mut give it: that of `end`
    #[verifier::external_body]
    fn store(&mut self, src: &[u8]) -> (n: usize)
        ensures final(self).end@ == old(self).end@ + src@, n == src@.len(), final(self).key == old(self).key, final(self).pos == old(self).pos,
            final(self).base == old(self).base, *final(final(self).end) == *final(old(self).end),
    { self.end.extend_from_slice(src); src.len() }
}
/// storing masked octets extends what the masker has been given by the plain ones
pub proof fn put_masked(key: Seq<u8>, n0: int, end: Seq<u8>, p: int, src: Seq<u8>, buf: Seq<u8>)
    requires 0 <= n0 <= end.len(), p == (end.len() - n0) % 4, buf =~= masked(key, p, src),
    ensures
        masked(key, 0, (end + buf).skip(n0)) =~= masked(key, 0, end.skip(n0)) + src,
        n0 <= (end + buf).len(), (end + buf).take(n0) =~= end.take(n0),
{
    xor_twice();
    let n = end.len() - n0;
    assert forall|i: int| 0 <= i < src.len() implies masked(key, 0, (end + buf).skip(n0))[n + i] == src[i] by {
        assert((n + i) % 4 == (p + i) % 4);
        assert((end + buf).skip(n0)[n + i] == buf[i]);
    }
}
impl<'w> Sink for Masker<'w> {
    open spec fn out(&self) -> Seq<u8> { masked(self.key@, 0, self.end@.skip(self.base@.len() as int)) }
    open spec fn ok(&self) -> bool {
        &&& self.base@.len() <= self.end@.len() && self.end@.take(self.base@.len() as int) =~= self.base@
        &&& self.pos == (self.end@.len() - self.base@.len()) % 4
    }
    #[verifier::prophetic]
    open spec fn fut(&self) -> (Seq<u8>, Seq<u8>, Seq<u8>) { (self.base@, self.key@, final(self.end)@) }
//@fn src/ws/mask.rs | impl<'w> BtMut for Masker<'w> | put_slice
//@mustsub self\s*\.\s*inner_put_slice\s*\( => self.store(
//@loop 0
            invariant
                it0.seq().len() == src@.len(), forall|i: int| 0 <= i < src@.len() ==> *(#[trigger] it0.seq()[i]) == src@[i],
                self.key == old(self).key, self.base == old(self).base, self.end@ == old(self).end@, *final(self.end) == *final(old(self).end),
                old(self).pos < 4, self.pos == (old(self).pos + it0.index@) % 4,
                buf@ =~= masked(self.key@, old(self).pos as int, src@.take(it0.index@)),
//@at end 0
            proof { assert(self.key@.len() == 4); assert((old(self).pos + (it0.index@ + 1)) % 4 == ((old(self).pos + it0.index@) % 4 + 1) % 4); }
//@at after 0
        proof { assert(src@.take(src@.len() as int) =~= src@); put_masked(self.key@, self.base@.len() as int, self.end@, old(self).pos as int, src@, buf@); }
//@end
    #[verifier::external_body]
    fn put_u16(&mut self, v: u16) -> (n: usize) { self.put_slice(&v.to_be_bytes()); 2 }
}
// ---------------- frames ----------------
//@item src/ws/dataframe.rs | enum | Opcode | derive=Clone, Copy, PartialEq, Eq, Structural
pub open spec fn op_num(o: Opcode) -> u8 {
    match o { Opcode::Continuation => 0, Opcode::Text => 1, Opcode::Binary => 2, Opcode::NonControl1 => 3, Opcode::NonControl2 => 4, Opcode::NonControl3 => 5,
        Opcode::NonControl4 => 6, Opcode::NonControl5 => 7, Opcode::Close => 8, Opcode::Ping => 9, Opcode::Pong => 10, Opcode::Control1 => 11,
        Opcode::Control2 => 12, Opcode::Control3 => 13, Opcode::Control4 => 14, Opcode::Control5 => 15 }
}
impl Opcode {
//@fn src/ws/dataframe.rs | impl Opcode | new
//@ret r
//@spec
        ensures match r { Some(o) => op_num(o) == op && op <= 15, None => op > 15 },
//@end
}
//@item src/ws/dataframe.rs | struct | DataFrame
pub open spec fn flag_octet(fin: bool, rsv: Seq<bool>) -> u8 {
    ((if fin { 128int } else { 0 }) + (if rsv[0] { 64int } else { 0 }) + (if rsv[1] { 32int } else { 0 }) + (if rsv[2] { 16int } else { 0 })) as u8
}
pub open spec fn frame_hdr(fin: bool, rsv: Seq<bool>, op: u8, key: Option<[u8; 4]>, len: nat) -> WsFrameHeader {
    WsFrameHeader { flags: WsFrameFlags { b: flag_octet(fin, rsv) }, opcode: op, mask: key, len: len as u64 }
}
pub open spec fn frame_octets(fin: bool, rsv: Seq<bool>, op: u8, key: Option<[u8; 4]>, payload: Seq<u8>) -> Seq<u8> {
    hdr_octets(frame_hdr(fin, rsv, op, key, payload.len())) + (match key { Some(k) => masked(k@, 0, payload), None => payload })
}
proof fn fbits()
    ensures 0u8 | 0x80 == 128, forall|b: u8| b % 128 == 0 ==> #[trigger] (b | 0x40) == b + 64, forall|b: u8| b % 64 == 0 ==> #[trigger] (b | 0x20) == b + 32,
        forall|b: u8| b % 32 == 0 ==> #[trigger] (b | 0x10) == b + 16,
{
    assert(0u8 | 0x80 == 128) by (bit_vector);
    assert(forall|b: u8| b % 128 == 0 ==> #[trigger] (b | 0x40) == add(b, 64)) by (bit_vector); assert(forall|b: u8| b % 64 == 0 ==> #[trigger] (b | 0x20) == add(b, 32)) by (bit_vector);
    assert(forall|b: u8| b % 32 == 0 ==> #[trigger] (b | 0x10) == add(b, 16)) by (bit_vector);
}
/// masking twice with one key gives the data back
pub proof fn w02_involution(key: Seq<u8>, p: int, x: Seq<u8>)
    ensures masked(key, p, masked(key, p, x)) == x
{ xor_twice(); assert(masked(key, p, masked(key, p, x)) =~= x); }
/// and does not depend on how the data is cut
pub proof fn w02_pieces(key: Seq<u8>, p: int, x: Seq<u8>, y: Seq<u8>)
    ensures masked(key, p, x + y) == masked(key, p, x) + masked(key, p + x.len(), y)
{ assert(masked(key, p, x + y) =~= masked(key, p, x) + masked(key, p + x.len(), y)); }
proof fn wrote(data: Seq<u8>, hdr: Seq<u8>, key: Option<[u8; 4]>, payload: Seq<u8>)
    requires match key { None => data == hdr + payload,
        Some(k) => hdr.len() <= data.len() && data.take(hdr.len() as int) == hdr && masked(k@, 0, data.skip(hdr.len() as int)) == payload },
    ensures data == hdr + (match key { Some(k) => masked(k@, 0, payload), None => payload }),
{
    if key is Some {
        w02_involution(key->0@, 0, data.skip(hdr.len() as int));
        assert(data =~= data.take(hdr.len() as int) + data.skip(hdr.len() as int));
    }
}
pub trait DataFrameable: Sized {
    spec fn sp_last(&self) -> bool;
    spec fn sp_op(&self) -> u8;
    spec fn sp_rsv(&self) -> Seq<bool>;
    spec fn sp_payload(&self) -> Seq<u8>;
    fn is_last(&self) -> (r: bool)
        ensures r == self.sp_last();
    fn opcode(&self) -> (r: u8)
        ensures r == self.sp_op();
    fn reserved(&self) -> (r: &[bool; 3])
        ensures r@ == self.sp_rsv();
    fn size(&self) -> (r: usize)
        ensures r == self.sp_payload().len();
    fn write_payload<S: Sink>(&self, socket: &mut S) -> (r: WebResult<()>)
        requires old(socket).ok(),
        ensures r is Ok, final(socket).ok(), final(socket).fut() == old(socket).fut(), final(socket).out() == old(socket).out() + self.sp_payload();
    fn take_payload(self) -> (r: Vec<u8>)
        ensures r@ == self.sp_payload();
//@fn src/ws/dataframe.rs | trait DataFrameable | frame_size
//@ret r
//@spec
        requires self.sp_payload().len() + 14 <= usize::MAX,
        ensures r == hdr_size(self.sp_payload().len(), masked) + self.sp_payload().len(),
//@end
//@fn src/ws/dataframe.rs | trait DataFrameable | write_to
//@sub fn\s+write_to\s*\( => fn write_to<S: Sink>(
//@sub impl\s+Sink => S
//@ret r
//@sub let\s+mut\s+data\s*=\s*Vec\s*::\s*<\s*u8\s*>\s*::\s*new\s*\(\s*\)\s*; => let mut data = Vec::<u8>::new(); proof { assert(header == frame_hdr(self.sp_last(), self.sp_rsv(), self.sp_op(), masking_key, self.sp_payload().len())); }
//@sub writer\s*\.\s*put_slice\s*\(\s*data\s*\.\s*as_slice\s*\(\s*\)\s*\)\s*; => proof { wrote(data@, hdr_octets(frame_hdr(self.sp_last(), self.sp_rsv(), self.sp_op(), masking_key, self.sp_payload().len())), masking_key, self.sp_payload()); } writer.put_slice(data.as_slice());
//@spec
        requires old(writer).ok(),
        ensures
            r is Err <==> (self.sp_op() > 15 || (self.sp_op() >= 8 && self.sp_payload().len() > 125)),
            r is Ok ==> final(writer).out() == old(writer).out() + frame_octets(self.sp_last(), self.sp_rsv(), self.sp_op(), masking_key, self.sp_payload()),
            final(writer).ok(), final(writer).fut() == old(writer).fut(),
//@at start
        proof { fbits(); }
//@end
}
}
fn main() {}

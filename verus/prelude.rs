#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
// ---- trusted model of algorithm::buf (external crate): octet sources and sinks ----
// rem(): the octets not yet consumed.  Contiguous buffers: chunk() is all of rem().
pub trait Bt {
    spec fn rem(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize)
        ensures r == self.rem().len();
    fn has_remaining(&self) -> (r: bool)
        ensures r == (self.rem().len() > 0);
    fn chunk(&self) -> (r: &[u8])
        ensures r@ == self.rem();
    fn peek(&self) -> (r: Option<u8>)
        ensures match r { Some(b) => self.rem().len() > 0 && b == self.rem()[0], None => self.rem().len() == 0 };
    fn get_next(&mut self) -> (r: Option<u8>)
        ensures match r {
            Some(b) => old(self).rem().len() > 0 && b == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem() };
    fn advance(&mut self, n: usize)
        requires n <= old(self).rem().len(),
        ensures final(self).rem() == old(self).rem().skip(n as int);
    fn advance_chunk(&mut self, n: usize) -> (r: &[u8])
        requires n <= old(self).rem().len(),
        ensures final(self).rem() == old(self).rem().skip(n as int), r@ == old(self).rem().take(n as int);
    fn get_u8(&mut self) -> (r: u8)
        requires old(self).rem().len() >= 1,
        ensures final(self).rem() == old(self).rem().skip(1), r == old(self).rem()[0];
    fn get_u16(&mut self) -> (r: u16)
        requires old(self).rem().len() >= 2,
        ensures final(self).rem() == old(self).rem().skip(2), r as nat == be(old(self).rem().take(2));
    fn get_u32(&mut self) -> (r: u32)
        requires old(self).rem().len() >= 4,
        ensures final(self).rem() == old(self).rem().skip(4), r as nat == be(old(self).rem().take(4));
    fn get_u64(&mut self) -> (r: u64)
        requires old(self).rem().len() >= 8,
        ensures final(self).rem() == old(self).rem().skip(8), r as nat == be(old(self).rem().take(8));
    fn try_get_u8(&mut self) -> (r: Result<u8, IoError>)
        ensures match r {
            Ok(v) => old(self).rem().len() >= 1 && final(self).rem() == old(self).rem().skip(1) && v == old(self).rem()[0],
            Err(_) => old(self).rem().len() < 1 };
    fn try_get_u16(&mut self) -> (r: Result<u16, IoError>)
        ensures match r {
            Ok(v) => old(self).rem().len() >= 2 && final(self).rem() == old(self).rem().skip(2) && v as nat == be(old(self).rem().take(2)),
            Err(_) => old(self).rem().len() < 2 };
    fn try_get_u64(&mut self) -> (r: Result<u64, IoError>)
        ensures match r {
            Ok(v) => old(self).rem().len() >= 8 && final(self).rem() == old(self).rem().skip(8) && v as nat == be(old(self).rem().take(8)),
            Err(_) => old(self).rem().len() < 8 };
    fn copy_to_slice(&mut self, dst: &mut [u8]) -> (n: usize)
        requires old(self).rem().len() >= old(dst)@.len(),
        ensures final(self).rem() == old(self).rem().skip(old(dst)@.len() as int), final(dst)@ == old(self).rem().take(old(dst)@.len() as int),
            n == old(dst)@.len();
}
// out(): everything written so far.
pub trait BtMut {
    spec fn out(&self) -> Seq<u8>;
    // the number of those octets already read back (of a sink that is a source too)
    spec fn taken(&self) -> nat;
    fn put_slice(&mut self, src: &[u8]) -> (n: usize)
        ensures final(self).taken() == old(self).taken(), final(self).out() == old(self).out() + src@, n == src@.len();
    fn put_u8(&mut self, v: u8) -> (n: usize)
        ensures final(self).taken() == old(self).taken(), final(self).out() == old(self).out() + seq![v], n == 1;
    fn put_u16(&mut self, v: u16) -> (n: usize)
        ensures final(self).taken() == old(self).taken(), final(self).out() == old(self).out() + be_bytes(v as nat, 2), n == 2;
    fn put_u32(&mut self, v: u32) -> (n: usize)
        ensures final(self).taken() == old(self).taken(), final(self).out() == old(self).out() + be_bytes(v as nat, 4), n == 4;
    fn put_u64(&mut self, v: u64) -> (n: usize)
        ensures final(self).taken() == old(self).taken(), final(self).out() == old(self).out() + be_bytes(v as nat, 8), n == 8;
}
pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
// big-endian numbers
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat }
}
pub open spec fn be_bytes(v: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { be_bytes(v / 256, (n - 1) as nat).push((v % 256) as u8) }
}
pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub proof fn be_bytes_len(v: nat, n: nat)
    ensures be_bytes(v, n).len() == n
    decreases n
{ if n > 0 { be_bytes_len(v / 256, (n - 1) as nat); } }
pub proof fn be_inverse(v: nat, n: nat)
    requires v < pow256(n)
    ensures be(be_bytes(v, n)) == v, be_bytes(v, n).len() == n
    decreases n
{
    be_bytes_len(v, n);
    if n > 0 {
        assert(v / 256 < pow256((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        be_inverse(v / 256, (n - 1) as nat);
        assert(be_bytes(v, n).drop_last() =~= be_bytes(v / 256, (n - 1) as nat));
    }
}
pub proof fn be_inverse2(s: Seq<u8>)
    ensures be_bytes(be(s), s.len()) == s, be(s) < pow256(s.len()),
    decreases s.len()
{
    if s.len() > 0 {
        be_inverse2(s.drop_last());
        assert(be(s.drop_last()) * 256 + (s.last() as nat) < 256 * pow256((s.len() - 1) as nat)) by (nonlinear_arith)
            requires be(s.drop_last()) + 1 <= pow256((s.len() - 1) as nat), s.last() <= 255;
        assert(be_bytes(be(s), s.len()) =~= s);
    }
}
// ---- std::io::Error, std::num::Wrapping (modelled) ----
#[derive(Debug)] pub struct IoError;
pub struct Wrapping<T>(pub T);
impl vstd::std_specs::ops::SubSpecImpl<Wrapping<u8>> for Wrapping<u8> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Wrapping<u8>) -> bool { true }
    open spec fn sub_spec(self, o: Wrapping<u8>) -> Wrapping<u8> { Wrapping(if self.0 >= o.0 { (self.0 - o.0) as u8 } else { (self.0 - o.0 + 256) as u8 }) }
}
impl std::ops::Sub for Wrapping<u8> {
    type Output = Wrapping<u8>;
    fn sub(self, o: Wrapping<u8>) -> Wrapping<u8> { Wrapping(if self.0 >= o.0 { self.0 - o.0 } else { (self.0 as u16 + 256 - o.0 as u16) as u8 }) }
}
// ---- std functions without a vstd contract ----
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    where T: std::clone::Clone,
    ensures all_cloned(s@, r@), r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
pub open spec fn all_cloned<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned(#[trigger] a[i], b[i]) }
pub broadcast proof fn all_cloned_u8(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] all_cloned(a, b) ==> a == b
{ if all_cloned(a, b) { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(cloned(a[i], b[i])); } assert(a =~= b); } }
pub broadcast proof fn cloned_u8(a: u8, b: u8)
    ensures #[trigger] cloned(a, b) ==> a == b
{ }
// ---- errors: the enums of /repo ----
//@item src/http/error.rs | enum | HttpError | derive=Debug
//@item src/ws/error.rs | enum | WsError | derive=Debug
//@item src/url/error.rs | enum | UrlError | derive=Debug
//@item src/http/http2/hpack/huffman.rs | enum | HuffmanDecoderError | derive=Debug
//@item src/http/http2/hpack/decoder.rs | enum | IntegerDecodingError | derive=Debug
//@item src/http/http2/hpack/decoder.rs | enum | StringDecodingError | derive=Debug
//@item src/http/http2/hpack/decoder.rs | enum | DecoderError | derive=Debug
//@item src/http/http2/error.rs | enum | Http2Error | derive=Debug
//@item src/error.rs | enum | WebError | derive=Debug
//@sub std\s*::\s*io\s*::\s*Error => IoError
pub type WebResult<T> = Result<T, WebError>;
/// more octets may mend it
pub open spec fn partial(e: WebError) -> bool { e == WebError::Http(HttpError::Partial) }
impl vstd::std_specs::convert::FromSpecImpl<HttpError> for WebError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: HttpError) -> WebError { WebError::Http(e) } }
impl From<HttpError> for WebError { fn from(e: HttpError) -> WebError { WebError::Http(e) } }
impl vstd::std_specs::convert::FromSpecImpl<UrlError> for WebError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: UrlError) -> WebError { WebError::Url(e) } }
impl From<UrlError> for WebError { fn from(e: UrlError) -> WebError { WebError::Url(e) } }
impl vstd::std_specs::convert::FromSpecImpl<IoError> for WebError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: IoError) -> WebError { WebError::Io(e) } }
impl From<IoError> for WebError { fn from(e: IoError) -> WebError { WebError::Io(e) } }
impl vstd::std_specs::convert::FromSpecImpl<WsError> for WebError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: WsError) -> WebError { WebError::Ws(e) } }
impl From<WsError> for WebError { fn from(e: WsError) -> WebError { WebError::Ws(e) } }
impl vstd::std_specs::convert::FromSpecImpl<DecoderError> for Http2Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: DecoderError) -> Http2Error { Http2Error::Decoder(e) } }
impl From<DecoderError> for Http2Error { fn from(e: DecoderError) -> Http2Error { Http2Error::Decoder(e) } }
impl vstd::std_specs::convert::FromSpecImpl<HuffmanDecoderError> for Http2Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: HuffmanDecoderError) -> Http2Error { Http2Error::Huffman(e) } }
impl From<HuffmanDecoderError> for Http2Error { fn from(e: HuffmanDecoderError) -> Http2Error { Http2Error::Huffman(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Http2Error> for WebError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Http2Error) -> WebError { WebError::Http2(e) } }
impl From<Http2Error> for WebError { fn from(e: Http2Error) -> WebError { WebError::Http2(e) } }
/// stands for assert!: that it does not fail is an obligation
pub fn rt_assert(b: bool) requires b {}
impl Http2Error {
    #[verifier::external_body]
    pub fn into<E: Into<Http2Error>>(e: E) -> (r: WebError)
        ensures r is Http2
    { WebError::Http2(e.into()) }
}
}

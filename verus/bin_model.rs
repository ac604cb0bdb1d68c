verus! {
// ---- algorithm::buf::{Binary, BinaryMut} (external crate, modelled): octet strings; Binary is a source, BinaryMut a source and a sink ----
#[verifier::external_body]
pub struct Binary { v: Vec<u8> }
impl Binary {
    #[verifier::external_body]
    pub fn new() -> (r: Binary) ensures r.rem() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from_slice(s: &[u8]) -> (r: Binary) ensures r.rem() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Binary) ensures r.rem() == v@ { unimplemented!() }
}
#[verifier::external_body]
pub struct BinaryMut { v: Vec<u8> }
impl BinaryMut {
    #[verifier::external_body]
    pub fn new() -> (r: BinaryMut) ensures r.out() == Seq::<u8>::empty(), r.taken() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &[u8]) -> (r: BinaryMut) ensures r.out() == s@, r.rem() == s@, r.taken() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Binary) ensures r.rem() == self.rem() { unimplemented!() }
}
/// what is left to read is what was written less what was taken
pub proof fn bin_rems() ensures forall|b: BinaryMut| #[trigger] b.taken() == 0 ==> b.rem() == b.out()
{ assert forall|b: BinaryMut| #[trigger] b.taken() == 0 implies b.rem() == b.out() by { bin_rem(b); assert(b.out().skip(0) =~= b.out()); } }
// no Rust object is larger than isize::MAX octets
pub axiom fn bin_max(b: BinaryMut) ensures b.rem().len() <= isize::MAX;
pub axiom fn bin_rem(b: BinaryMut) ensures b.taken() <= b.out().len(), b.rem() == b.out().skip(b.taken() as int);
impl Bt for Binary {
    uninterp spec fn rem(&self) -> Seq<u8>;
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn peek(&self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn get_next(&mut self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn advance_chunk(&mut self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn get_u64(&mut self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn try_get_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u16(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u64(&mut self) -> (r: Result<u64, IoError>) { unimplemented!() }
    #[verifier::external_body] fn copy_to_slice(&mut self, dst: &mut [u8]) -> (n: usize) { unimplemented!() }
}
impl Bt for BinaryMut {
    uninterp spec fn rem(&self) -> Seq<u8>;
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn peek(&self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn get_next(&mut self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) ensures final(self).out() == old(self).out(), final(self).taken() == old(self).taken() + n { unimplemented!() }
    #[verifier::external_body] fn advance_chunk(&mut self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) ensures final(self).out() == old(self).out(), final(self).taken() == old(self).taken() + 1 { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) ensures final(self).out() == old(self).out(), final(self).taken() == old(self).taken() + 2 { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) ensures final(self).out() == old(self).out(), final(self).taken() == old(self).taken() + 4 { unimplemented!() }
    #[verifier::external_body] fn get_u64(&mut self) -> (r: u64) ensures final(self).out() == old(self).out(), final(self).taken() == old(self).taken() + 8 { unimplemented!() }
    #[verifier::external_body] fn try_get_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u16(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u64(&mut self) -> (r: Result<u64, IoError>) { unimplemented!() }
    #[verifier::external_body] fn copy_to_slice(&mut self, dst: &mut [u8]) -> (n: usize) { unimplemented!() }
}
impl BtMut for BinaryMut {
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn taken(&self) -> nat;
    #[verifier::external_body] fn put_slice(&mut self, src: &[u8]) -> (n: usize) { unimplemented!() }
    #[verifier::external_body] fn put_u8(&mut self, v: u8) -> (n: usize) { unimplemented!() }
    #[verifier::external_body] fn put_u16(&mut self, v: u16) -> (n: usize) { unimplemented!() }
    #[verifier::external_body] fn put_u32(&mut self, v: u32) -> (n: usize) { unimplemented!() }
    #[verifier::external_body] fn put_u64(&mut self, v: u64) -> (n: usize) { unimplemented!() }
}
}

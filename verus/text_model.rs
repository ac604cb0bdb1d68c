verus! {
// ---- std::string::String and str, by their octets ----
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;   // well-formed UTF-8
pub mod ax {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    // == on slices and vectors of octets compares the octets (core::slice, alloc::vec)
    pub broadcast axiom fn ax_slice_eq(a: &[u8], b: &[u8])
        ensures #[trigger] PartialEqSpec::<[u8]>::eq_spec(a, b) == (a@ == b@);
    pub broadcast axiom fn ax_slice_obeys()
        ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
    pub broadcast axiom fn ax_vec_eq(a: &Vec<u8>, b: &Vec<u8>)
        ensures #[trigger] PartialEqSpec::<Vec<u8>>::eq_spec(a, b) == (a@ == b@);
    pub broadcast axiom fn ax_vec_obeys()
        ensures #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
}
broadcast use {ax::ax_slice_eq, ax::ax_slice_obeys, ax::ax_vec_eq, ax::ax_vec_obeys};
// no Rust object is larger than isize::MAX octets
pub axiom fn axiom_slice_max(s: &[u8]) ensures s@.len() <= isize::MAX;
pub axiom fn axiom_vec_max(s: &Vec<u8>) ensures s@.len() <= isize::MAX;
/// ASCII text is well-formed UTF-8
pub axiom fn ascii_utf8(s: Seq<u8>) requires is_ascii(s) ensures utf8(s);
/// String::from_utf8_lossy: ill-formed sequences read as replacement characters
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<u8>;
pub axiom fn lossy_utf8(s: Seq<u8>) ensures utf8(s) ==> lossy(s) == s;
/// U+FFFD takes three octets, for one octet or more
pub axiom fn lossy_len(s: Seq<u8>) ensures lossy(s).len() <= 3 * s.len();
pub struct Text { pub v: Vec<u8> }
#[verifier::external_body] pub struct Str { p: () }
#[derive(Debug)] pub struct Utf8Error;
impl Text {
    pub open spec fn bytes(&self) -> Seq<u8> { self.v@ }
    #[verifier::external_body]
    pub fn new() -> (r: Text) ensures r.bytes() == Seq::<u8>::empty() { Text { v: Vec::new() } }
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r == self.v, r@ == self.bytes() { self.v }
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() <= isize::MAX { proof { axiom_vec_max(&self.v); } self.v.as_slice() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), r <= isize::MAX { self.v.len() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Str) ensures r.bytes() == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Text) ensures r.bytes() == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<Text, Utf8Error>)
        ensures r is Ok <==> utf8(v@), r is Ok ==> r->Ok_0.bytes() == v@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8_lossy(s: &[u8]) -> (r: Text)
        ensures r.bytes() == lossy(s@), utf8(s@) ==> r.bytes() == s@, utf8(r.bytes())
    { unimplemented!() }
    pub fn to_string(&self) -> (r: Text) ensures r.bytes() == self.bytes() { self.clone() }
    #[verifier::external_body]
    pub fn contains(&self, s: &Str) -> (r: bool) ensures r == (exists|i: int| sub_at(self.bytes(), s.bytes(), i)) { unimplemented!() }
    // splitn(2, c).collect::<Vec<&str>>(), c an ASCII character
    #[verifier::external_body]
    pub fn splitn_collect(&self, n: usize, c: char) -> (r: Vec<&Str>)
        requires n == 2, c as u32 <= 127,
        ensures r@.len() >= 1, r@[0].bytes() == until(self.bytes(), c as u8),
            r@.len() == 2 <==> exists|i: int| 0 <= i < self.bytes().len() && self.bytes()[i] == c as u8,
            r@.len() <= 2, r@.len() == 2 ==> r@[1].bytes() == self.bytes().skip(until(self.bytes(), c as u8).len() as int + 1),
    { unimplemented!() }
}
pub open spec fn sub_at(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i && i + b.len() <= a.len() && a.subrange(i, i + b.len()) == b }
// the part before the first c, or all of it
pub open spec fn until(s: Seq<u8>, c: u8) -> Seq<u8> decreases s.len() { if s.len() == 0 || s[0] == c { Seq::empty() } else { seq![s[0]] + until(s.skip(1), c) } }
pub proof fn lemma_until_all(s: Seq<u8>, c: u8)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != c ensures until(s, c) == s decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != c by { assert(s.skip(1)[i] == s[i + 1]); } lemma_until_all(s.skip(1), c); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(s =~= Seq::empty()); } }
pub open spec fn is_ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub open spec fn upper(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| if 97 <= b <= 122 { (b - 32) as u8 } else { b }) }
pub open spec fn lower(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| if 65 <= b <= 90 { (b + 32) as u8 } else { b }) }
impl Str {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Text) ensures r.bytes() == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), r <= isize::MAX { unimplemented!() }
    /// s[a..b] of ASCII text
    #[verifier::external_body]
    pub fn slice(&self, a: usize, b: usize) -> (r: &Str)
        requires a <= b <= self.bytes().len(), forall|i: int| 0 <= i < self.bytes().len() ==> self.bytes()[i] < 128
        ensures r.bytes() == self.bytes().subrange(a as int, b as int) { unimplemented!() }
    /// ASCII letters in the other case; other text changes in a way the model does not fix
    #[verifier::external_body]
    pub fn to_uppercase(&self) -> (r: Text) ensures is_ascii(self.bytes()) ==> r.bytes() == upper(self.bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_lowercase(&self) -> (r: Text) ensures is_ascii(self.bytes()) ==> r.bytes() == lower(self.bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub const fn lit(b: &'static [u8]) -> (r: &'static Str) ensures r.bytes() == b@, b@.len() == 0 ==> r.bytes() == Seq::<u8>::empty(), b@.len() == 1 ==> r.bytes() == seq![b@[0]], b@.len() == 2 ==> r.bytes() == seq![b@[0], b@[1]], b@.len() == 3 ==> r.bytes() == seq![b@[0], b@[1], b@[2]] { &Str { p: () } }
}
pub fn str_same(a: &Str, b: &Str) -> (r: bool) ensures r == (a.bytes() == b.bytes()) { a == b }
/// cfg!(debug_assertions), either way
#[verifier::external_body] pub fn rt_debug() -> bool { unimplemented!() }
// ---- std::fmt: the text a value is displayed as ----
pub open spec fn decs(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { decs(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn hexd(d: nat) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
pub open spec fn hexs(n: nat) -> Seq<u8> decreases n { if n < 16 { seq![hexd(n)] } else { hexs(n / 16).push(hexd(n % 16)) } }
pub trait DispM { spec fn disp(&self) -> Seq<u8>; }
impl DispM for Str { open spec fn disp(&self) -> Seq<u8> { self.bytes() } }
impl DispM for Text { open spec fn disp(&self) -> Seq<u8> { self.bytes() } }
impl DispM for u16 { open spec fn disp(&self) -> Seq<u8> { decs(*self as nat) } }
impl DispM for usize { open spec fn disp(&self) -> Seq<u8> { decs(*self as nat) } }
impl<T: DispM> DispM for &T { open spec fn disp(&self) -> Seq<u8> { (**self).disp() } }
impl Text {
    #[verifier::external_body]
    pub fn put_str(&mut self, s: &Str) ensures final(self).bytes() == old(self).bytes() + s.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_disp<T: DispM>(&mut self, x: &T) ensures final(self).bytes() == old(self).bytes() + x.disp() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_hex(&mut self, x: &usize) ensures final(self).bytes() == old(self).bytes() + hexs(*x as nat) { unimplemented!() }
}
// std::fmt::Formatter
pub struct FmtErr;
pub struct Formatter { pub o: Text }
impl Formatter {
    pub open spec fn out(&self) -> Seq<u8> { self.o.bytes() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &Str) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self).out() == old(self).out() + s.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_fmt(&mut self, s: Text) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self).out() == old(self).out() + s.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub fn from_utf8(s: &[u8]) -> (r: Result<&Str, Utf8Error>)
    ensures r is Ok <==> utf8(s@), r is Ok ==> r->Ok_0.bytes() == s@
{ unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Str) -> bool { self.bytes() == o.bytes() }
}
impl PartialEq for Str {
    #[verifier::external_body]
    fn eq(&self, o: &Str) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Text {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Text) -> bool { self.bytes() == o.bytes() }
}
impl PartialEq for Text {
    #[verifier::external_body]
    fn eq(&self, o: &Text) -> bool { unimplemented!() }
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (x: Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct
    ensures r == (match x { Ok(v) => v, Err(_) => d });
pub struct Helper;   // src/helper.rs: a name for its functions
// AsRef<[u8]>
pub trait AsRefBytes {
    spec fn sp_ref(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.sp_ref();
}
impl<'a> AsRefBytes for &'a Str { open spec fn sp_ref(&self) -> Seq<u8> { self.bytes() } fn as_ref(&self) -> (r: &[u8]) { self.as_bytes() } }
impl AsRefBytes for Text { open spec fn sp_ref(&self) -> Seq<u8> { self.bytes() } fn as_ref(&self) -> (r: &[u8]) { self.as_bytes() } }
// std::hash::Hasher: the octets fed to it
pub trait HasherM {
    spec fn fed(&self) -> Seq<u8>;
    fn write_u8(&mut self, b: u8) ensures final(self).fed() == old(self).fed() + seq![b];
    // <[u8] as Hash>::hash: a length prefix and the octets
    fn write_slice(&mut self, s: &[u8]) ensures final(self).fed() == old(self).fed() + be_bytes(s@.len(), 8) + s@;
    fn finish(&self) -> u64;
}
}

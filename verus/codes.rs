//@import hname.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub &'a\s+str\b => &'a Str
//@globsub &\s*str\b => &Str
//@globsub \bString\b => Text
//@globsub \bWebError::Http\(crate::HttpError => WebError::Http(HttpError
//@globsub \bcrate::UrlError => UrlError
//@globsub WebError::Serialize\(Str::lit\(.*?\)\) => WebError::Serialize("")
verus! {
// ================= status codes =================
pub struct NonZeroU16 { pub v: u16 }   // core::num::NonZeroU16
impl NonZeroU16 {
    pub fn new(v: u16) -> (r: Option<NonZeroU16>) ensures r == (if v == 0 { None } else { Some(NonZeroU16 { v }) }) { if v == 0 { None } else { Some(NonZeroU16 { v }) } }
    pub const fn new_unchecked(v: u16) -> (r: NonZeroU16) requires v != 0 ensures r.v == v { NonZeroU16 { v } }
    pub fn get(&self) -> (r: u16) ensures r == self.v { self.v }
}
impl Clone for NonZeroU16 { fn clone(&self) -> (r: Self) ensures r == *self { NonZeroU16 { v: self.v } } }
impl Copy for NonZeroU16 {}
//@item src/http/status.rs | struct | StatusCode
impl Clone for StatusCode { fn clone(&self) -> (r: Self) ensures r == *self { StatusCode(self.0) } }
impl Copy for StatusCode {}
impl StatusCode {
    pub open spec fn code(&self) -> u16 { self.0.v }
    /// every status a caller can hold: the constructors below establish it
    pub open spec fn wf(&self) -> bool { 100 <= self.code() <= 999 }
}
/// the number three octets spell
pub open spec fn three(s: Seq<u8>) -> int { (s[0] - 48) * 100 + (s[1] - 48) * 10 + (s[2] - 48) }
pub open spec fn digs(s: Seq<u8>) -> bool { s.len() == 3 && 49 <= s[0] <= 57 && 48 <= s[1] <= 57 && 48 <= s[2] <= 57 }
pub open spec fn text3(n: u16) -> Seq<u8> { seq![(48 + n / 100) as u8, (48 + n / 10 % 10) as u8, (48 + n % 10) as u8] }
pub open spec fn from_text(s: Seq<u8>) -> Option<int> { if digs(s) { Some(three(s)) } else { None } }
pub open spec fn status_reads(r: WebResult<StatusCode>, s: Seq<u8>) -> bool { match from_text(s) { Some(n) => r is Ok && r->Ok_0.code() == n && r->Ok_0.wf(), None => r is Err && !partial(r->Err_0) } }
/// the text of every status reads back as that status
pub proof fn lemma_status_roundtrip(n: u16)
    requires 100 <= n <= 999
    ensures from_text(text3(n)) == Some(n as int)
{}
pub open spec fn registered(n: u16) -> Option<Seq<u8>> {
    if n == 100 { Some(seq![67u8, 111, 110, 116, 105, 110, 117, 101]) }
    else if n == 101 { Some(seq![83u8, 119, 105, 116, 99, 104, 105, 110, 103, 32, 80, 114, 111, 116, 111, 99, 111, 108, 115]) }
    else if n == 102 { Some(seq![80u8, 114, 111, 99, 101, 115, 115, 105, 110, 103]) }
    else if n == 103 { Some(seq![69u8, 97, 114, 108, 121, 32, 72, 105, 110, 116, 115]) }
    else if n == 200 { Some(seq![79u8, 75]) }
    else if n == 201 { Some(seq![67u8, 114, 101, 97, 116, 101, 100]) }
    else if n == 202 { Some(seq![65u8, 99, 99, 101, 112, 116, 101, 100]) }
    else if n == 203 { Some(seq![78u8, 111, 110, 45, 65, 117, 116, 104, 111, 114, 105, 116, 97, 116, 105, 118, 101, 32, 73, 110, 102, 111, 114, 109, 97, 116, 105, 111, 110]) }
    else if n == 204 { Some(seq![78u8, 111, 32, 67, 111, 110, 116, 101, 110, 116]) }
    else if n == 205 { Some(seq![82u8, 101, 115, 101, 116, 32, 67, 111, 110, 116, 101, 110, 116]) }
    else if n == 206 { Some(seq![80u8, 97, 114, 116, 105, 97, 108, 32, 67, 111, 110, 116, 101, 110, 116]) }
    else if n == 207 { Some(seq![77u8, 117, 108, 116, 105, 45, 83, 116, 97, 116, 117, 115]) }
    else if n == 208 { Some(seq![65u8, 108, 114, 101, 97, 100, 121, 32, 82, 101, 112, 111, 114, 116, 101, 100]) }
    else if n == 226 { Some(seq![73u8, 77, 32, 85, 115, 101, 100]) }
    else if n == 300 { Some(seq![77u8, 117, 108, 116, 105, 112, 108, 101, 32, 67, 104, 111, 105, 99, 101, 115]) }
    else if n == 301 { Some(seq![77u8, 111, 118, 101, 100, 32, 80, 101, 114, 109, 97, 110, 101, 110, 116, 108, 121]) }
    else if n == 302 { Some(seq![70u8, 111, 117, 110, 100]) }
    else if n == 303 { Some(seq![83u8, 101, 101, 32, 79, 116, 104, 101, 114]) }
    else if n == 304 { Some(seq![78u8, 111, 116, 32, 77, 111, 100, 105, 102, 105, 101, 100]) }
    else if n == 305 { Some(seq![85u8, 115, 101, 32, 80, 114, 111, 120, 121]) }
    else if n == 307 { Some(seq![84u8, 101, 109, 112, 111, 114, 97, 114, 121, 32, 82, 101, 100, 105, 114, 101, 99, 116]) }
    else if n == 308 { Some(seq![80u8, 101, 114, 109, 97, 110, 101, 110, 116, 32, 82, 101, 100, 105, 114, 101, 99, 116]) }
    else if n == 400 { Some(seq![66u8, 97, 100, 32, 82, 101, 113, 117, 101, 115, 116]) }
    else if n == 401 { Some(seq![85u8, 110, 97, 117, 116, 104, 111, 114, 105, 122, 101, 100]) }
    else if n == 402 { Some(seq![80u8, 97, 121, 109, 101, 110, 116, 32, 82, 101, 113, 117, 105, 114, 101, 100]) }
    else if n == 403 { Some(seq![70u8, 111, 114, 98, 105, 100, 100, 101, 110]) }
    else if n == 404 { Some(seq![78u8, 111, 116, 32, 70, 111, 117, 110, 100]) }
    else if n == 405 { Some(seq![77u8, 101, 116, 104, 111, 100, 32, 78, 111, 116, 32, 65, 108, 108, 111, 119, 101, 100]) }
    else if n == 406 { Some(seq![78u8, 111, 116, 32, 65, 99, 99, 101, 112, 116, 97, 98, 108, 101]) }
    else if n == 407 { Some(seq![80u8, 114, 111, 120, 121, 32, 65, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 105, 111, 110, 32, 82, 101, 113, 117, 105, 114, 101, 100]) }
    else if n == 408 { Some(seq![82u8, 101, 113, 117, 101, 115, 116, 32, 84, 105, 109, 101, 111, 117, 116]) }
    else if n == 409 { Some(seq![67u8, 111, 110, 102, 108, 105, 99, 116]) }
    else if n == 410 { Some(seq![71u8, 111, 110, 101]) }
    else if n == 411 { Some(seq![76u8, 101, 110, 103, 116, 104, 32, 82, 101, 113, 117, 105, 114, 101, 100]) }
    else if n == 412 { Some(seq![80u8, 114, 101, 99, 111, 110, 100, 105, 116, 105, 111, 110, 32, 70, 97, 105, 108, 101, 100]) }
    else if n == 413 { Some(seq![80u8, 97, 121, 108, 111, 97, 100, 32, 84, 111, 111, 32, 76, 97, 114, 103, 101]) }
    else if n == 414 { Some(seq![85u8, 82, 73, 32, 84, 111, 111, 32, 76, 111, 110, 103]) }
    else if n == 415 { Some(seq![85u8, 110, 115, 117, 112, 112, 111, 114, 116, 101, 100, 32, 77, 101, 100, 105, 97, 32, 84, 121, 112, 101]) }
    else if n == 416 { Some(seq![82u8, 97, 110, 103, 101, 32, 78, 111, 116, 32, 83, 97, 116, 105, 115, 102, 105, 97, 98, 108, 101]) }
    else if n == 417 { Some(seq![69u8, 120, 112, 101, 99, 116, 97, 116, 105, 111, 110, 32, 70, 97, 105, 108, 101, 100]) }
    else if n == 418 { Some(seq![73u8, 39, 109, 32, 97, 32, 116, 101, 97, 112, 111, 116]) }
    else if n == 421 { Some(seq![77u8, 105, 115, 100, 105, 114, 101, 99, 116, 101, 100, 32, 82, 101, 113, 117, 101, 115, 116]) }
    else if n == 422 { Some(seq![85u8, 110, 112, 114, 111, 99, 101, 115, 115, 97, 98, 108, 101, 32, 69, 110, 116, 105, 116, 121]) }
    else if n == 423 { Some(seq![76u8, 111, 99, 107, 101, 100]) }
    else if n == 424 { Some(seq![70u8, 97, 105, 108, 101, 100, 32, 68, 101, 112, 101, 110, 100, 101, 110, 99, 121]) }
    else if n == 425 { Some(seq![84u8, 111, 111, 32, 69, 97, 114, 108, 121]) }
    else if n == 426 { Some(seq![85u8, 112, 103, 114, 97, 100, 101, 32, 82, 101, 113, 117, 105, 114, 101, 100]) }
    else if n == 428 { Some(seq![80u8, 114, 101, 99, 111, 110, 100, 105, 116, 105, 111, 110, 32, 82, 101, 113, 117, 105, 114, 101, 100]) }
    else if n == 429 { Some(seq![84u8, 111, 111, 32, 77, 97, 110, 121, 32, 82, 101, 113, 117, 101, 115, 116, 115]) }
    else if n == 431 { Some(seq![82u8, 101, 113, 117, 101, 115, 116, 32, 72, 101, 97, 100, 101, 114, 32, 70, 105, 101, 108, 100, 115, 32, 84, 111, 111, 32, 76, 97, 114, 103, 101]) }
    else if n == 451 { Some(seq![85u8, 110, 97, 118, 97, 105, 108, 97, 98, 108, 101, 32, 70, 111, 114, 32, 76, 101, 103, 97, 108, 32, 82, 101, 97, 115, 111, 110, 115]) }
    else if n == 500 { Some(seq![73u8, 110, 116, 101, 114, 110, 97, 108, 32, 83, 101, 114, 118, 101, 114, 32, 69, 114, 114, 111, 114]) }
    else if n == 501 { Some(seq![78u8, 111, 116, 32, 73, 109, 112, 108, 101, 109, 101, 110, 116, 101, 100]) }
    else if n == 502 { Some(seq![66u8, 97, 100, 32, 71, 97, 116, 101, 119, 97, 121]) }
    else if n == 503 { Some(seq![83u8, 101, 114, 118, 105, 99, 101, 32, 85, 110, 97, 118, 97, 105, 108, 97, 98, 108, 101]) }
    else if n == 504 { Some(seq![71u8, 97, 116, 101, 119, 97, 121, 32, 84, 105, 109, 101, 111, 117, 116]) }
    else if n == 505 { Some(seq![72u8, 84, 84, 80, 32, 86, 101, 114, 115, 105, 111, 110, 32, 78, 111, 116, 32, 83, 117, 112, 112, 111, 114, 116, 101, 100]) }
    else if n == 506 { Some(seq![86u8, 97, 114, 105, 97, 110, 116, 32, 65, 108, 115, 111, 32, 78, 101, 103, 111, 116, 105, 97, 116, 101, 115]) }
    else if n == 507 { Some(seq![73u8, 110, 115, 117, 102, 102, 105, 99, 105, 101, 110, 116, 32, 83, 116, 111, 114, 97, 103, 101]) }
    else if n == 508 { Some(seq![76u8, 111, 111, 112, 32, 68, 101, 116, 101, 99, 116, 101, 100]) }
    else if n == 510 { Some(seq![78u8, 111, 116, 32, 69, 120, 116, 101, 110, 100, 101, 100]) }
    else if n == 511 { Some(seq![78u8, 101, 116, 119, 111, 114, 107, 32, 65, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 105, 111, 110, 32, 82, 101, 113, 117, 105, 114, 101, 100]) }
    else { None }
}
/// registered by RFC 7231 and before
pub open spec fn standard(n: u16) -> bool { registered(n) is Some && n != 103 && n != 425 }
/// `NNN phrase CR LF`: the registered phrase, or none for an unregistered number
pub open spec fn status_line(f: Seq<u8>, o: Seq<u8>, n: u16, p: Seq<u8>) -> bool {
    f == o + (text3(n) + seq![32u8] + p + seq![13u8, 10]) && (p == Seq::<u8>::empty() || registered(n) == Some(p)) && (standard(n) ==> registered(n) == Some(p))
}
//@octets src/http/status.rs | CODE_DIGITS
//@statuses src/http/status.rs
/// CODE_DIGITS from entry k on spells the numbers k + 100, k + 101 ..
pub open spec fn digits_ok(s: Seq<u8>, k: int, e: int) -> bool decreases e - k {
    if k >= e { true } else { s[3 * k] == 48 + (k + 100) / 100 && s[3 * k + 1] == 48 + (k + 100) / 10 % 10 && s[3 * k + 2] == 48 + (k + 100) % 10 && digits_ok(s, k + 1, e) }
}
pub proof fn lemma_digits_at(s: Seq<u8>, k: int, e: int, j: int)
    requires digits_ok(s, k, e), k <= j < e
    ensures s[3 * j] == 48 + (j + 100) / 100 && s[3 * j + 1] == 48 + (j + 100) / 10 % 10 && s[3 * j + 2] == 48 + (j + 100) % 10
    decreases j - k
{ if k < j { lemma_digits_at(s, k + 1, e, j); } }
pub proof fn lemma_chunk_len() ensures code_digits_octets().len() == 2700 { hide(code_digits_octets); assert(code_digits_octets().len() == 2700) by (compute_only); }
pub proof fn lemma_chunk_0() ensures digits_ok(code_digits_octets(), 0, 100) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 0, 100)) by (compute_only); }
pub proof fn lemma_chunk_100() ensures digits_ok(code_digits_octets(), 100, 200) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 100, 200)) by (compute_only); }
pub proof fn lemma_chunk_200() ensures digits_ok(code_digits_octets(), 200, 300) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 200, 300)) by (compute_only); }
pub proof fn lemma_chunk_300() ensures digits_ok(code_digits_octets(), 300, 400) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 300, 400)) by (compute_only); }
pub proof fn lemma_chunk_400() ensures digits_ok(code_digits_octets(), 400, 500) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 400, 500)) by (compute_only); }
pub proof fn lemma_chunk_500() ensures digits_ok(code_digits_octets(), 500, 600) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 500, 600)) by (compute_only); }
pub proof fn lemma_chunk_600() ensures digits_ok(code_digits_octets(), 600, 700) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 600, 700)) by (compute_only); }
pub proof fn lemma_chunk_700() ensures digits_ok(code_digits_octets(), 700, 800) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 700, 800)) by (compute_only); }
pub proof fn lemma_chunk_800() ensures digits_ok(code_digits_octets(), 800, 900) { hide(code_digits_octets); assert(digits_ok(code_digits_octets(), 800, 900)) by (compute_only); }
pub proof fn lemma_code_digits()
    ensures code_digits_octets().len() == 2700, is_ascii(code_digits_octets()),
        forall|j: int| 0 <= j < 900 ==> #[trigger] code_digits_octets().subrange(3 * j, 3 * j + 3) == text3((j + 100) as u16),
{
    hide(code_digits_octets);
    let s = code_digits_octets();
    lemma_chunk_len();
    lemma_chunk_0(); lemma_chunk_100(); lemma_chunk_200(); lemma_chunk_300(); lemma_chunk_400(); lemma_chunk_500(); lemma_chunk_600(); lemma_chunk_700(); lemma_chunk_800();
    assert forall|j: int| 0 <= j < 900 implies #[trigger] s.subrange(3 * j, 3 * j + 3) == text3((j + 100) as u16) by {
        lemma_digits_at(s, j / 100 * 100, j / 100 * 100 + 100, j);
        assert(s.subrange(3 * j, 3 * j + 3) =~= text3((j + 100) as u16));
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { let j = i / 3; lemma_digits_at(s, j / 100 * 100, j / 100 * 100 + 100, j); assert(i == 3 * j || i == 3 * j + 1 || i == 3 * j + 2); }
}
impl Str {
    /// s.get_unchecked(a..b)
    pub fn get_unchecked(&self, a: usize, b: usize) -> (r: &Str)
        requires a <= b <= self.bytes().len(), is_ascii(self.bytes())
        ensures r.bytes() == self.bytes().subrange(a as int, b as int) { self.slice(a, b) }
}
impl StatusCode {
//@fn src/http/status.rs | impl StatusCode | from_u16
//@ret r
//@sub \.map\(StatusCode\) => .map(|n: NonZeroU16| -> (q: StatusCode) ensures q == StatusCode(n) { StatusCode(n) })
//@spec
        ensures match r { Ok(s) => 100 <= src <= 999 && s.code() == src, Err(_) => !(100 <= src <= 999) }
//@end
//@fn src/http/status.rs | impl StatusCode | from_bytes
//@ret r
//@sub \.map\(StatusCode\) => .map(|n: NonZeroU16| -> (q: StatusCode) ensures q == StatusCode(n) { StatusCode(n) })
//@spec
        ensures status_reads(r, src@)
//@end
//@fn src/http/status.rs | impl From<StatusCode> for u16 | from | as=into_u16
//@ret r
//@spec
        ensures r == status.code()
//@end
//@fn src/http/status.rs | impl StatusCode | as_u16
//@sub \(\s*\*\s*self\s*\)\s*\.into\(\) => StatusCode::into_u16(*self)
//@ret r
//@spec
        ensures r == self.code()
//@end
//@fn src/http/status.rs | impl StatusCode | as_str
//@ret r
//@sub &CODE_DIGITS\[(.*?)\.\.\s*(.*?)\] => CODE_DIGITS.slice(\1, \2)
//@sub get_unchecked\((.*?)\.\.\s*(.*?)\) => get_unchecked(\1, \2)
//@spec
        requires self.wf()
        ensures r.bytes() == text3(self.code())
//@at start
        hide(code_digits_octets);
        proof { lemma_code_digits(); let k = self.code() as int - 100; assert(code_digits_octets().subrange(3 * k, 3 * k + 3) == text3((k + 100) as u16)); }
//@end
//@fn src/http/status.rs | impl StatusCode | canonical_reason | as=canonical_reason_of
//@ret r
//@spec
        ensures r is Some ==> registered(self.code()) == Some(r->0.bytes()), r is None ==> !standard(self.code())
//@end
//@fn src/http/status.rs | impl StatusCode | is_informational
//@ret r
//@spec
        ensures r == (self.code() / 100 == 1)
//@end
//@fn src/http/status.rs | impl StatusCode | is_success
//@ret r
//@spec
        ensures r == (self.code() / 100 == 2)
//@end
//@fn src/http/status.rs | impl StatusCode | is_redirection
//@ret r
//@spec
        ensures r == (self.code() / 100 == 3)
//@end
//@fn src/http/status.rs | impl StatusCode | is_client_error
//@ret r
//@spec
        ensures r == (self.code() / 100 == 4)
//@end
//@fn src/http/status.rs | impl StatusCode | is_server_error
//@ret r
//@spec
        ensures r == (self.code() / 100 == 5)
//@end
//@fn src/http/status.rs | impl StatusCode | build_header
//@ret r
//@spec
        requires self.wf()
        ensures r.0.bytes() == seq![58u8, 115, 116, 97, 116, 117, 115], r.1.bytes() == text3(self.code())
//@end
//@fn src/http/status.rs | impl StatusCode | encode
//@ret r
//@sub self\.canonical_reason\(\) => self.canonical_reason_of()
//@spec
        requires old(self).wf()
        ensures *final(self) == *old(self), r is Ok, r->Ok_0 == final(buffer).out().len() - old(buffer).out().len(),
            exists|p: Seq<u8>| #[trigger] status_line(final(buffer).out(), old(buffer).out(), old(self).code(), p)
//@at start
        proof {
            assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert(Seq::<u8>::empty() + a =~= a); }
            let q3 = seq![32u8, 13, 10]; assert forall|a: Seq<u8>| #[trigger] (a + q3) == a + seq![32u8] + Seq::<u8>::empty() + seq![13u8, 10] by { assert(a + seq![32u8, 13, 10] =~= a + seq![32u8] + Seq::<u8>::empty() + seq![13u8, 10]); }
            let t = text3(self.code()); let o = buffer.out();
            assert(status_line(o + (t + seq![32u8] + Seq::<u8>::empty() + seq![13u8, 10]), o, self.code(), Seq::<u8>::empty()) || standard(self.code()));
            if let Some(p) = registered(self.code()) { assert(status_line(o + (t + seq![32u8] + p + seq![13u8, 10]), o, self.code(), p)); }
        }
//@end
//@fn src/http/status.rs | impl PartialEq<u16> for StatusCode | eq
//@ret r
//@spec
        ensures r == (self.code() == *other)
//@end
//@fn src/http/status.rs | impl PartialEq<StatusCode> for u16 | eq | as=eq_status
//@ret r
//@sub &self => this: &u16
//@sub \*self => *this
//@spec
        ensures r == (*this == other.code())
//@end
//@fn src/http/status.rs | impl FromStr for StatusCode | from_str
//@ret r
//@sub s\.as_ref\(\) => s.as_bytes()
//@spec
        ensures status_reads(r, s.bytes())
//@end
//@fn src/http/status.rs | impl<'a> TryFrom<&'a [u8]> for StatusCode | try_from | as=try_from_bytes
//@ret r
//@sub &'a => &
//@spec
        ensures status_reads(r, t@)
//@end
//@fn src/http/status.rs | impl<'a> TryFrom<&'a str> for StatusCode | try_from | as=try_from_str
//@ret r
//@sub &'a => &
//@sub t\.parse\(\) => StatusCode::from_str(t)
//@spec
        ensures status_reads(r, t.bytes())
//@end
//@fn src/http/status.rs | impl TryFrom<u16> for StatusCode | try_from | as=try_from_u16
//@ret r
//@spec
        ensures match r { Ok(s) => 100 <= t <= 999 && s.code() == t, Err(_) => !(100 <= t <= 999) }
//@end
//@fn src/http/status.rs | impl<'a> From<&'a StatusCode> for StatusCode | from | as=from_ref
//@ret r
//@sub &'a => &
//@spec
        ensures r == *t
//@end
//@fn src/http/status.rs | impl Default for StatusCode | default
//@ret r
//@spec
        ensures r.wf()
//@end
}
// ================= Method =================
//@item src/http/method.rs | enum | Method
/// the registered texts
pub open spec fn method_of(s: Seq<u8>) -> Option<Method> {
    if s == seq![71u8, 69, 84] { Some(Method::Get) }
    else if s == seq![80u8, 79, 83, 84] { Some(Method::Post) }
    else if s == seq![80u8, 85, 84] { Some(Method::Put) }
    else if s == seq![68u8, 69, 76, 69, 84, 69] { Some(Method::Delete) }
    else if s == seq![72u8, 69, 65, 68] { Some(Method::Head) }
    else if s == seq![79u8, 80, 84, 73, 79, 78, 83] { Some(Method::Options) }
    else if s == seq![67u8, 79, 78, 78, 69, 67, 84] { Some(Method::Connect) }
    else if s == seq![80u8, 65, 84, 67, 72] { Some(Method::Patch) }
    else if s == seq![84u8, 82, 65, 67, 69] { Some(Method::Trace) }
    else { None }
}
impl Method {
    pub open spec fn text(&self) -> Seq<u8> {
        match self {
            Method::Get => seq![71u8, 69, 84],
            Method::Post => seq![80u8, 79, 83, 84],
            Method::Put => seq![80u8, 85, 84],
            Method::Delete => seq![68u8, 69, 76, 69, 84, 69],
            Method::Head => seq![72u8, 69, 65, 68],
            Method::Options => seq![79u8, 80, 84, 73, 79, 78, 83],
            Method::Connect => seq![67u8, 79, 78, 78, 69, 67, 84],
            Method::Patch => seq![80u8, 65, 84, 67, 72],
            Method::Trace => seq![84u8, 82, 65, 67, 69],
            Method::None => seq![78u8, 111, 110, 101], Method::Extension(s) => s.bytes(),
        }
    }
//@consts src/http/method.rs | impl Method
//@fn src/http/method.rs | impl Method | as_str
//@ret r
//@sub &s\.as_str\(\) => s.as_str()
//@spec
        ensures r.bytes() == self.text()
//@end
//@fn src/http/method.rs | impl Method | encode
//@ret r
//@sub \.put_slice\(&self => .put_slice(self
//@spec
        ensures *final(self) == *old(self), match r { Ok(n) => !((*old(self)) is None) && n == old(self).text().len() && final(buffer).out() == old(buffer).out() + old(self).text(), Err(_) => (*old(self)) is None && final(buffer).out() == old(buffer).out() }
//@end
//@fn src/http/method.rs | impl Method | is_nobody
//@ret r
//@spec
        ensures r == (self is Get || self is Head || self is Options || self is Connect)
//@end
//@fn src/http/method.rs | impl Method | res_nobody
//@ret r
//@spec
        ensures r == (self is Head || self is Options || self is Connect)
//@end
//@fn src/http/method.rs | impl TryFrom<&str> for Method | try_from
//@ret r
//@strmatch
//@sub Self::Error => WebError
//@spec
        ensures match method_of(value.bytes()) { Some(m) => r == Ok::<Method, WebError>(m), None => r is Err && !partial(r->Err_0) }
//@end
//@fn src/http/method.rs | impl FromStr for Method | from_str
//@ret r
//@sub Self::Err => WebError
//@sub &\*s\.to_uppercase\(\) => s.to_uppercase().as_str()
//@spec
        ensures is_ascii(s.bytes()) ==> match method_of(upper(s.bytes())) { Some(m) => r == Ok::<Method, WebError>(m), None => r is Err }
//@end
//@fn src/http/method.rs | impl Display for Method | fmt
//@ret r
//@sub std::fmt::Formatter<'_> => Formatter
//@sub std::fmt::Result => Result<(), FmtErr>
//@sub write_str\(&self => write_str(self
//@spec
        ensures r is Ok ==> final(f).out() == old(f).out() + self.text()
//@end
}
/// to text and back, for every standard method
pub proof fn lemma_method_roundtrip(m: Method)
    requires !(m is None), !(m is Extension)
    ensures method_of(m.text()) == Some(m)
{
    if m.text() == seq![71u8, 69, 84] { assert(m.text()[0] == 71 && m.text()[1] == 69 && m.text()[2] == 84); }
    if m.text() == seq![80u8, 79, 83, 84] { assert(m.text()[0] == 80 && m.text()[1] == 79 && m.text()[2] == 83 && m.text()[3] == 84); }
    if m.text() == seq![80u8, 85, 84] { assert(m.text()[0] == 80 && m.text()[1] == 85 && m.text()[2] == 84); }
    if m.text() == seq![68u8, 69, 76, 69, 84, 69] { assert(m.text()[0] == 68 && m.text()[1] == 69 && m.text()[2] == 76 && m.text()[3] == 69 && m.text()[4] == 84 && m.text()[5] == 69); }
    if m.text() == seq![72u8, 69, 65, 68] { assert(m.text()[0] == 72 && m.text()[1] == 69 && m.text()[2] == 65 && m.text()[3] == 68); }
    if m.text() == seq![79u8, 80, 84, 73, 79, 78, 83] { assert(m.text()[0] == 79 && m.text()[1] == 80 && m.text()[2] == 84 && m.text()[3] == 73 && m.text()[4] == 79 && m.text()[5] == 78 && m.text()[6] == 83); }
    if m.text() == seq![67u8, 79, 78, 78, 69, 67, 84] { assert(m.text()[0] == 67 && m.text()[1] == 79 && m.text()[2] == 78 && m.text()[3] == 78 && m.text()[4] == 69 && m.text()[5] == 67 && m.text()[6] == 84); }
    if m.text() == seq![80u8, 65, 84, 67, 72] { assert(m.text()[0] == 80 && m.text()[1] == 65 && m.text()[2] == 84 && m.text()[3] == 67 && m.text()[4] == 72); }
    if m.text() == seq![84u8, 82, 65, 67, 69] { assert(m.text()[0] == 84 && m.text()[1] == 82 && m.text()[2] == 65 && m.text()[3] == 67 && m.text()[4] == 69); }
}
// ================= Version =================
//@item src/http/version.rs | enum | Version | derive=Clone, Copy, PartialEq, Eq, Structural
/// the registered texts
pub open spec fn version_of(s: Seq<u8>) -> Option<Version> {
    if s == seq![72u8, 84, 84, 80, 47, 49, 46, 48] { Some(Version::Http10) }
    else if s == seq![72u8, 84, 84, 80, 47, 49, 46, 49] { Some(Version::Http11) }
    else if s == seq![72u8, 84, 84, 80, 47, 50] { Some(Version::Http2) }
    else if s == seq![72u8, 84, 84, 80, 47, 51] { Some(Version::Http3) }
    else { None }
}
impl Version {
    pub open spec fn text(&self) -> Seq<u8> {
        match self {
            Version::Http10 => seq![72u8, 84, 84, 80, 47, 49, 46, 48],
            Version::Http11 => seq![72u8, 84, 84, 80, 47, 49, 46, 49],
            Version::Http2 => seq![72u8, 84, 84, 80, 47, 50],
            Version::Http3 => seq![72u8, 84, 84, 80, 47, 51],
            Version::None => seq![78u8, 111, 110, 101],
        }
    }
//@consts src/http/version.rs | impl Version
//@fn src/http/version.rs | impl Version | as_str
//@ret r
//@sub &s\.as_str\(\) => s.as_str()
//@spec
        ensures r.bytes() == self.text()
//@end
//@fn src/http/version.rs | impl Version | encode
//@ret r
//@sub \.put_slice\(&self => .put_slice(self
//@spec
        ensures *final(self) == *old(self), match r { Ok(n) => !((*old(self)) is None) && n == old(self).text().len() && final(buffer).out() == old(buffer).out() + old(self).text(), Err(_) => (*old(self)) is None && final(buffer).out() == old(buffer).out() }
//@end
//@fn src/http/version.rs | impl Version | is_http1
//@ret r
//@spec
        ensures r == (self is Http10 || self is Http11)
//@end
//@fn src/http/version.rs | impl Version | is_http2
//@ret r
//@spec
        ensures r == (self is Http2)
//@end
//@fn src/http/version.rs | impl From<&str> for Version | from
//@ret r
//@strmatch
//@spec
        ensures r == (match version_of(value.bytes()) { Some(v) => v, None => Version::None })
//@end
//@fn src/http/version.rs | impl Display for Version | fmt
//@ret r
//@sub std::fmt::Formatter<'_> => Formatter
//@sub std::fmt::Result => Result<(), FmtErr>
//@sub write_str\(&self => write_str(self
//@spec
        ensures r is Ok ==> final(f).out() == old(f).out() + self.text()
//@end
}
pub proof fn lemma_version_roundtrip(m: Version)
    requires !(m is None)
    ensures version_of(m.text()) == Some(m)
{
    if m.text() == seq![72u8, 84, 84, 80, 47, 49, 46, 48] { assert(m.text()[0] == 72 && m.text()[1] == 84 && m.text()[2] == 84 && m.text()[3] == 80 && m.text()[4] == 47 && m.text()[5] == 49 && m.text()[6] == 46 && m.text()[7] == 48); }
    if m.text() == seq![72u8, 84, 84, 80, 47, 49, 46, 49] { assert(m.text()[0] == 72 && m.text()[1] == 84 && m.text()[2] == 84 && m.text()[3] == 80 && m.text()[4] == 47 && m.text()[5] == 49 && m.text()[6] == 46 && m.text()[7] == 49); }
    if m.text() == seq![72u8, 84, 84, 80, 47, 50] { assert(m.text()[0] == 72 && m.text()[1] == 84 && m.text()[2] == 84 && m.text()[3] == 80 && m.text()[4] == 47 && m.text()[5] == 50); }
    if m.text() == seq![72u8, 84, 84, 80, 47, 51] { assert(m.text()[0] == 72 && m.text()[1] == 84 && m.text()[2] == 84 && m.text()[3] == 80 && m.text()[4] == 47 && m.text()[5] == 51); }
}
// ================= Scheme =================
//@item src/url/scheme.rs | enum | Scheme
/// the registered texts
pub open spec fn scheme_of(s: Seq<u8>) -> Option<Scheme> {
    if s == seq![104u8, 116, 116, 112] { Some(Scheme::Http) }
    else if s == seq![104u8, 116, 116, 112, 115] { Some(Scheme::Https) }
    else if s == seq![119u8, 115] { Some(Scheme::Ws) }
    else if s == seq![119u8, 115, 115] { Some(Scheme::Wss) }
    else if s == seq![102u8, 116, 112] { Some(Scheme::Ftp) }
    else { None }
}
impl Scheme {
    pub open spec fn text(&self) -> Seq<u8> {
        match self {
            Scheme::Http => seq![104u8, 116, 116, 112],
            Scheme::Https => seq![104u8, 116, 116, 112, 115],
            Scheme::Ws => seq![119u8, 115],
            Scheme::Wss => seq![119u8, 115, 115],
            Scheme::Ftp => seq![102u8, 116, 112],
            Scheme::None => Seq::<u8>::empty(), Scheme::Extension(s) => s.bytes(),
        }
    }
//@consts src/url/scheme.rs | impl Scheme
//@fn src/url/scheme.rs | impl Scheme | as_str
//@ret r
//@sub &s\.as_str\(\) => s.as_str()
//@spec
        ensures r.bytes() == self.text()
//@end
//@fn src/url/scheme.rs | impl Serialize for Scheme | serialize
//@ret r
//@sub \.put_slice\(&self => .put_slice(self
//@spec
        ensures *final(self) == *old(self), match r { Ok(n) => !((*old(self)) is None) && n == old(self).text().len() && final(buffer).out() == old(buffer).out() + old(self).text(), Err(_) => (*old(self)) is None && final(buffer).out() == old(buffer).out() }
//@end
//@fn src/url/scheme.rs | impl Scheme | is_none
//@ret r
//@spec
        ensures r == (self is None)
//@end
//@fn src/url/scheme.rs | impl Scheme | is_http
//@ret r
//@spec
        ensures r == (self is Http)
//@end
//@fn src/url/scheme.rs | impl Scheme | is_https
//@ret r
//@spec
        ensures r == (self is Https)
//@end
//@fn src/url/scheme.rs | impl Scheme | is_ws
//@ret r
//@spec
        ensures r == (self is Ws)
//@end
//@fn src/url/scheme.rs | impl Scheme | is_wss
//@ret r
//@spec
        ensures r == (self is Wss)
//@end
//@fn src/url/scheme.rs | impl TryFrom<&str> for Scheme | try_from
//@ret r
//@strmatch
//@sub Self::Error => WebError
//@spec
        ensures scheme_reads(r, value.bytes())
//@end
//@fn src/url/scheme.rs | impl FromStr for Scheme | from_str
//@ret r
//@sub Self::Err => WebError
//@sub &\*s\.to_lowercase\(\) => s.to_lowercase().as_str()
//@spec
        ensures is_ascii(s.bytes()) ==> scheme_reads(r, lower(s.bytes()))
//@end
//@fn src/url/scheme.rs | impl Display for Scheme | fmt
//@ret r
//@sub std::fmt::Formatter<'_> => Formatter
//@sub std::fmt::Result => Result<(), FmtErr>
//@sub write_str\(&self => write_str(self
//@spec
        ensures r is Ok ==> final(f).out() == old(f).out() + self.text()
//@end
}
/// a known scheme, or the text as it is, up to 64 octets
pub open spec fn scheme_reads(r: WebResult<Scheme>, s: Seq<u8>) -> bool {
    if s.len() > 64 { r is Err } else { r is Ok && match scheme_of(s) { Some(v) => r->Ok_0 == v, None => r->Ok_0 is Extension && r->Ok_0.text() == s } }
}
pub proof fn lemma_scheme_roundtrip(m: Scheme)
    requires !(m is None), !(m is Extension)
    ensures scheme_of(m.text()) == Some(m)
{
    if m.text() == seq![104u8, 116, 116, 112] { assert(m.text()[0] == 104 && m.text()[1] == 116 && m.text()[2] == 116 && m.text()[3] == 112); }
    if m.text() == seq![104u8, 116, 116, 112, 115] { assert(m.text()[0] == 104 && m.text()[1] == 116 && m.text()[2] == 116 && m.text()[3] == 112 && m.text()[4] == 115); }
    if m.text() == seq![119u8, 115] { assert(m.text()[0] == 119 && m.text()[1] == 115); }
    if m.text() == seq![119u8, 115, 115] { assert(m.text()[0] == 119 && m.text()[1] == 115 && m.text()[2] == 115); }
    if m.text() == seq![102u8, 116, 112] { assert(m.text()[0] == 102 && m.text()[1] == 116 && m.text()[2] == 112); }
    if m is Http { let t = m.text(); assert(t == seq![104u8, 116, 116, 112]); assert(t.len() == 4); assert(t != seq![104u8, 116, 116, 112, 115]); assert(t != seq![119u8, 115]); assert(t != seq![119u8, 115, 115]); assert(t != seq![102u8, 116, 112]); }
    if m is Https { let t = m.text(); assert(t == seq![104u8, 116, 116, 112, 115]); assert(t.len() == 5); assert(t != seq![104u8, 116, 116, 112]); assert(t != seq![119u8, 115]); assert(t != seq![119u8, 115, 115]); assert(t != seq![102u8, 116, 112]); }
    if m is Ws { let t = m.text(); assert(t == seq![119u8, 115]); assert(t.len() == 2); assert(t != seq![104u8, 116, 116, 112]); assert(t != seq![104u8, 116, 116, 112, 115]); assert(t != seq![119u8, 115, 115]); assert(t != seq![102u8, 116, 112]); }
    if m is Wss { let t = m.text(); assert(t == seq![119u8, 115, 115]); assert(t.len() == 3); assert(t != seq![104u8, 116, 116, 112]); assert(t != seq![104u8, 116, 116, 112, 115]); assert(t != seq![119u8, 115]); assert(t != seq![102u8, 116, 112]); }
    if m is Ftp { let t = m.text(); assert(t == seq![102u8, 116, 112]); assert(t.len() == 3); assert(t != seq![104u8, 116, 116, 112]); assert(t != seq![104u8, 116, 116, 112, 115]); assert(t != seq![119u8, 115]); assert(t != seq![119u8, 115, 115]); }
}
}
fn main() {}

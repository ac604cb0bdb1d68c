//@import wire.rs
//@strings
//@globsub \bcrate\s*::\s*(WebError|HttpError)\b => \1
//@globsub let mut size = 0 => let mut size: usize = 0
verus! {
// ================= responses =================
/// the fields with the Server of this library if they have none
pub open spec fn server(m: Seq<Ent>) -> Seq<Ent> { let n = seq![83u8, 101, 114, 118, 101, 114];
    if knows(m, n) { m } else { m_insert(m, n, seq![119u8, 101, 110, 109, 101, 110, 103]) } }
pub open spec fn ct() -> Seq<u8> { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101] }
// what StatusCode: TryFrom<T> gives for the types it is implemented for
pub trait TryStatus: Sized {
    spec fn st(self) -> Option<u16>;
    fn try_status(self) -> (r: WebResult<StatusCode>) ensures match self.st() { Some(c) => r is Ok && r->Ok_0.wf() && r->Ok_0.code() == c, None => r is Err };
}
impl TryStatus for u16 { open spec fn st(self) -> Option<u16> { if 100 <= self <= 999 { Some(self) } else { None } } fn try_status(self) -> (r: WebResult<StatusCode>) { StatusCode::try_from_u16(self) } }
pub mod response {
use super::*;
//@item src/http/response.rs | struct | Parts
//@item src/http/response.rs | struct | Response
impl<T: Serialize> Response<T> {
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | is_partial
//@ret r
//@spec
        ensures r == self.partial
//@end
#[verifier::spinoff_prover]
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | parse_buffer
//@ret r
//@spec
        ensures match res_head(old(buffer).rem()) {
                Rd::Done(h, n) => r == Ok::<usize, WebError>(n as usize) && n <= old(buffer).rem().len() && final(buffer).rem() == old(buffer).rem().skip(n as int) && final(self).has(h) && !final(self).partial,
                Rd::Part => r is Err && partial(r->Err_0) && final(self).partial,
                Rd::Bad => r is Err && !partial(r->Err_0) },
            final(self).body == old(self).body,
//@at start
        hide(tok); hide(spaces); hide(nl); hide(empties); hide(fields); hide(rd_status); hide(rd_version);
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | parse
//@ret r
//@spec
        ensures match res_head(buf@) {
                Rd::Done(h, n) => r == Ok::<usize, WebError>(n as usize) && n <= buf@.len() && final(self).has(h) && !final(self).partial,
                Rd::Part => r is Err && partial(r->Err_0) && final(self).partial,
                Rd::Bad => r is Err && !partial(r->Err_0) },
//@at start
        hide(res_head);
//@end
    pub open spec fn has(&self, h: RHead) -> bool { self.parts.version == h.v && self.parts.status.wf() && self.parts.status.code() == h.c && self.parts.header.m() == h.h }
#[verifier::spinoff_prover]
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | encode_header
//@ret r
//@spec
        requires old(self).parts.status.wf(), old(buffer).out().len() + lines(old(self).parts.header.m()).len() + 200 + old(self).parts.version.text().len() <= usize::MAX
        ensures *final(self) == *old(self), r is Err ==> old(self).parts.version is None,
            r is Ok ==> !(old(self).parts.version is None) && final(buffer).out().len() - old(buffer).out().len() == r->Ok_0
                && exists|p: Seq<u8>| reason_of(old(self).parts.status.code(), p) && #[trigger] (old(buffer).out() + old(self).head_text(p)) == final(buffer).out(),
//@at start
        hide(registered); hide(text3); hide(lines);
        let ghost o = buffer.out(); let ghost v = self.parts.version; let ghost c = self.parts.status.code(); let ghost m = self.parts.header.m(); let ghost o1 = o + v.text() + seq![32u8];
        proof { assert forall|f: Seq<u8>, p: Seq<u8>| #[trigger] status_line(f, o1, c, p) implies f + lines(m) + seq![13u8, 10] == o + self.head_text(p) && f.len() <= o1.len() + 110 by { lemma_reason(c, p); assert(text3(c).len() == 3) by { reveal(text3); } assert(f + lines(m) + seq![13u8, 10] =~= o + self.head_text(p)); } }
//@end
#[verifier::spinoff_prover]
//@fn src/http/response.rs | impl<T> Serialize for Response<T> where T: Serialize, | serialize
//@ret r
//@spec
        requires old(self).parts.status.wf(), old(buffer).out().len() + lines(old(self).parts.header.m()).len() + 200 + old(self).parts.version.text().len() + old(self).body.ser().len() <= usize::MAX
        ensures r is Ok ==> !(old(self).parts.version is None) && final(buffer).out().len() - old(buffer).out().len() == r->Ok_0
                && exists|p: Seq<u8>| reason_of(old(self).parts.status.code(), p) && #[trigger] (old(buffer).out() + (old(self).head_text(p) + old(self).body.ser())) == final(buffer).out(),
//@at start
        hide(registered); hide(text3); hide(lines);
        let ghost o = buffer.out(); let ghost v = self.parts.version; let ghost c = self.parts.status.code(); let ghost m = self.parts.header.m(); let ghost o1 = o + v.text() + seq![32u8]; let ghost b = self.body.ser();
        proof { assert forall|f: Seq<u8>, p: Seq<u8>| #[trigger] status_line(f, o1, c, p) implies f + lines(m) + seq![13u8, 10] + b == o + (self.head_text(p) + b) && f.len() <= o1.len() + 110 by { lemma_reason(c, p); assert(text3(c).len() == 3) by { reveal(text3); } assert(f + lines(m) + seq![13u8, 10] + b =~= o + (self.head_text(p) + b)); } }
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | from_parts
//@ret r
//@spec
        ensures r == (Response { parts, body, partial: false })
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | new
//@ret r
//@spec
        ensures r.body == body, !r.partial, r.parts.fresh()
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | status
//@ret r
//@spec
        ensures r == self.parts.status
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | status_mut
//@ret r
//@spec
        ensures *r == old(self).parts.status, *final(self) == (Response { parts: Parts { status: *final(r), ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | version
//@ret r
//@spec
        ensures r == self.parts.version
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | version_mut
//@ret r
//@spec
        ensures *r == old(self).parts.version, *final(self) == (Response { parts: Parts { version: *final(r), ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | headers
//@ret r
//@spec
        ensures *r == self.parts.header
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | headers_mut
//@ret r
//@spec
        ensures *r == old(self).parts.header, *final(self) == (Response { parts: Parts { header: *final(r), ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | body
//@ret r
//@spec
        ensures *r == self.body
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | body_mut
//@ret r
//@spec
        ensures *r == old(self).body, *final(self) == (Response { body: *final(r), ..*old(self) })
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | headers_body
//@ret r
//@spec
        ensures *r.0 == old(self).parts.header, *r.1 == old(self).body, *final(self) == *old(self)
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | into_body
//@ret r
//@spec
        ensures r == self.body
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | into_parts
//@ret r
//@spec
        ensures r == (self.parts, self.body)
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | map
//@ret r
//@spec
        requires f.requires((self.body,))
        ensures r.parts == self.parts, r.partial == self.partial, f.ensures((self.body,), r.body)
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | into
//@ret r
//@spec
        ensures r.0 == (Response { parts: self.parts, body, partial: self.partial }), r.1 == self.body
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | get_body_len
//@ret r
//@spec
        ensures r == (match int_of(val(self.parts.header.m(), cl())) { Some(v) if knows(self.parts.header.m(), cl()) && isize::MIN <= v <= isize::MAX => v, _ => 0 })
//@end
//@fn src/http/response.rs | impl<T:Serialize> Response<T> | replace_body
//@ret r
//@spec
        ensures *final(self) == (Response { body, ..*old(self) })
//@end
    pub open spec fn head_text(&self, p: Seq<u8>) -> Seq<u8> { res_written(self.parts.version, self.parts.status.code(), p, self.parts.header.m()) }
}
impl Parts {
    pub open spec fn fresh(&self) -> bool { self.status.wf() && self.status.code() == 200 && self.version is Http11 && self.header.m() == Seq::<Ent>::empty() }
//@fn src/http/response.rs | impl Default for Parts | default
//@ret r
//@spec
        ensures r.fresh()
//@end
}
impl Response<()> {
//@fn src/http/response.rs | impl Response<()> | builder
//@ret r
//@spec
        ensures r.fresh()
//@end
//@fn src/http/response.rs | impl Response<()> | text
//@ret r
//@spec
        ensures r.typed(200, seq![116u8, 101, 120, 116, 47, 112, 108, 97, 105, 110, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56])
//@end
//@fn src/http/response.rs | impl Response<()> | json
//@ret r
//@spec
        ensures r.typed(200, seq![97u8, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56])
//@end
//@fn src/http/response.rs | impl Response<()> | status404
//@ret r
//@spec
        ensures r.typed(404, seq![116u8, 101, 120, 116, 47, 104, 116, 109, 108, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56])
//@end
//@fn src/http/response.rs | impl Response<()> | status503
//@ret r
//@spec
        ensures r.typed(503, seq![116u8, 101, 120, 116, 47, 104, 116, 109, 108, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56])
//@end
//@fn src/http/response.rs | impl Response<()> | status502
//@ret r
//@spec
        ensures r.typed(502, seq![116u8, 101, 120, 116, 47, 104, 116, 109, 108, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56])
//@end
//@fn src/http/response.rs | impl Response<()> | status500
//@ret r
//@spec
        ensures r.typed(500, seq![116u8, 101, 120, 116, 47, 104, 116, 109, 108, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56])
//@end
}
//@item src/http/response.rs | struct | Builder
impl Builder {
    pub open spec fn fresh(&self) -> bool { self.inner is Ok && self.inner->Ok_0.fresh() }
    /// a status and one field naming the content type
    pub open spec fn typed(&self, c: u16, t: Seq<u8>) -> bool { self.inner is Ok && self.inner->Ok_0.status.code() == c && self.inner->Ok_0.version is Http11 && self.inner->Ok_0.header.m() == seq![(ct(), t)] }
//@fn src/http/response.rs | impl Builder | new
//@ret r
//@spec
        ensures r.fresh()
//@end
//@fn src/http/response.rs | impl Default for Builder | default
//@ret r
//@spec
        ensures r.fresh()
//@end
//@fn src/http/response.rs | impl Builder | status
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@sub StatusCode\s*:\s*TryFrom\s*<\s*T\s*>\s*, => T: TryStatus,
//@sub <\s*StatusCode\s+as\s+TryFrom\s*<\s*T\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@sub TryFrom\s*::\s*try_from\(status\)\s*\.map_err\(\s*Into\s*::\s*into\s*\)\? => (match status.try_status() { Ok(v__) => v__, Err(e__) => return Builder { inner: Err(e__) } })
//@spec
        ensures match (self.inner, status.st()) { (Ok(p), Some(c)) => r.inner is Ok && r.inner->Ok_0.status.wf() && r.inner->Ok_0.status.code() == c && r.inner->Ok_0.version == p.version && r.inner->Ok_0.header == p.header, _ => r.inner is Err }
//@end
//@fn src/http/response.rs | impl Builder | version
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@spec
        ensures match self.inner { Ok(p) => r.inner == Ok::<Parts, WebError>(Parts { version, ..p }), Err(_) => r.inner is Err }
//@end
//@fn src/http/response.rs | impl Builder | header
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@sub HeaderName\s*:\s*TryFrom\s*<\s*K\s*>\s*, => K: TryName,
//@sub <\s*HeaderName\s+as\s+TryFrom\s*<\s*K\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@sub HeaderValue\s*:\s*TryFrom\s*<\s*V\s*>\s*, => V: TryValue,
//@sub <\s*HeaderValue\s+as\s+TryFrom\s*<\s*V\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@spec
        ensures match self.inner { Ok(p) => r.inner is Ok && r.inner->Ok_0.status == p.status && r.inner->Ok_0.version == p.version && r.inner->Ok_0.header.m() == (if key.nm() is Some && value.vl() is Some { m_insert(p.header.m(), key.nm()->0, value.vl()->0) } else { p.header.m() }), Err(_) => r.inner is Err }
//@end
//@fn src/http/response.rs | impl Builder | headers
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@mustsub \bfor\s+(\w+)\s+in\s+header\s*\{ => for \1 in header.headers {
//@spec
        ensures match self.inner { Ok(p) => r.inner is Ok && r.inner->Ok_0.status == p.status && r.inner->Ok_0.version == p.version && r.inner->Ok_0.header.m() == m_inserts(p.header.m(), header.m()), Err(_) => r.inner is Err }
//@at start
        let ghost h0: Seq<Ent> = header.m(); let ghost p0: Parts = self.inner->Ok_0;
        proof { assert(h0.take(0) =~= Seq::empty()); assert(h0.take(h0.len() as int) =~= h0); }
//@at before 0
        #[verifier::loop_isolation(false)]
//@loop 0
            invariant head.status == p0.status, head.version == p0.version, self.inner == Ok::<Parts, WebError>(p0), it0.seq() == header.headers@, head.header.m() == m_inserts(p0.header.m(), h0.take(it0.index@ as int))
//@at start 0
            proof { let k = it0.index@; assert(h0.take(k + 1).drop_last() =~= h0.take(k as int)); assert(h0.take(k + 1).last() == h0[k as int]); }
//@end
//@fn src/http/response.rs | impl Builder | headers_ref
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*as_ref\(\)\s*\.\s*ok\(\)\s*\.\s*map\(\s*\|\s*(\w+)\s*\|\s*(&\s*\w+\s*\.\s*\w+)\s*,?\s*\) => match &self.inner { Ok(\1) => Some(\2), Err(_) => None }
//@spec
        ensures match r { Some(h) => self.inner is Ok && *h == self.inner->Ok_0.header, None => self.inner is Err }
//@end
//@fn src/http/response.rs | impl Builder | and_then
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*and_then\s*\(\s*func\s*\) => (match self.inner { Ok(v__) => func(v__), Err(e__) => Err(e__) })
//@spec
        requires self.inner is Ok ==> func.requires((self.inner->Ok_0,))
        ensures match self.inner { Ok(p) => func.ensures((p,), r.inner), Err(e) => r.inner == Err::<Parts, WebError>(e) }
//@end
//@fn src/http/response.rs | impl Builder | body
//@ret r
//@mustsub self\s*\.\s*inner\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+parts\s*(?::\s*Parts\s*)?\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => match self.inner { Err(e__) => Err(e__), Ok(h__) => Ok({ let mut parts = h__; \1 }) } }
//@spec
        ensures match self.inner { Ok(p) => r is Ok && r->Ok_0.body == body && !r->Ok_0.partial && r->Ok_0.parts.status == p.status && r->Ok_0.parts.version == p.version && r->Ok_0.parts.header.m() == server(p.header.m()), Err(e) => r == Err::<Response<T>, WebError>(e) }
//@end
//@fn src/http/response.rs | impl Builder | get_body_len
//@ret r
//@spec
        ensures self.inner is Ok ==> r == (match int_of(val(self.inner->Ok_0.header.m(), cl())) { Some(v) if knows(self.inner->Ok_0.header.m(), cl()) && isize::MIN <= v <= isize::MAX => v, _ => 0 }), self.inner is Err ==> r == 0
//@end
}
}
/// the reason phrase written with a status: its registered one, or none
pub open spec fn reason_of(c: u16, p: Seq<u8>) -> bool { (p == Seq::<u8>::empty() || registered(c) == Some(p)) && (standard(c) ==> registered(c) == Some(p)) }
pub open spec fn res_written(v: Version, c: u16, p: Seq<u8>, m: Seq<Ent>) -> Seq<u8> {
    v.text() + (seq![32u8] + (text3(c) + (seq![32u8] + (p + (seq![13u8, 10] + fields_text(m))))))
}
pub open spec fn printable(s: Seq<u8>) -> bool decreases s.len() { s.len() == 0 || (32 <= s[0] <= 126 && printable(s.skip(1))) }
pub open spec fn phrases_ok(a: u16, b: u16) -> bool decreases b - a { a >= b || ((match registered(a) { Some(p) => p.len() > 0 && p.len() <= 100 && p[0] != 32 && printable(p), None => true }) && phrases_ok((a + 1) as u16, b)) }
proof fn lemma_phrases_at(a: u16, b: u16, c: u16) requires phrases_ok(a, b), a <= c < b ensures match registered(c) { Some(p) => p.len() > 0 && p.len() <= 100 && p[0] != 32 && printable(p), None => true } decreases b - a
{ hide(registered); hide(printable); if a < c { lemma_phrases_at((a + 1) as u16, b, c); } }
proof fn lemma_phrases1() ensures phrases_ok(100, 300) { assert(phrases_ok(100, 300)) by (compute_only); }
proof fn lemma_phrases2() ensures phrases_ok(300, 500) { assert(phrases_ok(300, 500)) by (compute_only); }
proof fn lemma_phrases3() ensures phrases_ok(500, 600) { assert(phrases_ok(500, 600)) by (compute_only); }
proof fn lemma_printable(s: Seq<u8>) requires printable(s) ensures all(s, p_reason()) decreases s.len()
{ if s.len() > 0 { lemma_printable(s.skip(1)); assert forall|i: int| 0 <= i < s.len() implies p_reason()(#[trigger] s[i]) by { if i > 0 { assert(p_reason()(s.skip(1)[i - 1])); assert(s[i] == s.skip(1)[i - 1]); } } } }
pub proof fn lemma_reason(c: u16, p: Seq<u8>)
    requires reason_of(c, p), 100 <= c <= 999 ensures all(p, p_reason()), p.len() > 0 ==> p[0] != 32, p.len() <= 100
{
    if p.len() > 0 {
        if c < 300 { lemma_phrases1(); lemma_phrases_at(100, 300, c); } else if c < 500 { lemma_phrases2(); lemma_phrases_at(300, 500, c); } else if c < 600 { lemma_phrases3(); lemma_phrases_at(500, 600, c); }
        lemma_printable(p);
    }
}
/// what is written for a response is read as that response, and the rest is left
#[verifier::spinoff_prover] pub proof fn thm_res_roundtrip(v: Version, c: u16, p: Seq<u8>, m: Seq<Ent>, rest: Seq<u8>)
    requires !(v is None), 100 <= c <= 999, reason_of(c, p), writable(m)
    ensures reads_to(res_head(res_written(v, c, p, m) + rest), res_written(v, c, p, m) + rest, RHead { v, c: c as int, r: p, h: m }, rest)
{
    hide(res_head); hide(registered); hide(text3);
    lemma_reason(c, p); fls_of_ok(m); fields_text_is(m, rest); thm_res_grammar(Seq::empty(), v, 0, c, 0, p, true, fls_of(m), true, rest);
    let t = fls_text(fls_of(m), true, rest);
    assert(sp(1) =~= seq![32u8]);
    assert(res_written(v, c, p, m) + rest =~= v.text() + (seq![32u8] + (text3(c) + (seq![32u8] + (p + (seq![13u8, 10] + (fields_text(m) + rest)))))));
    assert(els_text(Seq::empty(), v.text() + (sp(1) + (text3(c) + (sp(1) + (p + (nlt(true) + t)))))) == res_text(Seq::empty(), v, 0, c, 0, p, true, fls_of(m), true, rest));
}
}
fn main() {}

//@import wire.rs
//@import urlt.rs
//@strings
//@globsub &\s*str\b => &Str
//@globsub \bString\b => Text
//@globsub \bcrate\s*::\s*(WebError|HttpError|UrlError)\b => \1
//@globsub let mut size = 0 => let mut size: usize = 0
//@globsub Url::(escape|url_encode|url_decode)\( => UrlCodec::\1(
verus! {
// ---- std, by octets ----
/// the pieces of s between the octets c
pub open spec fn splits(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() { let i = run(s, p_not(c)) as int; if i >= s.len() { seq![s] } else { seq![s.take(i)] + splits(s.skip(i + 1), c) } }
impl Text {
    /// split(c).collect::<Vec<&str>>(), c an ASCII character
    #[verifier::external_body]
    pub fn split_collect(&self, c: char) -> (r: Vec<&Str>) requires (c as u32) < 128
        ensures r@.len() == splits(self.bytes(), c as u8).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).bytes() == splits(self.bytes(), c as u8)[i] { unimplemented!() }
}
impl Str {
    /// parse::<u16>().map_err(WebError::from), of src/error.rs: not the error of incomplete input
    #[verifier::external_body]
    pub fn parse_u16_web(&self) -> (r: WebResult<u16>)
        ensures match nat_of(unsigned(self.bytes())) { Some(v) if v <= 65535 => r == Ok::<u16, WebError>(v as u16), _ => r is Err && !partial(r->Err_0) } { unimplemented!() }
}
proof fn lemma_splits(s: Seq<u8>)
    ensures match pair(s) { Some((a, None)) => splits(s, 58) == seq![a], Some((a, Some(b))) => splits(s, 58) == seq![a, b], None => splits(s, 58).len() > 2 }
{
    let i = run(s, p_not(58)) as int; lemma_run(s, p_not(58));
    if i < s.len() {
        let t = s.skip(i + 1); let j = run(t, p_not(58)) as int; lemma_run(t, p_not(58));
        if t.contains(58u8) { let k = choose|k: int| 0 <= k < t.len() && t[k] == 58u8; if j >= t.len() { assert(p_not(58)(t[k])); } assert(splits(t, 58).len() >= 2) by { assert(splits(t.skip(j + 1), 58).len() >= 1); } }
        else { if j < t.len() { assert(t[j] == 58u8); assert(t.contains(58u8)); } assert(splits(t, 58) =~= seq![t]); assert(splits(s, 58) =~= seq![s.take(i), t]); }
    }
}
impl HeaderValue {
    /// to_string(): nothing is known of it
    #[verifier::external_body]
    pub fn to_text(&self) -> (r: Text) { unimplemented!() }
}
impl WebError {
//@fn src/error.rs | impl WebError | is_partial
//@ret r
//@spec
        ensures r == partial(*self)
//@end
}
// ================= the URL of a request =================
/// host [":" port], the port 80 when it is not given
pub open spec fn hosted(u: UrlV, h: Seq<u8>) -> Option<UrlV> {
    match pair(h) { None => None, Some((d, None)) => Some(UrlV { host: Some(d), port: Some(80), ..u }),
        Some((d, Some(p))) => match nat_of(unsigned(p)) { Some(n) if n <= 65535 => Some(UrlV { host: Some(d), port: Some(n as u16), ..u }), _ => None } }
}
pub open spec fn http_if_none(u: UrlV) -> UrlV { if u.scheme is None { UrlV { scheme: Some(http_s()), ..u } } else { u } }
pub open spec fn no_url() -> UrlV { UrlV { scheme: None, path: seq![47u8], user: None, pass: None, host: None, port: None, query: None } }
/// the target of a CONNECT is an address, any other a URL; a target without host has that of the Host field
pub open spec fn req_url(h: Head) -> Option<UrlV> {
    if h.m is Connect { hosted(no_url(), h.t) }
    else { match url_of(h.t) { None => None, Some(u) => if u.host is None && knows(h.h, nhost()) { match hosted(u, val(h.h, nhost())) { Some(w) => Some(http_if_none(w)), None => None } } else { Some(http_if_none(u)) } } }
}
/// the text of the Host field is used, and is no UTF-8 (its String is then not fixed here)
pub open spec fn odd_host(h: Head) -> bool { !(h.m is Connect) && url_of(h.t) is Some && url_of(h.t)->0.host is None && knows(h.h, nhost()) && !utf8(val(h.h, nhost())) }
/// the pseudo-fields of HTTP/2 have no legal names
proof fn lemma_no_pseudo(m: Seq<Ent>)
    requires legal(m) ensures forall|n: Seq<u8>| n.len() > 0 && n[0] == 58 ==> !#[trigger] knows(m, n)
{
    assert forall|n: Seq<u8>| n.len() > 0 && n[0] == 58 implies !#[trigger] knows(m, n) by {
        lemma_pos(m, n);
        if knows(m, n) { let e = m[pos(m, n) as int]; assert(legal_ent(e)); assert(same(e.0, n)); assert(p_name()(e.0[0])); assert(fold(e.0)[0] == low(e.0[0])); assert(fold(n)[0] == low(n[0])); }
    }
}
// ================= a request written out =================
pub open spec fn target_query(q: Option<Seq<u8>>) -> Seq<u8> { match q { Some(x) => seq![63u8] + pct(x, k_esc(Seq::empty())), None => Seq::empty() } }
/// the request target: escaped path ["?" escaped query]
pub open spec fn target(p: Seq<u8>, q: Option<Seq<u8>>) -> Seq<u8> { pct(p, k_esc(seq![63u8])) + target_query(q) }
pub open spec fn req_written(m: Method, p: Seq<u8>, q: Option<Seq<u8>>, v: Version, h: Seq<Ent>) -> Seq<u8> {
    m.text() + (seq![32u8] + (target(p, q) + (seq![32u8] + (v.text() + (seq![13u8, 10] + fields_text(h))))))
}
/// the empty reserved set is the empty sequence
pub proof fn lemma_noq() ensures forall|s: Seq<u8>| s.len() == 0 ==> #[trigger] k_esc(s) == k_esc(Seq::empty()), forall|s: Seq<u8>| s.len() == 1 && s[0] == 63 ==> #[trigger] k_esc(s) == k_esc(seq![63u8])
{ assert forall|s: Seq<u8>| s.len() == 1 && s[0] == 63 implies #[trigger] k_esc(s) == k_esc(seq![63u8]) by { assert(s =~= seq![63u8]); } assert forall|s: Seq<u8>| s.len() == 0 implies #[trigger] k_esc(s) == k_esc(Seq::empty()) by { assert(s =~= Seq::empty()); } }
/// host ":" port
pub open spec fn address(u: UrlV) -> Seq<u8> { u.host->0 + seq![58u8] + decs(u.port->0 as nat) }
/// the fields with the Host of a URL that has an address; an existing one stays if asked to
pub open spec fn hosts(m: Seq<Ent>, u: Url, stay: bool) -> Seq<Ent> {
    if u.domain is Some && u.port is Some && !(stay && knows(m, seq![72u8, 111, 115, 116])) { m_insert(m, seq![72u8, 111, 115, 116], address(u.v())) } else { m } }
/// the fields with the User-Agent of this library if they have none
pub open spec fn agent(m: Seq<Ent>) -> Seq<Ent> { let n = seq![85u8, 115, 101, 114, 45, 65, 103, 101, 110, 116];
    if knows(m, n) { m } else { m_insert(m, n, seq![119u8, 101, 110, 109, 101, 110, 103]) } }
// what Method: TryFrom<T> and Url: TryFrom<T> give for the types they are implemented for
pub trait TryMethod: Sized {
    spec fn mt(self) -> Option<Method>;
    fn try_method(self) -> (r: WebResult<Method>) ensures match self.mt() { Some(m) => r == Ok::<Method, WebError>(m), None => r is Err };
}
impl TryMethod for Method { open spec fn mt(self) -> Option<Method> { Some(self) } fn try_method(self) -> (r: WebResult<Method>) { Ok(self) } }
impl TryMethod for &Str { open spec fn mt(self) -> Option<Method> { method_of(self.bytes()) } fn try_method(self) -> (r: WebResult<Method>) { Method::try_from(self) } }
pub trait TryUrl: Sized {
    spec fn uu(self) -> Option<UrlV>;
    fn try_url(self) -> (r: WebResult<Url>) ensures match self.uu() { Some(u) => r is Ok && r->Ok_0.v() == u, None => r is Err };
}
impl TryUrl for Url { open spec fn uu(self) -> Option<UrlV> { Some(self.v()) } fn try_url(self) -> (r: WebResult<Url>) { Ok(self) } }
impl TryUrl for &Str { open spec fn uu(self) -> Option<UrlV> { url_of(self.bytes()) } fn try_url(self) -> (r: WebResult<Url>) { Url::try_from_str(self) } }
impl TryUrl for Text { open spec fn uu(self) -> Option<UrlV> { url_of(self.bytes()) } fn try_url(self) -> (r: WebResult<Url>) { Url::try_from_string(self) } }
impl TryUrl for &[u8] { open spec fn uu(self) -> Option<UrlV> { url_of(self@) } fn try_url(self) -> (r: WebResult<Url>) { Url::try_from_slice(self) } }
pub mod request {
use super::*;
//@item src/http/request.rs | struct | Parts
//@item src/http/request.rs | struct | Request
impl<T: Serialize> Request<T> {
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | is_partial
//@ret r
//@spec
        ensures r == self.partial
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | is_complete
//@ret r
//@spec
        ensures r == !self.partial
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | parse_connect_by_host
//@ret r
//@sub h\.split\(":"\)\.collect\(\) => h.split_collect(':')
//@sub h\.split\(Str::lit\(&\[58u8\]\)\)\.collect\(\) => h.split_collect(':')
//@sub vec\[1\]\.parse\(\)\.map_err\(WebError::from\) => vec[1].parse_u16_web()
//@spec
        ensures match hosted(old(url).v(), h.bytes()) { Some(u) => r is Ok && final(url).v() == u && final(url).scheme == old(url).scheme, None => r is Err && !partial(r->Err_0) }
//@at start
        proof { lemma_splits(h.bytes()); }
//@end
#[verifier::spinoff_prover]
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | parse_buffer
//@ret r
//@sub Url::try_from\(path\)\.map_err\(\|e\| (match e\.is_partial\(\) \{[^}]*\})\)\? => (match Url::try_from_string(path) { Ok(v__) => Ok(v__), Err(e) => Err(\1) })?
//@sub TryFrom::try_from\(&\*h\.to_string\(\)\) => Scheme::try_from(h.to_text().as_str())
//@spec
        ensures match req_head(old(buffer).rem()) {
                Rd::Done(h, n) => !odd_host(h) ==> !final(self).partial && match req_url(h) {
                    Some(u) => r == Ok::<usize, WebError>(n as usize) && n <= old(buffer).rem().len() && final(buffer).rem() == old(buffer).rem().skip(n as int) && final(self).has(h, u),
                    None => r is Err && !partial(r->Err_0) },
                Rd::Part => r is Err && partial(r->Err_0) && final(self).partial,
                Rd::Bad => r is Err && !partial(r->Err_0) },
            final(self).body == old(self).body,
//@at start
        hide(tok); hide(spaces); hide(nl); hide(empties); hide(fields); hide(rd_method); hide(rd_version); hide(url_of); hide(hosted); hide(knows); hide(val);
        proof { thm_req_legal(buffer.rem()); let d = req_head(buffer.rem()); if d is Done { lemma_no_pseudo(d->Done_0.h); assert(nauth()[0] == 58); } }
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | parse
//@ret r
//@spec
        ensures match req_head(buf@) {
                Rd::Done(h, n) => !odd_host(h) ==> !final(self).partial && match req_url(h) { Some(u) => r == Ok::<usize, WebError>(n as usize) && n <= buf@.len() && final(self).has(h, u), None => r is Err && !partial(r->Err_0) },
                Rd::Part => r is Err && partial(r->Err_0) && final(self).partial,
                Rd::Bad => r is Err && !partial(r->Err_0) },
//@at start
        hide(req_head); hide(req_url);
//@end
#[verifier::spinoff_prover]
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | encode_header
//@ret r
//@sub UrlCodec::escape\((&self\.parts\.url\.\w+|query), => UrlCodec::escape((\1).as_str(),
//@spec
        requires old(buffer).out().len() + old(self).head_text().len() <= usize::MAX
        ensures *final(self) == *old(self), match r {
            Ok(n) => !(old(self).parts.method is None) && !(old(self).parts.version is None) && n == old(self).head_text().len() && final(buffer).out() == old(buffer).out() + old(self).head_text(),
            Err(_) => old(self).parts.method is None || old(self).parts.version is None }
//@at start
        hide(pct); hide(lines);
        let ghost o = buffer.out(); let ghost m = self.parts.method.text(); let ghost v = self.parts.version.text(); let ghost p = pct(self.parts.url.path.bytes(), k_esc(seq![63u8])); let ghost q = target_query(tb(self.parts.url.query)); let ghost l = lines(self.parts.header.m()); let ghost t = self.head_text();
        proof {
            assert(t.len() == m.len() + 1 + p.len() + q.len() + 1 + v.len() + 2 + l.len() + 2);
            assert(t =~= m + (seq![32u8] + (p + (q + (seq![32u8] + (v + (seq![13u8, 10] + (l + seq![13u8, 10]))))))));
            lemma_cats(); lemma_noq();
        }
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | http1_data
//@ret r
//@spec
        requires old(self).head_text().len() <= usize::MAX
        ensures r is Ok ==> r->Ok_0@ == old(self).head_text() + old(self).body.ser() && !(old(self).parts.method is None) && !(old(self).parts.version is None)
//@at start
        hide(req_written);
        proof { assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert(Seq::<u8>::empty() + a =~= a); } }
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | is_http2
//@ret r
//@spec
        ensures r == (self.parts.version is Http2)
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | method
//@ret r
//@spec
        ensures *r == self.parts.method
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | set_method
//@ret r
//@spec
        ensures *final(self) == (Request { parts: Parts { method, ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | version
//@ret r
//@spec
        ensures r == self.parts.version
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | set_version
//@ret r
//@spec
        ensures *final(self) == (Request { parts: Parts { version, ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | path
//@ret r
//@spec
        ensures *r == self.parts.url.path
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | set_path
//@ret r
//@spec
        ensures *final(self) == (Request { parts: Parts { url: Url { path, ..old(self).parts.url }, ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | scheme
//@ret r
//@spec
        ensures *r == self.parts.url.scheme
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | set_scheme
//@ret r
//@spec
        ensures *final(self) == (Request { parts: Parts { url: Url { scheme, ..old(self).parts.url }, ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | headers
//@ret r
//@spec
        ensures *r == self.parts.header
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | headers_mut
//@ret r
//@spec
        ensures *r == old(self).parts.header, *final(self) == (Request { parts: Parts { header: *final(r), ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | url
//@ret r
//@spec
        ensures *r == self.parts.url
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | url_mut
//@ret r
//@spec
        ensures *r == old(self).parts.url, *final(self) == (Request { parts: Parts { url: *final(r), ..old(self).parts }, ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | body
//@ret r
//@spec
        ensures *r == self.body
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | body_mut
//@ret r
//@spec
        ensures *r == old(self).body, *final(self) == (Request { body: *final(r), ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | headers_body
//@ret r
//@spec
        ensures *r.0 == old(self).parts.header, *r.1 == old(self).body, *final(self) == *old(self)
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | into
//@ret r
//@spec
        ensures r.0 == (Request { parts: self.parts, body, partial: self.partial }), r.1 == self.body
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | parts
//@ret r
//@spec
        ensures *r == self.parts
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | parts_mut
//@ret r
//@spec
        ensures *r == old(self).parts, *final(self) == (Request { parts: *final(r), ..*old(self) })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | get_authority
//@ret r
//@spec
        requires own_scheme(self.parts.url.scheme)
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | get_connect_url
//@ret r
//@spec
        ensures match r { Some(t) => self.parts.url.domain is Some && self.parts.url.port is Some && t.bytes() == address(self.parts.url.v()), None => self.parts.url.domain is None || self.parts.url.port is None }
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | get_body_len
//@ret r
//@spec
        ensures r == (match int_of(val(self.parts.header.m(), cl())) { Some(v) if knows(self.parts.header.m(), cl()) && isize::MIN <= v <= isize::MAX => v, _ => 0 })
//@end
//@fn src/http/request.rs | impl<T> Request<T> where T: Serialize, | set_url
//@ret r
//@sub let Some\(connect\) = url\.get_connect_url\(\) => let Some(connect) = &url.get_connect_url()
//@spec
        ensures final(self).parts.url == url, final(self).body == old(self).body, final(self).partial == old(self).partial, final(self).parts.method == old(self).parts.method, final(self).parts.version == old(self).parts.version,
            final(self).parts.header.m() == hosts(old(self).parts.header.m(), url, true)
//@end
    pub open spec fn head_text(&self) -> Seq<u8> { req_written(self.parts.method, self.parts.url.path.bytes(), tb(self.parts.url.query), self.parts.version, self.parts.header.m()) }
    pub open spec fn has(&self, h: Head, u: UrlV) -> bool { self.parts.method == h.m && self.parts.version == h.v && self.parts.header.m() == h.h && self.parts.url.v() == u }
}
impl Parts {
//@fn src/http/request.rs | impl Parts | get_connect_url
//@ret r
//@spec
        ensures match r { Some(t) => self.url.domain is Some && self.url.port is Some && t.bytes() == address(self.url.v()), None => self.url.domain is None || self.url.port is None }
//@end
//@fn src/http/request.rs | impl Parts | new
//@ret r
//@sub Default\s*::\s*default\(\) => Parts::default()
//@spec
        ensures r.method is None, r.version is Http11, r.header.m() == Seq::<Ent>::empty(), r.url.v() == no_url()
//@end
}
impl Parts {
//@fn src/http/request.rs | impl Default for Parts | default
//@ret r
//@spec
        ensures r.method is None, r.version is Http11, r.header.m() == Seq::<Ent>::empty(), r.url.v() == no_url()
//@end
}
impl Request<()> {
//@fn src/http/request.rs | impl Request<()> | new
//@ret r
//@spec
        ensures r.parts.method is None, r.parts.version is Http11, r.parts.header.m() == Seq::<Ent>::empty(), r.parts.url.v() == no_url(), !r.partial
//@end
//@fn src/http/request.rs | impl Request<()> | new_by_parts
//@ret r
//@spec
        ensures r.parts == parts, !r.partial
//@end
//@fn src/http/request.rs | impl Request<()> | builder
//@ret r
//@spec
        ensures r.fresh()
//@end
}
//@item src/http/request.rs | struct | Builder
impl Builder {
    pub open spec fn fresh(&self) -> bool { self.inner is Ok && self.inner->Ok_0.method is Get && self.inner->Ok_0.version is Http11 && self.inner->Ok_0.header.m() == Seq::<Ent>::empty() && self.inner->Ok_0.url.v() == no_url() }
//@fn src/http/request.rs | impl Builder | new
//@ret r
//@spec
        ensures r.fresh()
//@end
//@fn src/http/request.rs | impl Default for Builder | default
//@ret r
//@spec
        ensures r.fresh()
//@end
//@fn src/http/request.rs | impl Builder | method
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@sub Method\s*:\s*TryFrom\s*<\s*T\s*>\s*, => T: TryMethod,
//@sub <\s*Method\s+as\s+TryFrom\s*<\s*T\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@sub TryFrom\s*::\s*try_from\(method\)\s*\.map_err\(\s*Into\s*::\s*into\s*\)\? => (match method.try_method() { Ok(v__) => v__, Err(e__) => return Builder { inner: Err(e__) } })
//@spec
        ensures match (self.inner, method.mt()) { (Ok(p), Some(m)) => r.inner == Ok::<Parts, WebError>(Parts { method: m, ..p }), _ => r.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | url
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@sub Url\s*:\s*TryFrom\s*<\s*T\s*>\s*, => T: TryUrl,
//@sub <\s*Url\s+as\s+TryFrom\s*<\s*T\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@sub TryFrom\s*::\s*try_from\(url\)\s*\.map_err\(\s*Into\s*::\s*into\s*\)\? => (match url.try_url() { Ok(v__) => v__, Err(e__) => return Builder { inner: Err(e__) } })
//@spec
        ensures match (self.inner, url.uu()) { (Ok(p), Some(u)) => r.inner is Ok && r.inner->Ok_0.url.v() == u && r.inner->Ok_0.method == p.method && r.inner->Ok_0.version == p.version && r.inner->Ok_0.header.m() == hosts(p.header.m(), r.inner->Ok_0.url, false), _ => r.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | version
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@spec
        ensures match self.inner { Ok(p) => r.inner == Ok::<Parts, WebError>(Parts { version, ..p }), Err(_) => r.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | header
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@sub HeaderName\s*:\s*TryFrom\s*<\s*K\s*>\s*, => K: TryName,
//@sub <\s*HeaderName\s+as\s+TryFrom\s*<\s*K\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@sub HeaderValue\s*:\s*TryFrom\s*<\s*V\s*>\s*, => V: TryValue,
//@sub <\s*HeaderValue\s+as\s+TryFrom\s*<\s*V\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@spec
        ensures match self.inner { Ok(p) => r.inner is Ok && r.inner->Ok_0.method == self.inner->Ok_0.method && r.inner->Ok_0.version == self.inner->Ok_0.version && r.inner->Ok_0.url == self.inner->Ok_0.url && r.inner->Ok_0.header.m() == (if key.nm() is Some && value.vl() is Some { m_insert(p.header.m(), key.nm()->0, value.vl()->0) } else { p.header.m() }), Err(_) => r.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | headers
//@ret r
//@mustsub self\s*\.\s*and_then\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut head = h__; \1 } } } }
//@mustsub \bfor\s+(\w+)\s+in\s+header\s*\{ => for \1 in header.headers {
//@spec
        ensures match self.inner { Ok(p) => r.inner is Ok && r.inner->Ok_0.method == p.method && r.inner->Ok_0.version == p.version && r.inner->Ok_0.url == p.url && r.inner->Ok_0.header.m() == m_inserts(p.header.m(), header.m()), Err(_) => r.inner is Err }
//@at start
        let ghost h0: Seq<Ent> = header.m(); let ghost p0: Parts = self.inner->Ok_0;
        proof { assert(h0.take(0) =~= Seq::empty()); assert(h0.take(h0.len() as int) =~= h0); }
//@at before 0
        #[verifier::loop_isolation(false)]
//@loop 0
            invariant head.method == p0.method, head.version == p0.version, head.url == p0.url, self.inner == Ok::<Parts, WebError>(p0), it0.seq() == header.headers@, head.header.m() == m_inserts(p0.header.m(), h0.take(it0.index@ as int))
//@at start 0
            proof { let k = it0.index@; assert(h0.take(k + 1).drop_last() =~= h0.take(k as int)); assert(h0.take(k + 1).last() == h0[k as int]); }
//@end
//@fn src/http/request.rs | impl Builder | method_ref
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*as_ref\(\)\s*\.\s*ok\(\)\s*\.\s*map\(\s*\|\s*(\w+)\s*\|\s*(&\s*\w+\s*\.\s*\w+)\s*,?\s*\) => match &self.inner { Ok(\1) => Some(\2), Err(_) => None }
//@spec
        ensures match r { Some(h) => self.inner is Ok && *h == self.inner->Ok_0.method, None => self.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | url_ref
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*as_ref\(\)\s*\.\s*ok\(\)\s*\.\s*map\(\s*\|\s*(\w+)\s*\|\s*(&\s*\w+\s*\.\s*\w+)\s*,?\s*\) => match &self.inner { Ok(\1) => Some(\2), Err(_) => None }
//@spec
        ensures match r { Some(h) => self.inner is Ok && *h == self.inner->Ok_0.url, None => self.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | version_ref
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*as_ref\(\)\s*\.\s*ok\(\)\s*\.\s*map\(\s*\|\s*(\w+)\s*\|\s*(&\s*\w+\s*\.\s*\w+)\s*,?\s*\) => match &self.inner { Ok(\1) => Some(\2), Err(_) => None }
//@spec
        ensures match r { Some(h) => self.inner is Ok && *h == self.inner->Ok_0.version, None => self.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | headers_ref
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*as_ref\(\)\s*\.\s*ok\(\)\s*\.\s*map\(\s*\|\s*(\w+)\s*\|\s*(&\s*\w+\s*\.\s*\w+)\s*,?\s*\) => match &self.inner { Ok(\1) => Some(\2), Err(_) => None }
//@spec
        ensures match r { Some(h) => self.inner is Ok && *h == self.inner->Ok_0.header, None => self.inner is Err }
//@end
//@fn src/http/request.rs | impl Builder | and_then
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*and_then\s*\(\s*func\s*\) => (match self.inner { Ok(v__) => func(v__), Err(e__) => Err(e__) })
//@spec
        requires self.inner is Ok ==> func.requires((self.inner->Ok_0,))
        ensures match self.inner { Ok(p) => func.ensures((p,), r.inner), Err(e) => r.inner == Err::<Parts, WebError>(e) }
//@end
//@fn src/http/request.rs | impl Builder | body
//@ret r
//@mustsub self\s*\.\s*inner\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+head\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => match self.inner { Err(e__) => Err(e__), Ok(h__) => Ok({ let mut head = h__; \1 }) } }
//@spec
        ensures match self.inner { Ok(p) => r is Ok && r->Ok_0.body == body && r->Ok_0.parts.method == p.method && r->Ok_0.parts.version == p.version && r->Ok_0.parts.url == p.url && r->Ok_0.parts.header.m() == agent(p.header.m()), Err(e) => r == Err::<Request<T>, WebError>(e) }
//@end
//@fn src/http/request.rs | impl Builder | get_body_len
//@ret r
//@spec
        ensures self.inner is Ok ==> r == (match int_of(val(self.inner->Ok_0.header.m(), cl())) { Some(v) if knows(self.inner->Ok_0.header.m(), cl()) && isize::MIN <= v <= isize::MAX => v, _ => 0 }), self.inner is Err ==> r == 0
//@end
}
}
/// a path a request can be sent for
pub open spec fn sendable(p: Seq<u8>, q: Option<Seq<u8>>) -> bool { p.len() > 0 && p[0] == 47 && utf8(p) && opt_utf8(q) }
/// the target written for a path and query spells them
pub proof fn lemma_target(p: Seq<u8>, q: Option<Seq<u8>>)
    requires sendable(p, q)
    ensures target(p, q).len() > 0, all(target(p, q), p_tok()), url_of(target(p, q)) == Some(UrlV { scheme: None, path: p, user: None, pass: None, host: None, port: Some(0), query: q })
{
    let r1 = seq![63u8]; let r0 = Seq::<u8>::empty(); let a = pct(p, k_esc(r1)); let b = target_query(q); let t = target(p, q);
    assert(r1[0] == 63); assert(!r1.contains(47u8)); lemma_pct_chars(p, k_esc(r1)); if q is Some { lemma_pct_chars(q->0, k_esc(r0)); }
    assert forall|i: int| 0 <= i < a.len() implies vchar(#[trigger] a[i]) && a[i] != 63 by { assert(k_esc(r1)(a[i]) || a[i] == 37 || hexup(a[i])); if k_esc(r1)(a[i]) { assert(!r1.contains(a[i])); } }
    assert forall|i: int| 0 <= i < a.len() implies p_not(63)(#[trigger] a[i]) by { assert(a[i] != 63); }
    assert(k_esc(r1)(47)); assert(a[0] == 47);
    lemma_run_to(a, b, p_not(63));
    assert(visible(a)) by { assert forall|i: int| 0 <= i < a.len() implies vchar(#[trigger] a[i]) by {} }
    if q is Some { let e = pct(q->0, k_esc(r0)); assert(b.skip(1) =~= e); assert forall|i: int| 0 <= i < b.len() implies vchar(#[trigger] b[i]) by { if i > 0 { assert(b[i] == e[i - 1]); assert(k_esc(r0)(e[i - 1]) || e[i - 1] == 37 || hexup(e[i - 1])); } } } else { assert(t =~= a); }
    lemma_vis_cat(a, b); assert(t[0] == 47); assert(visible(t));
    assert forall|i: int| 0 <= i < t.len() implies p_tok()(#[trigger] t[i]) by { assert(vchar(t[i])); }
    let none = Raw { user: None, pass: None, host: None, port: None, path: None, query: None };
    assert(path_query(none, t) == Raw { path: Some(a), query: enc(q, k_esc(r0)), ..none });
    assert(!k_esc(r1)(37) && !k_esc(r0)(37));
    lemma_dec_enc(Some(p), k_esc(r1)); lemma_dec_enc(q, k_esc(r0)); assert(enc(Some(p), k_esc(r1)) == Some(a));
}
/// P03: what is written for a request is read as that request, and the rest is left
#[verifier::spinoff_prover] pub proof fn thm_req_roundtrip(m: Method, p: Seq<u8>, q: Option<Seq<u8>>, v: Version, h: Seq<Ent>, rest: Seq<u8>)
    requires std_method(m), sendable(p, q), !(v is None), writable(h)
    ensures ({ let hd = Head { m, t: target(p, q), v, h }; &&& reads_to(req_head(req_written(m, p, q, v, h) + rest), req_written(m, p, q, v, h) + rest, hd, rest)
        &&& !(m is Connect) && (knows(h, nhost()) ==> pair(val(h, nhost())) is Some && hosted(no_url(), val(h, nhost())) is Some) ==> req_url(hd) is Some && req_url(hd)->0.path == p && req_url(hd)->0.query == q && req_url(hd)->0.scheme == Some(http_s())
            && (knows(h, nhost()) ==> req_url(hd)->0.host == Some(pair(val(h, nhost()))->Some_0.0)) && (!knows(h, nhost()) ==> req_url(hd)->0.host is None) })
{
    hide(req_head); hide(pct); hide(url_of); hide(method_of); hide(knows); hide(val); hide(pair);
    let t = target(p, q); lemma_target(p, q);
    fls_of_ok(h); fields_text_is(h, rest); thm_req_grammar(Seq::empty(), m, 0, t, 0, v, true, fls_of(h), true, rest);
    let f = fls_text(fls_of(h), true, rest);
    assert(sp(1) =~= seq![32u8]);
    assert(req_written(m, p, q, v, h) + rest =~= m.text() + (seq![32u8] + (t + (seq![32u8] + (v.text() + (seq![13u8, 10] + (fields_text(h) + rest)))))));
    assert(els_text(Seq::empty(), m.text() + (sp(1) + (t + (sp(1) + (v.text() + (nlt(true) + f)))))) == req_text(Seq::empty(), m, 0, t, 0, v, true, fls_of(h), true, rest));
}
}
fn main() {}

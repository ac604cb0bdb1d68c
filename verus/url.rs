//@import h1.rs
//@import url_codec.rs
//@include bin_model.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub &'a\s+str\b => &'a Str
//@globsub &\s*str\b => &Str
//@globsub \bString\b => Text
//@globsub \bcrate\s*::\s*(WebError|HttpError|UrlError)\b => \1
//@globsub Self::(escape|url_encode|url_decode)\( => UrlCodec::\1(
verus! {
// ---- std, by octets ----
impl Text {
    /// str::parse::<u16>: an optional plus sign and decimal digits
    #[verifier::external_body]
    pub fn parse_u16(&self) -> (r: Result<u16, ()>)
        ensures match nat_of(unsigned(self.bytes())) { Some(v) if v <= 65535 => r == Ok::<u16, ()>(v as u16), _ => r is Err }
    { unimplemented!() }
    /// for an ASCII character
    #[verifier::external_body]
    pub fn starts_with(&self, c: char) -> (r: bool) requires (c as u32) < 128 ensures r == (self.bytes().len() > 0 && self.bytes()[0] == c as u8) { unimplemented!() }
    /// replace(c, t), c ASCII
    #[verifier::external_body]
    pub fn replace(&self, c: char, t: &Str) -> (r: Text) requires (c as u32) < 128 ensures r.bytes() == repl(self.bytes(), c as u8, t.bytes()) { unimplemented!() }
}
pub open spec fn unsigned(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s } }
pub open spec fn repl(s: Seq<u8>, c: u8, t: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { s } else { repl(s.drop_last(), c, t) + if s.last() == c { t } else { seq![s.last()] } } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a Str> for Text {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a Str) -> bool { self.bytes() == o.bytes() }
}
impl<'a> PartialEq<&'a Str> for Text {
    #[verifier::external_body]
    fn eq(&self, o: &&'a Str) -> bool { unimplemented!() }
}
// derived PartialEq
impl vstd::std_specs::cmp::PartialEqSpecImpl for Scheme {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Scheme) -> bool { scheme_same(*self, *o) }
}
impl PartialEq for Scheme {
    #[verifier::external_body]
    fn eq(&self, o: &Scheme) -> bool { unimplemented!() }
}
/// a scheme that is not one of the known ones is not spelt like one
pub open spec fn own_scheme(s: Scheme) -> bool { s is Extension ==> scheme_of(s.text()) is None }
pub open spec fn scheme_same(a: Scheme, b: Scheme) -> bool { match (a, b) { (Scheme::Extension(x), Scheme::Extension(y)) => x.bytes() == y.bytes(), (Scheme::Extension(_), _) => false, (_, Scheme::Extension(_)) => false, _ => a == b } }
impl DispM for Scheme { open spec fn disp(&self) -> Seq<u8> { self.text() } }
// ================= the parts of a URL =================
//@item src/url/url.rs | struct | Url
impl Binary {
    #[verifier::external_body]
    pub fn from_str(v: &'static Str) -> (r: Binary) ensures r.rem() == v.bytes() { unimplemented!() }
}
/// a URL by its texts
pub struct UrlV { pub scheme: Option<Seq<u8>>, pub path: Seq<u8>, pub user: Option<Seq<u8>>, pub pass: Option<Seq<u8>>, pub host: Option<Seq<u8>>, pub port: Option<u16>, pub query: Option<Seq<u8>> }
pub open spec fn tb(t: Option<Text>) -> Option<Seq<u8>> { match t { Some(x) => Some(x.bytes()), None => None } }
pub open spec fn sb(s: Scheme) -> Option<Seq<u8>> { if s is None { None } else { Some(s.text()) } }
pub open spec fn or<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
/// merging: what b sets, and of the rest what a has
pub open spec fn merged(a: UrlV, b: UrlV) -> UrlV {
    UrlV { scheme: or(b.scheme, a.scheme), path: if b.path == seq![47u8] { a.path } else { b.path }, user: or(b.user, a.user), pass: or(b.pass, a.pass), host: or(b.host, a.host),
        port: if b.port == Some(0u16) { a.port } else { or(b.port, a.port) }, query: or(b.query, a.query) }
}
// ================= the grammar of URL texts =================
pub open spec fn p_not(c: u8) -> spec_fn(u8) -> bool { |b: u8| b != c }
pub open spec fn p_auth() -> spec_fn(u8) -> bool { |b: u8| b != 47 && b != 63 }
pub open spec fn schar(b: u8) -> bool { digit(b) || 65 <= b <= 90 || 97 <= b <= 122 || b == 43 || b == 45 || b == 46 }
pub open spec fn p_scheme() -> spec_fn(u8) -> bool { |b: u8| schar(b) }
pub open spec fn alpha(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 }
pub open spec fn visible(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> vchar(#[trigger] s[i]) }
/// a, or a ":" b with no further colon
pub open spec fn pair(s: Seq<u8>) -> Option<(Seq<u8>, Option<Seq<u8>>)> {
    let i = run(s, p_not(58)) as int;
    if i >= s.len() { Some((s, None)) } else if s.skip(i + 1).contains(58u8) { None } else { Some((s.take(i), Some(s.skip(i + 1)))) }
}
pub struct Raw { pub user: Option<Seq<u8>>, pub pass: Option<Seq<u8>>, pub host: Option<Seq<u8>>, pub port: Option<Seq<u8>>, pub path: Option<Seq<u8>>, pub query: Option<Seq<u8>> }
/// [user ":" password "@"] host [":" port]
pub open spec fn authority(s: Seq<u8>) -> Option<Raw> {
    let i = run(s, p_not(64)) as int;
    if i >= s.len() { match pair(s) { Some((h, p)) => Some(Raw { user: None, pass: None, host: Some(h), port: p, path: None, query: None }), None => None } }
    else { match (pair(s.take(i)), pair(s.skip(i + 1))) {
        (Some((u, Some(w))), Some((h, p))) => if s.skip(i + 1).contains(64u8) { None } else { Some(Raw { user: Some(u), pass: Some(w), host: Some(h), port: p, path: None, query: None }) },
        _ => None } }
}
/// path ["?" query]
pub open spec fn path_query(r: Raw, s: Seq<u8>) -> Raw {
    let i = run(s, p_not(63)) as int;
    if i >= s.len() { Raw { path: Some(s), ..r } } else { Raw { path: Some(s.take(i)), query: Some(s.skip(i + 1)), ..r } }
}
/// authority [path ["?" query] / "?" query]
pub open spec fn hier(s: Seq<u8>) -> Option<Raw> {
    let i = run(s, p_auth()) as int; let t = s.skip(i);
    match authority(s.take(i)) { None => None, Some(r) => Some(if t.len() == 0 { r } else if t[0] == 47 { path_query(r, t) } else { Raw { path: Some(seq![47u8]), query: Some(t.skip(1)), ..r } }) }
}
pub open spec fn decoded(s: Seq<u8>) -> Option<Seq<u8>> { match unpct(s) { Some(v) => if utf8(v) { Some(v) } else { None }, None => None } }
pub open spec fn default_port(t: Option<Seq<u8>>) -> u16 {
    match t { None => 0, Some(s) => match scheme_of(s) { Some(Scheme::Http) => 80, Some(Scheme::Ws) => 80, Some(Scheme::Https) => 443, Some(Scheme::Wss) => 443, Some(Scheme::Ftp) => 21, _ => 0 } }
}
/// a part that is not there is fine, one that is there must decode
pub open spec fn dec_ok(o: Option<Seq<u8>>) -> bool { o is Some ==> decoded(o->0) is Some }
pub open spec fn dec_of(o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(s) => decoded(s), None => None } }
pub open spec fn port_of(o: Option<Seq<u8>>) -> Option<int> { match dec_of(o) { Some(s) => match nat_of(s) { Some(v) if v <= 65535 => Some(v), _ => None }, None => None } }
pub open spec fn decode_raw(t: Option<Seq<u8>>, r: Raw) -> Option<UrlV> {
    if !dec_ok(r.user) || !dec_ok(r.pass) || !dec_ok(r.host) || !dec_ok(r.path) || !dec_ok(r.query) || (r.port is Some && port_of(r.port) is None) { None }
    else { Some(UrlV { scheme: t, user: dec_of(r.user), pass: dec_of(r.pass), host: dec_of(r.host), port: Some(if r.port is Some { port_of(r.port)->0 as u16 } else { default_port(t) }),
        path: match r.path { Some(p) => decoded(p)->0, None => seq![47u8] }, query: dec_of(r.query) }) }
}
/// the URL a text spells, if it spells one
pub open spec fn url_of(s: Seq<u8>) -> Option<UrlV> {
    if s.len() == 0 { None }
    else if alpha(s[0]) {
        let n = run(s, p_scheme()) as int; let t = s.skip(n);
        if n > 64 || t.len() < 3 || t[0] != 58 || t[1] != 47 || t[2] != 47 || !visible(t.skip(3)) { None }
        else { match hier(t.skip(3)) { Some(r) => decode_raw(Some(s.take(n)), r), None => None } }
    }
    else if s[0] == 47 && visible(s) { decode_raw(None, path_query(Raw { user: None, pass: None, host: None, port: None, path: None, query: None }, s)) }
    else { None }
}
// ================= the same as a machine over the octets =================
pub struct St { pub val: Seq<u8>, pub user: Option<Seq<u8>>, pub pass: Option<Seq<u8>>, pub dom: Option<Seq<u8>>, pub port: Option<Seq<u8>>, pub path: Option<Seq<u8>>, pub slash: bool }
pub open spec fn close_auth(st: St) -> St { if st.dom is None { St { dom: Some(st.val), val: Seq::empty(), ..st } } else { St { port: Some(st.val), val: Seq::empty(), ..st } } }
pub open spec fn step(st: St, b: u8) -> Option<St> {
    let more = St { val: st.val.push(b), ..st };
    if b == 58 { if st.slash { Some(more) } else if st.dom is None { Some(St { dom: Some(st.val), val: Seq::empty(), ..st }) } else { None } }
    else if b == 64 && !st.slash { if st.dom is None || st.user is Some { None } else { Some(St { user: st.dom, dom: None, pass: Some(st.val), val: Seq::empty(), ..st }) } }
    else if b == 47 { if st.slash { Some(more) } else { Some(St { slash: true, val: seq![47u8], ..close_auth(st) }) } }
    else if b == 63 { if !st.slash { Some(St { slash: true, path: Some(seq![47u8]), ..close_auth(st) }) } else if st.path is None { Some(St { path: Some(st.val), val: Seq::empty(), ..st }) } else { Some(more) } }
    else if vchar(b) { Some(more) } else { None }
}
pub open spec fn finish(st: St, hd: bool) -> Raw {
    let r = Raw { user: st.user, pass: st.pass, host: st.dom, port: st.port, path: st.path, query: None };
    if st.path is Some { Raw { query: Some(st.val), ..r } }
    else if st.dom is Some { if !st.slash { Raw { port: Some(st.val), ..r } } else { Raw { path: Some(st.val), ..r } } }
    else if hd { Raw { host: Some(st.val), ..r } } else { Raw { path: Some(st.val), ..r } }
}
pub open spec fn go(st: St, s: Seq<u8>, hd: bool) -> Option<Raw> decreases s.len() {
    if s.len() == 0 { Some(finish(st, hd)) } else { match step(st, s[0]) { Some(t) => go(t, s.skip(1), hd), None => None } }
}
pub proof fn lemma_go1(st: St, s: Seq<u8>, hd: bool)
    ensures go(st, s, hd) == (if s.len() == 0 { Some(finish(st, hd)) } else { match step(st, s[0]) { Some(t) => go(t, s.skip(1), hd), None => None } })
{}
pub open spec fn st0(slash: bool) -> St { St { val: Seq::empty(), user: None, pass: None, dom: None, port: None, path: None, slash } }
pub open spec fn bo(b: Option<Binary>) -> Option<Seq<u8>> { match b { Some(x) => Some(x.rem()), None => None } }

// ---- the machine accepts what the grammar spells ----
pub open spec fn plain(b: u8) -> bool { b != 58 && b != 64 && b != 47 && b != 63 }
pub open spec fn feed(st: St, s: Seq<u8>) -> Option<St> decreases s.len() { if s.len() == 0 { Some(st) } else { match step(st, s[0]) { Some(t) => feed(t, s.skip(1)), None => None } } }
pub proof fn lemma_feed_cat(st: St, a: Seq<u8>, b: Seq<u8>)
    ensures feed(st, a + b) == (match feed(st, a) { Some(x) => feed(x, b), None => None::<St> }) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b)[0] == a[0]); assert((a + b).skip(1) =~= a.skip(1) + b); match step(st, a[0]) { Some(t) => { lemma_feed_cat(t, a.skip(1), b); } None => {} } }
}
pub proof fn lemma_go_feed(st: St, a: Seq<u8>, b: Seq<u8>, hd: bool)
    ensures go(st, a + b, hd) == (match feed(st, a) { Some(x) => go(x, b, hd), None => None::<Raw> }) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b)[0] == a[0]); assert((a + b).skip(1) =~= a.skip(1) + b); match step(st, a[0]) { Some(t) => { lemma_go_feed(t, a.skip(1), b, hd); } None => {} } }
}
pub proof fn lemma_vis_cat(a: Seq<u8>, b: Seq<u8>)
    ensures visible(a + b) == (visible(a) && visible(b))
{
    let c = a + b;
    if visible(c) { assert forall|i: int| 0 <= i < a.len() implies vchar(#[trigger] a[i]) by { assert(c[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies vchar(#[trigger] b[i]) by { assert(c[a.len() + i] == b[i]); } }
    if visible(a) && visible(b) { assert forall|i: int| 0 <= i < c.len() implies vchar(#[trigger] c[i]) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } }
}
pub proof fn lemma_cut1(s: Seq<u8>) requires s.len() > 0 ensures s == seq![s[0]] + s.skip(1), visible(s) == (vchar(s[0]) && visible(s.skip(1)))
{ assert(s =~= seq![s[0]] + s.skip(1)); lemma_vis_cat(seq![s[0]], s.skip(1)); let o = seq![s[0]]; assert(o[0] == s[0]); assert(visible(o) == vchar(s[0])) by { if vchar(s[0]) { assert forall|i: int| 0 <= i < o.len() implies vchar(#[trigger] o[i]) by {} } } }
pub proof fn lemma_acc(st: St, s: Seq<u8>)
    requires !st.slash, forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i])
    ensures feed(st, s) == if visible(s) { Some(St { val: st.val + s, ..st }) } else { None::<St> } decreases s.len()
{
    if s.len() == 0 { assert(st.val + s =~= st.val); } else {
        lemma_cut1(s); assert(plain(s[0]));
        let t = St { val: st.val.push(s[0]), ..st };
        if vchar(s[0]) { assert(step(st, s[0]) == Some(t)); assert forall|i: int| 0 <= i < s.skip(1).len() implies plain(#[trigger] s.skip(1)[i]) by { assert(plain(s[i + 1])); } lemma_acc(t, s.skip(1)); assert(t.val + s.skip(1) =~= st.val + s); }
    }
}
/// host or host ":" port, at the start of a part of the authority
pub proof fn lemma_pair(st: St, s: Seq<u8>)
    requires !st.slash, st.dom is None, st.val.len() == 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 64 && s[i] != 47 && s[i] != 63
    ensures feed(st, s) == (if !visible(s) { None::<St> } else { match pair(s) { None => None::<St>, Some((h, None)) => Some(St { val: h, ..st }), Some((h, Some(p))) => Some(St { dom: Some(h), val: p, ..st }) } })
{
    let k = run(s, p_not(58)) as int; lemma_run(s, p_not(58));
    let h = s.take(k);
    assert forall|i: int| 0 <= i < h.len() implies plain(#[trigger] h[i]) by { assert(p_not(58)(s[i])); assert(s[i] != 64); }
    lemma_acc(st, h); assert(st.val + h =~= h);
    if k >= s.len() { assert(h =~= s); } else {
        let r = s.skip(k + 1); let d = s.skip(k);
        assert(s =~= h + d); lemma_feed_cat(st, h, d); lemma_vis_cat(h, d); lemma_cut1(d); assert(d[0] == s[k]); assert(d.skip(1) =~= r); assert(s[k] == 58);
        if visible(h) {
            let st1 = St { val: h, ..st }; let st2 = St { dom: Some(h), val: Seq::empty(), ..st };
            assert(feed(st, h) == Some(st1)); assert(step(st1, 58) == Some(st2)); assert(feed(st1, d) == feed(st2, r));
            let m = run(r, p_not(58)) as int; lemma_run(r, p_not(58)); let q = r.take(m);
            assert forall|i: int| 0 <= i < q.len() implies plain(#[trigger] q[i]) by { assert(p_not(58)(r[i])); assert(r[i] == s[k + 1 + i]); }
            lemma_acc(st2, q); assert(st2.val + q =~= q);
            if m >= r.len() { assert(q =~= r); assert(!r.contains(58u8)) by { if r.contains(58u8) { let j = choose|j: int| 0 <= j < r.len() && r[j] == 58u8; assert(p_not(58)(r[j])); } } }
            else { assert(r =~= q + r.skip(m)); lemma_feed_cat(st2, q, r.skip(m)); lemma_vis_cat(q, r.skip(m)); assert(r[m] == 58); assert(r.contains(58u8)); assert(r.skip(m)[0] == 58); }
        }
    }
}
pub open spec fn of_raw(r: Raw) -> St { St { val: if r.port is Some { r.port->0 } else { r.host->0 }, user: r.user, pass: r.pass, dom: if r.port is Some { r.host } else { None }, port: None, path: None, slash: false } }
#[verifier::spinoff_prover] pub proof fn lemma_auth(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 47 && s[i] != 63
    ensures feed(st0(false), s) == (if !visible(s) { None::<St> } else { match authority(s) { Some(r) => Some(of_raw(r)), None => None } })
{
    let st = st0(false); let i = run(s, p_not(64)) as int; lemma_run(s, p_not(64));
    let a = s.take(i);
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] != 64 && a[j] != 47 && a[j] != 63 by { assert(p_not(64)(s[j])); assert(s[j] != 47); }
    lemma_pair(st, a);
    if i >= s.len() { assert(a =~= s); } else {
        let d = s.skip(i); let r = s.skip(i + 1);
        assert(s =~= a + d); lemma_feed_cat(st, a, d); lemma_vis_cat(a, d); lemma_cut1(d); assert(d[0] == s[i]); assert(d.skip(1) =~= r); assert(s[i] == 64);
        if visible(a) && pair(a) is Some && pair(a)->Some_0.1 is Some {
            let u = pair(a)->Some_0.0; let w = pair(a)->Some_0.1->0;
            let st1 = St { dom: Some(u), val: w, ..st }; let st2 = St { user: Some(u), pass: Some(w), ..st };
            assert(feed(st, a) == Some(st1)); assert(step(st1, 64) == Some(st2)); assert(feed(st1, d) == feed(st2, r));
            let m = run(r, p_not(64)) as int; lemma_run(r, p_not(64)); let q = r.take(m);
            assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] != 64 && q[j] != 47 && q[j] != 63 by { assert(p_not(64)(r[j])); assert(r[j] == s[i + 1 + j]); }
            lemma_pair(st2, q);
            if m >= r.len() { assert(q =~= r); assert(!r.contains(64u8)) by { if r.contains(64u8) { let j = choose|j: int| 0 <= j < r.len() && r[j] == 64u8; assert(p_not(64)(r[j])); } } }
            else { assert(r =~= q + r.skip(m)); lemma_feed_cat(st2, q, r.skip(m)); assert(r[m] == 64); assert(r.contains(64u8)); assert(r.skip(m)[0] == 64);
                match feed(st2, q) { Some(x) => { assert(x.user is Some && !x.slash); assert(step(x, 64) is None); } None => {} } }
        }
    }
}
pub proof fn lemma_tail_q(st: St, s: Seq<u8>, hd: bool)
    requires st.slash, st.path is Some
    ensures go(st, s, hd) == if visible(s) { Some(finish(St { val: st.val + s, ..st }, hd)) } else { None::<Raw> } decreases s.len()
{
    if s.len() == 0 { assert(st.val + s =~= st.val); } else { lemma_cut1(s); let t = St { val: st.val.push(s[0]), ..st }; if vchar(s[0]) { assert(step(st, s[0]) == Some(t)); lemma_tail_q(t, s.skip(1), hd); assert(t.val + s.skip(1) =~= st.val + s); } }
}
pub proof fn lemma_tail_p(st: St, s: Seq<u8>, hd: bool)
    requires st.slash, st.path is None, st.dom is Some || !hd, forall|i: int| 0 <= i < st.val.len() ==> st.val[i] != 63
    ensures go(st, s, hd) == if visible(s) { Some(path_query(Raw { user: st.user, pass: st.pass, host: st.dom, port: st.port, path: None, query: None }, st.val + s)) } else { None::<Raw> },
    decreases s.len()
{
    let r0 = Raw { user: st.user, pass: st.pass, host: st.dom, port: st.port, path: None, query: None };
    let w = st.val + s; lemma_run(w, p_not(63));
    if s.len() == 0 {
        assert(w =~= st.val); let i = run(w, p_not(63)) as int; if i < w.len() { assert(w[i] == 63); }
    } else {
        lemma_cut1(s);
        if s[0] == 63 {
            let t = St { path: Some(st.val), val: Seq::empty(), ..st }; assert(step(st, 63) == Some(t)); lemma_tail_q(t, s.skip(1), hd); assert(t.val + s.skip(1) =~= s.skip(1));
            let i = st.val.len() as int; assert(w[i] == 63);
            assert forall|j: int| 0 <= j < i implies p_not(63)(#[trigger] w[j]) by { assert(w[j] == st.val[j]); }
            lemma_run_is(w, p_not(63), i); assert(w.take(i) =~= st.val); assert(w.skip(i + 1) =~= s.skip(1));
        } else {
            let t = St { val: st.val.push(s[0]), ..st }; if vchar(s[0]) { assert(step(st, s[0]) == Some(t)); lemma_tail_p(t, s.skip(1), hd); assert(t.val + s.skip(1) =~= w); }
        }
    }
}
pub proof fn lemma_hier(s: Seq<u8>)
    ensures go(st0(false), s, true) == if visible(s) { hier(s) } else { None::<Raw> }
{
    let i = run(s, p_auth()) as int; lemma_run(s, p_auth());
    let a = s.take(i); let t = s.skip(i); assert(s =~= a + t); lemma_go_feed(st0(false), a, t, true); lemma_vis_cat(a, t);
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] != 47 && a[j] != 63 by { assert(p_auth()(s[j])); }
    lemma_auth(a);
    if visible(a) && authority(a) is Some {
        let r = authority(a)->0; let st = of_raw(r); assert(r.host is Some && r.path is None && r.query is None);
        if t.len() > 0 {
            lemma_cut1(t); assert(t[0] == s[i]); let b = t[0]; assert(b == 47 || b == 63);
            if b == 47 { let x = St { slash: true, val: seq![47u8], ..close_auth(st) }; assert(step(st, b) == Some(x)); assert(x.dom == r.host && x.port == r.port); lemma_tail_p(x, t.skip(1), true); assert(x.val + t.skip(1) =~= t); }
            else { let x = St { slash: true, path: Some(seq![47u8]), ..close_auth(st) }; assert(step(st, b) == Some(x)); assert(x.dom == r.host && x.port == r.port && x.val =~= Seq::empty()); lemma_tail_q(x, t.skip(1), true); assert(x.val + t.skip(1) =~= t.skip(1)); }
        }
    }
}
pub proof fn lemma_local(s: Seq<u8>)
    ensures go(st0(true), s, false) == if visible(s) { Some(path_query(Raw { user: None, pass: None, host: None, port: None, path: None, query: None }, s)) } else { None::<Raw> }
{ lemma_tail_p(st0(true), s, false); assert(st0(true).val + s =~= s); }

/// the text before the octets the machine reads
pub open spec fn via(u: Seq<u8>, scheme: Option<Seq<u8>>, s: Seq<u8>, hd: bool) -> bool { url_of(u) == (match go(st0(!hd), s, hd) { Some(r) => decode_raw(scheme, r), None => None::<UrlV> }) }
pub proof fn lemma_front(u: Seq<u8>)
    ensures u.len() == 0 ==> url_of(u) is None,
        u.len() > 0 && !alpha(u[0]) && u[0] != 47 ==> url_of(u) is None,
        u.len() > 0 && u[0] == 47 ==> via(u, None, u, false),
        u.len() > 0 && alpha(u[0]) ==> match tok(u, p_scheme(), false) {
            Rd::Done(t, n) => { let d = u.skip(n as int); &&& n > 0 && t.len() == n && n <= u.len() &&& t.len() > 64 ==> url_of(u) is None
                &&& (d.len() < 1 || d[0] != 58) ==> url_of(u) is None &&& (d.skip(1).len() < 1 || d.skip(1)[0] != 47) ==> url_of(u) is None &&& (d.skip(1).skip(1).len() < 1 || d.skip(1).skip(1)[0] != 47) ==> url_of(u) is None
                &&& t.len() <= 64 && d.len() >= 3 && d[0] == 58 && d.skip(1)[0] == 47 && d.skip(1).skip(1)[0] == 47 ==> via(u, Some(t), d.skip(1).skip(1).skip(1), true) },
            _ => url_of(u) is None },
{
    if u.len() > 0 && u[0] == 47 { lemma_local(u); }
    if u.len() > 0 && alpha(u[0]) {
        lemma_run(u, p_scheme()); let n = run(u, p_scheme()) as int; let d = u.skip(n); assert(p_scheme()(u[0]));
        if n < u.len() {
            assert(d[0] == u[n]);
            if d.len() >= 2 { assert(d.skip(1)[0] == d[1]); } if d.len() >= 3 { assert(d.skip(1).skip(1)[0] == d[2]); assert(d.skip(1).skip(1).skip(1) =~= d.skip(3)); lemma_hier(d.skip(3)); }
        }
    }
}

impl Helper {
//@fn src/helper.rs | impl Helper | parse_scheme
//@ret r
//@spec
        ensures gives_s(r, final(buffer).rem(), old(buffer).rem(), tok(old(buffer).rem(), p_scheme(), false))
//@at start
        proof { let d = tok(buffer.rem(), p_scheme(), false); }
//@end
}
impl Scheme {
//@bytemap src/url/scheme.rs | SCHEME_MAP
//@fn src/url/scheme.rs | impl Scheme | is_scheme_token
//@ret r
//@spec
        ensures r == schar(b)
//@end
//@fn src/url/scheme.rs | impl Scheme | parse_scheme
//@ret r
//@sub Self::MAX_SCHEME_LEN => 64
//@spec
        ensures match tok(old(buffer).rem(), p_scheme(), false) {
            Rd::Done(t, n) => if t.len() > 64 { r is Err } else { r is Ok && scheme_reads(r, t) && n <= old(buffer).rem().len() && final(buffer).rem() == old(buffer).rem().skip(n as int) },
            _ => r is Err }
//@end
}
impl Url {
    pub open spec fn v(&self) -> UrlV { UrlV { scheme: sb(self.scheme), path: self.path.bytes(), user: tb(self.username), pass: tb(self.password), host: tb(self.domain), port: self.port, query: tb(self.query) } }
//@consts src/url/url.rs | impl Url
//@fn src/url/url.rs | impl Url | new
//@ret r
//@spec
        ensures r.v() == (UrlV { scheme: None, path: seq![47u8], user: None, pass: None, host: None, port: None, query: None })
//@end
//@fn src/url/url.rs | impl Default for Url | default
//@ret r
//@spec
        ensures r.v() == (UrlV { scheme: None, path: seq![47u8], user: None, pass: None, host: None, port: None, query: None })
//@end
#[verifier::spinoff_prover]
//@fn src/url/url.rs | impl Url | merge
//@spec
        ensures final(self).v() == merged(old(self).v(), other.v())
//@end
#[verifier::spinoff_prover]
//@fn src/url/url.rs | impl Url | parse_url_token
//@ret r
//@sub Vec::with_capacity\(buffer\.len\(\)\) => Vec::with_capacity(0)
//@spec
        requires can_convert
        ensures match decoded(old(buffer).rem()) { Some(v) => r is Ok && r->Ok_0 is Some && r->Ok_0->0.bytes() == v, None => r is Err }
//@at start
        let ghost s = buffer.rem();
        proof { if unpct(s) is Some { assert(Seq::<u8>::empty() + unpct(s)->0 =~= unpct(s)->0); } }
//@loop 0
            invariant s == old(buffer).rem(), unpct(s) == (match unpct(buffer.rem()) { Some(x) => Some(result@ + x), None => None::<Seq<u8>> }), can_convert,
            ensures buffer.rem().len() == 0, unpct(s) == Some(result@),
            decreases buffer.rem().len()
//@at start 0
            let ghost t0: Seq<u8> = buffer.rem(); let ghost v0: Seq<u8> = result@;
            proof { if t0.len() == 0 { assert(v0 + Seq::<u8>::empty() =~= v0); } if t0.len() > 2 { assert(t0.skip(1)[0] == t0[1]); assert(t0.skip(1).skip(1) =~= t0.skip(2)); assert(t0.skip(2)[0] == t0[2]); assert(t0.skip(2).skip(1) =~= t0.skip(3)); } else if t0.len() == 2 { assert(t0.skip(1).skip(1).len() == 0); } }
//@at end 0
            proof { let x = unpct(buffer.rem()); if x is Some { assert(result@ + x->0 =~= v0 + (seq![result@.last()] + x->0)); } }
//@end
#[verifier::spinoff_prover]
//@fn src/url/url.rs | impl Url | parse/build_binary
//@ret r
//@spec
        ensures r.rem() == old(vec)@, final(vec)@ == Seq::<u8>::empty()
//@end
#[verifier::spinoff_prover]
//@fn src/url/url.rs | impl Url | parse
//@ret r
//@sub \.parse::<u16>\(\) => .parse_u16()
//@sub Binary::from\(Self::DEFAULT_PATH\) => Binary::from_str(Self::DEFAULT_PATH)
//@sub (&mut \w+)\.unwrap\(\) => \1.unwrap()
//@spec
        ensures match url_of(url@) { Some(u) => r is Ok && own_scheme(r->Ok_0.scheme) && r->Ok_0.v() == u, None => r is Err }
//@at start
        hide(url_of); hide(decode_raw); hide(hier); hide(authority); hide(path_query); hide(go); hide(visible); hide(tok); 
        proof { lemma_front(url@); }
//@loop 0
            invariant_except_break go(st0(!has_domain), s0, has_domain) == go(St { val: val@, user: bo(username), pass: bo(password), dom: bo(domain), port: bo(port), path: bo(path), slash: is_first_slash }, buffer.rem(), has_domain), query is None,
            invariant own_scheme(scheme), url_of(url@) == (match go(st0(!has_domain), s0, has_domain) { Some(r) => decode_raw(sb(scheme), r), None => None::<UrlV> }),
            ensures go(st0(!has_domain), s0, has_domain) == Some(Raw { user: bo(username), pass: bo(password), host: bo(domain), port: bo(port), path: bo(path), query: bo(query) }),
            decreases buffer.rem().len()
//@at before 0
        let ghost s0: Seq<u8> = buffer.rem();
        proof { if has_domain { let u = url@; let t = tok(u, p_scheme(), false); assert(t is Done); let n = t->Done_1; assert(u.skip(n as int).skip(1).skip(1).skip(1) == s0); assert(u.skip(n as int)[0] == 58 && u.skip(n as int).skip(1)[0] == 47 && u.skip(n as int).skip(1).skip(1)[0] == 47); } }
//@at start 0
            proof { lemma_go1(St { val: val@, user: bo(username), pass: bo(password), dom: bo(domain), port: bo(port), path: bo(path), slash: is_first_slash }, buffer.rem(), has_domain); }
//@at after 0
        let ghost rw = Raw { user: bo(username), pass: bo(password), host: bo(domain), port: bo(port), path: bo(path), query: bo(query) };
        proof { reveal(decode_raw); }
//@end
}
}
fn main() {}

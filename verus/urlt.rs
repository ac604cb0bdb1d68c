//@import url.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub &'a\s+str\b => &'a Str
//@globsub &\s*str\b => &Str
//@globsub \bString\b => Text
//@globsub \bcrate\s*::\s*(WebError|HttpError|UrlError)\b => \1
//@globsub Self::(escape|url_encode|url_decode)\( => UrlCodec::\1(
//@globsub Self::(Err|Error)\b => WebError
//@globsub std::fmt::Formatter<'_> => Formatter
//@globsub std::fmt::Result => Result<(), FmtErr>
verus! {
/// Option<String>::as_deref().unwrap_or(d)
#[verifier::external_body]
pub fn deref_or<'a>(o: &'a Option<Text>, d: &'a Str) -> (r: &'a Str) ensures r.bytes() == (match *o { Some(t) => t.bytes(), None => d.bytes() }) { unimplemented!() }
// ================= a URL written out =================
pub open spec fn http_s() -> Seq<u8> { seq![104u8, 116, 116, 112] }
pub open spec fn https_s() -> Seq<u8> { seq![104u8, 116, 116, 112, 115] }
pub open spec fn in_user() -> spec_fn(u8) -> bool { k_esc(seq![58u8, 47, 63, 64, 38]) }
pub open spec fn in_host() -> spec_fn(u8) -> bool { k_esc(seq![58u8, 47, 63, 64]) }
pub open spec fn in_path() -> spec_fn(u8) -> bool { |b: u8| kept(b) && b != 63 }
pub open spec fn t_scheme(v: UrlV) -> Seq<u8> { if v.scheme is None { Seq::empty() } else { v.scheme->0 + seq![58u8, 47, 47] } }
pub open spec fn t_user(v: UrlV) -> Seq<u8> { if v.user is None && v.pass is None { Seq::empty() } else { pct(or(v.user, Some(Seq::empty()))->0, in_user()) + seq![58u8] + pct(or(v.pass, Some(Seq::empty()))->0, in_user()) + seq![64u8] } }
pub open spec fn t_host(v: UrlV) -> Seq<u8> { if v.host is None { Seq::empty() } else { pct(v.host->0, in_host()) } }
/// the port is left out where it is the scheme's own
pub open spec fn t_port(v: UrlV) -> Seq<u8> { if v.scheme is None || v.port is None || (v.scheme->0 == http_s() && v.port->0 == 80) || (v.scheme->0 == https_s() && v.port->0 == 443) { Seq::empty() } else { seq![58u8] + decs(v.port->0 as nat) } }
pub open spec fn t_path(v: UrlV) -> Seq<u8> { pct(v.path, in_path()) }
pub open spec fn t_query(v: UrlV) -> Seq<u8> { if v.query is None { Seq::empty() } else { seq![63u8] + pct(v.query->0, k_url()) } }
pub open spec fn url_text(v: UrlV) -> Seq<u8> { t_scheme(v) + t_user(v) + t_host(v) + t_port(v) + t_path(v) + t_query(v) }
/// the pieces of a text may be put together in any grouping
pub proof fn lemma_cats()
    ensures forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) == a + b + c, forall|a: Seq<u8>| #[trigger] (a + Seq::<u8>::empty()) == a, forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a
{
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) == a + b + c by { assert(a + (b + c) =~= a + b + c); }
    assert forall|a: Seq<u8>| #[trigger] (a + Seq::<u8>::empty()) == a by { assert(a + Seq::<u8>::empty() =~= a); }
    assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert(Seq::<u8>::empty() + a =~= a); }
}
pub proof fn lemma_repl(s: Seq<u8>)
    ensures repl(pct(s, k_url()), 63, seq![37u8, 51, 70]) == pct(s, in_path()) decreases s.len()
{
    if s.len() > 0 {
        let p = pct(s.drop_last(), k_url()); let b = s.last(); lemma_repl(s.drop_last());
        let q = seq![37u8, 51, 70];
        if k_url()(b) { assert((p + seq![b]).drop_last() =~= p); assert(b == 63 ==> pct1(b) =~= q); }
        else {
            lemma_uphex(b as int / 16); lemma_uphex(b as int % 16);
            let x = uphex(b as int / 16); let y = uphex(b as int % 16);
            let p1 = p.push(37u8); let p2 = p1.push(x); let p3 = p2.push(y);
            assert(p + pct1(b) =~= p3); assert(p3.drop_last() =~= p2); assert(p2.drop_last() =~= p1); assert(p1.drop_last() =~= p);
            assert(x != 63 && y != 63);
            assert(repl(p1, 63, q) == repl(p, 63, q) + seq![37u8]); assert(repl(p2, 63, q) == repl(p1, 63, q) + seq![x]); assert(repl(p3, 63, q) == repl(p2, 63, q) + seq![y]);
            assert(repl(p3, 63, q) =~= repl(p, 63, q) + pct1(b));
        }
    }
}
impl Url {
//@fn src/url/url.rs | impl Url | get_authority
//@ret r
//@spec
        requires own_scheme(self.scheme)
        ensures r.bytes() == (if self.domain is None { Seq::empty() } else { self.v().host->0 + t_port(self.v()) })
//@at start
        proof { lemma_scheme_text(self.scheme); }
//@end
//@fn src/url/url.rs | impl Url | get_scheme
//@ret r
//@spec
        ensures r.bytes() == self.scheme.text()
//@end
//@fn src/url/url.rs | impl Url | get_connect_url
//@ret r
//@spec
        ensures match r { Some(t) => self.domain is Some && self.port is Some && t.bytes() == self.v().host->0 + seq![58u8] + decs(self.port->0 as nat), None => self.domain is None || self.port is None }
//@end
#[verifier::spinoff_prover]
//@fn src/url/url.rs | impl Display for Url | fmt
//@ret r
//@sub self\.(\w+)\.as_deref\(\)\.unwrap_or\( => deref_or(&self.\1,
//@sub (UrlCodec::\w+)\((self\.\w+\.as_ref\(\)\.unwrap\(\)|&self\.\w+)(,|\)) => \1(\2.as_str()\3
//@sub write_str\((&UrlCodec::.*?)\)\?; => write_str((\1).as_str())?;
//@spec
        requires own_scheme(self.scheme)
        ensures r is Ok ==> final(f).out() == old(f).out() + url_text(self.v())
//@at start
        hide(pct); hide(repl); hide(decs);
        let ghost o = f.out(); let ghost v = self.v();
        proof { lemma_scheme_text(self.scheme); lemma_repl(self.path.bytes()); lemma_cats(); assert(url_text(v) == t_scheme(v) + t_user(v) + t_host(v) + t_port(v) + t_path(v) + t_query(v)); }
//@end
//@fn src/url/url.rs | impl FromStr for Url | from_str
//@ret r
//@spec
        ensures match url_of(s.bytes()) { Some(u) => r is Ok && own_scheme(r->Ok_0.scheme) && r->Ok_0.v() == u, None => r is Err }
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
//@end
//@fn src/url/url.rs | impl TryFrom<&[u8]> for Url | try_from | as=try_from_slice
//@ret r
//@spec
        ensures match url_of(value@) { Some(u) => r is Ok && own_scheme(r->Ok_0.scheme) && r->Ok_0.v() == u, None => r is Err }
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
//@end
//@fn src/url/url.rs | impl TryFrom<&str> for Url | try_from | as=try_from_str
//@ret r
//@spec
        ensures match url_of(value.bytes()) { Some(u) => r is Ok && own_scheme(r->Ok_0.scheme) && r->Ok_0.v() == u, None => r is Err }
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
//@end
//@fn src/url/url.rs | impl TryFrom<String> for Url | try_from | as=try_from_string
//@ret r
//@spec
        ensures match url_of(value.bytes()) { Some(u) => r is Ok && own_scheme(r->Ok_0.scheme) && r->Ok_0.v() == u, None => r is Err }
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
//@end
}
pub proof fn lemma_scheme_text(s: Scheme)
    requires own_scheme(s)
    ensures !(s is None) ==> ((s is Http) == (s.text() == http_s())) && ((s is Https) == (s.text() == https_s()))
{
    if s is Ws { assert(s.text().len() == 2); } if s is Wss { assert(s.text().len() == 3); } if s is Ftp { assert(s.text().len() == 3); } if s is Https { assert(s.text().len() == 5); } if s is Http { assert(s.text().len() == 4); }
}
// ================= written out and read back =================
pub open spec fn opt_utf8(o: Option<Seq<u8>>) -> bool { o is Some ==> utf8(o->0) }
/// a URL that a text can spell
pub open spec fn wf(v: UrlV) -> bool {
    &&& v.path.len() > 0 && v.path[0] == 47 && utf8(v.path) && opt_utf8(v.user) && opt_utf8(v.pass) && opt_utf8(v.host) && opt_utf8(v.query) && v.port is Some
    &&& match v.scheme { None => v.user is None && v.pass is None && v.host is None && v.port->0 == 0,
        Some(s) => 0 < s.len() <= 64 && alpha(s[0]) && (forall|i: int| 0 <= i < s.len() ==> schar(#[trigger] s[i])) && v.host is Some && (v.user is Some <==> v.pass is Some) }
}
#[verifier::spinoff_prover] pub proof fn lemma_wf(t: Seq<u8>)
    requires url_of(t) is Some ensures wf(url_of(t)->0)
{
    let o = seq![47u8]; assert(is_ascii(o)); ascii_utf8(o);
    lemma_run(t, p_scheme()); let n = run(t, p_scheme()) as int; let d = t.skip(n).skip(3);
    if alpha(t[0]) {
        assert(p_scheme()(t[0])); let s = t.take(n);
        assert forall|i: int| 0 <= i < s.len() implies schar(#[trigger] s[i]) by { assert(p_scheme()(t[i])); }
        let i = run(d, p_auth()) as int; lemma_run(d, p_auth()); let w = d.skip(i); lemma_path(w);
    } else { lemma_path(t); }
}
pub proof fn lemma_path(t: Seq<u8>)
    ensures t.len() > 0 && t[0] == 47 ==> { let i = run(t, p_not(63)) as int; let p = if i >= t.len() { t } else { t.take(i) }; p.len() > 0 && p[0] == 47 && (unpct(p) is Some ==> unpct(p)->0.len() > 0 && unpct(p)->0[0] == 47) }
{ lemma_run(t, p_not(63)); }
pub proof fn lemma_run_to(a: Seq<u8>, b: Seq<u8>, p: spec_fn(u8) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> p(#[trigger] a[i]), b.len() == 0 || !p(b[0])
    ensures run(a + b, p) == a.len(), (a + b).take(a.len() as int) == a, (a + b).skip(a.len() as int) == b, b.len() > 0 ==> (a + b).skip(a.len() as int + 1) == b.skip(1)
{
    let c = a + b; assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] c[i]) by { assert(c[i] == a[i]); }
    if b.len() > 0 { assert(c[a.len() as int] == b[0]); assert(c.skip(a.len() as int + 1) =~= b.skip(1)); }
    lemma_run_is(c, p, a.len() as int); assert(c.take(a.len() as int) =~= a); assert(c.skip(a.len() as int) =~= b);
}
pub open spec fn hexup(b: u8) -> bool { digit(b) || 65 <= b <= 70 }
pub proof fn lemma_pct_chars(s: Seq<u8>, keep: spec_fn(u8) -> bool)
    ensures forall|i: int| 0 <= i < pct(s, keep).len() ==> keep(#[trigger] pct(s, keep)[i]) || pct(s, keep)[i] == 37 || hexup(pct(s, keep)[i]),
        s.len() > 0 && keep(s[0]) ==> pct(s, keep).len() > 0 && pct(s, keep)[0] == s[0]
    decreases s.len()
{
    if s.len() > 0 {
        let t = if keep(s.last()) { seq![s.last()] } else { pct1(s.last()) }; let p = pct(s.drop_last(), keep);
        lemma_pct_chars(s.drop_last(), keep); lemma_uphex(s.last() as int / 16); lemma_uphex(s.last() as int % 16);
        assert(pct(s, keep) == p + t);
        assert forall|i: int| 0 <= i < pct(s, keep).len() implies keep(#[trigger] pct(s, keep)[i]) || pct(s, keep)[i] == 37 || hexup(pct(s, keep)[i]) by {
            if i < p.len() { assert(pct(s, keep)[i] == p[i]); assert(keep(p[i]) || p[i] == 37 || hexup(p[i])); } else { assert(pct(s, keep)[i] == t[i - p.len()]); }
        }
        if keep(s[0]) { if s.len() > 1 { assert(s.drop_last()[0] == s[0]); assert((p + t)[0] == p[0]); } else { assert(p =~= Seq::empty()); assert((p + t)[0] == s[0]); } }
    }
}
pub proof fn lemma_decs(n: nat)
    ensures alldig(decs(n)), decs(n).len() > 0, dec(decs(n)) == n decreases n
{
    if n < 10 { let s = decs(n); assert(s.drop_last() =~= Seq::empty()); assert(dec(s.drop_last()) == 0); }
    else { lemma_decs(n / 10); let a = decs(n / 10); let s = decs(n); assert(s.drop_last() =~= a); assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i]) by { if i < a.len() { assert(digit(a[i])); } } }
}
pub proof fn lemma_unpct_none(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 37 ensures unpct(s) == Some(s) decreases s.len()
{
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] != 37 by { assert(s[i + 1] != 37); } lemma_unpct_none(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(s =~= Seq::empty()); }
}
pub open spec fn enc(o: Option<Seq<u8>>, keep: spec_fn(u8) -> bool) -> Option<Seq<u8>> { match o { Some(x) => Some(pct(x, keep)), None => None } }
pub open spec fn enc_port(v: UrlV) -> Option<Seq<u8>> { if t_port(v).len() == 0 { None } else { Some(decs(v.port->0 as nat)) } }
pub proof fn lemma_pair_text(v: UrlV)
    requires v.host is Some
    ensures pair(t_host(v) + t_port(v)) == Some((t_host(v), enc_port(v))), forall|i: int| 0 <= i < (t_host(v) + t_port(v)).len() ==> { let c = #[trigger] (t_host(v) + t_port(v))[i]; vchar(c) && c != 64 && c != 47 && c != 63 }
{
    let h = t_host(v); let q = t_port(v); let d = decs(v.port->0 as nat); let res = seq![58u8, 47, 63, 64];
    assert(res[0] == 58 && res[1] == 47 && res[2] == 63 && res[3] == 64);
    lemma_pct_chars(v.host->0, in_host()); if v.port is Some { lemma_decs(v.port->0 as nat); }
    assert forall|i: int| 0 <= i < h.len() implies vchar(#[trigger] h[i]) && plain(h[i]) by { assert(in_host()(h[i]) || h[i] == 37 || hexup(h[i])); if in_host()(h[i]) { assert(!res.contains(h[i])); } }
    if q.len() > 0 { assert(q =~= seq![58u8] + d); assert(q[0] == 58); assert(q.skip(1) =~= d); }
    assert forall|i: int| 0 <= i < h.len() implies p_not(58)(#[trigger] h[i]) by { assert(plain(h[i])); }
    lemma_run_to(h, q, p_not(58));
    let c = h + q;
    assert forall|i: int| 0 <= i < c.len() implies { let x = #[trigger] c[i]; vchar(x) && x != 64 && x != 47 && x != 63 } by { if i < h.len() { assert(c[i] == h[i]); } else { assert(c[i] == q[i - h.len()]); if i > h.len() { assert(c[i] == d[i - h.len() - 1]); assert(digit(d[i - h.len() - 1])); } } }
    if q.len() > 0 { assert(!d.contains(58u8)) by { if d.contains(58u8) { let j = choose|j: int| 0 <= j < d.len() && d[j] == 58u8; assert(digit(d[j])); } } }
    else { assert(c =~= h); }
}
pub open spec fn raw_auth(v: UrlV) -> Raw { Raw { user: enc(v.user, in_user()), pass: enc(v.pass, in_user()), host: Some(t_host(v)), port: enc_port(v), path: None, query: None } }
#[verifier::spinoff_prover] pub proof fn lemma_auth_text(v: UrlV)
    requires v.host is Some, v.user is Some <==> v.pass is Some
    ensures authority(t_user(v) + (t_host(v) + t_port(v))) == Some(raw_auth(v)), forall|i: int| 0 <= i < (t_user(v) + (t_host(v) + t_port(v))).len() ==> { let c = #[trigger] (t_user(v) + (t_host(v) + t_port(v)))[i]; vchar(c) && c != 47 && c != 63 }
{
    let r = t_host(v) + t_port(v); lemma_pair_text(v); let u = t_user(v); let s = u + r;
    assert(!r.contains(64u8)) by { if r.contains(64u8) { let j = choose|j: int| 0 <= j < r.len() && r[j] == 64u8; assert(vchar(r[j]) && r[j] != 64); } }
    if v.user is None {
        assert(s =~= r); assert forall|i: int| 0 <= i < r.len() implies p_not(64)(#[trigger] r[i]) by { assert(r[i] != 64); } lemma_run_is(r, p_not(64), r.len() as int);
    } else {
        let a = pct(v.user->0, in_user()); let b = pct(v.pass->0, in_user()); let ab = a + (seq![58u8] + b); let at = seq![64u8] + r; let res = seq![58u8, 47, 63, 64, 38];
        assert(res[0] == 58 && res[1] == 47 && res[2] == 63 && res[3] == 64);
        lemma_pct_chars(v.user->0, in_user()); lemma_pct_chars(v.pass->0, in_user());
        assert forall|i: int| 0 <= i < a.len() implies vchar(#[trigger] a[i]) && plain(a[i]) by { assert(in_user()(a[i]) || a[i] == 37 || hexup(a[i])); if in_user()(a[i]) { assert(!res.contains(a[i])); } }
        assert forall|i: int| 0 <= i < b.len() implies vchar(#[trigger] b[i]) && plain(b[i]) by { assert(in_user()(b[i]) || b[i] == 37 || hexup(b[i])); if in_user()(b[i]) { assert(!res.contains(b[i])); } }
        assert(u =~= ab + seq![64u8]); assert(s =~= ab + at);
        assert forall|i: int| 0 <= i < ab.len() implies vchar(#[trigger] ab[i]) && ab[i] != 64 && ab[i] != 47 && ab[i] != 63 by { if i < a.len() { assert(ab[i] == a[i]); } else if i > a.len() { assert(ab[i] == b[i - a.len() - 1]); } }
        assert forall|i: int| 0 <= i < ab.len() implies p_not(64)(#[trigger] ab[i]) by { assert(ab[i] != 64); }
        lemma_run_to(ab, at, p_not(64)); assert(at.skip(1) =~= r);
        assert forall|i: int| 0 <= i < a.len() implies p_not(58)(#[trigger] a[i]) by { assert(plain(a[i])); }
        let cb = seq![58u8] + b; lemma_run_to(a, cb, p_not(58)); assert(cb.skip(1) =~= b);
        assert(!b.contains(58u8)) by { if b.contains(58u8) { let j = choose|j: int| 0 <= j < b.len() && b[j] == 58u8; assert(plain(b[j])); } }
        assert(pair(ab) == Some((a, Some(b))));
        assert forall|i: int| 0 <= i < s.len() implies { let c = #[trigger] s[i]; vchar(c) && c != 47 && c != 63 } by { if i < ab.len() { assert(s[i] == ab[i]); } else { assert(s[i] == at[i - ab.len()]); if i > ab.len() { assert(s[i] == r[i - ab.len() - 1]); } } }
    }
}
pub proof fn lemma_pq_text(v: UrlV, r: Raw)
    requires wf(v), r.query is None
    ensures path_query(r, t_path(v) + t_query(v)) == (Raw { path: Some(t_path(v)), query: enc(v.query, k_url()), ..r }), t_path(v).len() > 0, t_path(v)[0] == 47, visible(t_path(v) + t_query(v))
{
    let p = t_path(v); let q = t_query(v); let s = p + q;
    lemma_pct_chars(v.path, in_path()); if v.query is Some { lemma_pct_chars(v.query->0, k_url()); }
    assert(in_path()(47u8));
    assert forall|i: int| 0 <= i < p.len() implies vchar(#[trigger] p[i]) && p[i] != 63 by { assert(in_path()(p[i]) || p[i] == 37 || hexup(p[i])); }
    assert forall|i: int| 0 <= i < p.len() implies p_not(63)(#[trigger] p[i]) by { assert(p[i] != 63); }
    lemma_run_to(p, q, p_not(63));
    if v.query is Some { let e = pct(v.query->0, k_url()); assert(q.skip(1) =~= e); assert forall|i: int| 0 <= i < q.len() implies vchar(#[trigger] q[i]) by { if i > 0 { assert(q[i] == e[i - 1]); assert(k_url()(e[i - 1]) || e[i - 1] == 37 || hexup(e[i - 1])); } } } else { assert(s =~= p); }
    lemma_vis_cat(p, q);
}
pub proof fn lemma_dec_enc(o: Option<Seq<u8>>, keep: spec_fn(u8) -> bool)
    requires opt_utf8(o), !keep(37) ensures dec_ok(enc(o, keep)), dec_of(enc(o, keep)) == o
{ if o is Some { lemma_unpct_pct(o->0, keep); } }
pub open spec fn raw_text(v: UrlV) -> Raw { let r = if v.scheme is Some { raw_auth(v) } else { Raw { user: None, pass: None, host: None, port: None, path: None, query: None } }; Raw { path: Some(t_path(v)), query: enc(v.query, k_url()), ..r } }
pub proof fn lemma_port_dec(p: u16)
    ensures decoded(decs(p as nat)) == Some(decs(p as nat)), nat_of(decs(p as nat)) == Some(p as int)
{
    let d = decs(p as nat); lemma_decs(p as nat);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != 37 by { assert(digit(d[i])); } lemma_unpct_none(d);
    assert(is_ascii(d)) by { assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < 128 by { assert(digit(d[i])); } } ascii_utf8(d);
}
#[verifier::spinoff_prover] pub proof fn lemma_decode_text(v: UrlV)
    requires wf(v) ensures decode_raw(v.scheme, raw_text(v)) == Some(v)
{
    hide(unpct); hide(pct); hide(decs); hide(nat_of); hide(scheme_of); hide(decoded); hide(k_esc);
    let f = raw_text(v);
    assert(!in_user()(37) && !in_host()(37)) by { reveal(k_esc); }
    lemma_dec_enc(v.user, in_user()); lemma_dec_enc(v.pass, in_user()); lemma_dec_enc(v.host, in_host()); lemma_dec_enc(v.query, k_url()); lemma_dec_enc(Some(v.path), in_path());
    assert(f.path == enc(Some(v.path), in_path())); lemma_port_dec(v.port->0); lemma_defaults();
    if v.scheme is Some { assert(f.user == enc(v.user, in_user())); assert(f.pass == enc(v.pass, in_user())); assert(f.host == enc(v.host, in_host())); }
    assert(dec_of(f.user) == v.user); assert(dec_of(f.pass) == v.pass); assert(dec_of(f.host) == v.host); assert(dec_of(f.query) == v.query); assert(dec_of(f.path) == Some(v.path));
    if f.port is Some { assert(port_of(f.port) == Some(v.port->0 as int)); }
    else if v.scheme is Some { assert((v.scheme->0 == http_s() && v.port->0 == 80) || (v.scheme->0 == https_s() && v.port->0 == 443)) by { assert(t_port(v).len() == 0); if !((v.scheme->0 == http_s() && v.port->0 == 80) || (v.scheme->0 == https_s() && v.port->0 == 443)) { assert(t_port(v) == seq![58u8] + decs(v.port->0 as nat)); assert(t_port(v).len() > 0); } } }
    assert(decode_raw(v.scheme, f)->0 == v);
}
#[verifier::spinoff_prover] pub proof fn lemma_hier_text(v: UrlV)
    requires wf(v), v.scheme is Some
    ensures ({ let rest = t_user(v) + (t_host(v) + t_port(v)) + (t_path(v) + t_query(v)); visible(rest) && hier(rest) == Some(raw_text(v)) })
{
    hide(authority); hide(pct); hide(path_query); hide(visible); hide(t_user); hide(t_host); hide(t_port); hide(t_path); hide(t_query); hide(run);
    let pq = t_path(v) + t_query(v); let a = t_user(v) + (t_host(v) + t_port(v)); let rest = a + pq;
    lemma_auth_text(v); lemma_pq_text(v, raw_auth(v));
    assert forall|i: int| 0 <= i < a.len() implies p_auth()(#[trigger] a[i]) by { assert(vchar(a[i]) && a[i] != 47 && a[i] != 63); }
    assert(pq[0] == t_path(v)[0]); lemma_run_to(a, pq, p_auth());
    assert(visible(a)) by { reveal(visible); assert forall|i: int| 0 <= i < a.len() implies vchar(#[trigger] a[i]) by { assert(vchar(a[i]) && a[i] != 47); } } lemma_vis_cat(a, pq);
}
/// U02: a URL written out spells itself
#[verifier::spinoff_prover] pub proof fn thm_url_roundtrip(v: UrlV)
    requires wf(v) ensures url_of(url_text(v)) == Some(v)
{
    hide(hier); hide(pct); hide(path_query); hide(visible); hide(t_user); hide(t_host); hide(t_port); hide(t_path); hide(t_query); hide(run); hide(decode_raw); hide(raw_auth); hide(enc);
    let t = url_text(v); let pq = t_path(v) + t_query(v); let none = Raw { user: None, pass: None, host: None, port: None, path: None, query: None };
    lemma_decode_text(v);
    if v.scheme is None {
        lemma_pq_text(v, none); lemma_cats();
        assert(v.user is None && v.pass is None); assert(t_user(v) == Seq::<u8>::empty()) by { reveal(t_user); } assert(t_host(v) == Seq::<u8>::empty()) by { reveal(t_host); } assert(t_port(v) == Seq::<u8>::empty()) by { reveal(t_port); }
        assert(t =~= pq); assert(pq[0] == t_path(v)[0]); assert(path_query(none, pq) == raw_text(v));
    } else {
        let s = v.scheme->0; let sep = seq![58u8, 47, 47]; let rest = t_user(v) + (t_host(v) + t_port(v)) + pq;
        lemma_hier_text(v);
        let tail = sep + rest; assert(t =~= s + tail);
        assert forall|i: int| 0 <= i < s.len() implies p_scheme()(#[trigger] s[i]) by { assert(schar(s[i])); }
        assert(tail[0] == 58 && tail[1] == 47 && tail[2] == 47);
        lemma_run_to(s, tail, p_scheme()); assert(t[0] == s[0]); assert(tail.skip(3) =~= rest);
    }
}
/// what a text spells, written out and read again
#[verifier::spinoff_prover] pub proof fn thm_url_reparse(t: Seq<u8>)
    requires url_of(t) is Some ensures url_of(url_text(url_of(t)->0)) == url_of(t)
{ lemma_wf(t); thm_url_roundtrip(url_of(t)->0); }
pub proof fn lemma_defaults() ensures scheme_of(http_s()) == Some(Scheme::Http), scheme_of(https_s()) == Some(Scheme::Https), default_port(Some(http_s())) == 80, default_port(Some(https_s())) == 443
{ let t = https_s(); assert(t.len() == 5); assert(t != seq![104u8, 116, 116, 112]); }
}
fn main() {}

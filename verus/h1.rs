//@import hmap.rs
//@import codes.rs
//@include htok.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub &'a\s+str\b => &'a Str
//@globsub &\s*str\b => &Str
//@globsub \bString\b => Text
//@globsub \bfunc\s*:\s*fn\s*\(\s*u8\s*\)\s*->\s*bool => func: impl Fn(u8) -> bool
//@globsub \bstd\s*::\s*str\s*::\s*from_utf8_unchecked\b => from_utf8_unchecked
//@globsub \bunsafe\s*\{ => {
//@globsub \bcrate\s*::\s*(WebError|HttpError)\b => \1
verus! {
// ---- what a reader of octets gives: a value and how many octets it took, or too few octets, or a refusal ----
pub enum Rd<T> { Done(T, nat), Part, Bad }
impl<T> Rd<T> {
    pub open spec fn shift(self, k: nat) -> Rd<T> { match self { Rd::Done(v, n) => Rd::Done(v, n + k), x => x } }
}
/// r and the octets left after reading s, as the reader says
pub open spec fn gives<T>(r: WebResult<T>, left: Seq<u8>, s: Seq<u8>, d: Rd<T>) -> bool {
    match d {
        Rd::Done(v, n) => r == Ok::<T, WebError>(v) && n <= s.len() && left == s.skip(n as int),
        Rd::Part => r is Err && partial(r->Err_0),
        Rd::Bad => r is Err && !partial(r->Err_0),
    }
}
pub open spec fn gives_s(r: WebResult<&Str>, left: Seq<u8>, s: Seq<u8>, d: Rd<Seq<u8>>) -> bool {
    match d {
        Rd::Done(v, n) => r is Ok && r->Ok_0.bytes() == v && n <= s.len() && left == s.skip(n as int),
        Rd::Part => r is Err && partial(r->Err_0),
        Rd::Bad => r is Err && !partial(r->Err_0),
    }
}
// ---- the readers ----
pub open spec fn run(s: Seq<u8>, p: spec_fn(u8) -> bool) -> nat decreases s.len() { if s.len() == 0 || !p(s[0]) { 0 } else { 1 + run(s.skip(1), p) } }
/// a token ends where the first other octet is seen
pub open spec fn tok(s: Seq<u8>, p: spec_fn(u8) -> bool, empty: bool) -> Rd<Seq<u8>> {
    let n = run(s, p);
    if n >= s.len() { Rd::Part } else if n == 0 && !empty { Rd::Bad } else { Rd::Done(s.take(n as int), n) }
}
pub open spec fn spaces(s: Seq<u8>) -> Rd<()> { let n = run(s, |b: u8| b == 32); if n >= s.len() { Rd::Part } else { Rd::Done((), n) } }
pub open spec fn nl(s: Seq<u8>) -> Rd<()> {
    if s.len() == 0 { Rd::Part } else if s[0] == 10 { Rd::Done((), 1) } else if s[0] != 13 { Rd::Bad }
    else if s.len() < 2 { Rd::Part } else if s[1] == 10 { Rd::Done((), 2) } else { Rd::Bad }
}
pub open spec fn empties(s: Seq<u8>) -> Rd<()> decreases s.len() {
    if s.len() == 0 { Rd::Part }
    else if s[0] == 10 { empties(s.skip(1)).shift(1) }
    else if s[0] != 13 { Rd::Done((), 0) }
    else if s.len() < 2 { Rd::Part } else if s[1] == 10 { empties(s.skip(2)).shift(2) } else { Rd::Bad }
}
// RFC 7230, 3.2.6: tchar
pub open spec fn tchar(b: u8) -> bool { digit(b) || 65 <= b <= 90 || 97 <= b <= 122 || b == 33 || 35 <= b <= 39 || b == 42 || b == 43 || b == 45 || b == 46 || b == 94 || b == 95 || b == 96 || b == 124 || b == 126 }
pub open spec fn hval(b: u8) -> bool { b != 10 && b != 13 }
pub open spec fn rchar(b: u8) -> bool { 32 <= b <= 126 }
pub open spec fn hexdig(b: u8) -> bool { digit(b) || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn p_name() -> spec_fn(u8) -> bool { |b: u8| tchar(b) }
pub open spec fn p_val() -> spec_fn(u8) -> bool { |b: u8| hval(b) }
pub open spec fn p_tok() -> spec_fn(u8) -> bool { |b: u8| vchar(b) }
pub open spec fn p_reason() -> spec_fn(u8) -> bool { |b: u8| rchar(b) }
pub open spec fn p_hex() -> spec_fn(u8) -> bool { |b: u8| hexdig(b) }
/// a field line: name, spaces, colon, spaces, value, newline
pub open spec fn fld(s: Seq<u8>) -> Rd<Ent> {
    match tok(s, p_name(), false) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(n, k1) => { let s1 = s.skip(k1 as int);
    match spaces(s1) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k2) => { let s2 = s1.skip(k2 as int);
    if s2.len() == 0 { Rd::Part } else if s2[0] != 58 { Rd::Bad } else { let s3 = s2.skip(1);
    match spaces(s3) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k4) => { let s4 = s3.skip(k4 as int);
    match tok(s4, p_val(), true) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(v, k5) => { let s5 = s4.skip(k5 as int);
    match nl(s5) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k6) => Rd::Done((n, v), k1 + k2 + 1 + k4 + k5 + k6) } } } } } } } } }
    }
}
/// field lines up to the empty line, collected in m
pub open spec fn fields(s: Seq<u8>, m: Seq<Ent>) -> Rd<Seq<Ent>> decreases s.len() {
    if s.len() == 0 { Rd::Part }
    else if s[0] == 13 || s[0] == 10 { match nl(s) { Rd::Done(_, k) => Rd::Done(m, k), Rd::Part => Rd::Part, Rd::Bad => Rd::Bad } }
    else { match fld(s) { Rd::Done(e, n) => if 0 < n <= s.len() { fields(s.skip(n as int), m_insert(m, e.0, e.1)).shift(n) } else { Rd::Bad }, Rd::Part => Rd::Part, Rd::Bad => Rd::Bad } }
}
pub open spec fn lift<T>(v: Option<T>, n: nat) -> Rd<T> { match v { Some(x) => Rd::Done(x, n), None => Rd::Bad } }
pub open spec fn rd_method(s: Seq<u8>) -> Rd<Method> { match tok(s, p_tok(), false) { Rd::Done(t, n) => lift(method_of(t), n), Rd::Part => Rd::Part, Rd::Bad => Rd::Bad } }
pub open spec fn rd_version(s: Seq<u8>) -> Rd<Version> { match tok(s, p_tok(), false) { Rd::Done(t, n) => lift(version_of(t), n), Rd::Part => Rd::Part, Rd::Bad => Rd::Bad } }
pub open spec fn rd_status(s: Seq<u8>) -> Rd<int> { match tok(s, p_tok(), false) { Rd::Done(t, n) => lift(from_text(t), n), Rd::Part => Rd::Part, Rd::Bad => Rd::Bad } }
pub struct Head { pub m: Method, pub t: Seq<u8>, pub v: Version, pub h: Seq<Ent> }
/// empty lines, method, spaces, target, spaces, version, newline, fields
pub open spec fn req_head(s: Seq<u8>) -> Rd<Head> {
    match empties(s) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k0) => { let s1 = s.skip(k0 as int);
    match rd_method(s1) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(m, k1) => { let s2 = s1.skip(k1 as int);
    match spaces(s2) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k2) => { let s3 = s2.skip(k2 as int);
    match tok(s3, p_tok(), false) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(t, k3) => { let s4 = s3.skip(k3 as int);
    match spaces(s4) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k4) => { let s5 = s4.skip(k4 as int);
    match rd_version(s5) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(v, k5) => { let s6 = s5.skip(k5 as int);
    match nl(s6) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k6) => { let s7 = s6.skip(k6 as int);
    match fields(s7, Seq::empty()) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(h, k) => Rd::Done(Head { m, t, v, h }, k0 + k1 + k2 + k3 + k4 + k5 + k6 + k) } } } } } } } } } } } } } } }
}
pub struct RHead { pub v: Version, pub c: int, pub r: Seq<u8>, pub h: Seq<Ent> }
/// empty lines, version, spaces, status, spaces, reason (may be empty), newline, fields
pub open spec fn res_head(s: Seq<u8>) -> Rd<RHead> {
    match empties(s) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k0) => { let s1 = s.skip(k0 as int);
    match rd_version(s1) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(v, k1) => { let s2 = s1.skip(k1 as int);
    match spaces(s2) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k2) => { let s3 = s2.skip(k2 as int);
    match rd_status(s3) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(c, k3) => { let s4 = s3.skip(k3 as int);
    match spaces(s4) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k4) => { let s5 = s4.skip(k4 as int);
    match tok(s5, p_reason(), true) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(r, k5) => { let s6 = s5.skip(k5 as int);
    match nl(s6) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k6) => { let s7 = s6.skip(k6 as int);
    match fields(s7, Seq::empty()) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(h, k) => Rd::Done(RHead { v, c, r, h }, k0 + k1 + k2 + k3 + k4 + k5 + k6 + k) } } } } } } } } } } } } } } }
}
pub open spec fn cont(s: Seq<u8>, m: Seq<Ent>) -> Rd<Seq<Ent>> {
    match tok(s, p_name(), false) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(n, k1) => { let s1 = s.skip(k1 as int);
    match spaces(s1) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k2) => { let s2 = s1.skip(k2 as int);
    if s2.len() == 0 { Rd::Part } else if s2[0] != 58 { Rd::Bad } else { let s3 = s2.skip(1);
    match spaces(s3) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k4) => { let s4 = s3.skip(k4 as int);
    match tok(s4, p_val(), true) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(v, k5) => { let s5 = s4.skip(k5 as int);
    match nl(s5) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k6) => fields(s5.skip(k6 as int), m_insert(m, n, v)).shift(k1 + k2 + 1 + k4 + k5 + k6) } } } } } } } } }
    }
}
pub proof fn lemma_tok(s: Seq<u8>, p: spec_fn(u8) -> bool, e: bool)
    ensures match tok(s, p, e) { Rd::Done(v, n) => n < s.len() && (e || n > 0) && v == s.take(n as int) && v.len() == n && !p(s[n as int]) && (forall|i: int| 0 <= i < n ==> p(#[trigger] v[i])), _ => true }
{ lemma_run(s, p); }
pub proof fn lemma_spaces(s: Seq<u8>)
    ensures match spaces(s) { Rd::Done(_, n) => n < s.len() && s[n as int] != 32 && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == 32), _ => true }
{ lemma_run(s, |b: u8| b == 32); }
pub proof fn lemma_fields_step(s: Seq<u8>, m: Seq<Ent>)
    ensures s.len() == 0 ==> fields(s, m) is Part,
        s.len() > 0 && s[0] == 10 ==> fields(s, m) == Rd::Done(m, 1),
        s.len() == 1 && s[0] == 13 ==> fields(s, m) is Part,
        s.len() > 1 && s[0] == 13 ==> fields(s, m) == (if s.skip(1)[0] == 10 { Rd::Done(m, 2) } else { Rd::Bad }) && s.skip(1).skip(1) == s.skip(2),
        s.len() > 0 && s[0] != 10 && s[0] != 13 ==> fields(s, m) == cont(s, m),
{
    hide(tok); hide(spaces); hide(run); hide(m_insert);
    if s.len() > 1 { assert(s.skip(1)[0] == s[1]); assert(s.skip(1).skip(1) =~= s.skip(2)); }
    if s.len() > 0 && s[0] != 10 && s[0] != 13 { lemma_fld(s); }
}
/// a field line read is at least the two octets of its name and colon, and at most s
pub proof fn lemma_fld(s: Seq<u8>)
    ensures match fld(s) { Rd::Done(e, n) => {
        let k1 = tok(s, p_name(), false)->Done_1; let s1 = s.skip(k1 as int);
        let k2 = spaces(s1)->Done_1; let s2 = s1.skip(k2 as int); let s3 = s2.skip(1);
        let k4 = spaces(s3)->Done_1; let s4 = s3.skip(k4 as int);
        let k5 = tok(s4, p_val(), true)->Done_1; let s5 = s4.skip(k5 as int);
        let k6 = nl(s5)->Done_1;
        0 < k1 <= s.len() && k2 <= s1.len() && 1 <= s2.len() && k4 <= s3.len() && k5 <= s4.len() && 0 < k6 <= s5.len()
        && n == k1 + k2 + 1 + k4 + k5 + k6 && n <= s.len() && s5.skip(k6 as int) == s.skip(n as int) }, _ => true }
{
    hide(run); hide(tok); hide(spaces);
    if fld(s) is Done {
        let k1 = tok(s, p_name(), false)->Done_1; let s1 = s.skip(k1 as int); lemma_tok(s, p_name(), false);
        let k2 = spaces(s1)->Done_1; let s2 = s1.skip(k2 as int); let s3 = s2.skip(1); lemma_spaces(s1);
        let k4 = spaces(s3)->Done_1; let s4 = s3.skip(k4 as int); lemma_spaces(s3);
        let k5 = tok(s4, p_val(), true)->Done_1; let s5 = s4.skip(k5 as int); lemma_tok(s4, p_val(), true);
        let k6 = nl(s5)->Done_1;
        assert(s5.skip(k6 as int) =~= s.skip((k1 + k2 + 1 + k4 + k5 + k6) as int));
    }
}
// ---- algorithm::buf::BinaryRef (external crate): a source over a slice ----
#[verifier::external_body]
pub struct BinaryRef<'a> { p: &'a [u8] }
impl<'a> BinaryRef<'a> {
    #[verifier::external_body]
    pub fn from(s: &'a [u8]) -> (r: BinaryRef<'a>) ensures r.rem() == s@, s@.len() <= isize::MAX { unimplemented!() }
}
impl<'a> Bt for BinaryRef<'a> {
    uninterp spec fn rem(&self) -> Seq<u8>;
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn peek(&self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn get_next(&mut self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn advance_chunk(&mut self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn get_u64(&mut self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn try_get_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u16(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u64(&mut self) -> (r: Result<u64, IoError>) { unimplemented!() }
    #[verifier::external_body] fn copy_to_slice(&mut self, dst: &mut [u8]) -> (n: usize) { unimplemented!() }
}
/// unchecked: the octets of s, whatever they are
#[verifier::external_body]
pub fn from_utf8_unchecked(s: &[u8]) -> (r: &Str) ensures r.bytes() == s@ { unimplemented!() }
// ---- lemmas on runs ----
pub proof fn lemma_run(s: Seq<u8>, p: spec_fn(u8) -> bool)
    ensures run(s, p) <= s.len(), forall|j: int| 0 <= j < run(s, p) ==> p(#[trigger] s[j]), run(s, p) < s.len() ==> !p(s[run(s, p) as int]),
    decreases s.len()
{ if s.len() > 0 && p(s[0]) { lemma_run(s.skip(1), p); assert forall|j: int| 0 <= j < run(s, p) implies p(#[trigger] s[j]) by { if j > 0 { assert(s[j] == s.skip(1)[j - 1]); } } } }
pub proof fn lemma_run_is(s: Seq<u8>, p: spec_fn(u8) -> bool, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> p(#[trigger] s[j]), n < s.len() ==> !p(s[n]),
    ensures run(s, p) == n
{ lemma_run(s, p); let k = run(s, p) as int; if k < n { assert(p(s[k])); } if n < k { assert(p(s[n])); } }
/// f decides p
pub open spec fn decides(f: impl Fn(u8) -> bool, p: spec_fn(u8) -> bool) -> bool { forall|b: u8, r: bool| #[trigger] f.ensures((b,), r) ==> r == p(b) }
pub proof fn lemma_run_of<F: Fn(u8) -> bool>(f: F, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> f.ensures((#[trigger] s[j],), true), n < s.len() ==> f.ensures((s[n],), false),
    ensures forall|p: spec_fn(u8) -> bool| decides(f, p) ==> #[trigger] run(s, p) == n
{ assert forall|p: spec_fn(u8) -> bool| decides(f, p) implies #[trigger] run(s, p) == n by { assert forall|j: int| 0 <= j < n implies p(#[trigger] s[j]) by { assert(f.ensures((s[j],), true)); } lemma_run_is(s, p, n); } }
impl Helper {
//@bytemap src/helper.rs | HEADER_NAME_MAP
//@bytemap src/helper.rs | HEADER_VALUE_MAP
//@fn src/helper.rs | impl Helper | is_status_token
//@ret r
//@spec
        ensures r == rchar(b)
//@end
//@fn src/helper.rs | impl Helper | is_alpha
//@ret r
//@spec
        ensures r == (65 <= b <= 90 || 97 <= b <= 122)
//@end
//@fn src/helper.rs | impl Helper | is_hex
//@ret r
//@spec
        ensures r == hexdig(b)
//@end
//@fn src/helper.rs | impl Helper | is_header_name_token
//@ret r
//@spec
        ensures r == tchar(b)
//@end
//@fn src/helper.rs | impl Helper | is_header_value_token
//@ret r
//@spec
        ensures r == hval(b)
//@end
//@fn src/helper.rs | impl Helper | parse_token_by_func_empty
//@ret r
//@sub let mut postion = 0 => let mut postion: usize = 0
//@spec
        requires forall|b: u8| func.requires((b,)), !partial(err),
        ensures forall|p: spec_fn(u8) -> bool| #![trigger tok(old(buffer).rem(), p, empty)] decides(func, p) ==> gives_s(r, final(buffer).rem(), old(buffer).rem(), tok(old(buffer).rem(), p, empty)),
//@at start
        let ghost s = buffer.rem();
        proof { assert(s.take(0) =~= Seq::empty()); }
//@loop 0
            invariant forall|b: u8| func.requires((b,)), s.len() <= isize::MAX, postion <= s.len(), cur.rem() == s.skip(postion as int), s == buffer.rem(),
                forall|j: int| 0 <= j < postion ==> func.ensures((#[trigger] s[j],), true),
            ensures postion < s.len(), func.ensures((s[postion as int],), false),
            decreases s.len() - postion
//@at start 0
                proof { if postion == s.len() { lemma_run_of(func, s, postion as int); } }
//@at after 0
            proof { lemma_run_of(func, s, postion as int); }
//@end
//@fn src/helper.rs | impl Helper | parse_token_by_func
//@ret r
//@spec
        requires forall|b: u8| func.requires((b,)), !partial(err),
        ensures forall|p: spec_fn(u8) -> bool| #![trigger tok(old(buffer).rem(), p, false)] decides(func, p) ==> gives_s(r, final(buffer).rem(), old(buffer).rem(), tok(old(buffer).rem(), p, false)),
//@end
//@fn src/helper.rs | impl Helper | parse_hex
//@ret r
//@spec
        ensures gives_s(r, final(buffer).rem(), old(buffer).rem(), tok(old(buffer).rem(), p_hex(), false))
//@at start
        proof { let d = tok(buffer.rem(), p_hex(), false); }
//@end
//@fn src/helper.rs | impl Helper | parse_token
//@ret r
//@spec
        ensures gives_s(r, final(buffer).rem(), old(buffer).rem(), tok(old(buffer).rem(), p_tok(), false))
//@at start
        proof { let d = tok(buffer.rem(), p_tok(), false); }
//@end
//@fn src/helper.rs | impl Helper | parse_status_token
//@ret r
//@spec
        ensures gives_s(r, final(buffer).rem(), old(buffer).rem(), tok(old(buffer).rem(), p_reason(), true))
//@at start
        proof { let d = tok(buffer.rem(), p_reason(), true); }
//@end
//@fn src/helper.rs | impl Helper | parse_header_name
//@ret r
//@sub \bHttpError\s*::\s*from\(\s*(HttpError\s*::\s*\w+)\s*\) => \1
//@spec
        ensures match tok(old(buffer).rem(), p_name(), false) { Rd::Done(v, n) => r is Ok && r->Ok_0.bytes() == v && n <= old(buffer).rem().len() && final(buffer).rem() == old(buffer).rem().skip(n as int), Rd::Part => r is Err && partial(r->Err_0), Rd::Bad => r is Err && !partial(r->Err_0) }
//@at start
        proof { let s = buffer.rem(); lemma_run(s, p_name()); let t = s.take(run(s, p_name()) as int); if tok(s, p_name(), false) is Done { assert(is_ascii(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 128 by { assert(p_name()(s[i])); } } ascii_utf8(t); } }
//@end
//@fn src/helper.rs | impl Helper | parse_header_value
//@ret r
//@spec
        ensures match tok(old(buffer).rem(), p_val(), true) { Rd::Done(v, n) => r is Ok && r->Ok_0.bytes() == v && n <= old(buffer).rem().len() && final(buffer).rem() == old(buffer).rem().skip(n as int), Rd::Part => r is Err && partial(r->Err_0), Rd::Bad => r is Err && !partial(r->Err_0) }
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
        proof { let d = tok(buffer.rem(), p_val(), true); }
//@end
//@fn src/helper.rs | impl Helper | parse_method
//@ret r
//@sub \bTryFrom\s*::\s*try_from\( => Method::try_from(
//@spec
        ensures gives(r, final(buffer).rem(), old(buffer).rem(), rd_method(old(buffer).rem()))
//@end
//@fn src/helper.rs | impl Helper | parse_status
//@ret r
//@sub \bStatusCode\s*::\s*try_from\( => StatusCode::try_from_str(
//@spec
        ensures match rd_status(old(buffer).rem()) { Rd::Done(v, n) => r is Ok && r->Ok_0.wf() && r->Ok_0.code() == v && n <= old(buffer).rem().len() && final(buffer).rem() == old(buffer).rem().skip(n as int), Rd::Part => r is Err && partial(r->Err_0), Rd::Bad => r is Err && !partial(r->Err_0) }
//@end
//@fn src/helper.rs | impl Helper | parse_version
//@ret r
//@strmatch
//@spec
        ensures gives(r, final(buffer).rem(), old(buffer).rem(), rd_version(old(buffer).rem()))
//@end
//@fn src/helper.rs | impl Helper | skip_new_line
//@ret r
//@spec
        ensures gives(r, final(buffer).rem(), old(buffer).rem(), nl(old(buffer).rem()))
//@at start
        broadcast use skip_skip;
        proof { let s = buffer.rem(); if s.len() > 1 { assert(s.skip(1)[0] == s[1]); } }
//@end
//@fn src/helper.rs | impl Helper | skip_empty_lines
//@ret r
//@spec
        ensures gives(r, final(buffer).rem(), old(buffer).rem(), empties(old(buffer).rem()))
//@at start
        let ghost s = buffer.rem(); let ghost mut k: nat = 0;
        proof { assert(s.skip(0) =~= s); }
//@loop 0
            invariant k <= s.len(), buffer.rem() == s.skip(k as int), s == old(buffer).rem(), empties(s) == empties(buffer.rem()).shift(k),
            decreases s.len() - k
//@at start 0
            broadcast use skip_skip;
            proof { let t = buffer.rem(); if t.len() > 1 { assert(t.skip(1)[0] == t[1]); } }
//@at end 0
            proof { k = (s.len() - buffer.rem().len()) as nat; }
//@end
//@fn src/helper.rs | impl Helper | skip_spaces
//@ret r
//@spec
        ensures gives(r, final(buffer).rem(), old(buffer).rem(), spaces(old(buffer).rem()))
//@at start
        let ghost s = buffer.rem(); let ghost mut k: nat = 0;
        proof { assert(s.skip(0) =~= s); }
//@loop 0
            invariant k <= s.len(), buffer.rem() == s.skip(k as int), s == old(buffer).rem(), forall|j: int| 0 <= j < k ==> #[trigger] s[j] == 32u8,
            decreases s.len() - k
//@at start 0
            proof { if k == s.len() || s[k as int] != 32 { lemma_run_is(s, |b: u8| b == 32, k as int); } }
//@at end 0
            proof { k = (s.len() - buffer.rem().len()) as nat; }
//@end
//@fn src/helper.rs | impl Helper | parse_header
//@ret r
//@spec
        ensures match fields(old(buffer).rem(), Seq::empty()) {
                Rd::Done(v, n) => r is Ok && final(header).m() == v && n <= old(buffer).rem().len() && final(buffer).rem() == old(buffer).rem().skip(n as int),
                Rd::Part => r is Err && partial(r->Err_0), Rd::Bad => r is Err && !partial(r->Err_0) }
//@at start
        hide(fields); hide(m_insert); hide(ents); hide(tok); hide(spaces); hide(run); hide(fld);
        let ghost s = buffer.rem(); let ghost mut k: nat = 0;
        proof { assert(s.skip(0) =~= s); }
//@loop 0
            invariant k <= s.len(), buffer.rem() == s.skip(k as int), s == old(buffer).rem(), fields(s, Seq::empty()) == fields(buffer.rem(), header.m()).shift(k),
            decreases s.len() - k
//@at start 0
            let ghost r0 = buffer.rem(); let ghost m0 = header.m();
            proof { lemma_fields_step(r0, m0); }
//@at end 0
            proof { k = (s.len() - buffer.rem().len()) as nat; assert(buffer.rem() =~= s.skip(k as int)); }
//@end
}
}
fn main() {}

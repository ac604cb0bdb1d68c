//@import k04.rs
//@import k01.rs
//@import huff.rs
//@import bits.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub \bString\b => Text
//@globsub \bSelf\s*::\s*decode_integer\b => Decoder::decode_integer
//@globsub \bself\s*\.\s*index\s*\.\s*write\(\)\s*\.\s*unwrap\(\) => self.index
//@globsub =\s*self\s*\.\s*index\s*\.\s*read\(\)\s*\.\s*unwrap\(\)\s*; => = &self.index;
//@globsub Arc<RwLock<HeaderIndex>> => HeaderIndex
verus! {
// as built here (x86_64): the sum of a table size and a field's octets fits in a usize
global size_of usize == 8;
// ================= RFC 7541, section 6: what a header block says =================
pub struct HState { pub t: Seq<Ent>, pub max: nat, pub limit: nat }
pub open spec fn with(st: HState, e: Ent) -> HState { HState { t: evict(seq![e] + st.t, st.max), ..st } }
/// string literals (5.2): the octets and how many were used
pub open spec fn str_read(s: Seq<u8>) -> Option<(Seq<u8>, nat)> {
    match int_read(s, 7) { None => None, Some((len, k)) => if k + len > s.len() { None } else {
        let raw = s.subrange(k as int, (k + len) as int);
        if s[0] >= 128 { match hdec(obits(raw)) { Some(d) => Some((d, k + len)), None => None } } else { Some((raw, k + len)) } } }
}
/// literal fields (6.2): name by index or literal, then the value
pub open spec fn name_read(s: Seq<u8>, p: u8, st: HState) -> Option<(Seq<u8>, nat)> {
    match int_read(s, p) { None => None, Some((i, k)) =>
        if i == 0 { if k > s.len() { None } else { match str_read(s.skip(k as int)) { None => None, Some((n, m)) => Some((lossy(n), k + m)) } } }
        else { match entry(st.t, i as int) { None => None, Some(e) => Some((e.0, k)) } } }
}
pub open spec fn literal_read(s: Seq<u8>, p: u8, st: HState) -> Option<(Ent, nat)> {
    match name_read(s, p, st) { None => None, Some((n, k)) => if k > s.len() { None } else { match str_read(s.skip(k as int)) { None => None, Some((v, m)) => Some(((n, v), k + m)) } } }
}
/// one representation: the field it gives, if any, the table after it and its octets
pub open spec fn rep_read(s: Seq<u8>, st: HState) -> Option<(Seq<Ent>, HState, nat)> {
    if s.len() == 0 { None }
    else if s[0] >= 128 { match int_read(s, 7) { None => None, Some((i, k)) => match entry(st.t, i as int) { None => None, Some(e) => Some((seq![e], st, k)) } } }
    else if s[0] >= 64 { match literal_read(s, 6, st) { None => None, Some((e, k)) => Some((seq![e], with(st, e), k)) } }
    else if s[0] >= 32 { match int_read(s, 5) { None => None, Some((v, k)) => if v > st.limit { None } else { Some((Seq::empty(), HState { t: evict(st.t, v), max: v, limit: st.limit }, k)) } } }
    else { match literal_read(s, 4, st) { None => None, Some((e, k)) => Some((seq![e], st, k)) } }
}
pub open spec fn block_read(s: Seq<u8>, st: HState) -> Option<(Seq<Ent>, HState)> decreases s.len() {
    if s.len() == 0 { Some((Seq::empty(), st)) } else {
        match rep_read(s, st) { None => None, Some((l, st2, k)) => if k == 0 || k > s.len() { None } else {
            match block_read(s.skip(k as int), st2) { None => None, Some((m, st3)) => Some((l + m, st3)) } } } }
}
pub open spec fn after(a: Seq<Ent>, r: Option<(Seq<Ent>, HState)>) -> Option<(Seq<Ent>, HState)> { match r { None => None, Some((m, st)) => Some((a + m, st)) } }
// ---- sizes ----
pub proof fn lemma_int_read(s: Seq<u8>, p: u8)
    requires 1 <= p <= 8 ensures int_read(s, p) matches Some((v, k)) ==> 1 <= k <= 5 && k <= s.len() && v <= 255 + 268435456
{
    if s.len() > 0 { tail_end_pos(s.skip(1)); if tail_end(s.skip(1)) is Some { lemma_tail_bound(s.skip(1)); } mask_pos(p); }
}
pub proof fn mask_pos(p: u8) ensures 1 <= mask_of(p) <= 255 {}
pub proof fn lemma_tail_bound(s: Seq<u8>)
    requires tail_end(s) is Some ensures tail_end(s)->0 <= 1 ==> tail_value(s) < 128, tail_end(s)->0 <= 2 ==> tail_value(s) < 16384, tail_end(s)->0 <= 3 ==> tail_value(s) < 2097152, tail_end(s)->0 <= 4 ==> tail_value(s) < 268435456 decreases s.len()
{ if s.len() > 0 && s[0] >= 128 { tail_end_pos(s.skip(1)); lemma_tail_bound(s.skip(1)); } }
/// a Huffman-coded string is at most 8/5 of its octets
pub proof fn lemma_henc_len(s: Seq<u8>)
    ensures 5 * s.len() <= henc(s).len() <= 30 * s.len() decreases s.len()
{ if s.len() > 0 { lemma_henc_len(s.drop_last()); sym(s.last() as int); assert(ck_sym(s.last() as int)); reveal(hbits); assert(hbits(s.last() as int).len() == hlen(s.last() as int)); } }
pub proof fn lemma_str_read(s: Seq<u8>)
    ensures str_read(s) matches Some((d, k)) ==> 1 <= k <= s.len() && d.len() <= 600000000
{
    lemma_int_read(s, 7);
    if let Some((len, k)) = int_read(s, 7) { if k + len <= s.len() {
        let raw = s.subrange(k as int, (k + len) as int);
        if let Some(d) = hdec(obits(raw)) { k02_read_only(obits(raw)); let j = choose|j: nat| j < 8 && #[trigger] (henc(d) + ones(j)) == obits(raw); lemma_henc_len(d); assert(henc(d).len() + j == obits(raw).len()); }
    } }
}
pub proof fn lemma_tsize_each(t: Seq<Ent>, i: int)
    requires 0 <= i < t.len() ensures esize(t[i]) <= tsize(t) decreases t.len()
{ if i < t.len() - 1 { lemma_tsize_each(t.drop_last(), i); assert(t.drop_last()[i] == t[i]); } }
pub proof fn lemma_tsize_count(t: Seq<Ent>)
    ensures 32 * t.len() <= tsize(t) decreases t.len()
{ if t.len() > 0 { lemma_tsize_count(t.drop_last()); } }
pub proof fn rfc_short(i: int) ensures rfc_name(i).len() <= 100 { reveal(rfc_name); }
pub proof fn lemma_name_read(s: Seq<u8>, p: u8, st: HState)
    requires 1 <= p <= 8 ensures name_read(s, p, st) matches Some((n, k)) ==> 1 <= k <= s.len() && n.len() <= 1800000000 + tsize(st.t)
{
    lemma_int_read(s, p);
    if let Some((i, k)) = int_read(s, p) { if k <= s.len() { let b = s.skip(k as int); lemma_str_read(b); if let Some((d, m)) = str_read(b) { lossy_len(d); }
        if 1 <= i <= 61 { rfc_short(i - 1); } else if 62 <= i < 62 + st.t.len() { lemma_tsize_each(st.t, i - 62); } } }
}
pub proof fn lemma_literal_read(s: Seq<u8>, p: u8, st: HState)
    requires 1 <= p <= 8 ensures literal_read(s, p, st) matches Some((e, k)) ==> 1 <= k <= s.len() && esize(e) <= 2400000032 + tsize(st.t)
{
    lemma_name_read(s, p, st);
    if let Some((n, k)) = name_read(s, p, st) { if k <= s.len() { lemma_str_read(s.skip(k as int)); } }
}
pub proof fn lemma_rep_read(s: Seq<u8>, st: HState)
    ensures rep_read(s, st) matches Some((l, st2, k)) ==> 1 <= k <= s.len()
{ lemma_literal_read(s, 6, st); lemma_literal_read(s, 4, st); lemma_int_read(s, 7); lemma_int_read(s, 5); }
pub proof fn after_none(a: Seq<Ent>, r: Option<(Seq<Ent>, HState)>) ensures (after(a, r) is None) == (r is None) {}
pub proof fn lemma_block_end(a: Seq<Ent>, s: Seq<u8>, st: HState)
    ensures s.len() == 0 ==> after(a, block_read(s, st)) == Some((a, st))
{ assert(a + Seq::<Ent>::empty() =~= a); }
pub proof fn lemma_block_step(a: Seq<Ent>, s: Seq<u8>, st: HState)
    ensures s.len() > 0 ==> after(a, block_read(s, st)) == (match rep_read(s, st) { None => None, Some((l, st2, k)) => after(a + l, block_read(s.skip(k as int), st2)) })
{
    lemma_rep_read(s, st);
    if s.len() > 0 { if let Some((l, st2, k)) = rep_read(s, st) { if let Some((m, st3)) = block_read(s.skip(k as int), st2) { assert(a + (l + m) =~= (a + l) + m); } } }
}
// ---- std::borrow::Cow (modelled) ----
pub enum CowB<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
impl<'a> CowB<'a> {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { CowB::Borrowed(s) => s@, CowB::Owned(v) => v@ } }
    // what &cow derefs to
    pub fn octets(&self) -> (r: &[u8]) ensures r@ == self.bytes() { match self { CowB::Borrowed(s) => s, CowB::Owned(v) => v.as_slice() } }
}
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
pub open spec fn cow_name(c: Cow<HeaderName>) -> Seq<u8> { match c { Cow::Borrowed(n) => n.bytes(), Cow::Owned(n) => n.bytes() } }
pub open spec fn cow_value(c: Cow<HeaderValue>) -> Seq<u8> { match c { Cow::Borrowed(n) => n.bytes(), Cow::Owned(n) => n.bytes() } }
/// the caller's FnMut(Cow<HeaderName>, Cow<HeaderValue>): what it has been given so far
pub trait FieldSink {
    spec fn got(&self) -> Seq<Ent>;
    fn field(&mut self, n: Cow<HeaderName>, v: Cow<HeaderValue>)
        ensures final(self).got() == old(self).got().push((cow_name(n), cow_value(v)));
}
/// the closure of decode: |n, v| header_list.push((n.into_owned(), v.into_owned()))
impl FieldSink for Vec<(HeaderName, HeaderValue)> {
    open spec fn got(&self) -> Seq<Ent> { ents(self@) }
    fn field(&mut self, n: Cow<HeaderName>, v: Cow<HeaderValue>) {
        let n = match n { Cow::Borrowed(x) => x.clone(), Cow::Owned(x) => x };
        let v = match v { Cow::Borrowed(x) => x.clone(), Cow::Owned(x) => x };
        let ghost o = self@;
        self.push((n, v));
        proof { assert(ents(self@) =~= ents(o).push((n.bytes(), v.bytes()))); }
    }
}
// #[derive(Clone)]
impl Clone for HeaderName { fn clone(&self) -> (r: HeaderName) ensures r.bytes() == self.bytes() { match self { HeaderName::Stand(s) => HeaderName::Stand(*s), HeaderName::Value(t) => HeaderName::Value(t.clone()) } } }
impl Clone for HeaderValue { fn clone(&self) -> (r: HeaderValue) ensures r.bytes() == self.bytes() { broadcast use {cloned_u8, all_cloned_u8}; match self { HeaderValue::Stand(s) => HeaderValue::Stand(*s), HeaderValue::Value(v) => HeaderValue::Value(v.as_slice().to_vec()) } } }
//@item src/http/http2/hpack/decoder.rs | enum | FieldRepresentation
impl FieldRepresentation {
//@fn src/http/http2/hpack/decoder.rs | impl FieldRepresentation | new
//@ret r
//@spec
        ensures match r {
            FieldRepresentation::Indexed => octet >= 128,
            FieldRepresentation::LiteralWithIncrementalIndexing => 64 <= octet < 128,
            FieldRepresentation::SizeUpdate => 32 <= octet < 64,
            FieldRepresentation::LiteralNeverIndexed => 16 <= octet < 32,
            FieldRepresentation::LiteralWithoutIndexing => octet < 16 }
//@at start
        proof { bits8(); }
//@end
}
//@item src/http/http2/hpack/decoder.rs | struct | Decoder
//@sub \bDecoder\b => HDecoder
impl HDecoder {
    pub open spec fn st(&self) -> HState { HState { t: self.index.ents(), max: self.index.max_size as nat, limit: self.index.limit_size as nat } }
    pub open spec fn wf(&self) -> bool { self.index.wf() && self.index.limit_size <= u32::MAX }
//@fn src/http/http2/hpack/decoder.rs | impl Decoder | decode_string
//@ret r
//@sub Cow\s*<\s*'a\s*,\s*\[\s*u8\s*\]\s*> => CowB<'a>
//@sub \bCow\s*:: => CowB::
//@spec
        ensures match r { Ok((d, k)) => str_read(buf@) == Some((d.bytes(), k as nat)), Err(_) => str_read(buf@) is None }
//@at start
        proof { lemma_int_read(buf@, 7); axiom_slice_max(buf); bits(); }
//@end
//@fn src/http/http2/hpack/decoder.rs | impl Decoder | decode_literal
//@ret r
//@inline impl Decoder | get_from_table
//@sub from_bytes\(&name\) => from_bytes(name.octets())
//@sub from_bytes\(&value\) => from_bytes(value.octets())
//@spec
        requires self.wf()
        ensures match r { Ok((e, k)) => literal_read(buf@, if index { 6 } else { 4 }, self.st()) == Some((ent(e), k as nat)), Err(_) => literal_read(buf@, if index { 6 } else { 4 }, self.st()) is None }
//@at start
        proof { let p = if index { 6u8 } else { 4u8 }; axiom_slice_max(buf); lemma_int_read(buf@, p); lemma_tsize_count(self.st().t);
            if let Some((i, k)) = int_read(buf@, p) { let b = buf@.skip(k as int); lemma_str_read(b); assert(buf@.subrange(k as int, buf@.len() as int) =~= b);
                if let Some((n, m)) = name_read(buf@, p, self.st()) { if m <= buf@.len() { lemma_str_read(buf@.skip(m as int)); assert(buf@.subrange(m as int, buf@.len() as int) =~= buf@.skip(m as int)); } } } }
//@end
#[verifier::rlimit(40)] #[verifier::spinoff_prover]
//@fn src/http/http2/hpack/decoder.rs | impl Decoder | decode_with_cb
//@ret r
//@inline impl Decoder | decode_indexed
//@inline impl Decoder | get_from_table
//@mustsub \bcb\( => cb.field(
//@mustsub mut cb: F => cb: &mut F
//@mustsub F\s*:\s*FnMut\([^)]*\) => F: FieldSink
//@spec
        requires old(self).wf()
        ensures final(self).wf(),
            match r { Ok(_) => final(buf).rem().len() == 0 && after(old(cb).got(), block_read(old(buf).rem(), old(self).st())) == Some((final(cb).got(), final(self).st())),
                Err(_) => block_read(old(buf).rem(), old(self).st()) is None }
//@loop 0
            invariant self.wf(), after(old(cb).got(), block_read(old(buf).rem(), old(self).st())) == after(cb.got(), block_read(buf.rem(), self.st())),
            decreases buf.rem().len()
//@at start
        hide(block_read); hide(int_read); hide(literal_read); hide(evict); hide(tsize); hide(entry); hide(ents); hide(after);
//@at after 0
        proof { lemma_block_end(cb.got(), buf.rem(), self.st()); }
//@at start 0
            let ghost (s0, st0, g0): (Seq<u8>, HState, Seq<Ent>) = (buf.rem(), self.st(), cb.got());
            proof { after_none(old(cb).got(), block_read(old(buf).rem(), old(self).st())); lemma_tsize_count(st0.t); lemma_rep_read(s0, st0); lemma_block_step(g0, s0, st0); lemma_literal_read(s0, 6, st0); lemma_literal_read(s0, 4, st0); lemma_int_read(s0, 7); lemma_int_read(s0, 5);
                assert(forall|e: Ent| #[trigger] g0.push(e) == g0 + seq![e]) by { assert forall|e: Ent| #[trigger] g0.push(e) == g0 + seq![e] by { assert(g0.push(e) =~= g0 + seq![e]); } } assert(g0 + Seq::<Ent>::empty() =~= g0); }
//@at end 0
            proof { assert(rep_read(s0, st0) matches Some((l, st2, k)) && cb.got() == g0 + l && self.st() == st2 && k == consumed); }
//@end
//@fn src/http/http2/hpack/decoder.rs | impl Decoder | decode
//@ret r
//@mustsub self\.decode_with_cb\(buf, \|n, v\| \{\s*header_list\.push\(\(n\.into_owned\(\), v\.into_owned\(\)\)\)\s*\}\)\?; => self.decode_with_cb(buf, &mut header_list)?;
//@spec
        requires old(self).wf()
        ensures final(self).wf(),
            match r { Ok(l) => final(buf).rem().len() == 0 && block_read(old(buf).rem(), old(self).st()) == Some((ents(l@), final(self).st())),
                Err(_) => block_read(old(buf).rem(), old(self).st()) is None }
//@at start
        proof { if let Some((m, st)) = block_read(buf.rem(), self.st()) { assert(ents(Seq::empty()) + m =~= m); } }
//@end
}
}
fn main() {}

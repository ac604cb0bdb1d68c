//@import f02.rs
//@import f03.rs
//@import f05.rs
//@import k06.rs
//@import k05.rs
//@import hmap.rs
//@import codes.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub \bString\b => Text
//@globsub \bEncoder\b => HEncoder
//@globsub (?<!::)\bDecoder\b => HDecoder
//@globsub \bcrate\s*::\s*(WebError|WebResult)\b => \1
verus! {
// a slice of octets is a source (algorithm::buf)
impl<'a> Bt for &'a [u8] {
    open spec fn rem(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn peek(&self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn get_next(&mut self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn advance_chunk(&mut self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn get_u64(&mut self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn try_get_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u16(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u64(&mut self) -> (r: Result<u64, IoError>) { unimplemented!() }
    #[verifier::external_body] fn copy_to_slice(&mut self, dst: &mut [u8]) -> (n: usize) { unimplemented!() }
}
// ================= RFC 7540 8.1.2: what a header list says =================
pub open spec fn nmethod() -> Seq<u8> { seq![58u8, 109, 101, 116, 104, 111, 100] }
pub open spec fn nscheme() -> Seq<u8> { seq![58u8, 115, 99, 104, 101, 109, 101] }
pub open spec fn npath() -> Seq<u8> { seq![58u8, 112, 97, 116, 104] }
pub open spec fn nstatus() -> Seq<u8> { seq![58u8, 115, 116, 97, 116, 117, 115] }
pub struct Hv { pub method: Option<Seq<u8>>, pub authority: Option<Seq<u8>>, pub scheme: Option<Seq<u8>>, pub path: Option<Seq<u8>>, pub status: Option<int>, pub fields: Seq<Ent> }
pub open spec fn no_hv() -> Hv { Hv { method: None, authority: None, scheme: None, path: None, status: None, fields: Seq::empty() } }
pub open spec fn take_field(v: Hv, e: Ent) -> Option<Hv> {
    if e.0 == nauth() { Some(Hv { authority: Some(e.1), ..v }) }
    else if e.0 == nmethod() { match method_of(e.1) { Some(m) => Some(Hv { method: Some(m.text()), ..v }), None => None } }
    else if e.0 == npath() { Some(Hv { path: Some(e.1), ..v }) }
    else if e.0 == nscheme() { if e.1.len() > 64 { None } else { Some(Hv { scheme: Some(e.1), ..v }) } }
    else if e.0 == nstatus() { match from_text(e.1) { Some(n) => Some(Hv { status: Some(n), ..v }), None => None } }
    else { Some(Hv { fields: m_insert(v.fields, e.0, e.1), ..v }) }
}
pub open spec fn read_rest(v: Hv, l: Seq<Ent>) -> Option<Hv> decreases l.len() {
    if l.len() == 0 { Some(v) } else { match take_field(v, l[0]) { Some(w) => read_rest(w, l.skip(1)), None => None } }
}
/// the values of the pseudo fields are UTF-8 (what others read as is not specified)
pub open spec fn plain(l: Seq<Ent>) -> bool { forall|i: int| 0 <= i < l.len() ==> ((#[trigger] l[i]).0.len() > 0 && l[i].0[0] == 58 ==> utf8(l[i].1)) }
/// SETTINGS_MAX_HEADER_LIST_SIZE (6.5.2): names, values and 32 per field
pub open spec fn lsize(l: Seq<Ent>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { esize(l[0]) + lsize(l.skip(1)) } }
pub open spec fn st_ok(st: HState) -> bool { tsize(st.t) <= st.max && st.max <= st.limit && st.limit <= u32::MAX }
pub proof fn rfc_value_short(i: int) ensures rfc_value(i).len() <= 100 { reveal(rfc_value); }
pub proof fn lemma_rep_size(s: Seq<u8>, st: HState)
    requires st_ok(st)
    ensures rep_read(s, st) matches Some((l, st2, k)) ==> st_ok(st2) && lsize(l) <= 6700000000 && 1 <= k <= s.len()
{
    lemma_rep_read(s, st); lemma_literal_read(s, 6, st); lemma_literal_read(s, 4, st); lemma_int_read(s, 7); lemma_int_read(s, 5);
    assert forall|e: Ent| #[trigger] lsize(seq![e]) == esize(e) by { reveal_with_fuel(lsize, 2); assert(seq![e].skip(1) =~= Seq::<Ent>::empty()); }
    if let Some((l, st2, k)) = rep_read(s, st) {
        if s[0] >= 128 {
            let i = int_read(s, 7)->Some_0.0 as int;
            if 1 <= i <= 61 { rfc_short(i - 1); rfc_value_short(i - 1); } else { lemma_tsize_each(st.t, i - 62); }
        } else if s[0] >= 64 { let e = literal_read(s, 6, st)->Some_0.0; lemma_evict(seq![e] + st.t, st.max); }
        else if s[0] >= 32 { lemma_evict(st.t, int_read(s, 5)->Some_0.0); }
    }
}
pub proof fn lemma_lsize_add(a: Seq<Ent>, b: Seq<Ent>) ensures lsize(a + b) == lsize(a) + lsize(b) decreases a.len()
{ if a.len() > 0 { lemma_lsize_add(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); } else { assert(a + b =~= b); } }
pub proof fn lemma_block_size(s: Seq<u8>, st: HState)
    requires st_ok(st)
    ensures block_read(s, st) matches Some((l, st2)) ==> st_ok(st2) && lsize(l) <= s.len() * 6700000000
    decreases s.len()
{
    if s.len() > 0 { lemma_rep_size(s, st); if let Some((l, st2, k)) = rep_read(s, st) {
        lemma_block_size(s.skip(k as int), st2);
        if let Some((m, st3)) = block_read(s.skip(k as int), st2) { lemma_lsize_add(l, m); assert(lsize(l) + (s.len() - k) * 6700000000 <= s.len() * 6700000000) by (nonlinear_arith) requires lsize(l) <= 6700000000, 1 <= k <= s.len(); }
    } }
}
//@item src/http/http2/frame/headers.rs | struct | Parts
//@item src/http/http2/frame/headers.rs | struct | HeaderBlock
//@item src/http/http2/frame/headers.rs | struct | Headers
//@item src/http/http2/frame/headers.rs | struct | PushPromise
// #[derive(Default)]
impl Default for Parts { fn default() -> (r: Parts) ensures r == (Parts { method: None, scheme: None, authority: None, path: None, status: None }) { Parts { method: None, scheme: None, authority: None, path: None, status: None } } }
impl HeaderBlock {
    pub open spec fn hv(&self) -> Hv { Hv {
        method: match self.parts.method { Some(m) => Some(m.text()), None => None },
        authority: match self.parts.authority { Some(m) => Some(m.bytes()), None => None },
        scheme: match self.parts.scheme { Some(m) => Some(m.text()), None => None },
        path: match self.parts.path { Some(m) => Some(m.bytes()), None => None },
        status: match self.parts.status { Some(m) => Some(m.code() as int), None => None },
        fields: self.fields.m() } }
}
impl Headers {
    pub open spec fn hv(&self) -> Hv { self.header_block.hv() }
}
/// what a HEADERS payload without padding says: the stream dependency's octets, and the header list with the table after it
pub open spec fn block_part(f: u8, s: Seq<u8>) -> Seq<u8> { if f & 0x20 == 0x20 { s.skip(5) } else { s } }
pub open spec fn headers_ok(f: u8, s: Seq<u8>, st: HState, max: nat, v: Hv) -> bool {
    &&& (f & 0x20 == 0x20 ==> s.len() >= 5)
    &&& block_read(block_part(f, s), st) matches Some((l, st2)) && lsize(l) <= max && (plain(l) ==> read_rest(v, l) is Some)
}
pub open spec fn headers_bad(f: u8, s: Seq<u8>, st: HState, max: nat, v: Hv) -> bool {
    ||| (f & 0x20 == 0x20 && s.len() < 5)
    ||| (match block_read(block_part(f, s), st) { None => true, Some((l, st2)) => lsize(l) > max || !plain(l) || read_rest(v, l) is None })
}
pub open spec fn headers_are(f: u8, s: Seq<u8>, st: HState, st2: HState, v: Hv, h: Headers) -> bool {
    &&& h.flags.b == f
    &&& (f & 0x20 == 0x20 ==> h.stream_dep is Some && dep_is(s, h.stream_dep->0))
    &&& block_read(block_part(f, s), st)->Some_0.1 == st2
    &&& (plain(block_read(block_part(f, s), st)->Some_0.0) ==> read_rest(v, block_read(block_part(f, s), st)->Some_0.0) == Some(h.hv()))
}
impl Headers {
//@fn src/http/http2/frame/headers.rs | impl Headers | new
//@ret r
//@spec
        ensures r.stream_id == header.id, r.flags == header.flag, r.stream_dep is None, r.hv() == (Hv { fields: fields.m(), ..no_hv() })
//@end
#[verifier::spinoff_prover]
//@fn src/http/http2/frame/headers.rs | impl Headers | parse
//@ret r
//@strmatch
//@sub let\s+mut\s+header_size\s*=\s*0\s*; => let mut header_size: usize = 0;
//@sub \(\s*&\s*h\.1\s*\)\.try_into\(\) => h.1.try_into_text()
//@sub &\s*\*\s*value\b => value.as_str()
//@sub StatusCode\s*::\s*try_from\( => StatusCode::try_from_str(
//@spec
        requires old(decoder).wf(), buffer.rem().len() < 0x10000000
        ensures final(decoder).wf(), final(self).stream_id == old(self).stream_id, final(self).flags == old(self).flags,
            match r {
                Ok(_) => headers_ok(old(self).flags.b, buffer.rem(), old(decoder).st(), max_header_list_size as nat, old(self).hv()) && headers_are(old(self).flags.b, buffer.rem(), old(decoder).st(), final(decoder).st(), old(self).hv(), *final(self)),
                Err(_) => headers_bad(old(self).flags.b, buffer.rem(), old(decoder).st(), max_header_list_size as nat, old(self).hv()) }
//@at start
        hide(block_read); hide(tsize); hide(evict);
        let ghost (s0, f0, v0, st0): (Seq<u8>, u8, Hv, HState) = (buffer.rem(), self.flags.b, self.hv(), decoder.st());
        proof { if f0 & 0x20 != 0x20 || s0.len() >= 5 { lemma_block_size(block_part(f0, s0), st0); } }
//@at before 0
        let ghost l0: Seq<Ent> = ents(headers@);
        let ghost dep: Option<StreamDependency> = self.stream_dep;
        proof { assert(l0.skip(0) =~= l0); lemma_block_size(block_part(f0, s0), st0); }
        #[verifier::loop_isolation(false)]
//@loop 0
            invariant ents(it0.seq()) == l0, block_read(block_part(f0, s0), st0) == Some((l0, decoder.st())), decoder.wf(), f0 & 0x20 == 0x20 ==> s0.len() >= 5,
                lsize(l0) <= 0x10000000 * 6700000000, f0 == old(self).flags.b, v0 == old(self).hv(), st0 == old(decoder).st(),
                self.stream_id == old(self).stream_id, self.flags == old(self).flags, self.stream_dep == dep,
                header_size + lsize(l0.skip(it0.index@ as int)) == lsize(l0), header_size <= max_header_list_size,
                plain(l0) ==> read_rest(self.hv(), l0.skip(it0.index@ as int)) == read_rest(v0, l0),
//@at start 0
            let ghost (lf, vb): (Seq<Ent>, Hv) = (l0.skip(it0.index@ as int), self.hv());
            proof { let i = it0.index@ as int; assert(l0[i] == ent(it0.seq()[i])); assert(lf[0] == l0[i]); assert(lf.skip(1) =~= l0.skip(i + 1)); }
//@end
}
pub open spec fn promise_is(h: FrameHeader, b: Seq<u8>, p: PushPromise) -> bool {
    p.stream_id == h.id && p.flags == h.flag && (b.len() >= 4 ==> p.promised_id.0 == be(b.take(4)) % 0x80000000)
}
impl PushPromise {
//@fn src/http/http2/frame/headers.rs | impl PushPromise | new
//@ret r
//@spec
        ensures r.stream_id == header.id, r.flags == header.flag, r.promised_id == promised_id, r.header_block.hv() == (Hv { fields: fields.m(), ..no_hv() })
//@end
//@fn src/http/http2/frame/headers.rs | impl PushPromise | parse
//@ret r
//@sub \b_decoder\b => decoder
//@sub \b_max_header_list_size\b => max_header_list_size
//@spec
        requires old(decoder).wf()
        ensures r is Ok, final(decoder).wf(), promise_is(head, src.rem(), r->Ok_0)
//@end
}
// ================= RFC 7540 4.3, 6.2, 6.10: how a header list is written =================
pub open spec fn put(m: Seq<Ent>, n: Seq<u8>, v: Option<Seq<u8>>) -> Seq<Ent> { match v { Some(x) => m_insert(m, n, x), None => m } }
pub open spec fn status_text(v: Option<int>) -> Option<Seq<u8>> { match v { Some(n) => Some(text3(n as u16)), None => None } }
/// the pseudo fields that are set
pub open spec fn put_parts(m: Seq<Ent>, v: Hv) -> Seq<Ent> {
    put(put(put(put(put(m, nmethod(), v.method), nauth(), v.authority), nscheme(), v.scheme), npath(), v.path), nstatus(), status_text(v.status))
}
pub open spec fn insert_all(m: Seq<Ent>, l: Seq<Ent>) -> Seq<Ent> decreases l.len() { if l.len() == 0 { m } else { insert_all(m_insert(m, l[0].0, l[0].1), l.skip(1)) } }
pub open spec fn header_list(v: Hv) -> Seq<Ent> { insert_all(put_parts(Seq::empty(), v), v.fields) }
pub open spec fn chunks(d: Seq<u8>, max: int) -> Seq<Seq<u8>> decreases d.len() {
    if max <= 0 || d.len() <= max { seq![d] } else { seq![d.take(max)] + chunks(d.skip(max), max) }
}
pub open spec fn joined(cs: Seq<Seq<u8>>) -> Seq<u8> decreases cs.len() { if cs.len() == 0 { Seq::empty() } else { cs[0] + joined(cs.skip(1)) } }
/// the fragments are the block, none longer than the maximum
pub proof fn lemma_chunks(d: Seq<u8>, max: int)
    requires max >= 1
    ensures chunks(d, max).len() >= 1, joined(chunks(d, max)) == d, forall|i: int| 0 <= i < chunks(d, max).len() ==> (#[trigger] chunks(d, max)[i]).len() <= max,
        d.len() <= max ==> chunks(d, max) == seq![d],
    decreases d.len()
{
    let cs = chunks(d, max);
    if d.len() > max {
        lemma_chunks(d.skip(max), max);
        let gs = chunks(d.skip(max), max);
        assert(cs.skip(1) =~= gs); assert(joined(cs) =~= d);
        assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]).len() <= max by { if i > 0 { assert(cs[i] == gs[i - 1]); } }
    } else { reveal_with_fuel(joined, 2); assert(cs.skip(1) =~= Seq::<Seq<u8>>::empty()); assert(joined(cs) =~= d); }
}
pub open spec fn one_frame(kind: Kind, flag: u8, id: u32, p: Seq<u8>) -> Seq<u8> { fh_octets(FrameHeader { length: p.len() as u32, kind, flag: Flag { b: flag }, id: StreamIdentifier(id) }) + p }
/// the flags of the k-th of n frames: END_HEADERS on the last only, END_STREAM as asked and on HEADERS only
pub open spec fn nth_flag(flag: u8, k: int, n: int) -> u8 { if k == 0 { if n == 1 { flag | 4 } else { flag & !4 } } else if k == n - 1 { 4 } else { 0 } }
pub open spec fn nth_kind(k: int) -> Kind { if k == 0 { Kind::Headers } else { Kind::Continuation } }
pub open spec fn block_frames(cs: Seq<Seq<u8>>, k: int, flag: u8, id: u32) -> Seq<u8> decreases k {
    if k <= 0 { Seq::empty() } else { block_frames(cs, k - 1, flag, id) + one_frame(nth_kind(k - 1), nth_flag(flag, k - 1, cs.len() as int), id, cs[k - 1]) }
}
pub proof fn lemma_frames_len(cs: Seq<Seq<u8>>, k: int, flag: u8, id: u32)
    requires 0 <= k <= cs.len()
    ensures block_frames(cs, k, flag, id).len() == 9 * k + joined(cs.take(k)).len() decreases k
{
    if k > 0 {
        lemma_frames_len(cs, k - 1, flag, id); lemma_joined_push(cs.take(k - 1), cs[k - 1]); assert(cs.take(k - 1).push(cs[k - 1]) =~= cs.take(k));
        be_bytes_len(cs[k - 1].len() as u32 as nat, 3); be_bytes_len(id as nat, 4);
    }
}
pub proof fn lemma_joined_push(a: Seq<Seq<u8>>, b: Seq<u8>) ensures joined(a.push(b)) == joined(a) + b decreases a.len()
{
    if a.len() > 0 { lemma_joined_push(a.skip(1), b); assert(a.push(b).skip(1) =~= a.skip(1).push(b)); assert(joined(a.push(b)) =~= joined(a) + b); }
    else { reveal_with_fuel(joined, 2); assert(a.push(b).skip(1) =~= Seq::<Seq<u8>>::empty()); assert(joined(a.push(b)) =~= joined(a) + b); }
}
pub proof fn lemma_joined_take(cs: Seq<Seq<u8>>, k: int) requires 0 <= k <= cs.len() ensures joined(cs.take(k)).len() <= joined(cs).len() decreases cs.len() - k
{ if k < cs.len() { lemma_joined_take(cs, k + 1); lemma_joined_push(cs.take(k), cs[k]); assert(cs.take(k).push(cs[k]) =~= cs.take(k + 1)); } else { assert(cs.take(k) =~= cs); } }
pub proof fn lemma_chunk_count(d: Seq<u8>, max: int)
    requires max >= 16 ensures 16 * (chunks(d, max).len() - 1) <= d.len() decreases d.len()
{ if d.len() > max { lemma_chunk_count(d.skip(max), max); } }
pub proof fn lemma_emits_step(st: HState, l: Seq<Ent>, a: Seq<u8>, m: HState, e: Ent, b: Seq<u8>, st2: HState)
    requires emits_all(st, l, a, m), emits(m, e, b, st2) ensures emits_all(st, l.push(e), a + b, st2)
{ hide(emits); assert(l.push(e).drop_last() =~= l); assert(l.push(e).last() == e); }
pub proof fn lemma_chunks_step(d: Seq<u8>, max: int, a: Seq<Seq<u8>>, cs: Seq<Seq<u8>>)
    requires a + chunks(d, max) == cs, max >= 1
    ensures d.len() > max ==> a.push(d.take(max)) + chunks(d.skip(max), max) == cs, d.len() <= max ==> a.push(d) == cs
{ if d.len() > max { assert(a.push(d.take(max)) + chunks(d.skip(max), max) =~= cs); } else { assert(a.push(d) =~= cs); } }
pub proof fn lemma_frames_step(d0: Seq<u8>, cs: Seq<Seq<u8>>, k: int, flag: u8, id: u32)
    requires 0 <= k < cs.len()
    ensures d0 + block_frames(cs, k + 1, flag, id) == d0 + block_frames(cs, k, flag, id) + fh_octets(FrameHeader { length: cs[k].len() as u32, kind: nth_kind(k), flag: Flag { b: nth_flag(flag, k, cs.len() as int) }, id: StreamIdentifier(id) }) + cs[k],
        joined(cs.take(k + 1)).len() == joined(cs.take(k)).len() + cs[k].len(), joined(cs.take(k + 1)).len() <= joined(cs).len(), block_frames(cs, 0, flag, id).len() == 0, joined(cs.take(0)).len() == 0,
        d0 + block_frames(cs, 0, flag, id) == d0
{
    hide(fh_octets);
    let x = fh_octets(FrameHeader { length: cs[k].len() as u32, kind: nth_kind(k), flag: Flag { b: nth_flag(flag, k, cs.len() as int) }, id: StreamIdentifier(id) });
    assert(d0 + (block_frames(cs, k, flag, id) + (x + cs[k])) =~= d0 + block_frames(cs, k, flag, id) + x + cs[k]);
    lemma_joined_push(cs.take(k), cs[k]); assert(cs.take(k).push(cs[k]) =~= cs.take(k + 1)); lemma_joined_take(cs, k + 1);
    assert(d0 + block_frames(cs, 0, flag, id) =~= d0);
}
pub assume_specification<T> [std::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub fn cmp_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
impl BinaryMut {
//@fn src/serialize.rs | impl Serialize for BinaryMut | serialize
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(old(self).rem().len() as usize), final(self).rem() == old(self).rem(), final(buffer).out() == old(buffer).out() + old(self).rem(),
//@end
}
impl Parts {
//@fn src/http/http2/frame/headers.rs | impl Parts | encode_header
//@spec
        requires old(self).status is Some ==> old(self).status->0.wf()
        ensures final(header).m() == put_parts(old(header).m(), HeaderBlock { fields: *old(header), is_over_size: false, parts: *old(self) }.hv())
//@end
}
pub open spec fn rems(v: Seq<BinaryMut>) -> Seq<Seq<u8>> { v.map_values(|b: BinaryMut| b.rem()) }
impl HeaderBlock {
#[verifier::spinoff_prover]
//@fn src/http/http2/frame/headers.rs | impl HeaderBlock | encode
//@ret r
//@mustsub self\.fields\.iter\(\) => self.fields.headers.iter()
//@sub std\s*::\s*cmp\s*::\s*max\b => cmp_max
//@sub let\s+mut\s+size\s*=\s*0\s*; => let mut size: usize = 0;
//@spec
        requires old(encoder).wf(), 16 <= old(encoder).max_frame_size < 0x1000000, forall|i: int| 0 <= i < old(self).fields.m().len() ==> small(#[trigger] old(self).fields.m()[i])
        ensures r is Ok, final(encoder).wf(),
            exists|o: Seq<u8>| emits_all(old(encoder).st(), old(self).fields.m(), o, final(encoder).st())
                && final(dst).out() == old(dst).out() + #[trigger] block_frames(chunks(o, old(encoder).max_frame_size as int), chunks(o, old(encoder).max_frame_size as int).len() as int, flags.b, stream_id.0)
//@at start
        hide(emits); hide(emits_all); hide(fh_octets); hide(block_frames); hide(chunks); hide(joined);
        let ghost (m0, st0, f0, d0): (Seq<Ent>, HState, u8, Seq<u8>) = (self.fields.m(), encoder.st(), flags.b, dst.out());
        let ghost mx: int = encoder.max_frame_size as int;
        proof { assert(m0.take(0) =~= Seq::empty()); reveal(emits_all); }
//@at before 0
        #[verifier::loop_isolation(false)]
//@loop 0
            invariant it0.seq().len() == self.fields.headers@.len(), forall|j: int| 0 <= j < self.fields.headers@.len() ==> *it0.seq()[j] == self.fields.headers@[j],
                encoder.wf(), encoder.max_frame_size == old(encoder).max_frame_size, block.taken() == 0,
                emits_all(st0, m0.take(it0.index@ as int), block.out(), encoder.st()),
//@at start 0
            let ghost (s1, w1, d1): (HState, Seq<u8>, Seq<Ent>) = (encoder.st(), block.out(), m0.take(it0.index@ as int));
            proof { assert(m0[it0.index@ as int] == ent(*value)); assert(small(m0[it0.index@ as int])); }
//@at end 0
            proof {
                let e = m0[it0.index@ as int]; assert(d1.push(e) =~= m0.take(it0.index@ + 1));
                let b = choose|o: Seq<u8>| emits(s1, e, o, encoder.st()) && block.out() == #[trigger] (w1 + o);
                lemma_emits_step(st0, d1, w1, s1, e, b, encoder.st());
            }
//@at after 0
        let ghost o0: Seq<u8> = block.out();
        let ghost cs: Seq<Seq<u8>> = chunks(o0, mx);
        proof { assert(m0.take(m0.len() as int) =~= m0); bin_rem(block); assert(o0.skip(0) =~= o0); bin_max(block); lemma_chunks(o0, mx); lemma_chunk_count(o0, mx); assert(rems(Seq::empty()) =~= Seq::empty()); assert(Seq::<Seq<u8>>::empty() + cs =~= cs); }
//@at before 1
        #[verifier::loop_isolation(false)]
//@loop 1
            invariant rems(result@) + chunks(block.rem(), mx) == cs, max_size == mx,
            decreases block.rem().len()
//@at start 1
            let ghost (r1, b1): (Seq<Seq<u8>>, Seq<u8>) = (rems(result@), block.rem());
            proof { lemma_chunks_step(b1, mx, r1, cs); }
//@at end 1
            proof { assert(rems(result@) =~= r1.push(b1.take(mx))); }
//@at after 1
        proof {
            let (r2, b2): (Seq<Seq<u8>>, Seq<u8>) = (rems(result@), block.rem());
            lemma_chunks_step(b2, mx, r2, cs);
            assert forall|x: BinaryMut| x.rem() == b2 implies rems(#[trigger] result@.push(x)) == cs by { assert(rems(result@.push(x)) =~= r2.push(b2)); }
            lemma_frames_step(d0, cs, 0, f0, stream_id.0);
        }
//@at before 2
        #[verifier::loop_isolation(false)]
//@loop 2
            invariant rems(result@) == cs, encoder.wf(), dst.out() == d0 + block_frames(cs, idx as int, f0, stream_id.0), size == 9 * idx + joined(cs.take(idx as int)).len()
//@at start 2
            proof { lemma_frames_step(d0, cs, idx as int, f0, stream_id.0); }
//@end
}
impl Headers {
//@fn src/http/http2/frame/headers.rs | impl Headers | encode
//@ret r
//@mustsub std\s*::\s*mem\s*::\s*replace\(\s*&mut self\.header_block\.fields\s*,\s*HeaderMap\s*::\s*new\(\)\s*\) => std::mem::replace(&mut self.header_block.fields, HeaderMap::new()).headers
//@sub log\s*::\s*trace!\([^;]*\)\s*; =>
//@sub \(\s*mut self\s*, => (self,
//@sub \bself\s*\. => this.
//@spec
        requires old(encoder).wf(), 16 <= old(encoder).max_frame_size < 0x1000000, self.header_block.parts.status is Some ==> self.header_block.parts.status->0.wf(),
            forall|i: int| 0 <= i < header_list(self.hv()).len() ==> small(#[trigger] header_list(self.hv())[i])
        ensures r is Ok, final(encoder).wf(),
            exists|o: Seq<u8>| emits_all(old(encoder).st(), header_list(self.hv()), o, final(encoder).st())
                && final(dst).out() == old(dst).out() + #[trigger] block_frames(chunks(o, old(encoder).max_frame_size as int), chunks(o, old(encoder).max_frame_size as int).len() as int, (self.flags.b & !8u8) & !0x20u8, self.stream_id.0)
//@at start
        let mut this = self;
        let ghost v0: Hv = self.hv();
        let ghost p0: Seq<Ent> = put_parts(Seq::empty(), v0);
        proof { assert(v0.fields.skip(0) =~= v0.fields); }
//@loop 0
            invariant ents(it0.seq()) == v0.fields, insert_all(fields.m(), v0.fields.skip(it0.index@ as int)) == insert_all(p0, v0.fields),
//@at start 0
            let ghost lf: Seq<Ent> = v0.fields.skip(it0.index@ as int);
            proof { let i = it0.index@ as int; assert(v0.fields[i] == ent(it0.seq()[i])); assert(lf[0] == v0.fields[i]); assert(lf.skip(1) =~= v0.fields.skip(i + 1)); }
//@at after 0
        proof { assert(v0.fields.skip(v0.fields.len() as int) =~= Seq::empty()); assert(fields.m() == header_list(v0)); }
//@end
}
impl Parts {
//@fn src/http/http2/frame/headers.rs | impl Parts | is_informational
//@ret r
//@sub self\s*\.status\s*\.map_or\(\s*false\s*,\s*\|status\|\s*status\.is_informational\(\)\s*\) => match self.status { Some(status) => status.is_informational(), None => false }
//@spec
        ensures r == (match self.status { Some(n) => 100 <= n.code() < 200, None => false })
//@end
//@fn src/http/http2/frame/headers.rs | impl Parts | response
//@ret r
//@spec
        ensures r == (Parts { method: None, scheme: None, authority: None, path: None, status: Some(status) })
//@end
//@fn src/http/http2/frame/headers.rs | impl Parts | set_status
//@spec
        ensures *final(self) == (Parts { status: Some(value), ..*old(self) })
//@end
//@fn src/http/http2/frame/headers.rs | impl Parts | set_scheme
//@spec
        ensures *final(self) == (Parts { scheme: Some(scheme), ..*old(self) })
//@end
//@fn src/http/http2/frame/headers.rs | impl Parts | set_authority
//@spec
        ensures *final(self) == (Parts { authority: Some(authority), ..*old(self) })
//@end
}
pub open spec fn same_but(a: Headers, b: Headers, v: Hv) -> bool { b.stream_id == a.stream_id && b.stream_dep == a.stream_dep && b.flags == a.flags && b.hv() == v }
impl Headers {
//@fn src/http/http2/frame/headers.rs | impl Headers | trailers
//@ret r
//@spec
        ensures r.stream_id == stream_id, r.flags.b == 0, r.stream_dep is None, r.hv() == (HeaderBlock { fields, is_over_size: false, parts }).hv()
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | empty
//@ret r
//@spec
        ensures r.stream_id.0 == 0, r.flags.b == 0, r.stream_dep is None, r.hv() == no_hv()
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | set_method
//@spec
        ensures same_but(*old(self), *final(self), Hv { method: Some(method.text()), ..old(self).hv() })
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | set_scheme
//@spec
        ensures same_but(*old(self), *final(self), Hv { scheme: Some(scheme.text()), ..old(self).hv() })
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | set_authority
//@spec
        ensures same_but(*old(self), *final(self), Hv { authority: Some(authority.bytes()), ..old(self).hv() })
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | set_path
//@spec
        ensures same_but(*old(self), *final(self), Hv { path: Some(path.bytes()), ..old(self).hv() })
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | set_status
//@spec
        ensures same_but(*old(self), *final(self), Hv { status: Some(status.code() as int), ..old(self).hv() })
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | method
//@ret r
//@spec
        ensures *final(self) == *old(self), (match *r { Some(x) => Some(x.text()), None => None }) == old(self).hv().method
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | scheme
//@ret r
//@spec
        ensures *final(self) == *old(self), (match *r { Some(x) => Some(x.text()), None => None }) == old(self).hv().scheme
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | authority
//@ret r
//@spec
        ensures *final(self) == *old(self), (match *r { Some(x) => Some(x.bytes()), None => None }) == old(self).hv().authority
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | path
//@ret r
//@spec
        ensures *final(self) == *old(self), (match *r { Some(x) => Some(x.bytes()), None => None }) == old(self).hv().path
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | status
//@ret r
//@spec
        ensures *final(self) == *old(self), (match *r { Some(x) => Some(x.code() as int), None => None }) == old(self).hv().status
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | stream_id
//@ret r
//@spec
        ensures r == self.stream_id
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | flags
//@ret r
//@spec
        ensures r == self.flags
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | is_end_headers
//@ret r
//@spec
        ensures r == (self.flags.b & 4 == 4)
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | is_end_stream
//@ret r
//@spec
        ensures r == (self.flags.b & 1 == 1)
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | set_end_headers
//@spec
        ensures final(self).flags.b == old(self).flags.b | 4, final(self).stream_id == old(self).stream_id, final(self).stream_dep == old(self).stream_dep, final(self).hv() == old(self).hv()
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | set_end_stream
//@spec
        ensures final(self).flags.b == old(self).flags.b | 1, final(self).stream_id == old(self).stream_id, final(self).stream_dep == old(self).stream_dep, final(self).hv() == old(self).hv()
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | is_over_size
//@ret r
//@spec
        ensures r == self.header_block.is_over_size
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | into_parts
//@ret r
//@spec
        ensures (HeaderBlock { fields: r.1, is_over_size: false, parts: r.0 }).hv() == self.hv(), r.0 == self.header_block.parts, r.1 == self.header_block.fields
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | fields
//@ret r
//@spec
        ensures r.m() == self.hv().fields
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | into_fields
//@ret r
//@spec
        ensures r.m() == self.hv().fields
//@end
//@fn src/http/http2/frame/headers.rs | impl Headers | is_informational
//@ret r
//@spec
        ensures r == (match self.hv().status { Some(n) => 100 <= n < 200, None => false })
//@end
}
}
fn main() {}

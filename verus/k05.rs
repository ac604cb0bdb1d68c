//@import k06.rs
//@import h2_encoder.rs
//@include bin_model.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub \bString\b => Text
//@globsub \bSelf\s*::\s*encode_integer_into\b => Encoder::encode_integer_into
//@globsub \bself\s*\.\s*index\s*\.\s*(write|read)\(\)\s*\.\s*unwrap\(\) => self.index
//@globsub Arc<RwLock<HeaderIndex>> => HeaderIndex
//@globsub io\s*::\s*Result\s*<\s*\(\s*\)\s*> => Result<(), IoError>
//@globsub &(header\.\d\.as_bytes\(\)) => \1
verus! {
// ================= what an encoder may write =================
/// a Huffman-coded string literal
pub open spec fn is_str(o: Seq<u8>, s: Seq<u8>) -> bool { exists|h: Seq<u8>| is_huff(h, s) && #[trigger] (int_octets(h.len(), 7, 0x80) + h) == o }
/// one field in one of three forms, and the state after it
pub open spec fn emits(st: HState, e: Ent, o: Seq<u8>, st2: HState) -> bool {
    ||| exists|i: nat| #[trigger] int_octets(i, 7, 0x80) == o && (entry(st.t, i as int) matches Some(x) && same(x.0, e.0) && x.1 == e.1) && st2 == st
    ||| exists|i: nat, v: Seq<u8>| #[trigger] (int_octets(i, 6, 0x40) + v) == o && (entry(st.t, i as int) matches Some(x) && same(x.0, e.0)) && is_str(v, e.1) && st2 == with(st, e)
    ||| exists|n: Seq<u8>, v: Seq<u8>| #[trigger] (seq![0x40u8] + (n + v)) == o && is_str(n, fold(e.0)) && is_str(v, e.1) && st2 == with(st, e)
}
pub open spec fn emits_all(st: HState, l: Seq<Ent>, o: Seq<u8>, st2: HState) -> bool decreases l.len() {
    if l.len() == 0 { o.len() == 0 && st2 == st }
    else { exists|a: Seq<u8>, b: Seq<u8>, m: HState| #[trigger] (a + b) == o && emits_all(st, l.drop_last(), a, m) && #[trigger] emits(m, l.last(), b, st2) }
}
pub open spec fn small(e: Ent) -> bool { e.0.len() < 67108864 && e.1.len() < 67108864 }
pub open spec fn foldt(t: Seq<Ent>) -> Seq<Ent> { t.map_values(|e: Ent| (fold(e.0), e.1)) }
/// the decoder's table holds what the encoder's holds, names in lower case
pub open spec fn in_step(e: HState, d: HState) -> bool { d.t == foldt(e.t) && d.max == e.max && e.max <= u32::MAX && tsize(e.t) <= e.max }
}
verus! {

pub trait FieldSource<'b> {
    spec fn left(&self) -> Seq<Ent>;
    fn next(&mut self) -> (r: Option<(&'b HeaderName, &'b HeaderValue)>)
        ensures match r { Some((n, v)) => old(self).left().len() > 0 && (n.bytes(), v.bytes()) == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() };
}
pub proof fn seq_cats()
    ensures forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ((a + b) + c) == a + (b + c), forall|s: Seq<u8>| #[trigger] hlower(s) == fold(s), forall|x: [u8; 1]| #[trigger] x@ == seq![x@[0]]
{
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ((a + b) + c) == a + (b + c) by { assert(a + b + c =~= a + (b + c)); }
    assert forall|s: Seq<u8>| #[trigger] hlower(s) == fold(s) by { assert(hlower(s) =~= fold(s)); }
    assert forall|x: [u8; 1]| #[trigger] x@ == seq![x@[0]] by { assert(x@ =~= seq![x@[0]]); }
}
pub open spec fn ent2(h: (&HeaderName, &HeaderValue)) -> Ent { (h.0.bytes(), h.1.bytes()) }
impl HEncoder {
    pub open spec fn st(&self) -> HState { HState { t: self.index.ents(), max: self.index.max_size as nat, limit: self.index.limit_size as nat } }
    pub open spec fn wf(&self) -> bool { self.index.wf() && self.index.limit_size <= u32::MAX }
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_string_literal
//@ret r
//@sub &value\b => value.as_slice()
//@spec
        ensures r is Ok, final(buf).taken() == old(buf).taken(), *final(self) == *old(self), exists|s: Seq<u8>| is_str(s, octet_str@) && final(buf).out() == #[trigger] (old(buf).out() + s)
//@at start
        proof { seq_cats(); }
//@end
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_string_literal_lower
//@ret r
//@sub &value\b => value.as_slice()
//@spec
        ensures r is Ok, final(buf).taken() == old(buf).taken(), *final(self) == *old(self), exists|s: Seq<u8>| is_str(s, fold(octet_str@)) && final(buf).out() == #[trigger] (old(buf).out() + s)
//@at start
        proof { seq_cats(); }
//@end
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_literal
//@ret r
//@spec
        requires should_index
        ensures r is Ok, final(buf).taken() == old(buf).taken(), *final(self) == *old(self), exists|n: Seq<u8>, v: Seq<u8>| is_str(n, fold(header.0.bytes())) && is_str(v, header.1.bytes()) && final(buf).out() == old(buf).out() + #[trigger] (seq![0x40u8] + (n + v))
//@at start
        proof { seq_cats(); }
//@end
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_indexed_name
//@ret r
//@spec
        requires should_index
        ensures r is Ok, final(buf).taken() == old(buf).taken(), *final(self) == *old(self), exists|v: Seq<u8>| is_str(v, header.1.bytes()) && final(buf).out() == old(buf).out() + #[trigger] (int_octets(header.0 as nat, 6, 0x40) + v)
//@at start
        proof { seq_cats(); }
//@end
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_indexed
//@ret r
//@spec
        ensures r is Ok, final(buf).taken() == old(buf).taken(), final(buf).out() == old(buf).out() + int_octets(index as nat, 7, 0x80)
//@at start
        proof { seq_cats(); }
//@end
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_header_into
//@ret r
//@spec
        requires old(self).wf(), small(ent2(header))
        ensures r is Ok, final(writer).taken() == old(writer).taken(), final(self).wf(), final(self).max_frame_size == old(self).max_frame_size, exists|o: Seq<u8>| emits(old(self).st(), ent2(header), o, final(self).st()) && final(writer).out() == #[trigger] (old(writer).out() + o)
//@at start
        proof { seq_cats(); lemma_tsize_count(self.st().t); }
//@end
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_into
//@ret r
//@mustsub I\s*:\s*Iterator\s*<\s*Item\s*=\s*\(&'b HeaderName\s*,\s*&'b HeaderValue\)\s*> => I: FieldSource<'b>
//@forloop 0
//@spec
        requires old(self).wf(), forall|i: int| 0 <= i < headers.left().len() ==> small(#[trigger] headers.left()[i])
        ensures r is Ok, final(writer).taken() == old(writer).taken(), final(self).wf(), exists|o: Seq<u8>| emits_all(old(self).st(), headers.left(), o, final(self).st()) && final(writer).out() == #[trigger] (old(writer).out() + o)
//@loop 0
            invariant self.wf(), writer.taken() == old(writer).taken(), forall|i: int| 0 <= i < it0.left().len() ==> small(#[trigger] it0.left()[i]), it0.left().len() <= all.len(), it0.left() == all.skip(all.len() - it0.left().len()), all == headers0,
                exists|o: Seq<u8>| emits_all(old(self).st(), all.take(all.len() - it0.left().len()), o, self.st()) && writer.out() == #[trigger] (old(writer).out() + o)
            ensures it0.left().len() == 0
            decreases it0.left().len()
//@at start
        let ghost (all, headers0): (Seq<Ent>, Seq<Ent>) = (headers.left(), headers.left());
        proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); assert(writer.out() + Seq::<u8>::empty() =~= writer.out()); seq_cats(); }
//@at start 0
            let ghost (l0, s0, w0): (Seq<Ent>, HState, Seq<u8>) = (it0.left(), self.st(), writer.out());
            let ghost d0: Seq<Ent> = all.take(all.len() - l0.len());
            let ghost o0: Seq<u8> = choose|o: Seq<u8>| emits_all(old(self).st(), d0, o, s0) && w0 == #[trigger] (old(writer).out() + o);
            proof { if l0.len() > 0 { assert(all[all.len() - l0.len()] == l0[0]); assert(small(l0[0])); assert(l0.skip(1) =~= all.skip(all.len() - l0.len() + 1)); } seq_cats(); }
//@at end 0
            proof {
                let d1 = all.take(all.len() - it0.left().len()); assert(d1.drop_last() =~= d0); assert(d1.last() == l0[0]);
                let b = choose|o: Seq<u8>| emits(s0, l0[0], o, self.st()) && writer.out() == #[trigger] (w0 + o);
                assert(emits_all(old(self).st(), d1.drop_last(), o0, s0)); assert(emits_all(old(self).st(), d1, o0 + b, self.st())); assert(writer.out() == old(writer).out() + (o0 + b));
            }
//@at after 0
        proof { assert(all.take(all.len() as int) =~= all); }
//@end
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode
//@ret r
//@mustsub I\s*:\s*Iterator\s*<\s*Item\s*=\s*\(&'b HeaderName\s*,\s*&'b HeaderValue\)\s*> => I: FieldSource<'b>
//@spec
        requires old(self).wf(), forall|i: int| 0 <= i < headers.left().len() ==> small(#[trigger] headers.left()[i])
        ensures final(self).wf(), emits_all(old(self).st(), headers.left(), r.out(), final(self).st())
//@end
}
// ================= the property: decoder and encoder stay in step =================
/// folding ASCII letters keeps UTF-8 well formed
pub axiom fn utf8_fold(s: Seq<u8>) ensures utf8(s) ==> utf8(fold(s));
pub open spec fn is_lowered(s: Seq<u8>) -> bool decreases s.len() { s.len() == 0 || (!(65 <= s.last() <= 90) && is_lowered(s.drop_last())) }
pub open spec fn ck_low(n: int) -> bool decreases n { if n <= 0 { true } else { is_lowered(rfc_name(n - 1)) && ck_low(n - 1) } }
proof fn low_facts() ensures ck_low(61) { reveal(rfc_name); assert(ck_low(61)) by (compute_only); }
proof fn low_all(n: int, i: int) requires ck_low(n), 0 <= i < n ensures is_lowered(rfc_name(i)) decreases n { if i < n - 1 { low_all(n - 1, i); } }
proof fn low_fold(s: Seq<u8>) requires is_lowered(s) ensures fold(s) == s decreases s.len()
{ if s.len() > 0 { low_fold(s.drop_last()); assert(fold(s) =~= fold(s.drop_last()).push(low(s.last()))); assert(s =~= s.drop_last().push(s.last())); } else { assert(fold(s) =~= s); } }
/// the names of the static table are in lower case
pub proof fn lemma_static_low(i: int) requires 0 <= i < 61 ensures fold(rfc_name(i)) == rfc_name(i) { low_facts(); low_all(61, i); low_fold(rfc_name(i)); }
pub open spec fn folde(e: Ent) -> Ent { (fold(e.0), e.1) }
pub proof fn lemma_entry_fold(t: Seq<Ent>, i: int)
    ensures entry(foldt(t), i) == (match entry(t, i) { Some(e) => Some(folde(e)), None => None })
{ if 1 <= i <= 61 { lemma_static_low(i - 1); } }
pub proof fn lemma_tsize_fold(t: Seq<Ent>) ensures tsize(foldt(t)) == tsize(t) decreases t.len()
{ if t.len() > 0 { lemma_tsize_fold(t.drop_last()); assert(foldt(t).drop_last() =~= foldt(t.drop_last())); assert(foldt(t).last() == folde(t.last())); assert(fold(t.last().0).len() == t.last().0.len()); } }
pub proof fn lemma_evict_fold(t: Seq<Ent>, max: nat) ensures foldt(evict(t, max)) == evict(foldt(t), max) decreases t.len()
{ lemma_tsize_fold(t); if tsize(t) > max && t.len() > 0 { lemma_evict_fold(t.drop_last(), max); assert(foldt(t).drop_last() =~= foldt(t.drop_last())); } }
pub proof fn lemma_first_octet(v: nat)
    ensures int_octets(v, 7, 0x80).len() > 0, int_octets(v, 7, 0x80)[0] >= 128, int_octets(v, 6, 0x40).len() > 0, 64 <= int_octets(v, 6, 0x40)[0] < 128
{
    let a = v as u8;
    if v < 127 { assert((0x80u8 & !127u8) | a >= 128) by (bit_vector); } else { assert((0x80u8 & !127u8) | 127u8 >= 128) by (bit_vector); }
    if v < 63 { assert(a < 63); assert((0x40u8 & !63u8) | a >= 64 && (0x40u8 & !63u8) | a < 128) by (bit_vector) requires a < 63; } else { assert((0x40u8 & !63u8) | 63u8 >= 64 && (0x40u8 & !63u8) | 63u8 < 128) by (bit_vector); }
}
pub proof fn lemma_is_str(o: Seq<u8>, s: Seq<u8>, rest: Seq<u8>)
    requires is_str(o, s), s.len() < 67108864 ensures str_read(o + rest) == Some((s, o.len())), o.len() > 0
{
    let h = choose|h: Seq<u8>| is_huff(h, s) && #[trigger] (int_octets(h.len(), 7, 0x80) + h) == o;
    let n = int_octets(h.len(), 7, 0x80);
    let k = choose|k: nat| k < 8 && #[trigger] (henc(s) + ones(k)) == obits(h);
    lemma_henc_len(s); assert(obits(h).len() == henc(s).len() + k); assert(obits(h).len() == 8 * h.len());
    lemma_first_octet(h.len()); k01_roundtrip(h.len(), 7, 0x80, h + rest);
    assert(o + rest =~= n + (h + rest)); assert((o + rest).subrange(n.len() as int, (n.len() + h.len()) as int) =~= h); assert((o + rest)[0] == n[0]);
    k02_roundtrip(h, s);
}
pub proof fn lemma_with_fold(e: HState, x: Ent, d: HState)
    requires in_step(e, d) ensures in_step(with(e, x), with(d, folde(x)))
{ assert(foldt(seq![x] + e.t) =~= seq![folde(x)] + foldt(e.t)); lemma_evict_fold(seq![x] + e.t, e.max); lemma_evict(seq![x] + e.t, e.max); }
pub open spec fn freads(o: Seq<u8>, rest: Seq<u8>, x: Ent, d: HState, d2: HState) -> bool { o.len() > 0 && rep_read(o + rest, d) == Some((seq![folde(x)], d2, o.len())) }
#[verifier::spinoff_prover]
pub proof fn lemma_indexed(e: HState, x: Ent, i: nat, d: HState, rest: Seq<u8>)
    requires in_step(e, d), entry(e.t, i as int) matches Some(y) && same(y.0, x.0) && y.1 == x.1
    ensures freads(int_octets(i, 7, 0x80), rest, x, d, d)
{
    hide(int_octets); hide(int_read); hide(entry); hide(literal_read);
    let o = int_octets(i, 7, 0x80);
    lemma_entry_bound(e, i as int); lemma_first_octet(i); k01_roundtrip(i, 7, 0x80, rest); lemma_entry_fold(e.t, i as int); assert((o + rest)[0] == o[0]);
}
pub proof fn lemma_entry_bound(e: HState, i: int)
    requires entry(e.t, i) is Some, tsize(e.t) <= u32::MAX ensures 0 < i < 200000000
{ lemma_tsize_count(e.t); }
#[verifier::spinoff_prover]
pub proof fn lemma_named(e: HState, x: Ent, i: nat, v: Seq<u8>, d: HState, rest: Seq<u8>)
    requires in_step(e, d), small(x), entry(e.t, i as int) matches Some(y) && same(y.0, x.0), is_str(v, x.1)
    ensures freads(int_octets(i, 6, 0x40) + v, rest, x, d, with(d, folde(x)))
{
    hide(int_octets); hide(int_read); hide(entry); hide(str_read); hide(is_str); hide(evict); hide(tsize);
    let n = int_octets(i, 6, 0x40); let o = n + v; let s = o + rest;
    lemma_entry_bound(e, i as int); lemma_first_octet(i); k01_roundtrip(i, 6, 0x40, v + rest); lemma_entry_fold(e.t, i as int); assert(s =~= n + (v + rest)); assert(s[0] == n[0]);
    assert(s.skip(n.len() as int) =~= v + rest); lemma_is_str(v, x.1, rest);
    assert(name_read(s, 6, d) == Some((fold(x.0), n.len())));
    assert(literal_read(s, 6, d) == Some((folde(x), o.len())));
}
#[verifier::spinoff_prover]
pub proof fn lemma_spelled(x: Ent, n: Seq<u8>, v: Seq<u8>, d: HState, rest: Seq<u8>)
    requires small(x), utf8(x.0), is_str(n, fold(x.0)), is_str(v, x.1)
    ensures freads(seq![0x40u8] + (n + v), rest, x, d, with(d, folde(x)))
{
    hide(entry); hide(str_read); hide(is_str); hide(evict); hide(tsize); hide(tail_end); hide(tail_value);
    let o = seq![0x40u8] + (n + v); let s = o + rest;
    assert(s[0] == 0x40); assert(0x40nat % 64 == 0) by (compute); assert(int_read(s, 6) == Some((0nat, 1nat)));
    assert(s.skip(1) =~= n + (v + rest)); lemma_is_str(n, fold(x.0), v + rest); lemma_is_str(v, x.1, rest);
    assert(s.skip((1 + n.len()) as int) =~= v + rest); utf8_fold(x.0); lossy_utf8(fold(x.0));
    assert(name_read(s, 6, d) == Some((fold(x.0), 1 + n.len())));
    assert(literal_read(s, 6, d) == Some((folde(x), o.len())));
}
#[verifier::spinoff_prover]
pub proof fn thm_field(e: HState, x: Ent, o: Seq<u8>, e2: HState, d: HState, rest: Seq<u8>) -> (d2: HState)
    requires in_step(e, d), small(x), utf8(x.0), emits(e, x, o, e2)
    ensures freads(o, rest, x, d, d2), in_step(e2, d2), d2.limit == d.limit
{
    hide(entry); hide(is_str); hide(evict); hide(tsize); hide(rep_read); hide(int_octets);
    lemma_with_fold(e, x, d);
    if exists|i: nat| #[trigger] int_octets(i, 7, 0x80) == o && (entry(e.t, i as int) matches Some(y) && same(y.0, x.0) && y.1 == x.1) && e2 == e {
        let i = choose|i: nat| #[trigger] int_octets(i, 7, 0x80) == o && (entry(e.t, i as int) matches Some(y) && same(y.0, x.0) && y.1 == x.1) && e2 == e;
        lemma_indexed(e, x, i, d, rest); d
    } else if exists|i: nat, v: Seq<u8>| #[trigger] (int_octets(i, 6, 0x40) + v) == o && (entry(e.t, i as int) matches Some(y) && same(y.0, x.0)) && is_str(v, x.1) && e2 == with(e, x) {
        let (i, v) = choose|i: nat, v: Seq<u8>| #[trigger] (int_octets(i, 6, 0x40) + v) == o && (entry(e.t, i as int) matches Some(y) && same(y.0, x.0)) && is_str(v, x.1) && e2 == with(e, x);
        lemma_named(e, x, i, v, d, rest); with(d, folde(x))
    } else {
        let (n, v) = choose|n: Seq<u8>, v: Seq<u8>| #[trigger] (seq![0x40u8] + (n + v)) == o && is_str(n, fold(x.0)) && is_str(v, x.1) && e2 == with(e, x);
        lemma_spelled(x, n, v, d, rest); with(d, folde(x))
    }
}
/// a block written for l is read as l, names in lower case, whatever follows it; and the tables stay equal
#[verifier::spinoff_prover]
pub proof fn thm_block(e: HState, l: Seq<Ent>, o: Seq<u8>, e2: HState, d: HState, rest: Seq<u8>) -> (d2: HState)
    requires in_step(e, d), emits_all(e, l, o, e2), forall|i: int| 0 <= i < l.len() ==> small(#[trigger] l[i]) && utf8(l[i].0)
    ensures in_step(e2, d2), d2.limit == d.limit, block_read(o + rest, d) == after(foldt(l), block_read(rest, d2))
    decreases l.len()
{
    hide(block_read); hide(rep_read); hide(emits); hide(tsize); hide(evict);
    if l.len() == 0 {
        assert(o + rest =~= rest); assert(foldt(l) =~= Seq::<Ent>::empty()); if let Some((m, st)) = block_read(rest, d) { assert(Seq::<Ent>::empty() + m =~= m); } d
    } else {
        let (a, b, m) = choose|a: Seq<u8>, b: Seq<u8>, m: HState| #[trigger] (a + b) == o && emits_all(e, l.drop_last(), a, m) && #[trigger] emits(m, l.last(), b, e2);
        assert forall|i: int| 0 <= i < l.drop_last().len() implies small(#[trigger] l.drop_last()[i]) && utf8(l.drop_last()[i].0) by { assert(l.drop_last()[i] == l[i]); }
        let dm = thm_block(e, l.drop_last(), a, m, d, b + rest);
        assert(o + rest =~= a + (b + rest)); assert(small(l[l.len() - 1]));
        let d2 = thm_field(m, l.last(), b, e2, dm, rest);
        let g = foldt(l.drop_last());
        lemma_block_step(g, b + rest, dm); assert((b + rest).skip(b.len() as int) =~= rest); assert(foldt(l) =~= g + seq![folde(l.last())]);
        d2
    }
}
/// a whole block
pub proof fn thm_in_step(e: HState, l: Seq<Ent>, o: Seq<u8>, e2: HState, d: HState)
    requires in_step(e, d), emits_all(e, l, o, e2), forall|i: int| 0 <= i < l.len() ==> small(#[trigger] l[i]) && utf8(l[i].0)
    ensures block_read(o, d) matches Some((m, d2)) && m == foldt(l) && in_step(e2, d2)
{ let d2 = thm_block(e, l, o, e2, d, Seq::empty()); assert(o + Seq::<u8>::empty() =~= o); assert(foldt(l) + Seq::<Ent>::empty() =~= foldt(l)); }
/// a table size set on both sides
pub proof fn thm_resize(e: HState, d: HState, n: nat)
    requires in_step(e, d), n <= u32::MAX
    ensures in_step(HState { t: evict(e.t, n), max: n, limit: n }, HState { t: evict(d.t, n), max: n, limit: n })
{ lemma_evict_fold(e.t, n); lemma_evict(e.t, n); }
/// fresh tables
pub proof fn thm_start(a: HeaderIndex, b: HeaderIndex)
    requires a.ents() == Seq::<Ent>::empty(), b.ents() == Seq::<Ent>::empty(), a.max_size == b.max_size, a.max_size <= u32::MAX
    ensures in_step(HState { t: a.ents(), max: a.max_size as nat, limit: a.limit_size as nat }, HState { t: b.ents(), max: b.max_size as nat, limit: b.limit_size as nat })
{ assert(foldt(Seq::<Ent>::empty()) =~= Seq::<Ent>::empty()); }
}
fn main() {}

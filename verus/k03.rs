//@import hname.rs
//@include ents.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub \bString\b => Text
//@globsub \bSTATIC_TABLE_RAW\.iter\(\) => raw.iter()
//@globsub \bSTATIC_TABLE\b => static_table_ref()
//@globsub \bEMPTY_HEADER_VALUE\b => empty_header_value_ref()
//@globsub \bHashMap\b => HMap
//@include rfc_table.rs
verus! {
use std::collections::VecDeque;
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::back] (v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 };
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::get] (v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() };
// std::collections::HashMap, keyed by the equivalence class of its key (equal keys hash equally: see hname.rs)
pub trait HKey { spec fn key(&self) -> Seq<u8>; }
impl HKey for HeaderName { open spec fn key(&self) -> Seq<u8> { fold(self.bytes()) } }
impl HKey for HeaderValue { open spec fn key(&self) -> Seq<u8> { self.bytes() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K: HKey, V> HMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<u8>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: HMap<K, V>) ensures r.m() == Map::<Seq<u8>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self).m() == old(self).m().insert(k.key(), v) { unimplemented!() }
    // the index operator
    #[verifier::external_body]
    pub fn at(&self, k: &K) -> (r: &V) requires self.m().dom().contains(k.key()) ensures *r == self.m()[k.key()] { unimplemented!() }
    // entry(k).and_modify(|v| ..)
    #[verifier::external_body]
    pub fn modify(&mut self, k: K) -> (r: &mut V) requires old(self).m().dom().contains(k.key())
        ensures *r == old(self).m()[k.key()], final(self).m() == old(self).m().insert(k.key(), *final(r)) { unimplemented!() }
}
//@item src/http/http2/hpack/header_index.rs | static | STATIC_TABLE_RAW
//@sub (?s)^static STATIC_TABLE_RAW\s*:\s*&'static\s*\[(.*?)\]\s*=\s*&(\[.*);$ => fn static_table_raw() -> (r: Vec<\1>) ensures r@.len() == 61, forall|i: int| 0 <= i < 61 ==> (#[trigger] r@[i]).0.bytes() == rfc_name(i) && r@[i].1.bytes() == rfc_value(i) \n{ let r: Vec<\1> = vec!\2; proof { reveal(rfc_name); reveal(rfc_value); assert(r@[0].0.bytes() =~= rfc_name(0) && r@[0].1.bytes() =~= rfc_value(0)); assert(r@[1].0.bytes() =~= rfc_name(1) && r@[1].1.bytes() =~= rfc_value(1)); assert(r@[2].0.bytes() =~= rfc_name(2) && r@[2].1.bytes() =~= rfc_value(2)); assert(r@[3].0.bytes() =~= rfc_name(3) && r@[3].1.bytes() =~= rfc_value(3)); assert(r@[4].0.bytes() =~= rfc_name(4) && r@[4].1.bytes() =~= rfc_value(4)); assert(r@[5].0.bytes() =~= rfc_name(5) && r@[5].1.bytes() =~= rfc_value(5)); assert(r@[6].0.bytes() =~= rfc_name(6) && r@[6].1.bytes() =~= rfc_value(6)); assert(r@[7].0.bytes() =~= rfc_name(7) && r@[7].1.bytes() =~= rfc_value(7)); assert(r@[8].0.bytes() =~= rfc_name(8) && r@[8].1.bytes() =~= rfc_value(8)); assert(r@[9].0.bytes() =~= rfc_name(9) && r@[9].1.bytes() =~= rfc_value(9)); assert(r@[10].0.bytes() =~= rfc_name(10) && r@[10].1.bytes() =~= rfc_value(10)); assert(r@[11].0.bytes() =~= rfc_name(11) && r@[11].1.bytes() =~= rfc_value(11)); assert(r@[12].0.bytes() =~= rfc_name(12) && r@[12].1.bytes() =~= rfc_value(12)); assert(r@[13].0.bytes() =~= rfc_name(13) && r@[13].1.bytes() =~= rfc_value(13)); assert(r@[14].0.bytes() =~= rfc_name(14) && r@[14].1.bytes() =~= rfc_value(14)); assert(r@[15].0.bytes() =~= rfc_name(15) && r@[15].1.bytes() =~= rfc_value(15)); assert(r@[16].0.bytes() =~= rfc_name(16) && r@[16].1.bytes() =~= rfc_value(16)); assert(r@[17].0.bytes() =~= rfc_name(17) && r@[17].1.bytes() =~= rfc_value(17)); assert(r@[18].0.bytes() =~= rfc_name(18) && r@[18].1.bytes() =~= rfc_value(18)); assert(r@[19].0.bytes() =~= rfc_name(19) && r@[19].1.bytes() =~= rfc_value(19)); assert(r@[20].0.bytes() =~= rfc_name(20) && r@[20].1.bytes() =~= rfc_value(20)); assert(r@[21].0.bytes() =~= rfc_name(21) && r@[21].1.bytes() =~= rfc_value(21)); assert(r@[22].0.bytes() =~= rfc_name(22) && r@[22].1.bytes() =~= rfc_value(22)); assert(r@[23].0.bytes() =~= rfc_name(23) && r@[23].1.bytes() =~= rfc_value(23)); assert(r@[24].0.bytes() =~= rfc_name(24) && r@[24].1.bytes() =~= rfc_value(24)); assert(r@[25].0.bytes() =~= rfc_name(25) && r@[25].1.bytes() =~= rfc_value(25)); assert(r@[26].0.bytes() =~= rfc_name(26) && r@[26].1.bytes() =~= rfc_value(26)); assert(r@[27].0.bytes() =~= rfc_name(27) && r@[27].1.bytes() =~= rfc_value(27)); assert(r@[28].0.bytes() =~= rfc_name(28) && r@[28].1.bytes() =~= rfc_value(28)); assert(r@[29].0.bytes() =~= rfc_name(29) && r@[29].1.bytes() =~= rfc_value(29)); assert(r@[30].0.bytes() =~= rfc_name(30) && r@[30].1.bytes() =~= rfc_value(30)); assert(r@[31].0.bytes() =~= rfc_name(31) && r@[31].1.bytes() =~= rfc_value(31)); assert(r@[32].0.bytes() =~= rfc_name(32) && r@[32].1.bytes() =~= rfc_value(32)); assert(r@[33].0.bytes() =~= rfc_name(33) && r@[33].1.bytes() =~= rfc_value(33)); assert(r@[34].0.bytes() =~= rfc_name(34) && r@[34].1.bytes() =~= rfc_value(34)); assert(r@[35].0.bytes() =~= rfc_name(35) && r@[35].1.bytes() =~= rfc_value(35)); assert(r@[36].0.bytes() =~= rfc_name(36) && r@[36].1.bytes() =~= rfc_value(36)); assert(r@[37].0.bytes() =~= rfc_name(37) && r@[37].1.bytes() =~= rfc_value(37)); assert(r@[38].0.bytes() =~= rfc_name(38) && r@[38].1.bytes() =~= rfc_value(38)); assert(r@[39].0.bytes() =~= rfc_name(39) && r@[39].1.bytes() =~= rfc_value(39)); assert(r@[40].0.bytes() =~= rfc_name(40) && r@[40].1.bytes() =~= rfc_value(40)); assert(r@[41].0.bytes() =~= rfc_name(41) && r@[41].1.bytes() =~= rfc_value(41)); assert(r@[42].0.bytes() =~= rfc_name(42) && r@[42].1.bytes() =~= rfc_value(42)); assert(r@[43].0.bytes() =~= rfc_name(43) && r@[43].1.bytes() =~= rfc_value(43)); assert(r@[44].0.bytes() =~= rfc_name(44) && r@[44].1.bytes() =~= rfc_value(44)); assert(r@[45].0.bytes() =~= rfc_name(45) && r@[45].1.bytes() =~= rfc_value(45)); assert(r@[46].0.bytes() =~= rfc_name(46) && r@[46].1.bytes() =~= rfc_value(46)); assert(r@[47].0.bytes() =~= rfc_name(47) && r@[47].1.bytes() =~= rfc_value(47)); assert(r@[48].0.bytes() =~= rfc_name(48) && r@[48].1.bytes() =~= rfc_value(48)); assert(r@[49].0.bytes() =~= rfc_name(49) && r@[49].1.bytes() =~= rfc_value(49)); assert(r@[50].0.bytes() =~= rfc_name(50) && r@[50].1.bytes() =~= rfc_value(50)); assert(r@[51].0.bytes() =~= rfc_name(51) && r@[51].1.bytes() =~= rfc_value(51)); assert(r@[52].0.bytes() =~= rfc_name(52) && r@[52].1.bytes() =~= rfc_value(52)); assert(r@[53].0.bytes() =~= rfc_name(53) && r@[53].1.bytes() =~= rfc_value(53)); assert(r@[54].0.bytes() =~= rfc_name(54) && r@[54].1.bytes() =~= rfc_value(54)); assert(r@[55].0.bytes() =~= rfc_name(55) && r@[55].1.bytes() =~= rfc_value(55)); assert(r@[56].0.bytes() =~= rfc_name(56) && r@[56].1.bytes() =~= rfc_value(56)); assert(r@[57].0.bytes() =~= rfc_name(57) && r@[57].1.bytes() =~= rfc_value(57)); assert(r@[58].0.bytes() =~= rfc_name(58) && r@[58].1.bytes() =~= rfc_value(58)); assert(r@[59].0.bytes() =~= rfc_name(59) && r@[59].1.bytes() =~= rfc_value(59)); assert(r@[60].0.bytes() =~= rfc_name(60) && r@[60].1.bytes() =~= rfc_value(60)); } r\n}
pub open spec fn is_static(s: Seq<(HeaderName, HeaderValue)>) -> bool { s.len() == 61 && forall|i: int| 0 <= i < 61 ==> ent(#[trigger] s[i]) == rfc(i) }
//@fn src/http/http2/hpack/header_index.rs | lazy_static | STATIC_TABLE
//@ret r
//@spec
        ensures is_static(r@),
//@loop 0
            invariant m@.len() == it0.index@, it0.seq().len() == 61, forall|i: int| 0 <= i < it0.index@ ==> ent(#[trigger] m@[i]) == rfc(i),
                forall|i: int| 0 <= i < 61 ==> (#[trigger] it0.seq()[i]).0.bytes() == rfc_name(i) && it0.seq()[i].1.bytes() == rfc_value(i),
//@at start
        let raw = static_table_raw();
//@end
// lazy_static!: the value of the block
#[verifier::external_body]
pub fn static_table_ref() -> (r: &'static Vec<(HeaderName, HeaderValue)>) ensures is_static(r@) { unimplemented!() }
//@fn src/http/http2/hpack/header_index.rs | lazy_static | EMPTY_HEADER_VALUE
//@ret r
//@sub vec!\[\] => Vec::new()
//@spec
        ensures r.bytes() == Seq::<u8>::empty(),
//@at start
        proof { assert forall|v: Seq<u8>| v.len() == 0 implies v == Seq::<u8>::empty() by { assert(v =~= Seq::empty()); } }
//@end
#[verifier::external_body]
pub fn empty_header_value_ref() -> (r: &'static HeaderValue) ensures r.bytes() == Seq::<u8>::empty() { unimplemented!() }

// ---- the dynamic table ----
pub open spec fn esize(e: Ent) -> nat { e.0.len() + e.1.len() + 32 }
pub open spec fn tsize(s: Seq<Ent>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { tsize(s.drop_last()) + esize(s.last()) } }
// what is left when entries are dropped from the end until the size fits
pub open spec fn evict(s: Seq<Ent>, max: nat) -> Seq<Ent> decreases s.len() { if tsize(s) <= max || s.len() == 0 { s } else { evict(s.drop_last(), max) } }
//@item src/http/http2/hpack/header_index.rs | struct | HeaderIndex
impl HeaderIndex {
    pub open spec fn ents(&self) -> Seq<Ent> { ents(self.table@) }
    pub open spec fn wf(&self) -> bool { self.size == tsize(self.ents()) && self.size <= self.max_size && self.max_size <= self.limit_size }
//@item src/http/http2/mod.rs | const | DEFAULT_SETTINGS_HEADER_TABLE_SIZE
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | new
//@ret r
//@sub DEFAULT_SETTINGS_HEADER_TABLE_SIZE => Self::DEFAULT_SETTINGS_HEADER_TABLE_SIZE
//@spec
        ensures r.wf(), r.ents() == Seq::<Ent>::empty(), r.max_size == 4096, r.limit_size == 4096,
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | with_size
//@ret r
//@spec
        ensures r.wf(), r.ents() == Seq::<Ent>::empty(), r.max_size == max_size, r.limit_size == max_size,
//@at start
        proof { assert(ents(Seq::empty()) =~= Seq::<Ent>::empty()); }
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | get_size
//@ret r
//@spec
        ensures r == self.size,
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | get_max_table_size
//@ret r
//@spec
        ensures r == self.max_size,
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | len
//@ret r
//@spec
        ensures r == self.ents().len(),
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | get
//@ret r
//@spec
        ensures match r { Some(x) => index < self.ents().len() && ent(*x) == self.ents()[index as int], None => index >= self.ents().len() },
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | consolidate_table
//@spec
        requires old(self).size == tsize(old(self).ents()),
        ensures final(self).ents() == evict(old(self).ents(), old(self).max_size as nat), final(self).size == tsize(final(self).ents()), final(self).size <= final(self).max_size,
            final(self).max_size == old(self).max_size, final(self).limit_size == old(self).limit_size,
//@loop 0
            invariant self.size == tsize(self.ents()), evict(self.ents(), self.max_size as nat) == evict(old(self).ents(), old(self).max_size as nat),
                self.max_size == old(self).max_size, self.limit_size == old(self).limit_size,
            decreases self.table@.len()
//@at start 0
            proof { if self.table@.len() > 0 { assert(ents(self.table@.drop_last()) =~= ents(self.table@).drop_last()); assert(ents(self.table@).last() == ent(self.table@.last())); } }
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | set_max_table_size
//@spec
        requires old(self).size == tsize(old(self).ents()),
        ensures final(self).wf(), final(self).max_size == new_max_size, final(self).limit_size == new_max_size, final(self).ents() == evict(old(self).ents(), new_max_size as nat),
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | update_max_table_size
//@ret r
//@spec
        requires old(self).wf(),
        ensures r == (new_max_size <= old(self).limit_size), final(self).wf(), final(self).limit_size == old(self).limit_size,
            r ==> final(self).max_size == new_max_size && final(self).ents() == evict(old(self).ents(), new_max_size as nat),
            !r ==> *final(self) == *old(self),
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | add_header
//@spec
        requires old(self).wf(), old(self).size + name.bytes().len() + value.bytes().len() + 32 <= usize::MAX,
        ensures final(self).wf(), final(self).max_size == old(self).max_size, final(self).limit_size == old(self).limit_size,
            final(self).ents() == evict(seq![(name.bytes(), value.bytes())] + old(self).ents(), old(self).max_size as nat),
//@at start
        proof { let e = (name.bytes(), value.bytes()); lemma_tsize_front(e, self.ents()); assert(ents(seq![(name, value)] + self.table@) =~= seq![e] + self.ents()); assert(seq![(name, value)] + self.table@ =~= self.table@.insert(0, (name, value))); }
//@end
}
pub proof fn lemma_tsize_front(e: Ent, s: Seq<Ent>)
    ensures tsize(seq![e] + s) == esize(e) + tsize(s) decreases s.len()
{
    let t = seq![e] + s;
    if s.len() == 0 { assert(t.drop_last() =~= Seq::empty()); assert(t.last() == e); assert(tsize(t.drop_last()) == 0); }
    else { assert(t.drop_last() =~= seq![e] + s.drop_last()); lemma_tsize_front(e, s.drop_last()); }
}
// eviction takes entries from the end only, as few as needed, and everything if even the first is too large
pub proof fn lemma_evict(s: Seq<Ent>, max: nat)
    ensures ({ let r = evict(s, max); &&& r == s.take(r.len() as int) &&& r.len() <= s.len() &&& tsize(r) <= max &&& forall|k: int| r.len() < k <= s.len() ==> tsize(#[trigger] s.take(k)) > max }),
        s.len() > 0 && esize(s[0]) > max ==> evict(s, max).len() == 0,
    decreases s.len()
{
    if tsize(s) <= max || s.len() == 0 { assert(s.take(s.len() as int) =~= s); if s.len() > 0 { lemma_first(s); } }
    else {
        lemma_evict(s.drop_last(), max);
        let r = evict(s, max);
        assert(s.drop_last().take(r.len() as int) =~= s.take(r.len() as int));
        assert forall|k: int| r.len() < k <= s.len() implies tsize(#[trigger] s.take(k)) > max by {
            if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.take(k) =~= s.drop_last().take(k)); }
        }
        if esize(s[0]) > max && s.len() == 1 { assert(r.len() == 0); }
    }
}
pub proof fn lemma_first(s: Seq<Ent>) requires s.len() > 0 ensures tsize(s) >= esize(s[0]) decreases s.len()
{ if s.len() > 1 { lemma_first(s.drop_last()); } else { assert(s.last() == s[0]); } }
}
fn main() {}

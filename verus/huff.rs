//@include prelude.rs
//@include huff_table.rs
verus! {
use vstd::std_specs::iter::IteratorSpec;
pub open spec fn bit8(b: u8, i: int) -> bool { (b >> (i as u8)) & 1 == 1 }
pub open spec fn bit32(b: u32, i: int) -> bool { (b >> (i as u32)) & 1 == 1 }
pub open spec fn bit64(b: u64, i: int) -> bool { (b >> (i as u64)) & 1 == 1 }
// the bits of a string of octets, most significant first
pub open spec fn obits(o: Seq<u8>) -> Seq<bool> { Seq::new(8 * o.len(), |i: int| bit8(o[i / 8], 7 - i % 8)) }
// the code of a symbol
#[verifier::opaque]
pub open spec fn hbits(s: int) -> Seq<bool> { Seq::new(hlen(s) as nat, |j: int| bit32(hcode(s), hlen(s) - 1 - j)) }
pub open spec fn henc(s: Seq<u8>) -> Seq<bool> decreases s.len() { if s.len() == 0 { Seq::empty() } else { henc(s.drop_last()) + hbits(s.last() as int) } }
pub open spec fn ones(k: nat) -> Seq<bool> { Seq::new(k, |i: int| true) }
// the octets o are the code of s padded with fewer than eight ones
pub open spec fn is_huff(o: Seq<u8>, s: Seq<u8>) -> bool { exists|k: nat| k < 8 && #[trigger] (henc(s) + ones(k)) == obits(o) }
// ---- facts of the table, by evaluation ----
pub open spec fn iv_lo(s: int) -> u32 { hcode(s) << (30 - hlen(s)) as u32 }
pub open spec fn iv_hi(s: int) -> u32 { (iv_lo(s) + (1u32 << (30 - hlen(s)) as u32)) as u32 }
pub open spec fn ck_sym(s: int) -> bool { 5 <= hlen(s) <= 30 && hcode(s) + 1 < (1u32 << hlen(s)) && 0 <= hrank(s) <= 255 && hsorted(hrank(s)) == s }
pub open spec fn ck_adj(k: int) -> bool { iv_hi(hsorted(k)) == iv_lo(hsorted(k + 1)) && hrank(hsorted(k)) == k && iv_lo(hsorted(k)) < iv_hi(hsorted(k)) && 0 <= hsorted(k) <= 255 }
pub open spec fn ck_syms(n: int) -> bool decreases n { if n <= 0 { true } else { ck_sym(n - 1) && ck_syms(n - 1) } }
pub open spec fn ck_adjs(n: int) -> bool decreases n { if n <= 0 { true } else { ck_adj(n - 1) && ck_adjs(n - 1) } }
proof fn table_facts() ensures ck_syms(256), ck_adjs(256)
{ reveal(hlen); reveal(hcode); reveal(hrank); reveal(hsorted); assert(ck_syms(256)) by (compute_only); assert(ck_adjs(256)) by (compute_only); }
proof fn syms_all(n: int, s: int) requires ck_syms(n), 0 <= s < n ensures ck_sym(s) decreases n { if s < n - 1 { syms_all(n - 1, s); } }
proof fn adjs_all(n: int, s: int) requires ck_adjs(n), 0 <= s < n ensures ck_adj(s) decreases n { if s < n - 1 { adjs_all(n - 1, s); } }
pub proof fn sym(s: int) requires 0 <= s < 256 ensures ck_sym(s) { table_facts(); syms_all(256, s); }
proof fn mono(i: int, j: int) requires 0 <= i < j <= 255 ensures iv_hi(hsorted(i)) <= iv_lo(hsorted(j)) decreases j - i
{ table_facts(); adjs_all(256, j - 1); if i < j - 1 { mono(i, j - 1); } }
// two numbers with the same bits are the same
proof fn ext32(a: u32, b: u32) requires forall|t: int| 0 <= t < 32 ==> bit32(a, t) == bit32(b, t) ensures a == b
{
    assert(bit32(a, 0) == bit32(b, 0));
    assert(bit32(a, 1) == bit32(b, 1));
    assert(bit32(a, 2) == bit32(b, 2));
    assert(bit32(a, 3) == bit32(b, 3));
    assert(bit32(a, 4) == bit32(b, 4));
    assert(bit32(a, 5) == bit32(b, 5));
    assert(bit32(a, 6) == bit32(b, 6));
    assert(bit32(a, 7) == bit32(b, 7));
    assert(bit32(a, 8) == bit32(b, 8));
    assert(bit32(a, 9) == bit32(b, 9));
    assert(bit32(a, 10) == bit32(b, 10));
    assert(bit32(a, 11) == bit32(b, 11));
    assert(bit32(a, 12) == bit32(b, 12));
    assert(bit32(a, 13) == bit32(b, 13));
    assert(bit32(a, 14) == bit32(b, 14));
    assert(bit32(a, 15) == bit32(b, 15));
    assert(bit32(a, 16) == bit32(b, 16));
    assert(bit32(a, 17) == bit32(b, 17));
    assert(bit32(a, 18) == bit32(b, 18));
    assert(bit32(a, 19) == bit32(b, 19));
    assert(bit32(a, 20) == bit32(b, 20));
    assert(bit32(a, 21) == bit32(b, 21));
    assert(bit32(a, 22) == bit32(b, 22));
    assert(bit32(a, 23) == bit32(b, 23));
    assert(bit32(a, 24) == bit32(b, 24));
    assert(bit32(a, 25) == bit32(b, 25));
    assert(bit32(a, 26) == bit32(b, 26));
    assert(bit32(a, 27) == bit32(b, 27));
    assert(bit32(a, 28) == bit32(b, 28));
    assert(bit32(a, 29) == bit32(b, 29));
    assert(bit32(a, 30) == bit32(b, 30));
    assert(bit32(a, 31) == bit32(b, 31));
    assert(a == b) by (bit_vector) requires ((a >> 0u32) & 1 == 1) == ((b >> 0u32) & 1 == 1), ((a >> 1u32) & 1 == 1) == ((b >> 1u32) & 1 == 1), ((a >> 2u32) & 1 == 1) == ((b >> 2u32) & 1 == 1), ((a >> 3u32) & 1 == 1) == ((b >> 3u32) & 1 == 1), ((a >> 4u32) & 1 == 1) == ((b >> 4u32) & 1 == 1), ((a >> 5u32) & 1 == 1) == ((b >> 5u32) & 1 == 1), ((a >> 6u32) & 1 == 1) == ((b >> 6u32) & 1 == 1), ((a >> 7u32) & 1 == 1) == ((b >> 7u32) & 1 == 1), ((a >> 8u32) & 1 == 1) == ((b >> 8u32) & 1 == 1), ((a >> 9u32) & 1 == 1) == ((b >> 9u32) & 1 == 1), ((a >> 10u32) & 1 == 1) == ((b >> 10u32) & 1 == 1), ((a >> 11u32) & 1 == 1) == ((b >> 11u32) & 1 == 1), ((a >> 12u32) & 1 == 1) == ((b >> 12u32) & 1 == 1), ((a >> 13u32) & 1 == 1) == ((b >> 13u32) & 1 == 1), ((a >> 14u32) & 1 == 1) == ((b >> 14u32) & 1 == 1), ((a >> 15u32) & 1 == 1) == ((b >> 15u32) & 1 == 1), ((a >> 16u32) & 1 == 1) == ((b >> 16u32) & 1 == 1), ((a >> 17u32) & 1 == 1) == ((b >> 17u32) & 1 == 1), ((a >> 18u32) & 1 == 1) == ((b >> 18u32) & 1 == 1), ((a >> 19u32) & 1 == 1) == ((b >> 19u32) & 1 == 1), ((a >> 20u32) & 1 == 1) == ((b >> 20u32) & 1 == 1), ((a >> 21u32) & 1 == 1) == ((b >> 21u32) & 1 == 1), ((a >> 22u32) & 1 == 1) == ((b >> 22u32) & 1 == 1), ((a >> 23u32) & 1 == 1) == ((b >> 23u32) & 1 == 1), ((a >> 24u32) & 1 == 1) == ((b >> 24u32) & 1 == 1), ((a >> 25u32) & 1 == 1) == ((b >> 25u32) & 1 == 1), ((a >> 26u32) & 1 == 1) == ((b >> 26u32) & 1 == 1), ((a >> 27u32) & 1 == 1) == ((b >> 27u32) & 1 == 1), ((a >> 28u32) & 1 == 1) == ((b >> 28u32) & 1 == 1), ((a >> 29u32) & 1 == 1) == ((b >> 29u32) & 1 == 1), ((a >> 30u32) & 1 == 1) == ((b >> 30u32) & 1 == 1), ((a >> 31u32) & 1 == 1) == ((b >> 31u32) & 1 == 1);
}
// no code is a prefix of another
proof fn prefix_free(s: int, t: int, b: Seq<bool>)
    requires 0 <= s < 256, 0 <= t < 256, hbits(s).is_prefix_of(b), hbits(t).is_prefix_of(b), hlen(s) <= hlen(t)
    ensures s == t
{
    reveal(hbits);
    sym(s); sym(t);
    let (cs, ct, ls, lt) = (hcode(s), hcode(t), hlen(s), hlen(t));
    let d = (lt - ls) as u32;
    assert forall|i: int| 0 <= i < 32 implies bit32(ct >> d, i) == bit32(cs, i) by {
        let iu = i as u32;
        if i < ls {
            assert(hbits(s)[ls - 1 - i] == b[ls - 1 - i]); assert(hbits(t)[ls - 1 - i] == b[ls - 1 - i]);
            assert(((ct >> d) >> iu) & 1 == (ct >> ((d + iu) as u32)) & 1) by (bit_vector) requires d + iu <= 31u32;
        } else {
            assert(((ct >> d) >> iu) & 1 == 0) by (bit_vector) requires d == lt - ls, ls <= lt <= 30, ct < (1u32 << lt), ls <= iu < 32;
            assert((cs >> iu) & 1 == 0) by (bit_vector) requires ls <= 30, cs < (1u32 << ls), ls <= iu < 32;
        }
    }
    ext32(ct >> d, cs);
    let (lo_s, lo_t) = (iv_lo(s), iv_lo(t));
    let es = (30 - ls) as u32; let et = (30 - lt) as u32;
    assert(lo_s <= lo_t && lo_t < lo_s + (1u32 << es) && lo_s + (1u32 << es) <= 0x4000_0000 && lo_t + (1u32 << et) <= 0x4000_0000 && lo_t < lo_t + (1u32 << et)) by (bit_vector)
        requires lo_s == cs << es, lo_t == ct << et, es == 30 - ls, et == 30 - lt, ls <= lt <= 30, ct >> d == cs, d == lt - ls, ct < (1u32 << lt), cs < (1u32 << ls);
    if hrank(s) < hrank(t) { mono(hrank(s), hrank(t)); }
    if hrank(t) < hrank(s) { mono(hrank(t), hrank(s)); }
}
// no code is a prefix of the padding
proof fn ones_no_code(s: int, k: nat)
    requires 0 <= s < 256, k < 8, hbits(s).is_prefix_of(ones(k))
    ensures false
{
    reveal(hbits);
    sym(s);
    let (c, l) = (hcode(s), hlen(s));
    assert forall|i: int| 0 <= i < 32 implies bit32(c, i) == bit32(((1u32 << l) - 1) as u32, i) by {
        let iu = i as u32;
        assert(((((1u32 << l) - 1) as u32 >> iu) & 1 == 1) == (iu < l)) by (bit_vector) requires l <= 30, iu < 32;
        if i < l { assert(hbits(s)[l - 1 - i] == ones(k)[l - 1 - i]); }
        else { assert((c >> iu) & 1 == 0) by (bit_vector) requires l <= 30, c < (1u32 << l), l <= iu < 32; }
    }
    ext32(c, ((1u32 << l) - 1) as u32);
}
// ---- reading: symbol after symbol, then the padding ----
pub open spec fn starts(b: Seq<bool>, s: int) -> bool { 0 <= s < 256 && hbits(s).is_prefix_of(b) }
pub open spec fn hdec(b: Seq<bool>) -> Option<Seq<u8>> decreases b.len() {
    if exists|s: int| starts(b, s) && hlen(s) > 0 {
        let s = choose|s: int| starts(b, s) && hlen(s) > 0;
        if hbits(s).len() == 0 { None } else { match hdec(b.skip(hbits(s).len() as int)) { Some(t) => Some(seq![s as u8] + t), None => None } }
    } else if b.len() < 8 && b == ones(b.len()) { Some(Seq::empty()) } else { None }
}
pub proof fn hdec_sym(b: Seq<bool>, s: int)
    requires starts(b, s)
    ensures hdec(b) == (match hdec(b.skip(hlen(s) as int)) { Some(t) => Some(seq![s as u8] + t), None => None }), hbits(s).len() == hlen(s), hlen(s) >= 5
{
    reveal(hbits);
    sym(s);
    let q = choose|s: int| starts(b, s) && hlen(s) > 0;
    assert(starts(b, s) && hlen(s) > 0);
    sym(q);
    if hlen(s) <= hlen(q) { prefix_free(s, q, b); } else { prefix_free(q, s, b); }
}
// the definition above is the RFC's: exactly the codes of strings, padded, are read, as those strings
pub proof fn k02_read(s: Seq<u8>, k: nat)
    requires k < 8
    ensures hdec(henc(s) + ones(k)) == Some(s)
    decreases s.len()
{
    if s.len() == 0 {
        assert(henc(s) + ones(k) =~= ones(k));
        assert(ones(k).len() == k);
        if exists|q: int| starts(ones(k), q) && hlen(q) > 0 { let q = choose|q: int| starts(ones(k), q) && hlen(q) > 0; ones_no_code(q, k); }
        assert(s =~= Seq::empty());
    } else {
        let h = s[0] as int;
        henc_front(s);
        let b = henc(s) + ones(k);
        assert(b =~= hbits(h) + (henc(s.skip(1)) + ones(k)));
        hdec_sym(b, h);
        assert(b.skip(hlen(h) as int) =~= henc(s.skip(1)) + ones(k));
        k02_read(s.skip(1), k);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
pub proof fn henc_front(s: Seq<u8>) requires s.len() > 0 ensures henc(s) == hbits(s[0] as int) + henc(s.skip(1)) decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(henc(s) =~= hbits(s[0] as int) + henc(s.skip(1))); assert(henc(s.drop_last()) =~= Seq::empty()); }
    else { henc_front(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(henc(s) =~= hbits(s[0] as int) + henc(s.skip(1))); }
}
pub proof fn k02_read_only(b: Seq<bool>)
    ensures hdec(b) matches Some(s) ==> exists|k: nat| k < 8 && #[trigger] (henc(s) + ones(k)) == b
    decreases b.len()
{
    if hdec(b) is Some {
        let r = hdec(b)->0;
        if exists|s: int| starts(b, s) && hlen(s) > 0 {
            let s = choose|s: int| starts(b, s) && hlen(s) > 0;
            let b2 = b.skip(hbits(s).len() as int);
            k02_read_only(b2);
            let t = hdec(b2)->0;
            let k = choose|k: nat| k < 8 && #[trigger] (henc(t) + ones(k)) == b2;
            henc_front(r);
            assert(r.skip(1) =~= t);
            assert(r[0] as int == s); assert(hbits(s).is_prefix_of(b)); assert(b =~= hbits(s) + b2);
            assert(henc(r) + ones(k) =~= hbits(s) + (henc(t) + ones(k)));
        } else { assert(henc(r) + ones(b.len()) =~= b); }
    }
}

// ---- std::collections::HashMap with a structural key ----
pub broadcast proof fn obits_front(o: Seq<u8>)
    requires o.len() > 0
    ensures #[trigger] obits(o) == Seq::new(8, |j: int| bit8(o[0], 7 - j)) + obits(o.skip(1))
{ assert(obits(o) =~= Seq::new(8, |j: int| bit8(o[0], 7 - j)) + obits(o.skip(1))); }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self.m().dom().contains(*k) && *x == self.m()[*k], None => !self.m().dom().contains(*k) } { unimplemented!() }
}
pub open spec fn map_ok(m: Map<(u32, u8), u8>) -> bool {
    &&& forall|c: u32, l: u8| #[trigger] m.dom().contains((c, l)) ==> hcode(m[(c, l)] as int) == c && hlen(m[(c, l)] as int) == l
    &&& forall|s: int| 0 <= s < 256 ==> #[trigger] m.dom().contains((hcode(s), hlen(s) as u8))
}
pub open spec fn array_ok(a: Seq<(u32, u8)>) -> bool { a.len() == 257 && forall|i: int| 0 <= i < 257 ==> (#[trigger] a[i]).0 == hcode(i) && a[i].1 == hlen(i) }
//@item src/http/http2/hpack/huffman.rs | static | HUFFMAN_CODE_ARRAY
//@sub (?s)^static HUFFMAN_CODE_ARRAY\s*:\s*&'static\s*\[(.*?)\]\s*=\s*&(\[.*);$ => fn huffman_code_array() -> (r: Vec<\1>) ensures array_ok(r@)\n{ let r: Vec<\1> = vec!\2; proof { reveal(hlen); reveal(hcode); assert(r@[0].0 == hcode(0) && r@[0].1 == hlen(0)); assert(r@[1].0 == hcode(1) && r@[1].1 == hlen(1)); assert(r@[2].0 == hcode(2) && r@[2].1 == hlen(2)); assert(r@[3].0 == hcode(3) && r@[3].1 == hlen(3)); assert(r@[4].0 == hcode(4) && r@[4].1 == hlen(4)); assert(r@[5].0 == hcode(5) && r@[5].1 == hlen(5)); assert(r@[6].0 == hcode(6) && r@[6].1 == hlen(6)); assert(r@[7].0 == hcode(7) && r@[7].1 == hlen(7)); assert(r@[8].0 == hcode(8) && r@[8].1 == hlen(8)); assert(r@[9].0 == hcode(9) && r@[9].1 == hlen(9)); assert(r@[10].0 == hcode(10) && r@[10].1 == hlen(10)); assert(r@[11].0 == hcode(11) && r@[11].1 == hlen(11)); assert(r@[12].0 == hcode(12) && r@[12].1 == hlen(12)); assert(r@[13].0 == hcode(13) && r@[13].1 == hlen(13)); assert(r@[14].0 == hcode(14) && r@[14].1 == hlen(14)); assert(r@[15].0 == hcode(15) && r@[15].1 == hlen(15)); assert(r@[16].0 == hcode(16) && r@[16].1 == hlen(16)); assert(r@[17].0 == hcode(17) && r@[17].1 == hlen(17)); assert(r@[18].0 == hcode(18) && r@[18].1 == hlen(18)); assert(r@[19].0 == hcode(19) && r@[19].1 == hlen(19)); assert(r@[20].0 == hcode(20) && r@[20].1 == hlen(20)); assert(r@[21].0 == hcode(21) && r@[21].1 == hlen(21)); assert(r@[22].0 == hcode(22) && r@[22].1 == hlen(22)); assert(r@[23].0 == hcode(23) && r@[23].1 == hlen(23)); assert(r@[24].0 == hcode(24) && r@[24].1 == hlen(24)); assert(r@[25].0 == hcode(25) && r@[25].1 == hlen(25)); assert(r@[26].0 == hcode(26) && r@[26].1 == hlen(26)); assert(r@[27].0 == hcode(27) && r@[27].1 == hlen(27)); assert(r@[28].0 == hcode(28) && r@[28].1 == hlen(28)); assert(r@[29].0 == hcode(29) && r@[29].1 == hlen(29)); assert(r@[30].0 == hcode(30) && r@[30].1 == hlen(30)); assert(r@[31].0 == hcode(31) && r@[31].1 == hlen(31)); assert(r@[32].0 == hcode(32) && r@[32].1 == hlen(32)); assert(r@[33].0 == hcode(33) && r@[33].1 == hlen(33)); assert(r@[34].0 == hcode(34) && r@[34].1 == hlen(34)); assert(r@[35].0 == hcode(35) && r@[35].1 == hlen(35)); assert(r@[36].0 == hcode(36) && r@[36].1 == hlen(36)); assert(r@[37].0 == hcode(37) && r@[37].1 == hlen(37)); assert(r@[38].0 == hcode(38) && r@[38].1 == hlen(38)); assert(r@[39].0 == hcode(39) && r@[39].1 == hlen(39)); assert(r@[40].0 == hcode(40) && r@[40].1 == hlen(40)); assert(r@[41].0 == hcode(41) && r@[41].1 == hlen(41)); assert(r@[42].0 == hcode(42) && r@[42].1 == hlen(42)); assert(r@[43].0 == hcode(43) && r@[43].1 == hlen(43)); assert(r@[44].0 == hcode(44) && r@[44].1 == hlen(44)); assert(r@[45].0 == hcode(45) && r@[45].1 == hlen(45)); assert(r@[46].0 == hcode(46) && r@[46].1 == hlen(46)); assert(r@[47].0 == hcode(47) && r@[47].1 == hlen(47)); assert(r@[48].0 == hcode(48) && r@[48].1 == hlen(48)); assert(r@[49].0 == hcode(49) && r@[49].1 == hlen(49)); assert(r@[50].0 == hcode(50) && r@[50].1 == hlen(50)); assert(r@[51].0 == hcode(51) && r@[51].1 == hlen(51)); assert(r@[52].0 == hcode(52) && r@[52].1 == hlen(52)); assert(r@[53].0 == hcode(53) && r@[53].1 == hlen(53)); assert(r@[54].0 == hcode(54) && r@[54].1 == hlen(54)); assert(r@[55].0 == hcode(55) && r@[55].1 == hlen(55)); assert(r@[56].0 == hcode(56) && r@[56].1 == hlen(56)); assert(r@[57].0 == hcode(57) && r@[57].1 == hlen(57)); assert(r@[58].0 == hcode(58) && r@[58].1 == hlen(58)); assert(r@[59].0 == hcode(59) && r@[59].1 == hlen(59)); assert(r@[60].0 == hcode(60) && r@[60].1 == hlen(60)); assert(r@[61].0 == hcode(61) && r@[61].1 == hlen(61)); assert(r@[62].0 == hcode(62) && r@[62].1 == hlen(62)); assert(r@[63].0 == hcode(63) && r@[63].1 == hlen(63)); assert(r@[64].0 == hcode(64) && r@[64].1 == hlen(64)); assert(r@[65].0 == hcode(65) && r@[65].1 == hlen(65)); assert(r@[66].0 == hcode(66) && r@[66].1 == hlen(66)); assert(r@[67].0 == hcode(67) && r@[67].1 == hlen(67)); assert(r@[68].0 == hcode(68) && r@[68].1 == hlen(68)); assert(r@[69].0 == hcode(69) && r@[69].1 == hlen(69)); assert(r@[70].0 == hcode(70) && r@[70].1 == hlen(70)); assert(r@[71].0 == hcode(71) && r@[71].1 == hlen(71)); assert(r@[72].0 == hcode(72) && r@[72].1 == hlen(72)); assert(r@[73].0 == hcode(73) && r@[73].1 == hlen(73)); assert(r@[74].0 == hcode(74) && r@[74].1 == hlen(74)); assert(r@[75].0 == hcode(75) && r@[75].1 == hlen(75)); assert(r@[76].0 == hcode(76) && r@[76].1 == hlen(76)); assert(r@[77].0 == hcode(77) && r@[77].1 == hlen(77)); assert(r@[78].0 == hcode(78) && r@[78].1 == hlen(78)); assert(r@[79].0 == hcode(79) && r@[79].1 == hlen(79)); assert(r@[80].0 == hcode(80) && r@[80].1 == hlen(80)); assert(r@[81].0 == hcode(81) && r@[81].1 == hlen(81)); assert(r@[82].0 == hcode(82) && r@[82].1 == hlen(82)); assert(r@[83].0 == hcode(83) && r@[83].1 == hlen(83)); assert(r@[84].0 == hcode(84) && r@[84].1 == hlen(84)); assert(r@[85].0 == hcode(85) && r@[85].1 == hlen(85)); assert(r@[86].0 == hcode(86) && r@[86].1 == hlen(86)); assert(r@[87].0 == hcode(87) && r@[87].1 == hlen(87)); assert(r@[88].0 == hcode(88) && r@[88].1 == hlen(88)); assert(r@[89].0 == hcode(89) && r@[89].1 == hlen(89)); assert(r@[90].0 == hcode(90) && r@[90].1 == hlen(90)); assert(r@[91].0 == hcode(91) && r@[91].1 == hlen(91)); assert(r@[92].0 == hcode(92) && r@[92].1 == hlen(92)); assert(r@[93].0 == hcode(93) && r@[93].1 == hlen(93)); assert(r@[94].0 == hcode(94) && r@[94].1 == hlen(94)); assert(r@[95].0 == hcode(95) && r@[95].1 == hlen(95)); assert(r@[96].0 == hcode(96) && r@[96].1 == hlen(96)); assert(r@[97].0 == hcode(97) && r@[97].1 == hlen(97)); assert(r@[98].0 == hcode(98) && r@[98].1 == hlen(98)); assert(r@[99].0 == hcode(99) && r@[99].1 == hlen(99)); assert(r@[100].0 == hcode(100) && r@[100].1 == hlen(100)); assert(r@[101].0 == hcode(101) && r@[101].1 == hlen(101)); assert(r@[102].0 == hcode(102) && r@[102].1 == hlen(102)); assert(r@[103].0 == hcode(103) && r@[103].1 == hlen(103)); assert(r@[104].0 == hcode(104) && r@[104].1 == hlen(104)); assert(r@[105].0 == hcode(105) && r@[105].1 == hlen(105)); assert(r@[106].0 == hcode(106) && r@[106].1 == hlen(106)); assert(r@[107].0 == hcode(107) && r@[107].1 == hlen(107)); assert(r@[108].0 == hcode(108) && r@[108].1 == hlen(108)); assert(r@[109].0 == hcode(109) && r@[109].1 == hlen(109)); assert(r@[110].0 == hcode(110) && r@[110].1 == hlen(110)); assert(r@[111].0 == hcode(111) && r@[111].1 == hlen(111)); assert(r@[112].0 == hcode(112) && r@[112].1 == hlen(112)); assert(r@[113].0 == hcode(113) && r@[113].1 == hlen(113)); assert(r@[114].0 == hcode(114) && r@[114].1 == hlen(114)); assert(r@[115].0 == hcode(115) && r@[115].1 == hlen(115)); assert(r@[116].0 == hcode(116) && r@[116].1 == hlen(116)); assert(r@[117].0 == hcode(117) && r@[117].1 == hlen(117)); assert(r@[118].0 == hcode(118) && r@[118].1 == hlen(118)); assert(r@[119].0 == hcode(119) && r@[119].1 == hlen(119)); assert(r@[120].0 == hcode(120) && r@[120].1 == hlen(120)); assert(r@[121].0 == hcode(121) && r@[121].1 == hlen(121)); assert(r@[122].0 == hcode(122) && r@[122].1 == hlen(122)); assert(r@[123].0 == hcode(123) && r@[123].1 == hlen(123)); assert(r@[124].0 == hcode(124) && r@[124].1 == hlen(124)); assert(r@[125].0 == hcode(125) && r@[125].1 == hlen(125)); assert(r@[126].0 == hcode(126) && r@[126].1 == hlen(126)); assert(r@[127].0 == hcode(127) && r@[127].1 == hlen(127)); assert(r@[128].0 == hcode(128) && r@[128].1 == hlen(128)); assert(r@[129].0 == hcode(129) && r@[129].1 == hlen(129)); assert(r@[130].0 == hcode(130) && r@[130].1 == hlen(130)); assert(r@[131].0 == hcode(131) && r@[131].1 == hlen(131)); assert(r@[132].0 == hcode(132) && r@[132].1 == hlen(132)); assert(r@[133].0 == hcode(133) && r@[133].1 == hlen(133)); assert(r@[134].0 == hcode(134) && r@[134].1 == hlen(134)); assert(r@[135].0 == hcode(135) && r@[135].1 == hlen(135)); assert(r@[136].0 == hcode(136) && r@[136].1 == hlen(136)); assert(r@[137].0 == hcode(137) && r@[137].1 == hlen(137)); assert(r@[138].0 == hcode(138) && r@[138].1 == hlen(138)); assert(r@[139].0 == hcode(139) && r@[139].1 == hlen(139)); assert(r@[140].0 == hcode(140) && r@[140].1 == hlen(140)); assert(r@[141].0 == hcode(141) && r@[141].1 == hlen(141)); assert(r@[142].0 == hcode(142) && r@[142].1 == hlen(142)); assert(r@[143].0 == hcode(143) && r@[143].1 == hlen(143)); assert(r@[144].0 == hcode(144) && r@[144].1 == hlen(144)); assert(r@[145].0 == hcode(145) && r@[145].1 == hlen(145)); assert(r@[146].0 == hcode(146) && r@[146].1 == hlen(146)); assert(r@[147].0 == hcode(147) && r@[147].1 == hlen(147)); assert(r@[148].0 == hcode(148) && r@[148].1 == hlen(148)); assert(r@[149].0 == hcode(149) && r@[149].1 == hlen(149)); assert(r@[150].0 == hcode(150) && r@[150].1 == hlen(150)); assert(r@[151].0 == hcode(151) && r@[151].1 == hlen(151)); assert(r@[152].0 == hcode(152) && r@[152].1 == hlen(152)); assert(r@[153].0 == hcode(153) && r@[153].1 == hlen(153)); assert(r@[154].0 == hcode(154) && r@[154].1 == hlen(154)); assert(r@[155].0 == hcode(155) && r@[155].1 == hlen(155)); assert(r@[156].0 == hcode(156) && r@[156].1 == hlen(156)); assert(r@[157].0 == hcode(157) && r@[157].1 == hlen(157)); assert(r@[158].0 == hcode(158) && r@[158].1 == hlen(158)); assert(r@[159].0 == hcode(159) && r@[159].1 == hlen(159)); assert(r@[160].0 == hcode(160) && r@[160].1 == hlen(160)); assert(r@[161].0 == hcode(161) && r@[161].1 == hlen(161)); assert(r@[162].0 == hcode(162) && r@[162].1 == hlen(162)); assert(r@[163].0 == hcode(163) && r@[163].1 == hlen(163)); assert(r@[164].0 == hcode(164) && r@[164].1 == hlen(164)); assert(r@[165].0 == hcode(165) && r@[165].1 == hlen(165)); assert(r@[166].0 == hcode(166) && r@[166].1 == hlen(166)); assert(r@[167].0 == hcode(167) && r@[167].1 == hlen(167)); assert(r@[168].0 == hcode(168) && r@[168].1 == hlen(168)); assert(r@[169].0 == hcode(169) && r@[169].1 == hlen(169)); assert(r@[170].0 == hcode(170) && r@[170].1 == hlen(170)); assert(r@[171].0 == hcode(171) && r@[171].1 == hlen(171)); assert(r@[172].0 == hcode(172) && r@[172].1 == hlen(172)); assert(r@[173].0 == hcode(173) && r@[173].1 == hlen(173)); assert(r@[174].0 == hcode(174) && r@[174].1 == hlen(174)); assert(r@[175].0 == hcode(175) && r@[175].1 == hlen(175)); assert(r@[176].0 == hcode(176) && r@[176].1 == hlen(176)); assert(r@[177].0 == hcode(177) && r@[177].1 == hlen(177)); assert(r@[178].0 == hcode(178) && r@[178].1 == hlen(178)); assert(r@[179].0 == hcode(179) && r@[179].1 == hlen(179)); assert(r@[180].0 == hcode(180) && r@[180].1 == hlen(180)); assert(r@[181].0 == hcode(181) && r@[181].1 == hlen(181)); assert(r@[182].0 == hcode(182) && r@[182].1 == hlen(182)); assert(r@[183].0 == hcode(183) && r@[183].1 == hlen(183)); assert(r@[184].0 == hcode(184) && r@[184].1 == hlen(184)); assert(r@[185].0 == hcode(185) && r@[185].1 == hlen(185)); assert(r@[186].0 == hcode(186) && r@[186].1 == hlen(186)); assert(r@[187].0 == hcode(187) && r@[187].1 == hlen(187)); assert(r@[188].0 == hcode(188) && r@[188].1 == hlen(188)); assert(r@[189].0 == hcode(189) && r@[189].1 == hlen(189)); assert(r@[190].0 == hcode(190) && r@[190].1 == hlen(190)); assert(r@[191].0 == hcode(191) && r@[191].1 == hlen(191)); assert(r@[192].0 == hcode(192) && r@[192].1 == hlen(192)); assert(r@[193].0 == hcode(193) && r@[193].1 == hlen(193)); assert(r@[194].0 == hcode(194) && r@[194].1 == hlen(194)); assert(r@[195].0 == hcode(195) && r@[195].1 == hlen(195)); assert(r@[196].0 == hcode(196) && r@[196].1 == hlen(196)); assert(r@[197].0 == hcode(197) && r@[197].1 == hlen(197)); assert(r@[198].0 == hcode(198) && r@[198].1 == hlen(198)); assert(r@[199].0 == hcode(199) && r@[199].1 == hlen(199)); assert(r@[200].0 == hcode(200) && r@[200].1 == hlen(200)); assert(r@[201].0 == hcode(201) && r@[201].1 == hlen(201)); assert(r@[202].0 == hcode(202) && r@[202].1 == hlen(202)); assert(r@[203].0 == hcode(203) && r@[203].1 == hlen(203)); assert(r@[204].0 == hcode(204) && r@[204].1 == hlen(204)); assert(r@[205].0 == hcode(205) && r@[205].1 == hlen(205)); assert(r@[206].0 == hcode(206) && r@[206].1 == hlen(206)); assert(r@[207].0 == hcode(207) && r@[207].1 == hlen(207)); assert(r@[208].0 == hcode(208) && r@[208].1 == hlen(208)); assert(r@[209].0 == hcode(209) && r@[209].1 == hlen(209)); assert(r@[210].0 == hcode(210) && r@[210].1 == hlen(210)); assert(r@[211].0 == hcode(211) && r@[211].1 == hlen(211)); assert(r@[212].0 == hcode(212) && r@[212].1 == hlen(212)); assert(r@[213].0 == hcode(213) && r@[213].1 == hlen(213)); assert(r@[214].0 == hcode(214) && r@[214].1 == hlen(214)); assert(r@[215].0 == hcode(215) && r@[215].1 == hlen(215)); assert(r@[216].0 == hcode(216) && r@[216].1 == hlen(216)); assert(r@[217].0 == hcode(217) && r@[217].1 == hlen(217)); assert(r@[218].0 == hcode(218) && r@[218].1 == hlen(218)); assert(r@[219].0 == hcode(219) && r@[219].1 == hlen(219)); assert(r@[220].0 == hcode(220) && r@[220].1 == hlen(220)); assert(r@[221].0 == hcode(221) && r@[221].1 == hlen(221)); assert(r@[222].0 == hcode(222) && r@[222].1 == hlen(222)); assert(r@[223].0 == hcode(223) && r@[223].1 == hlen(223)); assert(r@[224].0 == hcode(224) && r@[224].1 == hlen(224)); assert(r@[225].0 == hcode(225) && r@[225].1 == hlen(225)); assert(r@[226].0 == hcode(226) && r@[226].1 == hlen(226)); assert(r@[227].0 == hcode(227) && r@[227].1 == hlen(227)); assert(r@[228].0 == hcode(228) && r@[228].1 == hlen(228)); assert(r@[229].0 == hcode(229) && r@[229].1 == hlen(229)); assert(r@[230].0 == hcode(230) && r@[230].1 == hlen(230)); assert(r@[231].0 == hcode(231) && r@[231].1 == hlen(231)); assert(r@[232].0 == hcode(232) && r@[232].1 == hlen(232)); assert(r@[233].0 == hcode(233) && r@[233].1 == hlen(233)); assert(r@[234].0 == hcode(234) && r@[234].1 == hlen(234)); assert(r@[235].0 == hcode(235) && r@[235].1 == hlen(235)); assert(r@[236].0 == hcode(236) && r@[236].1 == hlen(236)); assert(r@[237].0 == hcode(237) && r@[237].1 == hlen(237)); assert(r@[238].0 == hcode(238) && r@[238].1 == hlen(238)); assert(r@[239].0 == hcode(239) && r@[239].1 == hlen(239)); assert(r@[240].0 == hcode(240) && r@[240].1 == hlen(240)); assert(r@[241].0 == hcode(241) && r@[241].1 == hlen(241)); assert(r@[242].0 == hcode(242) && r@[242].1 == hlen(242)); assert(r@[243].0 == hcode(243) && r@[243].1 == hlen(243)); assert(r@[244].0 == hcode(244) && r@[244].1 == hlen(244)); assert(r@[245].0 == hcode(245) && r@[245].1 == hlen(245)); assert(r@[246].0 == hcode(246) && r@[246].1 == hlen(246)); assert(r@[247].0 == hcode(247) && r@[247].1 == hlen(247)); assert(r@[248].0 == hcode(248) && r@[248].1 == hlen(248)); assert(r@[249].0 == hcode(249) && r@[249].1 == hlen(249)); assert(r@[250].0 == hcode(250) && r@[250].1 == hlen(250)); assert(r@[251].0 == hcode(251) && r@[251].1 == hlen(251)); assert(r@[252].0 == hcode(252) && r@[252].1 == hlen(252)); assert(r@[253].0 == hcode(253) && r@[253].1 == hlen(253)); assert(r@[254].0 == hcode(254) && r@[254].1 == hlen(254)); assert(r@[255].0 == hcode(255) && r@[255].1 == hlen(255)); assert(r@[256].0 == hcode(256) && r@[256].1 == hlen(256)); } r\n}
#[verifier::external_body]
pub fn huffman_code_array_ref() -> (r: &'static Vec<(u32, u8)>) ensures array_ok(r@) { unimplemented!() }
//@fn src/http/http2/hpack/huffman.rs | lazy_static | HUFFMAN_CODE_MAP
//@ret r
//@sub \bHUFFMAN_CODE_ARRAY\b => raw
//@spec
        ensures map_ok(r.m()),
//@at start
        let raw = huffman_code_array();
//@loop 0
            invariant symbol_n == it0.index@, symbol_n <= 256, it0.seq().len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] it0.seq()[i]).0 == hcode(i) && it0.seq()[i].1 == hlen(i),
                forall|c: u32, l: u8| #[trigger] m.m().dom().contains((c, l)) ==> hcode(m.m()[(c, l)] as int) == c && hlen(m.m()[(c, l)] as int) == l,
                forall|s: int| 0 <= s < symbol_n ==> #[trigger] m.m().dom().contains((hcode(s), hlen(s) as u8)),
//@end
pub uninterp spec fn huffman_code_map_ref_m() -> Map<(u32, u8), u8>;   // the map, initialised once
#[verifier::external_body]
pub fn huffman_code_map_ref() -> (r: &'static HashMap<(u32, u8), u8>) ensures map_ok(r.m()), r.m() == huffman_code_map_ref_m() { unimplemented!() }
// ---- the bits of a slice, one after the other ----
//@item src/http/http2/hpack/huffman.rs | struct | BitIterator
//@sub <'a,\s*I\s*:\s*Iterator> => <'a>
//@sub \bI\s*, => core::slice::Iter<'a, u8>,
impl<'a> BitIterator<'a> {
    #[verifier::prophetic]
    pub open spec fn octets(&self) -> Seq<u8> { self.buffer_iterator.remaining().map_values(|x: &'a u8| *x) }
    #[verifier::prophetic]
    pub open spec fn rest(&self) -> Seq<bool> {
        match self.current_byte { None => obits(self.octets()), Some(b) => Seq::new((self.pos + 1) as nat, |j: int| bit8(*b, self.pos - j)) + obits(self.octets()) }
    }
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { self.pos <= 7 && self.buffer_iterator.obeys_prophetic_iter_laws() && self.buffer_iterator.decrease() is Some }
    pub open spec fn left(&self) -> nat { (8 * self.buffer_iterator.decrease()->0 + if self.current_byte is Some { self.pos + 1 } else { 0 }) as nat }
//@fn src/http/http2/hpack/huffman.rs | impl<'a, I: Iterator> BitIterator<'a, I> where I: Iterator<Item=&'a u8> | new
//@ret r
//@sub <'a,\s*I> => <'a>
//@sub \biterator\s*:\s*I\b => iterator: core::slice::Iter<'a, u8>
//@spec
        requires iterator.obeys_prophetic_iter_laws(), iterator.decrease() is Some
        ensures r.wf(), r.rest() == obits(iterator.remaining().map_values(|x: &'a u8| *x))
//@end
//@fn src/http/http2/hpack/huffman.rs | impl<'a, I> Iterator for BitIterator<'a, I> where I: Iterator<Item=&'a u8> | next
//@ret r
//@sub Self\s*::\s*Item => bool
//@spec
        requires old(self).wf()
        ensures final(self).wf(), match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) && final(self).left() < old(self).left(),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0 }
//@at start
        broadcast use obits_front;
        proof { assert forall|b: u8, p: u8| p <= 7 implies (#[trigger] (b & (1u8 << p)) == (1u8 << p)) == bit8(b, p as int) by { assert(((b & (1u8 << p)) == (1u8 << p)) == ((b >> p) & 1 == 1)) by (bit_vector) requires p <= 7; } }
//@end
}

//@item src/http/http2/hpack/huffman.rs | struct | HuffmanDecoder
//@item src/http/http2/hpack/huffman.rs | struct | HuffmanEncoder
// what has been read, prefixed to what is still to be read
pub open spec fn pre(a: Seq<u8>, t: Option<Seq<u8>>) -> Option<Seq<u8>> { match t { Some(t) => Some(a + t), None => None } }
// the first n bits of b are the low n bits of v, and v has no others
pub open spec fn reads(v: u32, n: int, b: Seq<bool>) -> bool { n <= b.len() && 0 <= n <= 30 && v < (1u32 << (n as u32)) && forall|j: int| 0 <= j < n ==> bit32(v, n - 1 - j) == #[trigger] b[j] }
// no code starts b within its first n bits
pub open spec fn no_code(b: Seq<bool>, n: int) -> bool { forall|s: int| #[trigger] starts(b, s) ==> hlen(s) > n }
proof fn one_bit(v: u32, n: int, b: Seq<bool>, x: u32)
    requires reads(v, n, b), n < 30, n < b.len(), x == (if b[n] { (v << 1) | 1 } else { v << 1 })
    ensures reads(x, n + 1, b)
{
    let m = n as u32; let bb = b[n];
    assert(x < (1u32 << ((m + 1) as u32))) by (bit_vector) requires v < (1u32 << m), m < 30, x == (v << 1) | 1 || x == v << 1;
    assert forall|j: int| 0 <= j < n + 1 implies bit32(x, n - j) == #[trigger] b[j] by {
        let t = (n - j) as u32;
        if j == n { assert(((x >> 0u32) & 1 == 1) == bb) by (bit_vector) requires x == (if bb { (v << 1) | 1 } else { v << 1 }); }
        else { assert((x >> t) & 1 == (v >> ((t - 1) as u32)) & 1) by (bit_vector) requires 1 <= t <= 30, x == (v << 1) | 1 || x == v << 1; assert(bit32(v, n - 1 - j) == b[j]); }
    }
}
// a number of n bits is the code of a symbol of that length just when the bits start with that code
proof fn is_code(v: u32, n: int, b: Seq<bool>, s: int)
    requires reads(v, n, b), 0 <= s < 256, hlen(s) == n
    ensures starts(b, s) == (hcode(s) == v)
{
    reveal(hbits);
    sym(s);
    let c = hcode(s); let m = n as u32;
    if hcode(s) == v { assert forall|j: int| 0 <= j < n implies hbits(s)[j] == b[j] by {} assert(hbits(s) =~= b.take(n)); assert(hbits(s).is_prefix_of(b)); }
    if starts(b, s) {
        assert forall|t: int| 0 <= t < 32 implies bit32(c, t) == bit32(v, t) by {
            let u = t as u32;
            if t < n { assert(hbits(s)[n - 1 - t] == b[n - 1 - t]); }
            else { assert((c >> u) & 1 == (v >> u) & 1) by (bit_vector) requires c < (1u32 << m), v < (1u32 << m), m <= u < 32, m <= 30; }
        }
        ext32(c, v);
    }
}
spec fn next(v: u32, bit: bool) -> u32 { if bit { (v << 1) | 1 } else { v << 1 } }
spec fn codes(x: u32, n: int, s: int) -> bool { 0 <= s < 256 && hlen(s) == n && hcode(s) == x }
proof fn hstep(v: u32, n: int, b: Seq<bool>)
    requires reads(v, n, b), no_code(b, n), n < 30, n < b.len()
    ensures ({ let x = next(v, b[n]);
        &&& reads(x, n + 1, b)
        &&& forall|s: int| #[trigger] codes(x, n + 1, s) ==> hdec(b) == pre(seq![s as u8], hdec(b.skip(n + 1)))
        &&& (forall|s: int| !#[trigger] codes(x, n + 1, s)) ==> no_code(b, n + 1) && (n + 1 == 30 ==> hdec(b) is None) })
{
    let x = next(v, b[n]);
    one_bit(v, n, b, x);
    assert forall|s: int| #[trigger] codes(x, n + 1, s) implies hdec(b) == pre(seq![s as u8], hdec(b.skip(n + 1))) by { is_code(x, n + 1, b, s); hdec_sym(b, s); }
    if forall|s: int| !#[trigger] codes(x, n + 1, s) {
        assert forall|s: int| #[trigger] starts(b, s) implies hlen(s) > n + 1 by { if hlen(s) == n + 1 { is_code(x, n + 1, b, s); assert(codes(x, n + 1, s)); } }
        if n + 1 == 30 { assert forall|s: int| !#[trigger] starts(b, s) by { if starts(b, s) { sym(s); } } }
    }
}
proof fn last(b: Seq<bool>, n: int)
    requires no_code(b, n), n == b.len()
    ensures hdec(b) == (if n < 8 && b == ones(n as nat) { Some(Seq::<u8>::empty()) } else { None })
{
    assert forall|s: int| !#[trigger] starts(b, s) by { if starts(b, s) { reveal(hbits); assert(hbits(s).len() <= b.len()); } }
}
proof fn pre_pre(a: Seq<u8>, c: Seq<u8>, t: Option<Seq<u8>>) ensures pre(a, pre(c, t)) == pre(a + c, t), t is None ==> pre(a, t) is None
{ if t is Some { assert(a + (c + t->0) =~= a + c + t->0); } }
// the bits of o followed by the top n of the low 40 bits of v
pub open spec fn acc(o: Seq<u8>, v: u64, n: int) -> Seq<bool> { obits(o) + Seq::new(n as nat, |j: int| bit64(v, 39 - j)) }
pub open spec fn clear(v: u64, n: u64) -> bool { n <= 40 && v & ((1u64 << n) - 1) as u64 == 0 }
proof fn clear_bit(v: u64, n: u64, t: int) requires clear(v, n), 0 <= t < n ensures !bit64(v, t)
{ let u = t as u64; assert((v >> u) & 1 != 1) by (bit_vector) requires v & ((1u64 << n) - 1) as u64 == 0, u < n, n <= 40; }
// adding a code below what is there
proof fn add_code(o: Seq<u8>, v: u64, n: u64, s: int, c: u64, l: u64)
    requires clear(v, n), 0 <= s < 256, c == hcode(s), l == hlen(s), 33 <= n <= 40
    ensures ({ let x = v | (c << ((n - l) as u64)); clear(x, (n - l) as u64) && acc(o, x, 40 - (n - l)) == acc(o, v, 40 - n) + hbits(s) }), 5 <= l <= 30
{
    sym(s);
    reveal(hbits);
    let x = v | (c << ((n - l) as u64)); let sh = (n - l) as u64; let c32 = hcode(s); let l32 = hlen(s);
    assert(c < (1u64 << l)) by (bit_vector) requires c == c32 as u64, l == l32 as u64, c32 < (1u32 << l32), l32 <= 30;
    assert(x & ((1u64 << sh) - 1) as u64 == 0) by (bit_vector) requires x == v | (c << sh), sh == n - l, n <= 40, l <= n, v & ((1u64 << n) - 1) as u64 == 0;
    let want = Seq::new((40 - n) as nat, |j: int| bit64(v, 39 - j)) + hbits(s);
    assert forall|j: int| 0 <= j < 40 - sh implies bit64(x, 39 - j) == #[trigger] want[j] by {
        let t = (39 - j) as u64;
        if j < 40 - n { assert((x >> t) & 1 == (v >> t) & 1) by (bit_vector) requires x == v | (c << sh), c < (1u64 << l), sh + l == n, n <= t <= 39, l <= 30; }
        else {
            let u = (t - sh) as u32; let u64_ = (t - sh) as u64;
            assert((x >> t) & 1 == (c >> u64_) & 1) by (bit_vector) requires x == v | (c << sh), v & ((1u64 << n) - 1) as u64 == 0, sh <= t < n, n <= 40, u64_ == t - sh;
            assert((c >> u64_) & 1 == ((c32 >> u) & 1) as u64) by (bit_vector) requires c == c32 as u64, u64_ == u as u64, u < 32;
            assert(hbits(s)[j - (40 - n)] == bit32(c32, l32 - 1 - (j - (40 - n))));
        }
    }
    assert(acc(o, x, 40 - sh) =~= obits(o) + want); assert(obits(o) + want =~= acc(o, v, 40 - n) + hbits(s));
}
// moving the top octet out
proof fn move_octet(o: Seq<u8>, v: u64, n: u64, b: u8)
    requires clear(v, n), n <= 32, b == (v >> 32) as u8
    ensures clear(v << 8, (n + 8) as u64), acc(o.push(b), v << 8, 40 - (n + 8)) == acc(o, v, 40 - n)
{
    let x = v << 8; let m = (n + 8) as u64;
    assert(x & ((1u64 << m) - 1) as u64 == 0) by (bit_vector) requires x == v << 8, m == n + 8, n <= 32, v & ((1u64 << n) - 1) as u64 == 0;
    let (l, r) = (acc(o.push(b), x, 40 - m), acc(o, v, 40 - n));
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        if i < 8 * o.len() { assert(o.push(b)[i / 8] == o[i / 8]); }
        else if i < 8 * o.len() + 8 {
            let j = i - 8 * o.len(); let (t, u) = ((39 - j) as u64, (7 - j) as u8);
            assert(i / 8 == o.len() && i % 8 == j);
            assert(((b >> u) & 1) as u64 == (v >> t) & 1) by (bit_vector) requires b == (v >> 32) as u8, t == u + 32, u <= 7;
        } else {
            let j = i - 8 * o.len(); let t = (39 - (j - 8)) as u64; let u = (39 - j) as u64;
            assert((x >> t) & 1 == (v >> u) & 1) by (bit_vector) requires x == v << 8, t == u + 8, u < 40;
        }
    }
    assert(l =~= r);
}
// filling up with ones
proof fn pad(o: Seq<u8>, v: u64, n: u64, x: u64)
    requires clear(v, n), 33 <= n <= 40, x == v | ((1u64 << n) - 1) as u64
    ensures n < 40 ==> obits(o.push((x >> 32) as u8)) == acc(o, v, 40 - n) + ones((n - 32) as nat), n == 40 ==> obits(o) == acc(o, v, 40 - n) + ones(0)
{
    if n == 40 { assert(obits(o) =~= acc(o, v, 0) + ones(0)); }
    else {
        let b = (x >> 32) as u8;
        let (l, r) = (obits(o.push(b)), acc(o, v, 40 - n) + ones((n - 32) as nat));
        assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
            if i < 8 * o.len() { assert(o.push(b)[i / 8] == o[i / 8]); }
            else {
                let j = i - 8 * o.len(); let (t, u) = ((39 - j) as u64, (7 - j) as u8);
                assert(i / 8 == o.len() && i % 8 == j);
                assert(((b >> u) & 1) as u64 == (x >> t) & 1) by (bit_vector) requires b == (x >> 32) as u8, t == u + 32, u <= 7;
                if t < n { assert((x >> t) & 1 == 1) by (bit_vector) requires x == v | ((1u64 << n) - 1) as u64, t < n, n <= 40; }
                else { assert((x >> t) & 1 == (v >> t) & 1) by (bit_vector) requires x == v | ((1u64 << n) - 1) as u64, n <= t < 40; }
            }
        }
        assert(l =~= r);
    }
}
// everything there is to know before a loop over the octets of a string, and in it
spec fn enc_inv(done: Seq<u8>, o: Seq<u8>, v: u64, n: u64) -> bool { clear(v, n) && acc(o, v, 40 - n) == henc(done) }
proof fn enc_start(o: Seq<u8>, v: u64) requires o.len() == 0, v == 0 ensures enc_inv(Seq::empty(), o, v, 40)
{ assert(0u64 & ((1u64 << 40) - 1) as u64 == 0) by (bit_vector); assert(acc(o, v, 0) =~= henc(Seq::empty())); }
proof fn low8() ensures forall|v: u64| #[trigger] ((v & 0xff) as u8) == v as u8
{ assert(forall|v: u64| #[trigger] ((v & 0xff) as u8) == v as u8) by (bit_vector); }
pub open spec fn hlower(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| if 65 <= b <= 90 { (b + 32) as u8 } else { b }) }
impl HuffmanEncoder {
//@fn src/http/http2/hpack/huffman.rs | impl HuffmanEncoder | encode
//@ret r
//@sub \bHUFFMAN_CODE_ARRAY\b => huffman_code_array_ref()
//@sub (\(bits >> 32\)|\(\(bits >> 32\) & 0x[fF]{2}\)) as u8 => (#[verifier::truncate] (\1 as u8))
//@spec
        ensures is_huff(r@, src@)
//@at before 0
        proof { enc_start(result@, bits); assert(src@.take(0) =~= Seq::empty()); assert(src@.take(0) =~= Seq::empty()); }
//@loop 0
            invariant 33 <= bits_left <= 40, it0.seq().len() == src@.len(), forall|i: int| 0 <= i < src@.len() ==> *(#[trigger] it0.seq()[i]) == src@[i],
                enc_inv(src@.take(it0.index@), result@, bits, bits_left),
//@at start 0
            let ghost now = src@.take(it0.index@ + 1);
            proof {
                let d0 = src@.take(it0.index@);
                assert(now.drop_last() =~= d0);
                assert(henc(now) == henc(d0) + hbits(now.last() as int));
                add_code(result@, bits, bits_left, now.last() as int, hcode(now.last() as int) as u64, hlen(now.last() as int) as u64);
            }
//@loop 1
                invariant 3 <= bits_left <= 40, enc_inv(now, result@, bits, bits_left),
                ensures 33 <= bits_left
                decreases 40 - bits_left
//@at start 1
                proof { low8(); move_octet(result@, bits, bits_left, (bits >> 32) as u8); }
//@at after 0
        proof {
            low8();
            assert(src@.take(src@.len() as int) =~= src@);
            pad(result@, bits, bits_left, bits | ((1u64 << bits_left) - 1) as u64);
            assert(1u64 << bits_left >= 1) by (bit_vector) requires bits_left <= 40;
            if bits_left == 40 { assert(henc(src@) + ones(0) == obits(result@)); }
        }
//@end
//@fn src/http/http2/hpack/huffman.rs | impl HuffmanEncoder | encode_lower
//@ret r
//@sub \bHUFFMAN_CODE_ARRAY\b => huffman_code_array_ref()
//@sub (\(bits >> 32\)|\(\(bits >> 32\) & 0x[fF]{2}\)) as u8 => (#[verifier::truncate] (\1 as u8))
//@spec
        ensures is_huff(r@, hlower(src@))
//@at before 0
        proof { enc_start(result@, bits); assert(src@.take(0) =~= Seq::empty()); assert(hlower(src@.take(0)) =~= Seq::empty()); }
//@loop 0
            invariant 33 <= bits_left <= 40, it0.seq().len() == src@.len(), forall|i: int| 0 <= i < src@.len() ==> *(#[trigger] it0.seq()[i]) == src@[i],
                enc_inv(hlower(src@.take(it0.index@)), result@, bits, bits_left),
//@at start 0
            let ghost now = hlower(src@.take(it0.index@ + 1));
            proof {
                let d0 = hlower(src@.take(it0.index@));
                assert(now.drop_last() =~= d0);
                assert(henc(now) == henc(d0) + hbits(now.last() as int));
                add_code(result@, bits, bits_left, now.last() as int, hcode(now.last() as int) as u64, hlen(now.last() as int) as u64);
            }
//@loop 1
                invariant 3 <= bits_left <= 40, enc_inv(now, result@, bits, bits_left),
                ensures 33 <= bits_left
                decreases 40 - bits_left
//@at start 1
                proof { low8(); move_octet(result@, bits, bits_left, (bits >> 32) as u8); }
//@at after 0
        proof {
            low8();
            assert(src@.take(src@.len() as int) =~= src@);
            pad(result@, bits, bits_left, bits | ((1u64 << bits_left) - 1) as u64);
            assert(1u64 << bits_left >= 1) by (bit_vector) requires bits_left <= 40;
            if bits_left == 40 { assert(henc(hlower(src@)) + ones(0) == obits(result@)); }
        }
//@end
}
impl HuffmanDecoder {
//@fn src/http/http2/hpack/huffman.rs | impl HuffmanDecoder | new
//@end
//@fn src/http/http2/hpack/huffman.rs | impl HuffmanDecoder | decode
//@ret r
//@sub \bHUFFMAN_CODE_MAP\b => huffman_code_map_ref()
//@forloop 0
//@spec
        ensures match r { Ok(s) => hdec(obits(buf@)) == Some(s@), Err(_) => hdec(obits(buf@)) is None }
//@at before 0
        let ghost all = obits(buf@);
        let ghost mut p = 0int;   // the bits read
        proof { start(all); }
//@loop 0
            invariant it0.wf(), it0.rest() == all.skip(p), 0 <= p <= all.len(), all == obits(buf@), current_len <= 29, current_len <= p,
                hdec(all) == pre(result@, hdec(all.skip(p - current_len))),
                reads(current, current_len as int, all.skip(p - current_len)),
                no_code(all.skip(p - current_len), current_len as int),
                all_true == (forall|j: int| 0 <= j < current_len ==> #[trigger] all.skip(p - current_len)[j]),
            ensures p == all.len(),
            decreases it0.left()
//@at start 0
            let ghost (cur0, len0, res0, b) = (current, current_len as int, result@, all.skip(p - current_len));
            proof { if p < all.len() { assert(all[p] == b[len0]); assert(all.skip(p)[0] == all[p]); hstep(cur0, len0, b); assert(all.skip(p).skip(1) =~= all.skip(p + 1)); } }
//@at end 0
            proof {
                if current_len == 0 {
                    let s = result@.last() as int;
                    assert(codes(next(cur0, b[len0]), len0 + 1, s));
                    assert(b.skip(len0 + 1) =~= all.skip(p + 1));
                    pre_pre(res0, seq![result@.last()], hdec(all.skip(p + 1)));
                    assert(result@ =~= res0 + seq![result@.last()]);
                    start(all.skip(p + 1));
                } else {
                    assert forall|s: int| !#[trigger] codes(next(cur0, b[len0]), len0 + 1, s) by { if codes(next(cur0, b[len0]), len0 + 1, s) { sym(s); assert(huffman_code_map_ref_m().dom().contains((hcode(s), hlen(s) as u8))); } }
                }
                p = p + 1;
            }
//@at after 0
        proof { last(all.skip(p - current_len), current_len as int); assert(all_true == (all.skip(p - current_len) =~= ones(current_len as nat))); pre_pre(result@, Seq::empty(), None); assert(result@ + Seq::<u8>::empty() =~= result@); }
//@end
}
proof fn start(all: Seq<bool>)
    ensures all.skip(0) == all, pre(Seq::empty(), hdec(all)) == hdec(all), no_code(all, 0), reads(0, 0, all)
{
    assert(all.skip(0) =~= all); assert(1u32 << 0u32 == 1u32) by (bit_vector);
    if hdec(all) is Some { assert(Seq::<u8>::empty() + hdec(all)->0 =~= hdec(all)->0); }
    assert forall|s: int| #[trigger] starts(all, s) implies hlen(s) > 0 by { sym(s); }
}
// ---- the property ----
pub proof fn k02_roundtrip(o: Seq<u8>, s: Seq<u8>) requires is_huff(o, s) ensures hdec(obits(o)) == Some(s)
{ let k = choose|k: nat| k < 8 && #[trigger] (henc(s) + ones(k)) == obits(o); k02_read(s, k); }
pub proof fn k02_unique(o: Seq<u8>, p: Seq<u8>, s: Seq<u8>) requires is_huff(o, s), is_huff(p, s), o.len() == p.len() ensures obits(o) =~= obits(p)
{ }
}
fn main() {}

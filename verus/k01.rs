//@include prelude.rs
verus! {
// RFC 7541 section 5.1
pub open spec fn mask_of(p: u8) -> nat { (if p == 1 { 1nat } else if p == 2 { 3 } else if p == 3 { 7 } else if p == 4 { 15 } else if p == 5 { 31 } else if p == 6 { 63 } else if p == 7 { 127 } else { 255 }) }
pub open spec fn tail(v: nat) -> Seq<u8> decreases v {
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + tail(v / 128) }
}
/// leading bits above the prefix, value in the prefix or all ones and the tail
pub open spec fn int_octets(v: nat, p: u8, lead: u8) -> Seq<u8> {
    let m = mask_of(p) as u8;
    if v < mask_of(p) { seq![(lead & !m) | v as u8] } else { seq![(lead & !m) | m] + tail((v - mask_of(p)) as nat) }
}
/// number of octets of a tail: up to and including the first with the top bit clear; None: it never ends
pub open spec fn tail_end(s: Seq<u8>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None } else if s[0] < 128 { Some(1) } else {
        match tail_end(s.skip(1)) { Some(n) => Some(n + 1), None => None } }
}
pub open spec fn tail_value(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] < 128 { s[0] as nat } else { (s[0] - 128) as nat + 128 * tail_value(s.skip(1)) }
}
pub open spec fn int_read(s: Seq<u8>, p: u8) -> Option<(nat, nat)> {
    if s.len() == 0 { None } else {
        let low = s[0] as nat % (mask_of(p) + 1);
        if low < mask_of(p) { Some((low, 1)) } else {
            match tail_end(s.skip(1)) {
                Some(n) if n <= 4 => Some((mask_of(p) + tail_value(s.skip(1)), n + 1)),
                _ => None } } }
}
pub proof fn bits()
    ensures
        1u8 << 1u8 == 2, 1u8 << 2u8 == 4, 1u8 << 3u8 == 8, 1u8 << 4u8 == 16, 1u8 << 5u8 == 32, 1u8 << 6u8 == 64, 1u8 << 7u8 == 128,
        forall|b: u8| #[trigger] (b & 1) == b % 2, forall|b: u8| #[trigger] (b & 3) == b % 4, forall|b: u8| #[trigger] (b & 7) == b % 8,
        forall|b: u8| #[trigger] (b & 15) == b % 16, forall|b: u8| #[trigger] (b & 31) == b % 32, forall|b: u8| #[trigger] (b & 63) == b % 64,
        forall|b: u8| #[trigger] (b & 127) == b % 128, forall|b: u8| #[trigger] (b & 255) == b,
        forall|b: u8| #[trigger] (b & 128) == if b >= 128 { 128u8 } else { 0u8 },
{
    assert(1u8 << 1u8 == 2) by (bit_vector); assert(1u8 << 2u8 == 4) by (bit_vector); assert(1u8 << 3u8 == 8) by (bit_vector);
    assert(1u8 << 4u8 == 16) by (bit_vector); assert(1u8 << 5u8 == 32) by (bit_vector); assert(1u8 << 6u8 == 64) by (bit_vector);
    assert(1u8 << 7u8 == 128) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 1) == b % 2) by (bit_vector); assert(forall|b: u8| #[trigger] (b & 3) == b % 4) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 7) == b % 8) by (bit_vector); assert(forall|b: u8| #[trigger] (b & 15) == b % 16) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 31) == b % 32) by (bit_vector); assert(forall|b: u8| #[trigger] (b & 63) == b % 64) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 127) == b % 128) by (bit_vector); assert(forall|b: u8| #[trigger] (b & 255) == b) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 128) == if b >= 128 { 128u8 } else { 0u8 }) by (bit_vector);
}
/// the same facts at the width of a value: a rewrite with masks and shifts is judged by what it computes
pub proof fn wide()
    ensures
        forall|v: usize| #[trigger] (v >> 7) == v / 128, forall|v: usize| #[trigger] (v & 127) == v % 128,
        forall|v: usize| v < 128 ==> #[trigger] (v | 128) == v + 128, forall|v: u8| v < 128 ==> #[trigger] (v | 128) == v + 128,
        forall|v: u8| #[trigger] (v >> 7) == v / 128, forall|v: usize| #[trigger] (v & 128) == (v / 128) % 2 * 128,
{
    assert(forall|v: usize| #[trigger] (v >> 7) == v / 128) by (bit_vector); assert(forall|v: usize| #[trigger] (v & 127) == v % 128) by (bit_vector);
    assert(forall|v: usize| v < 128 ==> #[trigger] (v | 128) == v + 128) by (bit_vector); assert(forall|v: u8| v < 128 ==> #[trigger] (v | 128) == v + 128) by (bit_vector);
    assert(forall|v: u8| #[trigger] (v >> 7) == v / 128) by (bit_vector); assert(forall|v: usize| #[trigger] (v & 128) == (v / 128) % 2 * 128) by (bit_vector);
}
pub proof fn shifts(m: u32, k: int)
    requires m == 7 * k, 0 <= k <= 3,
    ensures 1usize << m == pw(k), 1usize << m <= 2097152, forall|v: usize| v < 128 ==> #[trigger] (v << m) == v * pw(k),
{
    assert(forall|v: usize| v < 128 ==> #[trigger] (v << 0u32) == v) by (bit_vector); assert(forall|v: usize| v < 128 ==> #[trigger] (v << 7u32) == v * 128) by (bit_vector);
    assert(forall|v: usize| v < 128 ==> #[trigger] (v << 14u32) == v * 16384) by (bit_vector); assert(forall|v: usize| v < 128 ==> #[trigger] (v << 21u32) == v * 2097152) by (bit_vector);
    assert(1usize << 0u32 == 1) by (bit_vector); assert(1usize << 7u32 == 128) by (bit_vector); assert(1usize << 14u32 == 16384) by (bit_vector);
    assert(1usize << 21u32 == 2097152) by (bit_vector);
    assert(k == 0 || k == 1 || k == 2 || k == 3);
}
pub proof fn mask_mod(b: u8, m: u8, p: u8)
    requires 1 <= p <= 8, m == mask_of(p),
    ensures b & m == b as nat % (mask_of(p) + 1),
{
    if p == 1 { assert(b & m == b % 2) by (bit_vector) requires m == 1; assert(b & m == b as nat % 2); }
    if p == 2 { assert(b & m == b % 4) by (bit_vector) requires m == 3; assert(b & m == b as nat % 4); }
    if p == 3 { assert(b & m == b % 8) by (bit_vector) requires m == 7; assert(b & m == b as nat % 8);}
    if p == 4 { assert(b & m == b % 16) by (bit_vector) requires m == 15;  assert(b & m == b as nat % 16);}
    if p == 5 { assert(b & m == b % 32) by (bit_vector) requires m == 31; assert(b & m == b as nat % 32);}
    if p == 6 { assert(b & m == b % 64) by (bit_vector) requires m == 63; assert(b & m == b as nat % 64);}
    if p == 7 { assert(b & m == b % 128) by (bit_vector) requires m == 127; assert(b & m == b as nat % 128);}
    if p == 8 { assert(b & m == b) by (bit_vector) requires m == 255; assert(b & m == b as nat % 256); }
}
pub open spec fn pw(k: int) -> int { if k <= 0 { 1 } else if k == 1 { 128 } else if k == 2 { 16384 } else if k == 3 { 2097152 } else { 268435456 } }
pub proof fn step(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), k <= 3,
    ensures
        s.skip(k).skip(1) =~= s.skip(k + 1), s.skip(k)[0] == s[k],
        pw(k) * tail_value(s.skip(k)) == (if s[k] < 128 { pw(k) * s[k] } else { pw(k) * (s[k] - 128) + pw(k + 1) * tail_value(s.skip(k + 1)) }),
        s[k] < 128 ==> tail_end(s.skip(k)) == Some(1nat),
        s[k] >= 128 ==> tail_end(s.skip(k)) == (match tail_end(s.skip(k + 1)) { Some(n) => Some(n + 1), None => None }),
        tail_end(s.skip(k + 1)) matches Some(n) ==> n >= 1,
        s[k] as int % 128 * pw(k) == pw(k) * (if s[k] < 128 { s[k] as int } else { s[k] - 128 }), 0 <= s[k] as int % 128 * pw(k) <= 127 * pw(k),
{
    let d = s[k] as int % 128;
    assert(d * pw(k) == pw(k) * d && 0 <= d * pw(k) <= 127 * pw(k)) by (nonlinear_arith) requires 0 <= d <= 127, pw(k) >= 1;
    assert(s.skip(k).skip(1) =~= s.skip(k + 1));
    let t = tail_value(s.skip(k + 1)) as int; let a = (s[k] - 128) as int;
    assert(pw(k) * (a + 128 * t) == pw(k) * a + pw(k + 1) * t) by (nonlinear_arith)
        requires pw(k + 1) == 128 * pw(k);
    tail_end_pos(s.skip(k + 1));
}
pub proof fn tail_end_pos(s: Seq<u8>) ensures tail_end(s) matches Some(n) ==> 1 <= n <= s.len() decreases s.len() { if s.len() > 0 { tail_end_pos(s.skip(1)); } }
pub struct Encoder;
impl Encoder {
//@fn src/http/http2/hpack/encoder.rs | impl Encoder | encode_integer_into
//@sub io\s*::\s*Result\s*<\s*\(\s*\)\s*> => Result<(), IoError>
//@ret r
//@spec
        requires 1 <= prefix_size <= 8,
        ensures r is Ok, final(writer).taken() == old(writer).taken(), final(writer).out() == old(writer).out() + int_octets(value as nat, prefix_size, leading_bits),
//@loop 0
            invariant writer.taken() == old(writer).taken(), old(writer).out() + int_octets(value0 as nat, prefix_size, lead0) =~= writer.out() + tail(value as nat),
            ensures value < 128,
            decreases value,
//@at start 0
            proof { wide(); }
//@at start
        proof { bits(); wide(); }
        let ghost value0 = value;
        let ghost lead0 = leading_bits;
//@end
}
pub struct Decoder;
impl Decoder {
//@fn src/http/http2/hpack/decoder.rs | impl Decoder | decode_integer
//@ret r
//@spec
        requires 1 <= prefix_size <= 8,
        ensures match r {
            Ok((v, n)) => int_read(buf@, prefix_size) == Some((v as nat, n as nat)),
            Err(_) => int_read(buf@, prefix_size) is None },
//@at start
        proof { bits(); if buf@.len() > 0 { mask_mod(buf@[0], mask_of(prefix_size) as u8, prefix_size); } }
//@loop 0
            invariant
                1 <= prefix_size <= 8, buf@.len() >= 1, mask == mask_of(prefix_size), buf@[0] as nat % (mask_of(prefix_size) + 1) == mask_of(prefix_size),
                it0.seq().len() == buf@.len() - 1, forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == buf@[i + 1],
                octet_limit == 5, total == it0.index@ + 1, 0 <= it0.index@ <= 3, it0.index@ <= buf@.len() - 1, m == 7 * it0.index@,
                value + pw(it0.index@) * tail_value(buf@.skip(1).skip(it0.index@)) == mask_of(prefix_size) + tail_value(buf@.skip(1)),
                value <= 255 + pw(it0.index@) - 1,
                tail_end(buf@.skip(1)) == (match tail_end(buf@.skip(1).skip(it0.index@)) { Some(n) => Some(n + it0.index@ as nat), None => None }),
//@at start 0
            proof { bits(); wide(); shifts(m as u32, it0.index@); step(buf@.skip(1), it0.index@); }
//@at after 0
        proof { assert(buf@.skip(1).skip(buf@.len() - 1).len() == 0); }
//@at before 0
        proof { assert(buf@.skip(1).skip(0) =~= buf@.skip(1)); }
//@end
}
// ---- the property: reading what was written gives the number and its length, whatever follows ----
pub proof fn tail_read(v: nat, rest: Seq<u8>)
    ensures tail_end(tail(v) + rest) == Some(tail(v).len()), tail_value(tail(v) + rest) == v, tail(v).len() >= 1,
        v < 128 ==> tail(v).len() == 1, v < 16384 ==> tail(v).len() <= 2, v < 2097152 ==> tail(v).len() <= 3, v < 268435456 ==> tail(v).len() <= 4,
    decreases v
{
    let s = tail(v) + rest;
    if v < 128 { assert(s[0] == v as u8); }
    else {
        tail_read(v / 128, rest);
        assert(s.skip(1) =~= tail(v / 128) + rest);
        assert(s[0] == (v % 128 + 128) as u8);
    }
}
pub proof fn k01_roundtrip(v: nat, p: u8, lead: u8, rest: Seq<u8>)
    requires 1 <= p <= 8, v < mask_of(p) + 268435456,
    ensures int_read(int_octets(v, p, lead) + rest, p) == Some((v, int_octets(v, p, lead).len())),
{
    let m = mask_of(p) as u8;
    let s = int_octets(v, p, lead) + rest;
    let x = (if v < mask_of(p) { v } else { mask_of(p) }) as u8;
    assert(s[0] == (lead & !m) | x);
    assert(((lead & !m) | x) & m == x & m) by (bit_vector);
    mask_mod(s[0], m, p);
    mask_mod(x, m, p);
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, (mask_of(p) + 1) as nat);
    assert(x & m == x);
    assert(s[0] as nat % (mask_of(p) + 1) == x);
    assert(int_octets(v, p, lead).len() == if v < mask_of(p) { 1 } else { 1 + tail((v - mask_of(p)) as nat).len() });
    if v >= mask_of(p) {
        tail_read((v - mask_of(p)) as nat, rest);
        assert(s.skip(1) =~= tail((v - mask_of(p)) as nat) + rest);
    }
}
}
fn main() {}

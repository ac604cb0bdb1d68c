//@include prelude.rs
verus! {
/// bit operations on octets as arithmetic: a rewrite with other masks and shifts is judged by what it computes
pub proof fn bits8()
    ensures
        forall|b: u8| #[trigger] (b >> 1) == b / 2,
        forall|b: u8| #[trigger] (b & 1) == b % 2,
        forall|b: u8| #[trigger] (b & 254) == b - b % 2,
        forall|b: u8| #[trigger] (b >> 2) == b / 4,
        forall|b: u8| #[trigger] (b & 3) == b % 4,
        forall|b: u8| #[trigger] (b & 252) == b - b % 4,
        forall|b: u8| #[trigger] (b >> 3) == b / 8,
        forall|b: u8| #[trigger] (b & 7) == b % 8,
        forall|b: u8| #[trigger] (b & 248) == b - b % 8,
        forall|b: u8| #[trigger] (b >> 4) == b / 16,
        forall|b: u8| #[trigger] (b & 15) == b % 16,
        forall|b: u8| #[trigger] (b & 240) == b - b % 16,
        forall|b: u8| #[trigger] (b >> 5) == b / 32,
        forall|b: u8| #[trigger] (b & 31) == b % 32,
        forall|b: u8| #[trigger] (b & 224) == b - b % 32,
        forall|b: u8| #[trigger] (b >> 6) == b / 64,
        forall|b: u8| #[trigger] (b & 63) == b % 64,
        forall|b: u8| #[trigger] (b & 192) == b - b % 64,
        forall|b: u8| #[trigger] (b >> 7) == b / 128,
        forall|b: u8| #[trigger] (b & 127) == b % 128,
        forall|b: u8| #[trigger] (b & 128) == b - b % 128,
        forall|b: u8| #[trigger] (b & 1) == (b / 1) % 2 * 1,
        forall|b: u8| #[trigger] (b & 2) == (b / 2) % 2 * 2,
        forall|b: u8| #[trigger] (b & 4) == (b / 4) % 2 * 4,
        forall|b: u8| #[trigger] (b & 8) == (b / 8) % 2 * 8,
        forall|b: u8| #[trigger] (b & 16) == (b / 16) % 2 * 16,
        forall|b: u8| #[trigger] (b & 32) == (b / 32) % 2 * 32,
        forall|b: u8| #[trigger] (b & 64) == (b / 64) % 2 * 64,
        forall|b: u8| #[trigger] (b & 128) == (if b >= 128 { 128u8 } else { 0u8 }),
        forall|b: u8| #[trigger] (b & 255) == b,
        forall|b: u8| #[trigger] (b | 0) == b,
        forall|b: u8| #[trigger] (0 | b) == b,
        forall|b: u8| b < 128 ==> #[trigger] (b | 128) == b + 128,
        forall|b: u8| b < 128 ==> #[trigger] (128 | b) == 128 + b,
        forall|a: u8, b: u8| #[trigger] (a | b) == (b | a),
        forall|a: u8, b: u8| #[trigger] (a & b) == (b & a),
        forall|b: u8, m: u8| #[trigger] (b & m) <= b,
        forall|b: u8, m: u8| #[trigger] (b & !m) == b - (b & m),
        forall|v: usize| #[trigger] (v >> 7) == v / 128,
        forall|v: usize| #[trigger] (v & 127) == v % 128,
{
    assert(forall|b: u8| #[trigger] (b >> 1) == b / 2) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 1) == b % 2) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 254) == sub(b, b % 2)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b >> 2) == b / 4) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 3) == b % 4) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 252) == sub(b, b % 4)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b >> 3) == b / 8) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 7) == b % 8) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 248) == sub(b, b % 8)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b >> 4) == b / 16) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 15) == b % 16) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 240) == sub(b, b % 16)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b >> 5) == b / 32) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 31) == b % 32) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 224) == sub(b, b % 32)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b >> 6) == b / 64) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 63) == b % 64) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 192) == sub(b, b % 64)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b >> 7) == b / 128) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 127) == b % 128) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 128) == sub(b, b % 128)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 1) == mul((b / 1) % 2, 1)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 2) == mul((b / 2) % 2, 2)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 4) == mul((b / 4) % 2, 4)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 8) == mul((b / 8) % 2, 8)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 16) == mul((b / 16) % 2, 16)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 32) == mul((b / 32) % 2, 32)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 64) == mul((b / 64) % 2, 64)) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 128) == (if b >= 128 { 128u8 } else { 0u8 })) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 255) == b) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b | 0) == b) by (bit_vector);
    assert(forall|b: u8| #[trigger] (0 | b) == b) by (bit_vector);
    assert(forall|b: u8| b < 128 ==> #[trigger] (b | 128) == add(b, 128)) by (bit_vector);
    assert(forall|b: u8| b < 128 ==> #[trigger] (128 | b) == add(128, b)) by (bit_vector);
    assert(forall|a: u8, b: u8| #[trigger] (a | b) == (b | a)) by (bit_vector);
    assert(forall|a: u8, b: u8| #[trigger] (a & b) == (b & a)) by (bit_vector);
    assert(forall|b: u8, m: u8| #[trigger] (b & m) <= b) by (bit_vector);
    assert(forall|b: u8, m: u8| #[trigger] (b & !m) == sub(b, b & m)) by (bit_vector);
    assert(forall|v: usize| #[trigger] (v >> 7) == v / 128) by (bit_vector);
    assert(forall|v: usize| #[trigger] (v & 127) == v % 128) by (bit_vector);
}
}
fn main() {}

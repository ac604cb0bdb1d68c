//! K01..K06: HPACK (RFC 7541).
use crate::core::*;
use crate::h2::{gen_fields, gen_name, gen_value, low, pairs, showp};
use crate::{ck, ckeq};
use algorithm::buf::{BinaryMut, Bt, BtMut};
use std::collections::VecDeque;
use webparse::http2::encoder::Encoder;
use webparse::http2::{Decoder, HeaderIndex, HuffmanDecoder, HuffmanEncoder};
use webparse::{HeaderName, HeaderValue};

type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "K01", suites: vec![
            Suite { name: "k01_encode_reference", what: "integer octets against RFC 7541 5.1 for every prefix width and leading bits", count: Count::Rand(200_000, 4_000_000), f: k01_enc },
            Suite { name: "k01_small_exhaustive", what: "values 0..=2100, every prefix", count: Count::All(2101 * 8), f: k01_small },
            Suite { name: "k01_decode_5", what: "5-bit integers decoded as table size updates: value, octets used, truncated and oversized forms", count: Count::Rand(100_000, 2_000_000), f: k01_dec5 },
            Suite { name: "k01_decode_7", what: "7-bit string lengths and 4/6/7-bit indexes against a reference", count: Count::Rand(60_000, 500_000), f: k01_dec7 },
        ]},
        Prop { id: "K02", suites: vec![
            Suite { name: "k02_encode_reference", what: "Huffman octets against the code of RFC 7541 appendix B; decode gives the string back", count: Count::Rand(60_000, 1_000_000), f: k02_enc },
            Suite { name: "k02_pairs", what: "all strings of two octets", count: Count::All(65536), f: k02_pairs },
            Suite { name: "k02_decode_reference", what: "arbitrary octets against a reference decoder (EOS, padding rules)", count: Count::Rand(100_000, 1_500_000), f: k02_dec },
            Suite { name: "k02_near_valid", what: "valid strings with a changed tail, wrong padding, EOS inserted", count: Count::Rand(60_000, 600_000), f: k02_near },
            Suite { name: "k02_decode_short", what: "all inputs of at most two octets", count: Count::All(65536 + 256 + 1), f: k02_short },
        ]},
        Prop { id: "K03", suites: vec![
            Suite { name: "k03_histories", what: "insert / resize / limit histories against a model of RFC 7541 4.1-4.4", count: Count::Rand(20_000, 300_000), f: k03_hist },
        ]},
        Prop { id: "K04", suites: vec![
            Suite { name: "k04_static", what: "static table entries 1..61 of RFC 7541 appendix A; 0 and out of range are absent", count: Count::All(400), f: k04_static },
            Suite { name: "k04_dynamic", what: "dynamic entries: newest first from 62; find agrees with get", count: Count::Rand(20_000, 200_000), f: k04_dyn },
            Suite { name: "k04_find", what: "find of every static name, exact and other value", count: Count::All(61 * 4), f: k04_find },
        ]},
        Prop { id: "K05", suites: vec![
            Suite { name: "k05_histories", what: "encoder and decoder over a history of header lists and size changes: same lists, same tables", count: Count::Rand(12_000, 150_000), f: k05_hist },
            Suite { name: "k05_wire", what: "encoded blocks read by a reference HPACK decoder", count: Count::Rand(12_000, 150_000), f: k05_wire },
        ]},
        Prop { id: "K06", suites: vec![
            Suite { name: "k06_arbitrary", what: "arbitrary blocks against a reference decoder (result, table), never a panic", count: Count::Rand(120_000, 3_000_000), f: k06_arb },
            Suite { name: "k06_structured", what: "blocks built from representations, cut or damaged, against a reference decoder", count: Count::Rand(60_000, 1_000_000), f: k06_struct },
        ]},
    ]
}

// ---------- reference integer codec
pub fn ref_int(v: u64, n: u32, lead: u8) -> Vec<u8> {
    let max = (1u64 << n) - 1;
    let l = lead & !(max as u8);
    if v < max { return vec![l | v as u8]; }
    let mut o = vec![l | max as u8];
    let mut r = v - max;
    while r >= 128 { o.push((r % 128) as u8 | 128); r /= 128; }
    o.push(r as u8);
    o
}
/// value and octets used; None: incomplete or more than five octets
fn ref_dec_int(b: &[u8], n: u32) -> Option<(u64, usize)> {
    let max = (1u64 << n) - 1;
    if b.is_empty() { return None; }
    let f = b[0] as u64 & max;
    if f < max { return Some((f, 1)); }
    let mut v = max;
    let mut mul = 1u64;
    for i in 1..5 {
        if i >= b.len() { return None; }
        v += (b[i] & 127) as u64 * mul;
        mul *= 128;
        if b[i] < 128 { return Some((v, i + 1)); }
    }
    None
}
fn k01_enc(c: &mut Case) -> R {
    let n = c.rng.range(1, 8) as u32;
    let v = c.rng.wide(64);
    k01_one(c, v, n)
}
fn k01_small(c: &mut Case) -> R { let (v, n) = (c.idx / 8, (c.idx % 8) as u32 + 1); k01_one(c, v, n) }
fn k01_one(c: &mut Case, v: u64, n: u32) -> R {
    let lead = c.rng.u8();
    c.key(&(v, n, lead));
    let mut b = BinaryMut::new();
    b.put_slice(b"pre");
    Encoder::encode_integer_into(v as usize, n as u8, lead, &mut b).map_err(|e| format!("{:?}", e))?;
    ckeq!(hex(&b.chunk()[3..]), hex(&ref_int(v, n, lead)), "octets of an integer");
    ckeq!(&b.chunk()[..3], b"pre", "octets already in the buffer");
    Ok(())
}
fn k01_dec5(c: &mut Case) -> R {
    let mut b = if c.rng.bool() { let v = c.rng.wide(31); ref_int(v, 5, 0x20) } else {
        let n = c.rng.below(8);
        let mut b = vec![0x20 | if c.rng.one_in(4) { c.rng.u8() & 31 } else { 31 }];
        for _ in 0..n { let x = c.rng.u8(); b.push(if c.rng.one_in(3) { x & 127 } else { x | 128 }) }
        b
    };
    if c.rng.one_in(5) { let k = c.rng.range(1, b.len()); b.truncate(k) }
    let tail = c.rng.below(3);
    let mut block = b.clone();
    for _ in 0..tail { block.push(0x82) }
    c.key(&block);
    let mut d = Decoder::new();
    d.index.write().unwrap().set_max_table_size(usize::MAX >> 1);
    let r = d.decode(&mut &block[..]);
    let now = d.index.read().unwrap().get_max_table_size() as u64;
    // reference over the whole block: updates and 0x82 fields
    let mut p = 0;
    let mut want = None;
    let mut fields = 0;
    let mut ok = true;
    while p < block.len() {
        let o = block[p];
        if o >= 128 { match ref_dec_int(&block[p..], 7) { Some((i, k)) if i >= 1 && i <= 61 => { p += k; fields += 1 } _ => { ok = false; break } } }
        else if o & 0xe0 == 0x20 { match ref_dec_int(&block[p..], 5) { Some((v, k)) => { p += k; if let Some(w) = want { if v > w {} } want = Some(v) } None => { ok = false; break } } }
        else { c.trivial(); return Ok(()); }
    }
    ckeq!(r.is_ok(), ok, "block accepted");
    if let Some(w) = want { ckeq!(now, w, "table size selected"); }
    if let Ok(l) = r { ckeq!(l.len(), fields, "fields after the integer"); }
    Ok(())
}
fn k01_dec7(c: &mut Case) -> R {
    // literal without indexing, name literal of length v, value literal of length w (raw)
    let v = match c.rng.below(4) { 0 => c.rng.range(120, 135), 1 => c.rng.below(300), 2 => c.rng.range(250, 20_000), _ => c.rng.below(10) };
    let w = match c.rng.below(3) { 0 => c.rng.range(120, 135), _ => c.rng.below(300) };
    let rep = *c.rng.pick(&[(0x00u8, 4u32), (0x10, 4), (0x40, 6)]);
    let idx = if c.rng.bool() { 0 } else { c.rng.range(1, 61) };
    let mut b = ref_int(idx as u64, rep.1, rep.0);
    let name = c.rng.from(b"abcdefgh-", v);
    let val = c.rng.bytes(w);
    if idx == 0 { b.extend(ref_int(v as u64, 7, 0)); b.extend_from_slice(&name); }
    b.extend(ref_int(w as u64, 7, 0));
    b.extend_from_slice(&val);
    c.key(&(rep, idx, v, w, c.idx));
    let l = Decoder::new().decode(&mut &b[..]).map_err(|e| format!("literal refused: {:?}", e))?;
    ckeq!(l.len(), 1, "fields");
    let wn = if idx == 0 { name } else { STATIC[idx - 1].0.as_bytes().to_vec() };
    ckeq!(show(l[0].0.as_bytes()), show(&wn), "name");
    ckeq!(hex(l[0].1.as_bytes()), hex(&val), "value");
    // one octet short is an error, whatever octet is missing at the end
    b.pop();
    ck!(Decoder::new().decode(&mut &b[..]).is_err(), "literal cut by one octet accepted");
    Ok(())
}

// ---------- reference Huffman code: canonical code of these lengths (RFC 7541 appendix B)
const LEN: [u8; 257] = [13, 23, 28, 28, 28, 28, 28, 28, 28, 24, 30, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 28, 6, 10, 10, 12, 13, 6, 8, 11, 10, 10, 8, 11, 8, 6, 6, 6, 5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 7, 8, 15, 6, 12, 10, 13, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 8, 7, 8, 13, 19, 13, 14, 6, 15, 5, 6, 5, 6, 5, 6, 6, 6, 5, 7, 7, 6, 6, 6, 5, 6, 7, 6, 5, 5, 6, 7, 7, 7, 7, 7, 15, 11, 14, 13, 28, 20, 22, 20, 20, 22, 22, 22, 23, 22, 23, 23, 23, 23, 23, 24, 23, 24, 24, 22, 23, 24, 23, 23, 23, 23, 21, 22, 23, 22, 23, 23, 24, 22, 21, 20, 22, 22, 23, 23, 21, 23, 22, 22, 24, 21, 22, 23, 23, 21, 21, 22, 21, 23, 22, 23, 23, 20, 22, 22, 22, 23, 22, 22, 23, 26, 26, 20, 19, 22, 23, 22, 25, 26, 26, 26, 27, 27, 26, 24, 25, 19, 21, 26, 27, 27, 26, 27, 24, 21, 21, 26, 26, 28, 27, 27, 27, 20, 24, 20, 21, 22, 21, 21, 23, 22, 22, 25, 25, 24, 24, 26, 23, 26, 27, 26, 26, 27, 27, 27, 27, 27, 28, 27, 27, 27, 27, 27, 26, 30];
struct Huff { code: [u32; 257], order: Vec<u16>, first: [u32; 32], off: [usize; 32], n: [usize; 32] }
fn huff() -> &'static Huff {
    static H: std::sync::OnceLock<Huff> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let mut order: Vec<u16> = (0..257).collect();
        order.sort_by_key(|i| (LEN[*i as usize], *i));
        let mut h = Huff { code: [0; 257], order: order.clone(), first: [0; 32], off: [0; 32], n: [0; 32] };
        let (mut code, mut prev) = (0u32, 0u8);
        for (k, &s) in order.iter().enumerate() {
            let l = LEN[s as usize];
            code <<= l - prev;
            prev = l;
            h.code[s as usize] = code;
            if h.n[l as usize] == 0 { h.first[l as usize] = code; h.off[l as usize] = k; }
            h.n[l as usize] += 1;
            code += 1;
        }
        h
    })
}
pub fn ref_huff_enc(s: &[u8]) -> Vec<u8> {
    let mut bits: Vec<bool> = vec![];
    for &b in s { push_code(&mut bits, b as usize) }
    while bits.len() % 8 != 0 { bits.push(true) }
    pack(&bits)
}
fn push_code(bits: &mut Vec<bool>, sym: usize) {
    let h = huff();
    for i in (0..LEN[sym]).rev() { bits.push(h.code[sym] >> i & 1 == 1) }
}
fn pack(bits: &[bool]) -> Vec<u8> { bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << (7 - i))).collect() }
pub fn ref_huff_dec(b: &[u8]) -> Option<Vec<u8>> {
    let h = huff();
    let mut out = vec![];
    let (mut cur, mut l, mut ones) = (0u32, 0usize, true);
    for i in 0..b.len() * 8 {
        let bit = b[i / 8] >> (7 - i % 8) & 1;
        cur = cur << 1 | bit as u32;
        ones &= bit == 1;
        l += 1;
        if l > 30 { return None; }
        if h.n[l] > 0 && cur >= h.first[l] && ((cur - h.first[l]) as usize) < h.n[l] {
            let s = h.order[h.off[l] + (cur - h.first[l]) as usize];
            if s == 256 { return None; }
            out.push(s as u8);
            cur = 0; l = 0; ones = true;
        }
    }
    if l > 7 || !ones { return None; }
    Some(out)
}
fn huff_str(c: &mut Case) -> Vec<u8> {
    let n = c.rng.small_len();
    match c.rng.below(3) { 0 => c.rng.bytes(n), 1 => c.rng.from(b"aeiost 012-./0123ABCxyzXYZ", n), _ => { let a = c.rng.bytes(3); c.rng.from(&a, n) } }
}
fn k02_check(c: &mut Case, s: Vec<u8>) -> R {
    c.key(&s);
    let e = HuffmanEncoder::encode(&s);
    ckeq!(hex(&e), hex(&ref_huff_enc(&s)), "Huffman octets");
    let el = HuffmanEncoder::encode_lower(&s);
    ckeq!(hex(&el), hex(&ref_huff_enc(&low(&s))), "Huffman octets of the lower case form");
    let d = HuffmanDecoder::new().decode(&e).map_err(|e| format!("encoded string refused: {:?}", e))?;
    ckeq!(hex(&d), hex(&s), "string decoded");
    Ok(())
}
fn k02_enc(c: &mut Case) -> R { let s = huff_str(c); k02_check(c, s) }
fn k02_pairs(c: &mut Case) -> R { let s = vec![(c.idx >> 8) as u8, c.idx as u8]; k02_check(c, s) }
fn k02_dec_check(c: &mut Case, b: Vec<u8>) -> R {
    c.key(&b);
    let want = ref_huff_dec(&b);
    let got = HuffmanDecoder::new().decode(&b).ok();
    ck!(got == want, "Huffman decode: got {:?}, expected {:?}", got.map(|x| hex(&x)), want.map(|x| hex(&x)));
    Ok(())
}
fn k02_dec(c: &mut Case) -> R {
    let n = c.rng.below(20);
    let mut b = c.rng.bytes(n);
    if c.rng.one_in(3) { for x in b.iter_mut() { if c.rng.one_in(2) { *x = 0xff } } }
    k02_dec_check(c, b)
}
fn k02_short(c: &mut Case) -> R {
    let i = c.idx;
    let b = if i == 0 { vec![] } else if i <= 256 { vec![(i - 1) as u8] } else { let j = i - 257; vec![(j >> 8) as u8, j as u8] };
    k02_dec_check(c, b)
}
fn k02_near(c: &mut Case) -> R {
    let mut bits = vec![];
    let n = c.rng.below(8);
    for _ in 0..n { let s = c.rng.below(256); push_code(&mut bits, s) }
    if c.rng.one_in(4) { push_code(&mut bits, 256); if c.rng.bool() { push_code(&mut bits, b'a' as usize) } }
    let extra = c.rng.below(20);
    let pat = c.rng.below(4);
    if c.rng.bool() { for _ in 0..extra { bits.push(match pat { 0 => false, 1 => c.rng.bool(), _ => true }) } }
    while bits.len() % 8 != 0 { bits.push(if pat == 3 { c.rng.bool() } else { true }) }
    for _ in 0..c.rng.below(3) * (pat == 2) as usize { for _ in 0..8 { bits.push(true) } }
    let b = pack(&bits);
    k02_dec_check(c, b)
}

// ---------- reference dynamic table
#[derive(Clone)]
struct Model { t: VecDeque<(Vec<u8>, Vec<u8>)>, max: usize, limit: usize }
impl Model {
    fn new() -> Model { Model { t: VecDeque::new(), max: 4096, limit: 4096 } }
    fn size(&self) -> usize { self.t.iter().map(|(n, v)| n.len() + v.len() + 32).sum() }
    fn evict(&mut self) { while self.size() > self.max { self.t.pop_back(); } }
    fn add(&mut self, n: Vec<u8>, v: Vec<u8>) { self.t.push_front((n, v)); self.evict() }
    fn get(&self, i: usize) -> Option<(Vec<u8>, Vec<u8>)> {
        if i == 0 { None } else if i <= 61 { Some((STATIC[i - 1].0.as_bytes().to_vec(), STATIC[i - 1].1.as_bytes().to_vec())) }
        else { self.t.get(i - 62).cloned() }
    }
}
fn table(h: &HeaderIndex) -> Pairs { pairs(&h.to_vec()) }
fn same_table(h: &HeaderIndex, m: &Model, when: &str) -> R {
    let a = table(h);
    let b: Pairs = m.t.iter().map(|(n, v)| (low(n), v.clone())).collect();
    ck!(a == b, "dynamic table {}: got [{}], expected [{}]", when, showp(&a), showp(&b));
    ckeq!(h.get_size(), m.size(), "size of the dynamic table {}", when);
    ckeq!(h.len(), b.len(), "entries of the dynamic table {}", when);
    ckeq!(h.get_max_table_size(), m.max, "maximum size of the dynamic table {}", when);
    ck!(h.get_size() <= h.get_max_table_size(), "dynamic table above its maximum {}", when);
    Ok(())
}
fn k03_hist(c: &mut Case) -> R {
    let mut h = HeaderIndex::new();
    let mut m = Model::new();
    let steps = c.rng.range(1, 30);
    for k in 0..steps {
        match c.rng.below(8) {
            0 => { let n = pick_size(c, &m); c.key(&("set", n)); h.set_max_table_size(n); m.max = n; m.limit = n; m.evict(); }
            1 => {
                let n = pick_size(c, &m);
                c.key(&("update", n));
                let r = h.update_max_table_size(n);
                ckeq!(r, n <= m.limit, "size update to {} with limit {}", n, m.limit);
                if r { m.max = n; m.evict(); }
            }
            _ => {
                let n = gen_name(c);
                let mut v = gen_value(c);
                if c.rng.one_in(6) { let want = m.max.saturating_sub(32 + n.as_bytes().len()); let k = (want + c.rng.below(3)).saturating_sub(1).min(5000); v = HeaderValue::from_bytes(&vec![b'v'; k]); }
                c.key(&(n.as_bytes(), hex(v.as_bytes())));
                h.add_header(n.clone(), v.clone());
                m.add(n.as_bytes().to_vec(), v.as_bytes().to_vec());
            }
        }
        same_table(&h, &m, &format!("after step {}", k))?;
    }
    Ok(())
}
fn pick_size(c: &mut Case, m: &Model) -> usize {
    match c.rng.below(6) { 0 => 0, 1 => c.rng.below(200), 2 => m.size(), 3 => m.size().saturating_sub(1), 4 => m.limit + c.rng.below(2), _ => c.rng.below(6000) }
}

// ---------- index address space
const STATIC: [(&str, &str); 61] = [(":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"), (":scheme", "http"), (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"), (":status", "304"), (":status", "400"), (":status", "404"), (":status", "500"), ("accept-charset", ""), ("accept-encoding", "gzip, deflate"), ("accept-language", ""), ("accept-ranges", ""), ("accept", ""), ("access-control-allow-origin", ""), ("age", ""), ("allow", ""), ("authorization", ""), ("cache-control", ""), ("content-disposition", ""), ("content-encoding", ""), ("content-language", ""), ("content-length", ""), ("content-location", ""), ("content-range", ""), ("content-type", ""), ("cookie", ""), ("date", ""), ("etag", ""), ("expect", ""), ("expires", ""), ("from", ""), ("host", ""), ("if-match", ""), ("if-modified-since", ""), ("if-none-match", ""), ("if-range", ""), ("if-unmodified-since", ""), ("last-modified", ""), ("link", ""), ("location", ""), ("max-forwards", ""), ("proxy-authenticate", ""), ("proxy-authorization", ""), ("range", ""), ("referer", ""), ("refresh", ""), ("retry-after", ""), ("server", ""), ("set-cookie", ""), ("strict-transport-security", ""), ("transfer-encoding", ""), ("user-agent", ""), ("vary", ""), ("via", ""), ("www-authenticate", "")];
fn got(h: &HeaderIndex, i: usize) -> Option<(Vec<u8>, Vec<u8>)> { h.get_from_index(i).map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec())) }
fn k04_static(c: &mut Case) -> R {
    let dynn = (c.idx / 100) as usize;
    let i = (c.idx % 100) as usize;
    c.key(&(dynn, i));
    let mut h = HeaderIndex::new();
    let mut m = Model::new();
    for k in 0..dynn { let n = format!("x-{}", k); h.add_header(HeaderName::try_from(n.clone()).unwrap(), HeaderValue::from_static("v")); m.add(n.into_bytes(), b"v".to_vec()); }
    let i = if i == 99 { usize::MAX } else if i == 98 { 1 << 33 } else { i };
    let (a, b) = (got(&h, i), m.get(i));
    ck!(a == b, "entry at index {} with {} dynamic entries: got {:?}, expected {:?}", i, dynn, a.map(|x| show(&x.0) + &show(&x.1)), b.map(|x| show(&x.0) + &show(&x.1)));
    Ok(())
}
fn k04_dyn(c: &mut Case) -> R {
    let mut h = HeaderIndex::new();
    let mut m = Model::new();
    if c.rng.bool() { let n = c.rng.below(700); h.set_max_table_size(n); m.max = n; m.limit = n; }
    let f = gen_fields(c, 14);
    c.key(&(m.max, pairs(&f)));
    for (n, v) in &f { h.add_header(n.clone(), v.clone()); m.add(n.as_bytes().to_vec(), v.as_bytes().to_vec()); }
    for i in 0..(64 + m.t.len()) {
        ck!(got(&h, i) == m.get(i), "entry at index {}: got {:?}, expected {:?}", i, got(&h, i), m.get(i));
    }
    let mut probe = gen_fields(c, 6);
    probe.extend(f.iter().cloned());
    for (n, v) in &probe {
        // whatever find answers must name an entry with that name (and value when it says so)
        match h.find_header((n, v)) {
            None => { ck!(!STATIC.iter().any(|(a, b)| *a.as_bytes() == low(n.as_bytes())[..] && b.as_bytes() == v.as_bytes()), "find missed a static entry: {}", show(n.as_bytes()));
                ck!(STATIC.iter().any(|(a, _)| *a.as_bytes() == low(n.as_bytes())[..]) || !m.t.iter().any(|e| low(&e.0) == low(n.as_bytes()) && e.1 == v.as_bytes()), "find missed a dynamic entry: {}", show(n.as_bytes())); }
            Some((i, full)) => {
                let e = m.get(i);
                ck!(e.is_some(), "find answered index {} which does not exist", i);
                let e = e.unwrap();
                ckeq!(show(&low(&e.0)), show(&low(n.as_bytes())), "name at the index find answered ({})", i);
                if full { ckeq!(hex(&e.1), hex(v.as_bytes()), "value at the index find answered ({})", i); }
            }
        }
    }
    Ok(())
}
fn k04_find(c: &mut Case) -> R {
    let k = (c.idx / 4) as usize;
    let h = HeaderIndex::new();
    let (n, v) = STATIC[k];
    let name = if c.idx & 1 == 1 { HeaderName::try_from(n.to_uppercase()).unwrap() } else { HeaderName::from_static(n) };
    let other = c.idx & 2 == 2;
    let val = if other { HeaderValue::from_static("no such value") } else { HeaderValue::from_bytes(v.as_bytes()) };
    c.key(&(k, other, c.idx & 1));
    match h.find_header((&name, &val)) {
        Some((i, full)) => {
            ck!(i >= 1 && i <= 61, "index {}", i);
            ckeq!(STATIC[i - 1].0, n, "name at the index found");
            ckeq!(full, !other, "full match");
            if full { ckeq!(i, k + 1, "index of a static entry"); }
        }
        None => { ck!(other, "static entry {} {} not found", n, v); }
    }
    Ok(())
}

// ---------- histories
fn list(c: &mut Case, past: &mut Vec<(HeaderName, HeaderValue)>) -> Vec<(HeaderName, HeaderValue)> {
    let mut l = vec![];
    for _ in 0..c.rng.below(7) {
        let f = if !past.is_empty() && c.rng.one_in(2) { let mut f = c.rng.pick(&past[..]).clone(); if c.rng.one_in(4) { f.1 = gen_value(c); } f } else { (gen_name(c), gen_value(c)) };
        let f = if c.rng.one_in(10) { let k = c.rng.below(61); let s = STATIC[k]; (HeaderName::from_static(s.0), HeaderValue::from_static(s.1)) } else { f };
        past.push(f.clone());
        l.push(f);
    }
    l
}
fn k05_hist(c: &mut Case) -> R {
    let mut e = Encoder::new();
    let mut d = Decoder::new();
    let mut m = Model::new();
    let mut past = vec![];
    if c.rng.bool() { let n = c.rng.below(500); e.index.write().unwrap().set_max_table_size(n); d.index.write().unwrap().set_max_table_size(n); m.limit = n; m.max = n; c.key(&n); }
    for k in 0..c.rng.range(1, 8) {
        let mut block = BinaryMut::new();
        if c.rng.one_in(4) {
            let n = c.rng.below(m.limit + 1);
            c.key(&("update", n));
            block.put_slice(&ref_int(n as u64, 5, 0x20));
            ck!(e.index.write().unwrap().update_max_table_size(n), "size update within the limit refused");
            m.max = n;
            m.evict();
        }
        let l = list(c, &mut past);
        let want = pairs(&l);
        c.key(&want);
        if c.rng.bool() { e.encode_into(l.iter().map(|x| (&x.0, &x.1)), &mut block).map_err(|e| format!("{:?}", e))?; }
        else { for x in &l { e.encode_header_into((&x.0, &x.1), &mut block).map_err(|e| format!("{:?}", e))?; } }
        let g = d.decode(&mut block.chunk()).map_err(|e| format!("block {} refused: {:?}", k, e))?;
        let g = pairs(&g);
        ck!(g == want, "header list {}: got [{}], expected [{}]", k, showp(&g), showp(&want));
        let (a, b) = (e.index.read().unwrap(), d.index.read().unwrap());
        ck!(table(&a) == table(&b), "tables differ after block {}: encoder [{}], decoder [{}]", k, showp(&table(&a)), showp(&table(&b)));
        ckeq!(a.get_size(), b.get_size(), "table sizes after block {}", k);
        ck!(a.get_size() <= a.get_max_table_size(), "table above its maximum");
    }
    Ok(())
}
enum Out { Ok(Pairs), Err, Skip }
/// reference decoder: appends to `out`, works on `m`
fn ref_decode(b: &[u8], m: &mut Model) -> Out {
    let mut out = vec![];
    let mut p = 0;
    fn string(b: &[u8], p: &mut usize) -> Option<Vec<u8>> {
        let h = *b.get(*p)? & 128 != 0;
        let (n, k) = ref_dec_int(&b[*p..], 7)?;
        let n = n as usize;
        if *p + k + n > b.len() { return None; }
        let raw = &b[*p + k..*p + k + n];
        *p += k + n;
        if h { ref_huff_dec(raw) } else { Some(raw.to_vec()) }
    }
    while p < b.len() {
        let o = b[p];
        if o & 0x80 != 0 {
            let (i, k) = match ref_dec_int(&b[p..], 7) { Some(x) => x, None => return Out::Err };
            match m.get(i as usize) { Some(f) => out.push(f), None => return Out::Err }
            p += k;
        } else if o & 0xe0 == 0x20 {
            let (n, k) = match ref_dec_int(&b[p..], 5) { Some(x) => x, None => return Out::Err };
            if n as usize > m.limit { return Out::Err; }
            m.max = n as usize;
            m.evict();
            p += k;
        } else {
            let (add, pre) = if o & 0x40 != 0 { (true, 6) } else { (false, 4) };
            let (i, k) = match ref_dec_int(&b[p..], pre) { Some(x) => x, None => return Out::Err };
            p += k;
            let name = if i == 0 {
                match string(b, &mut p) { Some(n) => { if std::str::from_utf8(&n).is_err() { return Out::Skip; } n } None => return Out::Err }
            } else { match m.get(i as usize) { Some(f) => f.0, None => return Out::Err } };
            let v = match string(b, &mut p) { Some(v) => v, None => return Out::Err };
            out.push((name.clone(), v.clone()));
            if add { m.add(name, v); }
        }
    }
    Out::Ok(out)
}
fn lowp(p: &Pairs) -> Pairs { p.iter().map(|(n, v)| (low(n), v.clone())).collect() }
fn k05_wire(c: &mut Case) -> R {
    let mut e = Encoder::new();
    let mut m = Model::new();
    let mut past = vec![];
    if c.rng.bool() { let n = c.rng.below(500); e.index.write().unwrap().set_max_table_size(n); m.limit = n; m.max = n; c.key(&n); }
    for k in 0..c.rng.range(1, 6) {
        let l = list(c, &mut past);
        let want = pairs(&l);
        c.key(&want);
        let block = e.encode(l.iter().map(|x| (&x.0, &x.1)));
        match ref_decode(block.chunk(), &mut m) {
            Out::Ok(g) => { ck!(g == want, "block {} read by a reference decoder: got [{}], expected [{}]", k, showp(&g), showp(&want)); }
            Out::Err => return Err(format!("block {} is not valid HPACK: {}", k, hex(block.chunk()))),
            Out::Skip => return Err(format!("block {} has a literal name that is not text", k)),
        }
        same_table(&e.index.read().unwrap(), &m, &format!("of the encoder after block {}", k))?;
    }
    Ok(())
}
fn k06_check(blocks: &[Vec<u8>], limit: usize) -> R {
    let mut d = Decoder::new();
    let mut m = Model::new();
    d.index.write().unwrap().set_max_table_size(limit);
    m.limit = limit;
    m.max = limit;
    for (k, b) in blocks.iter().enumerate() {
        let mut mm = m.clone();
        let want = ref_decode(b, &mut mm);
        let got = d.decode(&mut &b[..]);
        { let h = d.index.read().unwrap(); ck!(h.get_size() <= h.get_max_table_size(), "table above its maximum after block {}", k); }
        match (want, got) {
            (Out::Skip, _) => return Ok(()),
            (Out::Ok(w), Ok(g)) => {
                let g = pairs(&g);
                ck!(g == lowp(&w), "block {}: got [{}], expected [{}]", k, showp(&g), showp(&w));
                m = mm;
                same_table(&d.index.read().unwrap(), &m, &format!("after block {}", k))?;
            }
            (Out::Err, Err(_)) => { same_table(&d.index.read().unwrap(), &mm, &format!("after the refused block {}", k))?; return Ok(()); }
            (Out::Ok(w), Err(e)) => return Err(format!("valid block {} refused: {:?} (expected [{}])", k, e, showp(&w))),
            (Out::Err, Ok(g)) => return Err(format!("invalid block {} accepted: [{}]", k, showp(&pairs(&g)))),
        }
    }
    Ok(())
}
fn k06_arb(c: &mut Case) -> R {
    let n = c.rng.below(3) + 1;
    let mut bl = vec![];
    for _ in 0..n {
        let k = match c.rng.below(3) { 0 => c.rng.below(6), 1 => c.rng.below(20), _ => c.rng.below(60) };
        let mut b = c.rng.bytes(k);
        if c.rng.bool() { for x in b.iter_mut() { if c.rng.one_in(3) { *x = *c.rng.pick(&[0x40u8, 0x41, 0x0, 0x1, 0x2, 0x20, 0x3f, 0xff, 0x7f, 0x80, 0xbe, 0xbf, 0x10, 0x82]) } } }
        bl.push(b);
    }
    let lim = if c.rng.bool() { 4096 } else { c.rng.below(200) };
    c.key(&(&bl, lim));
    k06_check(&bl, lim)
}
fn lit(c: &mut Case, s: &[u8]) -> Vec<u8> {
    let h = c.rng.bool();
    let d = if h { ref_huff_enc(s) } else { s.to_vec() };
    let mut o = ref_int(d.len() as u64, 7, if h { 0x80 } else { 0 });
    o.extend(d);
    o
}
fn k06_struct(c: &mut Case) -> R {
    let lim = match c.rng.below(3) { 0 => 4096, 1 => c.rng.below(300), _ => c.rng.range(60, 200) };
    let mut bl = vec![];
    for _ in 0..c.rng.range(1, 4) {
        let mut b = vec![];
        for _ in 0..c.rng.range(1, 6) {
            let ix = if c.rng.one_in(8) { c.rng.below(140) } else { c.rng.range(1, 66) };
            match c.rng.below(8) {
                0 | 1 => b.extend(ref_int(ix as u64, 7, 0x80)),
                2 => { let n = match c.rng.below(3) { 0 => lim, 1 => c.rng.below(lim + 2), _ => lim + 1 }; let n = if c.rng.one_in(3) { n } else { n.min(lim) }; b.extend(ref_int(n as u64, 5, 0x20)) }
                k => {
                    let (l, p) = [(0x40u8, 6), (0x40, 6), (0x40, 6), (0x00, 4), (0x10, 4)][k - 3];
                    if c.rng.bool() { b.extend(ref_int(ix as u64, p, l)); } else { b.push(l); let n = gen_name(c); let x = lit(c, n.as_bytes()); b.extend(x); }
                    let v = gen_value(c);
                    let x = lit(c, v.as_bytes());
                    b.extend(x);
                }
            }
        }
        if c.rng.one_in(6) && !b.is_empty() { let i = c.rng.below(b.len()); match c.rng.below(3) { 0 => b.truncate(i), 1 => b[i] = c.rng.u8(), _ => b[i] ^= 1 << c.rng.below(8) } }
        bl.push(b);
    }
    c.key(&(&bl, lim));
    k06_check(&bl, lim)
}

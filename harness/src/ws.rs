//! W01..W04: WebSocket framing.
use crate::core::*;
use crate::{ck, ckeq};
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use webparse::ws::frame_header::{read_header, write_header, WsFrameFlags};
use webparse::ws::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "W01", suites: vec![
            Suite { name: "w01_write_then_read", what: "write_header against the RFC 6455 layout, then read_header of those bytes", count: Count::Rand(60_000, 2_000_000), f: w01_rt },
            Suite { name: "w01_small_exhaustive", what: "all first bytes x {mask} x boundary lengths", count: Count::All(256 * 2 * BOUND.len() as u64), f: w01_ex },
            Suite { name: "w01_read_two_bytes", what: "read_header on every pair of first bytes with random rest, against a reference reader", count: Count::All(65536), f: w01_read },
            Suite { name: "w01_read_random", what: "read_header on random bytes and truncations, against a reference reader", count: Count::Rand(60_000, 1_000_000), f: w01_read_rand },
        ]},
        Prop { id: "W02", suites: vec![
            Suite { name: "w02_frame_roundtrip", what: "data frame written (masked or not) equals reference bytes, reads back equal, rest untouched", count: Count::Rand(20_000, 400_000), f: w02_rt },
            Suite { name: "w02_frame_sizes", what: "payload lengths 0..=300 and around 65535, all masks patterns", count: Count::All(320), f: w02_sizes },
            Suite { name: "w02_truncated", what: "every strict prefix of a written frame is an error, never a frame", count: Count::Rand(4_000, 100_000), f: w02_trunc },
            Suite { name: "w02_limit", what: "read with limit: error iff the announced length exceeds it, never a longer payload", count: Count::Rand(20_000, 300_000), f: w02_limit },
            Suite { name: "w02_masker_chunks", what: "masking data in arbitrary pieces equals masking it at once", count: Count::Rand(10_000, 200_000), f: w02_chunks },
            Suite { name: "w02_arbitrary_bytes", what: "reading arbitrary bytes gives a frame of the announced length or an error", count: Count::Rand(40_000, 600_000), f: w02_arb },
        ]},
        Prop { id: "W03", suites: vec![
            Suite { name: "w03_message_roundtrip", what: "message -> frame bytes -> frame -> message", count: Count::Rand(20_000, 300_000), f: w03_rt },
            Suite { name: "w03_fragments", what: "message cut in any fragments reassembles", count: Count::Rand(20_000, 300_000), f: w03_frag },
            Suite { name: "w03_bad_sequences", what: "sequences that are not one message are errors", count: Count::Rand(20_000, 300_000), f: w03_bad },
            Suite { name: "w03_borrowed_equals_owned", what: "borrowed and owned messages write the same bytes and convert to each other", count: Count::Rand(10_000, 100_000), f: w03_conv },
            Suite { name: "w03_sizes", what: "announced size equals bytes written around every length-form boundary", count: Count::All(5 * 2 * 400), f: w03_sizes },
        ]},
        Prop { id: "W04", suites: vec![
            Suite { name: "w04_opcode", what: "all 256 opcode bytes", count: Count::All(256), f: w04_op },
            Suite { name: "w04_close_code", what: "all 65536 close codes", count: Count::All(65536), f: w04_cc },
            Suite { name: "w04_kinds", what: "which message kinds count as control, for every kind, with and without contents", count: Count::Rand(2048, 40000), f: w04_kinds },
        ]},
    ]
}

const BOUND: [u64; 14] = [0, 1, 2, 124, 125, 126, 127, 255, 256, 65534, 65535, 65536, 1 << 32, u64::MAX];

pub fn ref_header(flags: u8, opcode: u8, mask: Option<[u8; 4]>, len: u64) -> Vec<u8> {
    let mut v = vec![flags | opcode];
    let m = if mask.is_some() { 128 } else { 0 };
    if len < 126 { v.push(m + len as u8) }
    else if len < 65536 { v.push(m + 126); v.push((len / 256) as u8); v.push((len % 256) as u8) }
    else { v.push(m + 127); for i in (0..8).rev() { v.push((len >> (8 * i)) as u8) } }
    if let Some(k) = mask { v.extend_from_slice(&k) }
    v
}

/// reference reader: (header, consumed) or None for an error
pub fn ref_read(b: &[u8]) -> Option<(u8, u8, Option<[u8; 4]>, u64, usize)> {
    if b.len() < 2 { return None; }
    let (mut p, l7) = (2, b[1] & 0x7f);
    let len = if l7 < 126 { l7 as u64 } else {
        let n = if l7 == 126 { 2 } else { 8 };
        if b.len() < p + n { return None; }
        let mut x = 0u64;
        for i in 0..n { x = x << 8 | b[p + i] as u64 }
        p += n;
        if n == 2 && x < 126 { return None; }
        if n == 8 && x < 65536 { return None; }
        x
    };
    let op = b[0] & 15;
    if op >= 8 && (len > 125 || b[0] & 0x80 == 0) { return None; }
    let mask = if b[1] & 0x80 != 0 {
        if b.len() < p + 4 { return None; }
        p += 4;
        Some([b[p - 4], b[p - 3], b[p - 2], b[p - 1]])
    } else { None };
    Some((b[0] & 0xf0, op, mask, len, p))
}

fn check_header(c: &mut Case, flags: u8, opcode: u8, mask: Option<[u8; 4]>, len: u64) -> R {
    c.key(&(flags, opcode, mask, len));
    let h = WsFrameHeader { flags: WsFrameFlags::from_bits_truncate(flags), opcode, mask, len };
    let mut out: Vec<u8> = vec![0xEE];
    let r = write_header(&mut out, h);
    let refused = opcode > 15 || (opcode >= 8 && len > 125);
    ckeq!(r.is_err(), refused, "header refused on writing");
    if refused { return Ok(()); }
    let want = ref_header(flags, opcode, mask, len);
    ckeq!(hex(&out[1..]), hex(&want), "bytes of the written header");
    let tail = c.rng.bytes(3);
    let mut all = want.clone();
    all.extend_from_slice(&tail);
    let mut rd = &all[..];
    let r = read_header(&mut rd);
    if opcode >= 8 && flags & 0x80 == 0 { ck!(r.is_err(), "a fragmented control header was read: {:?}", r); return Ok(()); }
    let g = match r { Ok(g) => g, Err(e) => return Err(format!("written header is not readable: {:?}", e)) };
    ckeq!((g.flags.bits(), g.opcode, g.mask, g.len), (flags, opcode, mask, len), "header read back");
    ckeq!(rd.len(), tail.len(), "bytes left after reading the header");
    for cut in 0..want.len() {
        let mut rd = &want[..cut];
        ck!(read_header(&mut rd).is_err(), "a cut header (first {} bytes) was read", cut);
    }
    Ok(())
}
fn w01_rt(c: &mut Case) -> R {
    let flags = c.rng.u8() & 0xf0;
    let op = if c.rng.one_in(20) { c.rng.u8() } else { c.rng.u8() & 15 };
    let mask = if c.rng.bool() { let b = c.rng.bytes(4); Some([b[0], b[1], b[2], b[3]]) } else { None };
    let len = if op >= 8 && !c.rng.one_in(5) { c.rng.below(126) as u64 } else { c.rng.wide(64) };
    check_header(c, flags, op, mask, len)
}
fn w01_ex(c: &mut Case) -> R {
    let i = c.idx;
    let b0 = (i % 256) as u8;
    let m = (i / 256) % 2 == 1;
    let len = BOUND[(i / 512) as usize];
    let k = c.rng.bytes(4);
    check_header(c, b0 & 0xf0, b0 & 15, if m { Some([k[0], k[1], k[2], k[3]]) } else { None }, len)
}
fn check_read(c: &mut Case, b: Vec<u8>) -> R {
    c.key(&b);
    let mut rd = &b[..];
    let got = read_header(&mut rd);
    match (ref_read(&b), got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(h)) => Err(format!("invalid header bytes were read as {:?}", h)),
        (Some(w), Err(e)) => Err(format!("valid header refused: expected {:?}, got {:?}", w, e)),
        (Some((f, o, m, l, n)), Ok(h)) => {
            ckeq!((h.flags.bits(), h.opcode, h.mask, h.len), (f, o, m, l), "header read");
            ckeq!(b.len() - rd.len(), n, "bytes consumed");
            Ok(())
        }
    }
}
fn w01_read(c: &mut Case) -> R {
    let mut b = vec![(c.idx >> 8) as u8, c.idx as u8];
    let n = c.rng.below(14);
    b.extend(c.rng.bytes(n));
    if c.rng.bool() && b.len() > 4 { b[2] = 0; b[3] = c.rng.pick(&[0u8, 125, 126, 127, 128, 200]).clone(); }
    check_read(c, b)
}
fn w01_read_rand(c: &mut Case) -> R {
    let n = c.rng.below(16);
    let mut b = c.rng.bytes(n);
    if b.len() > 1 && c.rng.bool() { b[1] = *c.rng.pick(&[126u8, 127, 254, 255, 125, 253]); }
    if b.len() > 9 && c.rng.bool() { for i in 2..8 { b[i] = 0 } if c.rng.bool() { b[7] = 1 } }
    check_read(c, b)
}

fn ref_mask(k: [u8; 4], d: &[u8]) -> Vec<u8> { let mut v = d.to_vec(); for i in 0..v.len() { v[i] ^= k[i % 4] } v }

fn gen_payload(c: &mut Case, control: bool) -> Vec<u8> {
    let n = if control { c.rng.below(126) } else {
        match c.rng.below(60) { 0 => c.rng.range(65530, 65540), 1..=6 => c.rng.range(120, 130), 7 => c.rng.range(250, 260), 8 => c.rng.below(3000), _ => c.rng.below(20) } };
    let b = c.rng.u8();
    if n > 1000 { (0..n).map(|i| (i as u8).wrapping_mul(31) ^ b).collect() } else { c.rng.bytes(n) }
}
fn gen_frame(c: &mut Case) -> (DataFrame, Option<[u8; 4]>, u8) {
    let op = c.rng.u8() & 15;
    let fin = op >= 8 || c.rng.bool();
    let data = gen_payload(c, op >= 8);
    let mut f = DataFrame::new(fin, Opcode::new(op).unwrap(), data);
    f.reserved = [c.rng.one_in(4), c.rng.one_in(4), c.rng.one_in(4)];
    let k = c.rng.bytes(4);
    let mask = if c.rng.bool() { Some([k[0], k[1], k[2], k[3]]) } else { None };
    c.key(&(op, fin, f.reserved, mask, hex(&f.data), f.data.len()));
    (f, mask, op)
}
fn ref_frame(f: &DataFrame, op: u8, mask: Option<[u8; 4]>) -> Vec<u8> {
    let flags = (f.finished as u8) << 7 | (f.reserved[0] as u8) << 6 | (f.reserved[1] as u8) << 5 | (f.reserved[2] as u8) << 4;
    let mut w = ref_header(flags, op, mask, f.data.len() as u64);
    match mask { Some(k) => w.extend(ref_mask(k, &f.data)), None => w.extend_from_slice(&f.data) }
    w
}
fn w02_check(c: &mut Case, f: DataFrame, mask: Option<[u8; 4]>, op: u8) -> R {
    let want = ref_frame(&f, op, mask);
    let mut out = Vec::new();
    if let Err(e) = f.write_to(&mut out, mask) { return Err(format!("a legal frame is not writable: {:?}", e)); }
    ck!(out == want, "bytes of the written frame: got {}, expected {}", hex(&out), hex(&want));
    ckeq!(f.frame_size(mask.is_some()), want.len(), "announced frame size");
    let mut bm = BinaryMut::new();
    bm.put_slice(b"xy");
    let _ = f.write_to(&mut bm, mask);
    ck!(bm.chunk()[2..] == want[..], "bytes written to a BinaryMut differ: {}", hex(bm.chunk()));
    let tail = c.rng.bytes(5);
    let mut all = want.clone();
    all.extend_from_slice(&tail);
    let mut rd = &all[..];
    let g = match DataFrame::read_dataframe(&mut rd, mask.is_some()) { Ok(g) => g, Err(e) => return Err(format!("written frame not readable: {:?}", e)) };
    ck!(g == f, "frame read back differs: got {:?}", (g.finished, g.reserved, g.opcode, hex(&g.data)));
    ck!(rd == &tail[..], "bytes after the frame: got {}, expected {}", hex(rd), hex(&tail));
    let mut rd = Binary::from(all.clone());
    let g = DataFrame::read_dataframe_with_limit(&mut rd, mask.is_some(), f.data.len()).map_err(|e| format!("frame of exactly the limit refused: {:?}", e))?;
    ck!(g == f && rd.remaining() == tail.len(), "frame read back with limit differs");
    Ok(())
}
fn w02_rt(c: &mut Case) -> R { let (f, m, op) = gen_frame(c); w02_check(c, f, m, op) }
fn w02_sizes(c: &mut Case) -> R {
    let n = if c.idx <= 300 { c.idx as usize } else { 65526 + (c.idx as usize - 300) };
    let b = c.rng.u8();
    let data: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(167).wrapping_add(b)).collect();
    c.key(&(n, b));
    let f = DataFrame::new(true, Opcode::Binary, data);
    let k = c.rng.bytes(4);
    w02_check(c, f.clone(), None, 2)?;
    w02_check(c, f, Some([k[0], k[1], k[2], k[3]]), 2)
}
fn w02_trunc(c: &mut Case) -> R {
    let op = c.rng.u8() & 15;
    let n = *c.rng.pick(&[0usize, 1, 2, 5, 30, 125, 126, 130]);
    let n = if op >= 8 { n.min(125) } else { n };
    let f = DataFrame::new(true, Opcode::new(op).unwrap(), c.rng.bytes(n));
    let k = c.rng.bytes(4);
    let mask = if c.rng.bool() { Some([k[0], k[1], k[2], k[3]]) } else { None };
    c.key(&(op, mask, hex(&f.data)));
    let w = ref_frame(&f, op, mask);
    for cut in 0..w.len() {
        let mut rd = &w[..cut];
        ck!(DataFrame::read_dataframe(&mut rd, true).is_err(), "a frame was read from its first {} of {} bytes", cut, w.len());
        let mut rd = &w[..cut];
        ck!(DataFrame::read_dataframe_with_limit(&mut rd, true, 1000).is_err(), "a frame was read (limit) from its first {} of {} bytes", cut, w.len());
    }
    Ok(())
}
fn w02_limit(c: &mut Case) -> R {
    let n = c.rng.below(300);
    let limit = if c.rng.bool() { (n + c.rng.below(5)).saturating_sub(2) } else { c.rng.below(400) };
    let f = DataFrame::new(true, Opcode::Binary, c.rng.bytes(n));
    let short = c.rng.below(4) == 0;
    c.key(&(n, limit, short, hex(&f.data)));
    let mut w = ref_frame(&f, 2, None);
    if short { w.truncate(w.len() - n / 2) }
    let mut rd = &w[..];
    match DataFrame::read_dataframe_with_limit(&mut rd, false, limit) {
        Ok(g) => { ck!(n <= limit, "a payload of {} bytes was accepted with limit {}", n, limit); ck!(g == f, "wrong frame"); }
        Err(_) => { ck!(n > limit || short && n >= 2, "a payload of {} bytes refused with limit {}", n, limit); }
    }
    // an enormous announced length must be refused without allocating it
    let huge = ref_header(0x80, 2, None, c.rng.wide(64) | 1 << 40);
    let mut rd = &huge[..];
    ck!(DataFrame::read_dataframe(&mut rd, false).is_err(), "huge length accepted");
    let mut rd = &huge[..];
    ck!(DataFrame::read_dataframe_with_limit(&mut rd, false, 1 << 20).is_err(), "huge length accepted with limit");
    Ok(())
}
fn w02_chunks(c: &mut Case) -> R {
    let k = c.rng.bytes(4);
    let key = [k[0], k[1], k[2], k[3]];
    let mut out = vec![];
    let mut all = vec![];
    let mut cuts = vec![];
    {
        let mut m = Masker::new(key, &mut out);
        for _ in 0..c.rng.below(6) {
            match c.rng.below(5) {
                0 => { let v = c.rng.u8(); m.put_u8(v); all.push(v); cuts.push(1); }
                1 => { let v = c.rng.u16(); m.put_u16(v); all.extend_from_slice(&v.to_be_bytes()); cuts.push(2); }
                _ => { let n = c.rng.below(11); let d = c.rng.bytes(n); let r = m.put_slice(&d); ckeq!(r, n, "bytes reported as put"); all.extend_from_slice(&d); cuts.push(n); }
            }
        }
    }
    c.key(&(key, cuts, hex(&all)));
    ckeq!(hex(&out), hex(&ref_mask(key, &all)), "masked bytes");
    Ok(())
}
fn w02_arb(c: &mut Case) -> R {
    let n = c.rng.below(24);
    let mut b = c.rng.bytes(n);
    if b.len() > 1 && c.rng.bool() { b[1] = b[1] & 0x80 | c.rng.below(12) as u8 }
    if b.len() > 0 && c.rng.bool() { b[0] |= 0x80 }
    c.key(&b);
    let want = ref_read(&b).and_then(|(f, o, m, l, p)| if l > (b.len() - p) as u64 { None } else {
        let d = &b[p..p + l as usize];
        Some((f, o, match m { Some(k) => ref_mask(k, d), None => d.to_vec() }, p + l as usize)) });
    let mut rd = &b[..];
    match (want, DataFrame::read_dataframe(&mut rd, true)) {
        (None, Err(_)) => Ok(()),
        (None, Ok(f)) => Err(format!("bytes that are no frame were read: {:?}", f)),
        (Some(w), Err(e)) => Err(format!("valid frame refused: {:?} {:?}", w, e)),
        (Some((f, o, d, n)), Ok(g)) => {
            ckeq!((g.finished, g.reserved, g.opcode as u8, g.data), (f & 0x80 != 0, [f & 0x40 != 0, f & 0x20 != 0, f & 0x10 != 0], o, d), "frame read");
            ckeq!(b.len() - rd.len(), n, "bytes consumed");
            Ok(())
        }
    }
}

const TEXTS: [&str; 8] = ["", "a", "hello", "\u{e9}", "\u{4f60}\u{597d}", "\u{1F600}", "\0", "x\u{7ff}y"];
fn gen_text(c: &mut Case, max: usize) -> String {
    let mut s = String::new();
    let n = if max > 1000 && c.rng.one_in(60) { 66000 } else if max > 200 && c.rng.one_in(8) { c.rng.range(100, 140) } else { c.rng.below(12) };
    if n > 1000 { return "\u{e9}a".repeat(n / 3); }
    while s.len() < n { let t: &str = *c.rng.pick(&TEXTS[..]); s.push_str(t); if c.rng.bool() { s.push((b'a' + c.rng.below(26) as u8) as char) } }
    while s.len() > max { s.pop(); }
    s
}
/// (kind, payload, owned, borrowed)
fn gen_msg(c: &mut Case) -> (u8, Vec<u8>, OwnedMessage, Message<'static>) {
    let kind = *c.rng.pick(&[1u8, 2, 8, 8, 9, 10]);
    match kind {
        1 => { let t = gen_text(c, 100000); (1, t.clone().into_bytes(), OwnedMessage::Text(t.clone()), Message::text(t)) }
        2 => { let d = gen_payload(c, false); (2, d.clone(), OwnedMessage::Binary(d.clone()), Message::binary(d)) }
        8 => if c.rng.one_in(4) { (8, vec![], OwnedMessage::Close(None), Message::close()) } else {
            let code = c.rng.u16(); let t = gen_text(c, 123);
            let mut p = code.to_be_bytes().to_vec(); p.extend_from_slice(t.as_bytes());
            (8, p, OwnedMessage::Close(Some(CloseData::new(code, t.clone()))), Message::close_because(code, t)) },
        9 => { let d = gen_payload(c, true); (9, d.clone(), OwnedMessage::Ping(d.clone()), Message::ping(d)) }
        _ => { let d = gen_payload(c, true); (10, d.clone(), OwnedMessage::Pong(d.clone()), Message::pong(d)) }
    }
}
fn w03_check(c: &mut Case, kind: u8, payload: Vec<u8>, own: OwnedMessage) -> R {
    let k = c.rng.bytes(4);
    let mask = if c.rng.bool() { Some([k[0], k[1], k[2], k[3]]) } else { None };
    c.key(&(kind, mask, payload.len(), hex(&payload)));
    let f = DataFrame::new(true, Opcode::new(kind).unwrap(), payload.clone());
    let want = ref_frame(&f, kind, mask);
    let mut out = vec![];
    own.write_to(&mut out, mask).map_err(|e| format!("message is not writable: {:?}", e))?;
    ck!(out == want, "bytes of the written message: got {}, expected {}", hex(&out), hex(&want));
    ckeq!(own.message_size(mask.is_some()), want.len(), "announced message size");
    ckeq!(own.size(), payload.len(), "announced payload size");
    ckeq!(hex(&own.clone().take_payload()), hex(&payload), "payload taken");
    ckeq!((own.is_close(), own.is_ping(), own.is_pong(), own.is_control(), own.is_data()), (kind == 8, kind == 9, kind == 10, kind >= 8, kind < 8), "kind predicates");
    let mut rd = &want[..];
    let fr = DataFrame::read_dataframe(&mut rd, mask.is_some()).map_err(|e| format!("frame not readable: {:?}", e))?;
    let back = OwnedMessage::from_dataframes(vec![fr]).map_err(|e| format!("message not rebuilt: {:?}", e))?;
    ck!(back == own, "message read back differs: got {:?}", short(&back));
    Ok(())
}
fn short(m: &OwnedMessage) -> String { let s = format!("{:?}", m); s.chars().take(200).collect() }
fn w03_rt(c: &mut Case) -> R { let (k, p, o, _) = gen_msg(c); w03_check(c, k, p, o) }
fn w03_frag(c: &mut Case) -> R {
    let (kind, p, own, _) = gen_msg(c);
    let mut cuts: Vec<usize> = (0..c.rng.below(5)).map(|_| c.rng.below(p.len() + 1)).collect();
    cuts.sort();
    c.key(&(kind, hex(&p), &cuts));
    let mut frames = vec![];
    let mut a = 0;
    for (i, &b) in cuts.iter().chain(std::iter::once(&p.len())).enumerate() {
        frames.push(DataFrame::new(i == cuts.len(), Opcode::new(if i == 0 { kind } else { 0 }).unwrap(), p[a..b].to_vec()));
        a = b;
    }
    let m = OwnedMessage::from_dataframes(frames).map_err(|e| format!("fragments not reassembled: {:?}", e))?;
    ck!(m == own, "reassembled message differs: got {}", short(&m));
    Ok(())
}
fn w03_bad(c: &mut Case) -> R {
    let which = c.rng.below(6);
    let n = c.rng.range(1, 4);
    let mut frames: Vec<DataFrame> = vec![];
    for i in 0..n { let l = c.rng.below(6); frames.push(DataFrame::new(i == n - 1, Opcode::new(if i == 0 { 2 } else { 0 }).unwrap(), c.rng.bytes(l))); }
    match which {
        0 => frames.clear(),
        1 => { let i = c.rng.below(n); let j = c.rng.below(3); frames[i].reserved[j] = true; }
        2 => { if n < 2 { c.trivial(); return Ok(()); } let i = c.rng.range(1, n - 1); let o = c.rng.range(1, 15) as u8; frames[i].opcode = Opcode::new(o).unwrap(); }
        3 => { let o = *c.rng.pick(&[0u8, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15]); frames[0].opcode = Opcode::new(o).unwrap(); }
        4 => { // text that is not UTF-8, possibly only across a cut
            let bad: &[u8] = *c.rng.pick(&[&b"\xff"[..], b"\xc3", b"a\xe4\xbd", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\xaf", b"ok\x80"]);
            frames = vec![DataFrame::new(false, Opcode::Text, b"abc".to_vec()), DataFrame::new(true, Opcode::Continuation, bad.to_vec())];
            if c.rng.bool() { frames = vec![DataFrame::new(true, Opcode::Text, bad.to_vec())] }
        }
        _ => { // close payloads: one byte, or a reason that is not UTF-8
            let bad: &[u8] = *c.rng.pick(&[&b"\x03"[..], b"\x03\xe8\xff", b"\x03\xe8\xc3"]);
            frames = vec![DataFrame::new(true, Opcode::Close, bad.to_vec())];
        }
    }
    c.key(&(which, format!("{:?}", frames)));
    match OwnedMessage::from_dataframes(frames) { Ok(m) => Err(format!("not a message but accepted (case {}): {}", which, short(&m))), Err(_) => Ok(()) }
}
fn w03_conv(c: &mut Case) -> R {
    let (kind, p, own, bor) = gen_msg(c);
    c.key(&(kind, p.len(), hex(&p)));
    let (mut a, mut b) = (vec![], vec![]);
    let mask = if c.rng.bool() { Some([9, 0, 255, 7]) } else { None };
    own.write_to(&mut a, mask).map_err(|e| format!("{:?}", e))?;
    bor.write_to(&mut b, mask).map_err(|e| format!("{:?}", e))?;
    ck!(a == b, "borrowed and owned message write different bytes: {} / {}", hex(&a), hex(&b));
    ckeq!(bor.frame_size(mask.is_some()), b.len(), "announced size of the borrowed message");
    ckeq!(hex(&bor.clone().take_payload()), hex(&p), "payload taken from the borrowed message");
    let o2: OwnedMessage = bor.clone().into();
    ck!(o2 == own, "borrowed to owned: {}", short(&o2));
    let b2: Message = own.clone().into();
    ck!(b2 == bor, "owned to borrowed differs");
    let mut b3 = bor.clone();
    let r = b3.into_pong();
    ckeq!(r.is_ok(), kind == 9, "ping turned into pong");
    ck!(b3.opcode as u8 == if kind == 9 { 10 } else { kind } && b3.payload == bor.payload, "into_pong changed the message");
    if let OwnedMessage::Close(Some(d)) = &own { ckeq!(d.clone().into_bytes().unwrap(), p, "close data bytes"); }
    Ok(())
}
fn w03_sizes(c: &mut Case) -> R {
    let kind = [1u8, 2, 8, 9, 10][(c.idx % 5) as usize];
    let i = ((c.idx / 10) % 400) as usize;
    let n = if i < 300 { i } else { 65440 + i - 300 };
    if kind >= 8 && n > 125 { c.trivial(); return Ok(()); }
    let own = match kind {
        1 => OwnedMessage::Text("q".repeat(n)), 2 => OwnedMessage::Binary(vec![7; n]), 9 => OwnedMessage::Ping(vec![7; n]), 10 => OwnedMessage::Pong(vec![7; n]),
        _ => if n < 2 { OwnedMessage::Close(None) } else { OwnedMessage::Close(Some(CloseData::new(1000u16, "r".repeat(n - 2)))) } };
    let p = match kind { 1 => vec![b'q'; n], 8 => if n < 2 { vec![] } else { let mut v = vec![3, 232]; v.extend(vec![b'r'; n - 2]); v }, _ => vec![7; n] };
    w03_check(c, kind, p, own)
}
fn w04_op(c: &mut Case) -> R {
    let b = c.idx as u8;
    c.key(&b);
    match Opcode::new(b) {
        None => { ck!(b > 15, "opcode {} refused", b); }
        Some(o) => {
            ck!(b <= 15, "opcode {} accepted", b);
            ckeq!(o as u8, b, "opcode number");
            let want = match b { 0 => "Continuation", 1 => "Text", 2 => "Binary", 8 => "Close", 9 => "Ping", 10 => "Pong", _ => "" };
            if want != "" { ckeq!(format!("{:?}", o), want, "opcode {}", b); }
        }
    }
    Ok(())
}
fn w04_kinds(c: &mut Case) -> R {
    c.key(&c.idx.clone());
    // every kind, empty, with one octet, and with contents of any size up to beyond what a control frame may carry
    let n = match (c.idx / 8) % 8 { 0 => 0, 1 => 1, 2 => 2, 3 => 123, 4 => 125, 5 => 126, _ => c.rng.below(300) };
    let data = c.rng.bytes(n);
    let text: String = data.iter().map(|b| (b % 128) as char).collect();
    let code = if c.rng.bool() { c.rng.u16() } else { 1000 + c.rng.below(16) as u16 };
    let (m, kind) = match c.idx % 8 {
        0 | 6 => (OwnedMessage::Text(text), 1u8), 1 | 7 => (OwnedMessage::Binary(data), 2), 2 => (OwnedMessage::Close(None), 8),
        3 => (OwnedMessage::Close(Some(CloseData::new(code, text))), 8), 4 => (OwnedMessage::Ping(data), 9), _ => (OwnedMessage::Pong(data), 10),
    };
    ckeq!(m.opcode(), kind, "opcode of {:?}", m);
    ckeq!((m.is_close(), m.is_ping(), m.is_pong(), m.is_control(), m.is_data()), (kind == 8, kind == 9, kind == 10, kind >= 8, kind < 8), "kind predicates of {:?}", m);
    Ok(())
}
fn w04_cc(c: &mut Case) -> R {
    let n = c.idx as u16;
    c.key(&n);
    let k = CloseCode::from(n);
    let back: u16 = k.into();
    ckeq!(back, n, "close code {} maps to {:?} and back", n, k);
    use CloseCode::*;
    let want = match n { 1000 => Some(Normal), 1001 => Some(Away), 1002 => Some(Protocol), 1003 => Some(Unsupported), 1005 => Some(Status), 1006 => Some(Abnormal), 1007 => Some(Invalid), 1008 => Some(Policy), 1009 => Some(Size), 1010 => Some(Extension), 1011 => Some(Error), 1012 => Some(Restart), 1013 => Some(Again), 1015 => Some(Tls), _ => None };
    match want { Some(w) => ckeq!(k, w, "meaning of close code {}", n), None => ck!(matches!(k, Other(x) if x == n) || (n == 0 && k == Empty), "close code {} got the name {:?}", n, k) }
    ckeq!(CloseData::new(k, String::new()).status_code, n, "close data status");
    Ok(())
}

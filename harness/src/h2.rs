//! F01..F07: HTTP/2 frames.
use crate::core::*;
use crate::{ck, ckeq};
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::*;
use webparse::http2::Decoder;
use webparse::{HeaderMap, HeaderName, HeaderValue, Method, Scheme};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "F01", suites: vec![
            Suite { name: "f01_roundtrip", what: "frame header -> 9 bytes of RFC 7540 4.1 -> same header", count: Count::Rand(100_000, 2_000_000), f: f01_rt },
            Suite { name: "f01_parse", what: "9 arbitrary bytes against a reference parser, reserved bit ignored", count: Count::Rand(100_000, 2_000_000), f: f01_parse },
            Suite { name: "f01_kinds_flags", what: "all kinds x all flag bytes", count: Count::All(65536), f: f01_kf },
            Suite { name: "f01_short", what: "fewer than 9 bytes is an error that consumes nothing", count: Count::All(9 * 64), f: f01_short },
        ]},
        Prop { id: "F02", suites: vec![
            Suite { name: "f02_roundtrip", what: "PING, RST_STREAM, WINDOW_UPDATE, GOAWAY, PRIORITY: reference bytes, header length, read back", count: Count::Rand(100_000, 1_000_000), f: f02_rt },
            Suite { name: "f02_lengths", what: "wrong payload lengths, stream 0 rules, zero increment, self dependency", count: Count::Rand(60_000, 500_000), f: f02_bad },
        ]},
        Prop { id: "F03", suites: vec![
            Suite { name: "f03_parse_reference", what: "arbitrary settings lists against a reference interpreter", count: Count::Rand(60_000, 800_000), f: f03_parse },
            Suite { name: "f03_roundtrip", what: "settings built, encoded, parsed back; HTTP2-Settings header form too", count: Count::Rand(60_000, 500_000), f: f03_rt },
            Suite { name: "f03_ack", what: "acknowledgement carries no payload", count: Count::All(64), f: f03_ack },
            Suite { name: "f03_single_values", what: "every setting id 0..=15 with boundary values", count: Count::All(16 * VALS.len() as u64), f: f03_single },
        ]},
        Prop { id: "F04", suites: vec![
            Suite { name: "f04_arbitrary", what: "arbitrary frame header and payload: a frame or an error, never a panic, never endless", count: Count::Rand(120_000, 3_000_000), f: f04_arb },
            Suite { name: "f04_mutated", what: "valid frames with a few bytes changed, cut or doubled", count: Count::Rand(60_000, 1_000_000), f: f04_mut },
            Suite { name: "f04_kind_flag_len", what: "every kind x flag combination x payload length 0..=12", count: Count::All(11 * 16 * 13 * 3), f: f04_grid },
        ]},
        Prop { id: "F05", suites: vec![
            Suite { name: "f05_split", what: "DATA frames of one body: sizes, order, END_STREAM only on the last", count: Count::Rand(40_000, 400_000), f: f05_split },
            Suite { name: "f05_grid", what: "all body lengths 0..=64 x frame sizes 1..=20 x END_STREAM", count: Count::All(65 * 20 * 2), f: f05_grid },
        ]},
        Prop { id: "F06", suites: vec![
            Suite { name: "f06_headers_padding", what: "padding of HEADERS never reaches the header block; oversized padding is an error", count: Count::Rand(30_000, 300_000), f: f06_headers },
            Suite { name: "f06_data_padding", what: "padding of DATA is not body (known finding: the padding stays)", count: Count::Rand(10_000, 100_000), f: f06_data },
            Suite { name: "f06_other_kinds", what: "the 0x8 bit means nothing on frames without padding", count: Count::Rand(10_000, 100_000), f: f06_other },
        ]},
        Prop { id: "F07", suites: vec![
            Suite { name: "f07_frames", what: "header block split over HEADERS and CONTINUATION; sizes, flags, order; block decodes to the same fields", count: Count::Rand(20_000, 200_000), f: f07_frames },
            Suite { name: "f07_parse_back", what: "single HEADERS frame read back: pseudo header parts and fields", count: Count::Rand(20_000, 200_000), f: f07_parse },
            Suite { name: "f07_list_limit", what: "header list size limit is exact", count: Count::Rand(10_000, 100_000), f: f07_limit },
        ]},
    ]
}

const KINDS: [Kind; 11] = [Kind::Data, Kind::Headers, Kind::Priority, Kind::Reset, Kind::Settings, Kind::PushPromise, Kind::Ping, Kind::GoAway, Kind::WindowUpdate, Kind::Continuation, Kind::Unregistered];
fn kind_no(b: u8) -> u8 { if b < 10 { b } else { 255 } }
fn flag(b: u8) -> Flag { Flag::new(b & 0x2d).unwrap() }
fn header(kind: u8, fl: u8, id: u32, len: u32) -> FrameHeader {
    let mut h = FrameHeader::new(KINDS[(kind as usize).min(10)], flag(fl), StreamIdentifier(id));
    h.length = len;
    h
}
fn ref_fh(len: u32, kind: u8, fl: u8, id: u32) -> Vec<u8> {
    let mut v = vec![(len / 65536) as u8, (len / 256) as u8, len as u8, kind, fl];
    for i in [24, 16, 8, 0] { v.push((id >> i) as u8) }
    v
}
fn f01_rt(c: &mut Case) -> R {
    let k = c.rng.below(10) as u8;
    let fl = c.rng.u8() & 0x2d;
    let len = c.rng.wide(24) as u32;
    let id = c.rng.wide(31) as u32;
    c.key(&(k, fl, len, id));
    let h = header(k, fl, id, len);
    let mut b = BinaryMut::new();
    b.put_slice(b"zz");
    let n = h.encode(&mut b).map_err(|e| format!("{:?}", e))?;
    let want = ref_fh(len, k, fl, id);
    ckeq!(hex(&b.chunk()[2..]), hex(&want), "bytes of the frame header");
    ckeq!(n, 9, "size reported");
    let mut all = want.clone();
    all.extend_from_slice(b"rest");
    let mut rd = Binary::from(all);
    let g = FrameHeader::parse(&mut rd).map_err(|e| format!("encoded header refused: {:?}", e))?;
    ckeq!(g, h, "header read back");
    ckeq!(rd.chunk(), b"rest", "bytes after the header");
    Ok(())
}
fn f01_parse(c: &mut Case) -> R { let b = c.rng.bytes(9); f01_bytes(c, b) }
fn f01_kf(c: &mut Case) -> R {
    let mut b = c.rng.bytes(9);
    b[3] = (c.idx >> 8) as u8;
    b[4] = c.idx as u8;
    f01_bytes(c, b)
}
fn f01_bytes(c: &mut Case, b: Vec<u8>) -> R {
    c.key(&b);
    let mut rd = &b[..];
    match FrameHeader::parse(&mut rd) {
        Ok(h) => {
            let id = (u32::from_be_bytes([b[5], b[6], b[7], b[8]])) & 0x7fff_ffff;
            ckeq!(h.length, (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32, "length read");
            ckeq!(h.kind().encode(), kind_no(b[3]), "kind read");
            ckeq!(h.stream_id().0, id, "stream id read (reserved bit must be ignored)");
            ckeq!(h.flag().bits(), b[4] & 0x2d, "flags read");
            ckeq!(rd.len(), 0, "bytes left");
            Ok(())
        }
        Err(e) => { ck!(b[4] & !0x2d != 0, "well-formed frame header refused: {:?}", e); Ok(()) }
    }
}
fn f01_short(c: &mut Case) -> R {
    let n = (c.idx % 9) as usize;
    let b = c.rng.bytes(n);
    c.key(&b);
    let mut rd = &b[..];
    ck!(FrameHeader::parse(&mut rd).is_err(), "a header was read from {} bytes", n);
    ckeq!(rd.len(), n, "bytes left after a short header");
    Ok(())
}

fn parse(h: FrameHeader, p: &[u8]) -> Result<Frame<Binary>, String> {
    let mut d = Decoder::new();
    Frame::parse(h, Binary::from(p.to_vec()), &mut d, 1 << 20).map_err(|e| format!("{:?}", e))
}
fn enc(f: Frame<Binary>) -> Result<(Vec<u8>, usize), String> {
    let mut e = Encoder::new();
    let mut b = BinaryMut::new();
    b.put_slice(b"z");
    let n = f.encode(&mut b, &mut e).map_err(|e| format!("not encodable: {:?}", e))?;
    Ok((b.chunk()[1..].to_vec(), n))
}
fn split(b: &[u8]) -> Result<Vec<(FrameHeader, Vec<u8>)>, String> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let mut rd = &b[p..];
        let h = FrameHeader::parse(&mut rd).map_err(|e| format!("encoded frames are not a sequence of frames at byte {}: {:?}", p, e))?;
        let n = h.length as usize;
        if p + 9 + n > b.len() { return Err(format!("announced frame length {} exceeds the bytes written ({} left)", n, b.len() - p - 9)); }
        v.push((h, b[p + 9..p + 9 + n].to_vec()));
        p += 9 + n;
    }
    Ok(v)
}
fn f02_rt(c: &mut Case) -> R {
    let id = c.rng.wide(31) as u32;
    let which = c.rng.below(5);
    let (frame, kind, fl, sid, payload): (Frame<Binary>, u8, u8, u32, Vec<u8>) = match which {
        0 => {
            let d = c.rng.bytes(8);
            let mut a = [0u8; 8];
            a.copy_from_slice(&d);
            let ack = c.rng.bool();
            let p = if ack { if c.rng.bool() { Ping::pong(a) } else { Ping::new(a).ret_pong() } } else { Ping::new(a) };
            ckeq!((p.is_ack(), *p.payload()), (ack, a), "ping built");
            (p.into(), 6, ack as u8, 0, d)
        }
        1 => { let r = c.rng.wide(32) as u32; (Reset::new(StreamIdentifier(id), Reason::from(r)).into(), 3, 0, id, r.to_be_bytes().to_vec()) }
        2 => { let w = c.rng.wide(31) as u32 | if c.rng.bool() { 1 } else { 0 }; let w = w.max(1); (WindowUpdate::new(StreamIdentifier(id), w).into(), 8, 0, id, w.to_be_bytes().to_vec()) }
        3 => {
            let r = c.rng.wide(32) as u32;
            let n = if c.rng.one_in(1000) { 65_500 + c.rng.below(70_000) as usize } else { c.rng.small_len() };
            let dbg = c.rng.bytes(n);
            let mut p = id.to_be_bytes().to_vec();
            p.extend_from_slice(&r.to_be_bytes());
            p.extend_from_slice(&dbg);
            let g = if n == 0 && c.rng.bool() { GoAway::new(StreamIdentifier(id), Reason::from(r)) } else { GoAway::with_debug_data(StreamIdentifier(id), Reason::from(r), Binary::from(dbg)) };
            (g.into(), 7, 0, 0, p)
        }
        _ => {
            let dep = c.rng.wide(31) as u32;
            if dep == id { c.trivial(); return Ok(()); }
            let ex = c.rng.bool();
            let w = c.rng.u8();
            let mut p = (dep | if ex { 1 << 31 } else { 0 }).to_be_bytes().to_vec();
            p.push(w);
            let f = parse(header(2, 0, id, 5), &p).map_err(|e| format!("priority frame refused: {}", e))?;
            match &f { Frame::Priority(q) => { ckeq!((q.stream_id().0, q.dependency_id().0, q.weight()), (id, dep, w), "priority read"); } _ => return Err("priority frame read as another kind".into()) }
            (f, 2, 0, id, p)
        }
    };
    c.key(&(kind, fl, sid, hex(&payload)));
    let (b, n) = enc(frame)?;
    let mut want = ref_fh(payload.len() as u32, kind, fl, sid);
    want.extend_from_slice(&payload);
    ckeq!(hex(&b), hex(&want), "bytes of the encoded frame");
    ckeq!(n, want.len(), "size reported by encode");
    let f = parse(header(kind, fl, sid, payload.len() as u32), &payload).map_err(|e| format!("own frame refused: {}", e))?;
    match &f {
        Frame::Ping(p) => { ckeq!((p.is_ack(), p.payload().to_vec()), (fl == 1, payload.clone()), "ping read back"); }
        Frame::Reset(r) => { ckeq!((r.stream_id().0, u32::from(r.reason())), (sid, u32::from_be_bytes([payload[0], payload[1], payload[2], payload[3]])), "reset read back"); }
        Frame::WindowUpdate(r) => { ckeq!((r.stream_id().0, r.size_increment()), (sid, u32::from_be_bytes([payload[0], payload[1], payload[2], payload[3]])), "window update read back"); }
        Frame::GoAway(g) => { ckeq!((g.last_stream_id().0, u32::from(g.reason()), hex(g.debug_data().chunk())), (id, u32::from_be_bytes([payload[4], payload[5], payload[6], payload[7]]), hex(&payload[8..])), "goaway read back"); }
        Frame::Priority(_) => {}
        _ => return Err("frame read back as another kind".into()),
    }
    let (b2, _) = enc(f)?;
    ckeq!(hex(&b2), hex(&want), "bytes of the frame read back and encoded again");
    Ok(())
}
fn f02_bad(c: &mut Case) -> R {
    let kind = *c.rng.pick(&[2u8, 3, 6, 7, 8]);
    let n = c.rng.below(14);
    let id = if c.rng.one_in(3) { 0 } else { c.rng.wide(31) as u32 };
    let mut p = c.rng.bytes(n);
    if c.rng.one_in(4) { for b in p.iter_mut().take(4) { *b = 0 } if n > 0 && c.rng.bool() { p[0] = 0x80 } }
    if c.rng.one_in(4) && n >= 4 && kind == 2 { let x = id | if c.rng.bool() { 1 << 31 } else { 0 }; p[..4].copy_from_slice(&x.to_be_bytes()) }
    let fl = c.rng.u8() & 0x2d;
    c.key(&(kind, id, fl, &p));
    let r = parse(header(kind, fl, id, n as u32), &p);
    let w = if n >= 4 { u32::from_be_bytes([p[0], p[1], p[2], p[3]]) } else { 0 };
    let must_fail = match kind {
        6 => n != 8 || id != 0,
        3 => n != 4,
        8 => n != 4 || w & 0x7fffffff == 0,
        7 => n < 8,
        _ => n < 5 || w & 0x7fffffff == id,
    };
    let may_fail = must_fail || (kind == 2 && n > 5) || (kind == 7 && id != 0) || (matches!(kind, 2 | 3) && id == 0);
    ck!(!(must_fail && r.is_ok()), "malformed frame accepted (kind {})", kind);
    ck!(may_fail || r.is_ok(), "well-formed frame refused (kind {}): {}", kind, r.err().unwrap());
    if let Ok(Frame::WindowUpdate(u)) = &r { ckeq!(u.size_increment(), w & 0x7fffffff, "increment without the reserved bit"); }
    if let Ok(Frame::Priority(u)) = &r { ckeq!((u.dependency_id().0, u.weight()), (w & 0x7fffffff, p[4]), "dependency"); }
    if let Ok(Frame::GoAway(u)) = &r { ckeq!(u.last_stream_id().0, w & 0x7fffffff, "last stream id without the reserved bit"); }
    if let Ok(Frame::Ping(u)) = &r { ckeq!(u.is_ack(), fl & 1 == 1, "ack"); }
    Ok(())
}

const VALS: [u32; 20] = [0, 1, 2, 3, 100, 4096, 16383, 16384, 16385, 65535, 65536, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
/// reference: values of settings 1..6 and 8, or None for an error
fn ref_settings(p: &[u8]) -> Option<[Option<u32>; 9]> {
    if p.len() % 6 != 0 { return None; }
    let mut s = [None; 9];
    for ch in p.chunks(6) {
        let id = (ch[0] as u32) << 8 | ch[1] as u32;
        let v = u32::from_be_bytes([ch[2], ch[3], ch[4], ch[5]]);
        match id {
            2 | 8 => { if v > 1 { return None; } s[id as usize] = Some(v) }
            4 => { if v > 0x7fffffff { return None; } s[4] = Some(v) }
            5 => { if v < 16384 || v > 16777215 { return None; } s[5] = Some(v) }
            1 | 3 | 6 => s[id as usize] = Some(v),
            _ => {}
        }
    }
    Some(s)
}
fn view(s: &Settings) -> [Option<u32>; 9] {
    [None, s.header_table_size(), s.is_push_enabled().map(|b| b as u32), s.max_concurrent_streams(), s.initial_window_size(), s.max_frame_size(), s.max_header_list_size(), None, s.is_extended_connect_protocol_enabled().map(|b| b as u32)]
}
fn f03_check(c: &mut Case, p: Vec<u8>, id: u32, fl: u8) -> R {
    c.key(&(id, fl, &p));
    let want = if id != 0 { None } else if fl & 1 == 1 { if p.is_empty() { Some([None; 9]) } else { None } } else { ref_settings(&p) };
    match (want, parse(header(4, fl, id, p.len() as u32), &p)) {
        (None, Err(_)) => {}
        (None, Ok(f)) => return Err(format!("illegal SETTINGS accepted: {:?}", f)),
        (Some(w), Err(e)) => return Err(format!("legal SETTINGS refused: {} (expected {:?})", e, w)),
        (Some(w), Ok(Frame::Settings(s))) => { ckeq!(view(&s), w, "settings read"); ckeq!(s.is_ack(), fl & 1 == 1, "ack"); }
        (Some(_), Ok(_)) => return Err("SETTINGS read as another kind".into()),
    }
    // the HTTP2-Settings header carries the same payload
    let text = b64(&p);
    let r = Settings::default().parse_http_settings(&text);
    match (ref_settings(&p), r) {
        (None, Ok(s)) => Err(format!("illegal HTTP2-Settings accepted: {:?}", s)),
        (Some(w), Err(e)) => Err(format!("legal HTTP2-Settings refused: {:?} (expected {:?})", e, w)),
        (Some(w), Ok(s)) => { ckeq!(view(&s), w, "HTTP2-Settings read"); Ok(()) }
        _ => Ok(()),
    }
}
fn b64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for ch in b.chunks(3) {
        let x = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..=ch.len() { s.push(A[(x >> (18 - 6 * i) & 63) as usize] as char) }
    }
    s
}
fn gen_settings(c: &mut Case) -> Vec<u8> {
    let n = c.rng.below(8);
    let mut p = vec![];
    for _ in 0..n {
        let id = if c.rng.one_in(10) { c.rng.u16() } else { c.rng.below(10) as u16 };
        let v = match (id, c.rng.below(6)) { (_, 0) => *c.rng.pick(&VALS), (2, _) | (8, _) => c.rng.below(2) as u32, (5, _) => c.rng.range(16384, 16777215) as u32, (4, _) => c.rng.wide(31) as u32, _ => c.rng.wide(32) as u32 };
        p.extend_from_slice(&id.to_be_bytes());
        p.extend_from_slice(&v.to_be_bytes());
    }
    if c.rng.one_in(12) { let k = c.rng.below(p.len() + 1); p.truncate(k) }
    p
}
fn f03_parse(c: &mut Case) -> R {
    let p = gen_settings(c);
    let id = if c.rng.one_in(12) { c.rng.wide(31) as u32 } else { 0 };
    let fl = if c.rng.one_in(12) { 1 } else { 0 };
    f03_check(c, p, id, fl)
}
fn f03_single(c: &mut Case) -> R {
    let id = (c.idx % 16) as u16;
    let v = VALS[(c.idx / 16) as usize];
    let mut p = id.to_be_bytes().to_vec();
    p.extend_from_slice(&v.to_be_bytes());
    f03_check(c, p, 0, 0)
}
fn f03_rt(c: &mut Case) -> R {
    // start from a parsed table size (it has no setter), then use the setters
    let mut p = vec![];
    let mut w = [None; 9];
    if c.rng.bool() { let v = c.rng.wide(32) as u32; p.extend_from_slice(&[0, 1]); p.extend_from_slice(&v.to_be_bytes()); w[1] = Some(v); }
    let mut s = match parse(header(4, 0, 0, p.len() as u32), &p)? { Frame::Settings(s) => s, _ => return Err("SETTINGS read as another kind".into()) };
    if c.rng.bool() { let v = c.rng.bool(); s.set_enable_push(v); w[2] = Some(v as u32); }
    if c.rng.bool() { let v = c.rng.wide(32) as u32; s.set_max_concurrent_streams(Some(v)); w[3] = Some(v); }
    if c.rng.bool() { let v = c.rng.wide(31) as u32; s.set_initial_window_size(Some(v)); w[4] = Some(v); }
    if c.rng.bool() { let v = c.rng.range(16384, 16777215) as u32; s.set_max_frame_size(Some(v)); w[5] = Some(v); }
    if c.rng.bool() { let v = c.rng.wide(32) as u32; s.set_max_header_list_size(Some(v)); w[6] = Some(v); }
    if c.rng.bool() { let v = c.rng.below(2) as u32; s.set_enable_connect_protocol(Some(v)); w[8] = Some(v); }
    c.key(&w);
    ckeq!(view(&s), w, "settings built");
    let mut payload = vec![];
    for id in 1..9usize { if let Some(v) = w[id] { payload.extend_from_slice(&[0, id as u8]); payload.extend_from_slice(&v.to_be_bytes()); } }
    let (b, n) = enc(Frame::Settings(s.clone()))?;
    ckeq!(n, b.len(), "size reported by encode");
    ckeq!(s.payload_len(), payload.len(), "payload length");
    let fr = split(&b)?;
    ckeq!(fr.len(), 1, "number of frames");
    ckeq!((fr[0].0.kind().encode(), fr[0].0.flag().bits(), fr[0].0.stream_id().0), (4, 0, 0), "SETTINGS frame header");
    // any order of the settings is fine: judge by meaning
    ckeq!(ref_settings(&fr[0].1), Some(w), "settings on the wire");
    ckeq!(fr[0].1.len(), payload.len(), "payload bytes");
    let back = match parse(fr[0].0, &fr[0].1)? { Frame::Settings(s) => s, _ => return Err("SETTINGS read as another kind".into()) };
    ckeq!(back, s, "settings read back");
    let text = s.encode_http_settings();
    let back = Settings::default().parse_http_settings(&text).map_err(|e| format!("own HTTP2-Settings refused: {:?}", e))?;
    ckeq!(view(&back), w, "HTTP2-Settings read back");
    ckeq!(text, b64(&fr[0].1), "HTTP2-Settings text");
    Ok(())
}
fn f03_ack(c: &mut Case) -> R {
    let s = Settings::ack();
    let n = (c.idx % 16) as usize;
    let id = c.idx as u32 / 16;
    c.key(&(n, id));
    let (b, _) = enc(Frame::Settings(s.clone()))?;
    ckeq!(hex(&b), hex(&ref_fh(0, 4, 1, 0)), "bytes of the acknowledgement");
    ck!(s.is_ack(), "ack() is no acknowledgement");
    let r = parse(header(4, 1, id, n as u32), &vec![0; n]);
    ckeq!(r.is_ok(), n == 0 && id == 0, "acknowledgement with {} bytes on stream {}", n, id);
    Ok(())
}

fn ok_or_err(c: &mut Case, h: FrameHeader, p: &[u8], limit: usize) -> R {
    c.key(&(h.kind().encode(), h.flag().bits(), h.stream_id().0, h.length, hex(p), limit));
    let mut d = Decoder::new();
    let a = Frame::parse(h, Binary::from(p.to_vec()), &mut d, limit);
    let mut d2 = Decoder::new();
    let b = Frame::parse(h, BinaryMut::from(p.to_vec()), &mut d2, limit);
    ckeq!(a.is_ok(), b.is_ok(), "outcome depends on the buffer type");
    if let Ok(f) = a {
        let _ = format!("{:?} {}", f, f.display_name());
        let k = match &f { Frame::Data(_) => 0, Frame::Headers(_) => 1, Frame::Priority(_) => 2, Frame::Reset(_) => 3, Frame::Settings(_) => 4, Frame::PushPromise(_) => 5, Frame::Ping(_) => 6, Frame::GoAway(_) => 7, Frame::WindowUpdate(_) => 8 };
        ckeq!(k, h.kind().encode(), "kind of the frame read");
        if k == 0 { ck!(h.stream_id().0 != 0, "DATA on stream 0 accepted"); }
        if matches!(k, 0 | 1 | 5) { ckeq!(f.stream_id(), h.stream_id(), "stream of the frame read"); }
        if matches!(k, 0 | 1) { ckeq!((f.is_end_stream(), f.flags().bits()), (h.flag().is_end_stream(), h.flag().bits()), "flags of the frame read"); }
        let mut out = BinaryMut::new();
        let _ = f.encode(&mut out, &mut Encoder::new());
    }
    Ok(())
}
fn f04_arb(c: &mut Case) -> R {
    let n = if c.rng.one_in(8) { c.rng.below(300) } else { c.rng.below(24) };
    let kind = c.rng.below(11) as u8;
    let mut p = if c.rng.bool() { c.rng.bytes(n) } else { c.rng.from(b"\x00\x01\x02\x05\x3f\x20\x3e\x40\x7f\x80\x82\xbe\xff\xc0\x1f\x0fab", n) };
    if n > 0 && c.rng.bool() { p[0] = c.rng.below(n + 2) as u8 }
    let fl = c.rng.u8() & 0x2d;
    let id = if c.rng.one_in(4) { 0 } else { c.rng.wide(31) as u32 };
    let len = if c.rng.one_in(4) { c.rng.wide(24) as u32 } else { n as u32 };
    let lim = if c.rng.one_in(4) { c.rng.below(100) } else { 1 << 20 };
    ok_or_err(c, header(kind, fl, id, len), &p, lim)
}
fn f04_mut(c: &mut Case) -> R {
    let (h, mut p) = match c.rng.below(4) {
        0 => { let p = gen_settings(c); (header(4, 0, 0, p.len() as u32), p) }
        1 => { let f = gen_fields(c, 4); let p = Encoder::new().encode(f.iter().map(|x| (&x.0, &x.1))).chunk().to_vec(); (header(1, 4, 1, p.len() as u32), p) }
        2 => { let mut p = vec![0, 0, 0, 7, 9]; let f = gen_fields(c, 4); p.extend_from_slice(Encoder::new().encode(f.iter().map(|x| (&x.0, &x.1))).chunk()); (header(1, 0x24, 1, p.len() as u32), p) }
        _ => { let mut p = vec![2]; let f = gen_fields(c, 3); p.extend_from_slice(Encoder::new().encode(f.iter().map(|x| (&x.0, &x.1))).chunk()); p.extend_from_slice(&[0, 0]); (header(1, 0x0c, 1, p.len() as u32), p) }
    };
    for _ in 0..c.rng.range(1, 3) {
        if p.is_empty() { break; }
        let i = c.rng.below(p.len());
        match c.rng.below(5) { 0 => p[i] = c.rng.u8(), 1 => p[i] ^= 1 << c.rng.below(8), 2 => p.truncate(i), 3 => { let b = c.rng.u8(); p.insert(i, b) }, _ => { let t = p[i..].to_vec(); p.extend(t) } }
    }
    ok_or_err(c, h, &p, 1 << 20)
}
fn f04_grid(c: &mut Case) -> R {
    let i = c.idx;
    let kind = (i % 11) as u8;
    let f = (i / 11 % 16) as u8;
    let fl = (f & 1) | (f & 2) << 1 | (f & 4) << 1 | (f & 8) << 2;
    let n = (i / 176 % 13) as usize;
    let fill = [0u8, 1, 0xff][(i / 2288) as usize];
    let p = vec![fill; n];
    ok_or_err(c, header(kind, fl, 1, n as u32), &p, 1 << 20)?;
    ok_or_err(c, header(kind, fl, 0, n as u32), &p, 1 << 20)
}

fn f05_check(c: &mut Case, body: Vec<u8>, max: usize, end: bool, id: u32, extra: u8) -> R {
    c.key(&(body.len(), max, end, id, extra, hex(&body)));
    let h = header(0, extra & 0x28 | end as u8, id, 0);
    let d = Data::new(h, Binary::from(body.clone()));
    let mut e = Encoder::new();
    e.max_frame_size = max;
    let mut out = BinaryMut::new();
    let n = Frame::Data(d).encode(&mut out, &mut e).map_err(|e| format!("{:?}", e))?;
    ckeq!(n, out.chunk().len(), "size reported by encode");
    let fr = split(out.chunk())?;
    let mut got = vec![];
    for (i, (h, p)) in fr.iter().enumerate() {
        ckeq!((h.kind().encode(), h.stream_id().0), (0, id), "frame {} of the body", i);
        ck!(p.len() <= max, "DATA frame of {} bytes with a frame size limit of {}", p.len(), max);
        ck!(!h.flag().is_padded(), "DATA frame announces padding it does not carry");
        ckeq!(h.flag().is_end_stream(), end && i == fr.len() - 1, "END_STREAM on frame {} of {}", i, fr.len());
        got.extend_from_slice(p);
    }
    ck!(!fr.is_empty(), "no DATA frame written");
    ck!(got == body, "body on the wire: got {}, expected {}", hex(&got), hex(&body));
    Ok(())
}
fn f05_split(c: &mut Case) -> R {
    let max = match c.rng.below(4) { 0 => c.rng.range(1, 8), 1 => c.rng.range(1, 300), 2 => 16384, _ => c.rng.range(1, 70) };
    let n = match c.rng.below(12) { 0 => max * c.rng.below(4), 1 => max * c.rng.range(1, 3) - 1, 2 => max * c.rng.below(3) + 1, _ => c.rng.below(120) };
    let n = n.min(50_000);
    let (max, n) = if c.rng.one_in(1500) { (*c.rng.pick(&[16384usize, 65535, 65536, 65600, 100_000, 0xffffff]), 65_000 + c.rng.below(70_000) as usize) } else { (max, n) };
    let b = c.rng.u8();
    let body: Vec<u8> = if n < 200 { c.rng.bytes(n) } else { (0..n).map(|i| (i as u8).wrapping_mul(29) ^ b ^ (i >> 8) as u8).collect() };
    let end = c.rng.bool();
    let id = c.rng.range(1, 0x7fffffff) as u32;
    let ex = c.rng.u8();
    f05_check(c, body, max, end, id, ex)
}
fn f05_grid(c: &mut Case) -> R {
    let n = (c.idx % 65) as usize;
    let max = (c.idx / 65 % 20) as usize + 1;
    let end = c.idx / 1300 == 1;
    f05_check(c, (0..n as u8).collect(), max, end, 3, 0)
}

pub fn gen_name(c: &mut Case) -> HeaderName {
    const STD: [&str; 16] = ["accept", "cookie", "content-type", "content-length", "host", "user-agent", "vary", "www-authenticate", "accept-encoding", "accept-charset", "etag", "x-a", "x-b", "date", "location", "age"];
    if c.rng.bool() {
        let s: &'static str = *c.rng.pick(&STD);
        if c.rng.bool() { HeaderName::from_static(s) } else if c.rng.bool() { HeaderName::try_from(s.to_string()).unwrap() } else { HeaderName::try_from(s.to_uppercase()).unwrap() }
    } else {
        let n = if c.rng.one_in(20) { c.rng.range(20, 200) } else { c.rng.range(1, 6) };
        let b = c.rng.from(b"abcxyzABZ019-_.!#$%&'*+^`|~", n);
        HeaderName::try_from(String::from_utf8(b).unwrap()).unwrap()
    }
}
pub fn gen_value(c: &mut Case) -> HeaderValue {
    const V: [&str; 10] = ["", "gzip, deflate", "a", "0", "text/html; charset=utf-8", "GET", "200", "max-age=3600", "/", "\u{e9}"];
    match c.rng.below(8) {
        0 | 1 => { let s: &'static str = *c.rng.pick(&V); HeaderValue::from_static(s) }
        2 => { let s: &str = *c.rng.pick(&V); HeaderValue::from_bytes(s.as_bytes()) }
        3 => { let n = if c.rng.one_in(100) { *c.rng.pick(&[500usize, 1000, 1100, 2100, 4000, 4096, 5000]) + c.rng.below(40) as usize } else { c.rng.below(200) as usize }; let b = c.rng.bytes(n); HeaderValue::from_bytes(&b) }
        4 => { let n = c.rng.range(100, 400); let b = c.rng.from(b"0aeiostAZ 9{}|~", n); HeaderValue::from_bytes(&b) }
        _ => { let n = c.rng.below(12); let b = c.rng.from(b"abc0129 ;=/\xff", n); HeaderValue::from_bytes(&b) }
    }
}
pub fn gen_fields(c: &mut Case, max: usize) -> Vec<(HeaderName, HeaderValue)> {
    (0..c.rng.below(max + 1)).map(|_| (gen_name(c), gen_value(c))).collect()
}
pub fn low(n: &[u8]) -> Vec<u8> { n.iter().map(|b| if (b'A'..=b'Z').contains(b) { b + 32 } else { *b }).collect() }
type Pairs = Vec<(Vec<u8>, Vec<u8>)>;
pub fn pairs(v: &[(HeaderName, HeaderValue)]) -> Pairs { v.iter().map(|(n, v)| (low(n.as_bytes()), v.as_bytes().to_vec())).collect() }
pub fn showp(p: &Pairs) -> String { p.iter().map(|(a, b)| format!("{}: {}", show(a), show(b))).collect::<Vec<_>>().join(", ") }

struct Msg { parts: Pairs, fields: Pairs, head: Headers }
fn gen_headers(c: &mut Case, maxf: usize, fl: u8, id: u32) -> Msg {
    let mut map = HeaderMap::new();
    let mut fields: Pairs = vec![];
    for (n, v) in gen_fields(c, maxf) {
        let k = low(n.as_bytes());
        let b = v.as_bytes().to_vec();
        match fields.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = b, None => fields.push((k, b)) }
        map.insert(n, v);
    }
    let mut h = Headers::new(header(1, fl, id, 0), map);
    let mut parts: Pairs = vec![];
    if c.rng.bool() {
        if c.rng.one_in(8) == false { let m = c.rng.pick(&[Method::Get, Method::Post, Method::Head, Method::Put, Method::Delete, Method::Options, Method::Trace, Method::Patch, Method::Connect]).clone(); parts.push((b":method".to_vec(), m.as_str().as_bytes().to_vec())); h.set_method(m); }
        if c.rng.bool() { let a = c.rng.pick(&["a.example", "a.example:8080", "x"]).to_string(); parts.push((b":authority".to_vec(), a.clone().into_bytes())); h.set_authority(a); }
        if c.rng.bool() { let s = c.rng.pick(&[Scheme::Http, Scheme::Https]).clone(); parts.push((b":scheme".to_vec(), s.as_str().as_bytes().to_vec())); h.set_scheme(s); }
        if c.rng.bool() { let s = c.rng.pick(&["/", "/index.html", "/a?b=c&d", "*", "/\u{e9}"]).to_string(); parts.push((b":path".to_vec(), s.clone().into_bytes())); h.set_path(s); }
    } else if c.rng.bool() {
        let s = c.rng.pick(&["200", "204", "404", "500", "304", "101", "302", "503"]).to_string();
        parts.push((b":status".to_vec(), s.clone().into_bytes()));
        h.set_status(webparse::StatusCode::try_from(&*s).unwrap());
    }
    Msg { parts, fields, head: h }
}
fn f06_headers(c: &mut Case) -> R {
    let fields = gen_fields(c, 5);
    let block = Encoder::new().encode(fields.iter().map(|x| (&x.0, &x.1))).chunk().to_vec();
    let prio = c.rng.bool();
    let mut body = vec![];
    if prio { body.extend_from_slice(&[0, 0, 0, 3]); let w = c.rng.u8(); body.push(w); }
    body.extend_from_slice(&block);
    let pad = match c.rng.below(4) { 0 => 0, 1 => c.rng.range(1, 5), 2 => c.rng.below(256), _ => (body.len() + c.rng.below(4)).min(255) };
    let actual = if c.rng.one_in(4) { c.rng.below(pad + 1) } else { pad };
    let mut p = vec![pad as u8];
    p.extend_from_slice(&body);
    p.extend(if c.rng.bool() { vec![0; actual] } else { c.rng.bytes(actual) });
    let fl = 0x0c | if prio { 0x20 } else { 0 } | c.rng.below(2) as u8;
    c.key(&(fl, pad, actual, hex(&p)));
    let r = parse(header(1, fl, 1, p.len() as u32), &p);
    if actual == pad {
        let f = r.map_err(|e| format!("padded HEADERS refused: {}", e))?;
        let got = match f { Frame::Headers(h) => { ckeq!(h.is_end_stream(), fl & 1 == 1, "END_STREAM"); pairs(&h.into_fields().into_iter().collect::<Vec<_>>()) } _ => return Err("HEADERS read as another kind".into()) };
        let mut want: Pairs = vec![];
        for (k, v) in pairs(&fields) { match want.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v, None => want.push((k, v)) } }
        ck!(got == want, "fields of padded HEADERS: got {}, expected {}", showp(&got), showp(&want));
    } else if pad > body.len() + actual {
        ck!(r.is_err(), "padding of {} accepted in a payload of {} bytes", pad, p.len());
    }
    Ok(())
}
fn f06_data(c: &mut Case) -> R {
    let n = c.rng.below(40);
    let body = c.rng.bytes(n);
    let pad = if c.rng.bool() { 0 } else { c.rng.below(60) };
    let over = c.rng.one_in(6);
    let mut p = vec![if over { (n + pad + 1).max(1) as u8 + c.rng.below(101) as u8 } else { pad as u8 }];
    p.extend_from_slice(&body);
    let padding = vec![0u8; pad];
    p.extend_from_slice(&padding);
    let fl = 8 | c.rng.below(2) as u8;
    c.key(&(fl, over, &p));
    let r = parse(header(0, fl, 5, p.len() as u32), &p);
    if over { ck!(r.is_err(), "padding longer than the frame accepted"); return Ok(()); }
    let d = match r { Ok(Frame::Data(d)) => d, Ok(_) => return Err("DATA read as another kind".into()), Err(e) => return Err(format!("padded DATA refused: {}", e)) };
    ckeq!((d.stream_id().0, d.is_end_stream()), (5, fl & 1 == 1), "DATA read");
    let got = d.payload().chunk().to_vec();
    if got == body { return Ok(()); }
    let mut kept = body.clone();
    kept.extend_from_slice(&padding);
    if pad > 0 && got == kept { return Err(format!("[data-padding-kept] padding of a DATA frame is delivered as body: {} octets: got {}, expected {}", pad, hex(&got), hex(&body))); }
    Err(format!("body of padded DATA: got {}, expected {}", hex(&got), hex(&body)))
}
fn f06_other(c: &mut Case) -> R {
    let (kind, p): (u8, Vec<u8>) = match c.rng.below(5) {
        0 => (6, c.rng.bytes(8)),
        1 => (3, c.rng.bytes(4)),
        2 => (8, { let mut b = c.rng.bytes(4); b[3] |= 1; b }),
        3 => (7, { let n = c.rng.below(9); c.rng.bytes(8 + n) }),
        _ => (4, { let mut v = vec![0, 3]; v.extend(c.rng.bytes(4)); v }),
    };
    let id = if matches!(kind, 3 | 8) { 9 } else { 0 };
    c.key(&(kind, &p));
    let mut show = vec![];
    for fl in [0u8, 8] {
        let f = parse(header(kind, fl, id, p.len() as u32), &p).map_err(|e| format!("frame of kind {} with flags {} refused: {}", kind, fl, e))?;
        let (b, _) = enc(f)?;
        show.push(b);
    }
    ckeq!(hex(&show[0]), hex(&show[1]), "kind {}: the padding bit changed the meaning", kind);
    Ok(())
}

fn f07_frames(c: &mut Case) -> R {
    let fl = c.rng.u8() & 0x2d;
    let id = c.rng.range(1, 0x7fffffff) as u32;
    let max = match c.rng.below(4) { 0 => c.rng.range(1, 8), 1 => c.rng.range(5, 60), 2 => c.rng.range(20, 400), _ => 16384 };
    let m = gen_headers(c, 8, fl, id);
    c.key(&(fl, id, max, &m.parts, &m.fields));
    let mut e = Encoder::new();
    e.max_frame_size = max;
    let mut d = Decoder::new();
    let mut out = BinaryMut::new();
    let n = Frame::<Binary>::Headers(m.head).encode(&mut out, &mut e).map_err(|e| format!("{:?}", e))?;
    ckeq!(n, out.chunk().len(), "size reported by encode");
    let fr = split(out.chunk())?;
    let mut block = vec![];
    for (i, (h, p)) in fr.iter().enumerate() {
        ckeq!((h.kind().encode(), h.stream_id().0), (if i == 0 { 1 } else { 9 }, id), "frame {} of the header block", i);
        ck!(p.len() <= max, "header frame of {} bytes with a frame size limit of {}", p.len(), max);
        ckeq!(h.flag().is_end_headers(), i == fr.len() - 1, "END_HEADERS on frame {} of {}", i, fr.len());
        ckeq!(h.flag().is_end_stream(), i == 0 && fl & 1 == 1, "END_STREAM on frame {} of {}", i, fr.len());
        ck!(!h.flag().is_padded() && !h.flag().is_priority(), "frame {} announces padding or priority it does not carry", i);
        block.extend_from_slice(p);
    }
    let got = d.decode(&mut &block[..]).map_err(|e| format!("header block is not decodable: {:?}", e))?;
    let got = pairs(&got);
    let np = m.parts.len();
    ck!(got.len() == np + m.fields.len(), "number of fields on the wire: got {}, expected {} + {}", showp(&got), showp(&m.parts), showp(&m.fields));
    let (mut a, mut b) = (got[..np].to_vec(), m.parts.clone());
    a.sort(); b.sort();
    ck!(a == b, "pseudo header fields first: got {}, expected {}", showp(&a), showp(&b));
    ck!(got[np..] == m.fields[..], "fields on the wire: got {}, expected {}", showp(&got[np..].to_vec()), showp(&m.fields));
    Ok(())
}
fn f07_parse(c: &mut Case) -> R {
    let fl = c.rng.u8() & 0x01;
    let m = gen_headers(c, 8, fl, 7);
    c.key(&(fl, &m.parts, &m.fields));
    let mut out = BinaryMut::new();
    let mut e = Encoder::new();
    let mut d = Decoder::new();
    Frame::<Binary>::Headers(m.head).encode(&mut out, &mut e).map_err(|e| format!("{:?}", e))?;
    let fr = split(out.chunk())?;
    ckeq!(fr.len(), 1, "frames for a small header block");
    let f = Frame::parse(fr[0].0, Binary::from(fr[0].1.clone()), &mut d, 1 << 20).map_err(|e| format!("own HEADERS refused: {:?}", e))?;
    let h = match f { Frame::Headers(h) => h, _ => return Err("HEADERS read as another kind".into()) };
    ckeq!((h.stream_id().0, h.is_end_stream(), h.is_end_headers()), (7, fl == 1, true), "HEADERS frame");
    let (p, f) = h.into_parts();
    let mut got: Pairs = vec![];
    if let Some(x) = p.method { got.push((b":method".to_vec(), x.as_str().as_bytes().to_vec())) }
    if let Some(x) = p.authority { got.push((b":authority".to_vec(), x.into_bytes())) }
    if let Some(x) = p.scheme { got.push((b":scheme".to_vec(), x.as_str().as_bytes().to_vec())) }
    if let Some(x) = p.path { got.push((b":path".to_vec(), x.into_bytes())) }
    if let Some(x) = p.status { got.push((b":status".to_vec(), x.as_str().as_bytes().to_vec())) }
    ck!(got == m.parts, "pseudo header parts: got {}, expected {}", showp(&got), showp(&m.parts));
    let f = pairs(&f.into_iter().collect::<Vec<_>>());
    ck!(f == m.fields, "fields: got {}, expected {}", showp(&f), showp(&m.fields));
    Ok(())
}
fn f07_limit(c: &mut Case) -> R {
    let fields = gen_fields(c, 5);
    let size: usize = fields.iter().map(|(n, v)| n.as_bytes().len() + v.as_bytes().len() + 32).sum();
    let lim = match c.rng.below(4) { 0 => size, 1 => size.saturating_sub(1), 2 => size + 1, _ => c.rng.below(2 * size + 2) };
    c.key(&(lim, pairs(&fields)));
    let block = Encoder::new().encode(fields.iter().map(|x| (&x.0, &x.1))).chunk().to_vec();
    let r = Frame::parse(header(1, 4, 1, block.len() as u32), Binary::from(block), &mut Decoder::new(), lim);
    ckeq!(r.is_ok(), size <= lim, "header list of {} octets with a limit of {}", size, lim);
    Ok(())
}

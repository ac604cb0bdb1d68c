//! P01..P09: HTTP/1 messages, header maps, chunked coding, small codecs.
use crate::core::*;
use crate::h2::low;
use crate::{ck, ckeq};
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use std::convert::TryInto;
use webparse::{HeaderMap, HeaderName, HeaderValue, Helper, Method, Request, Response, Scheme, StatusCode, Url, Version, WebError};

type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", suites: vec![
            Suite { name: "p01_wellformed", what: "well-formed requests: method, target, version, fields, bytes used; every cut is Partial; any tail is left alone", count: Count::Rand(20_000, 400_000), f: p01_well },
            Suite { name: "p01_malformed", what: "requests with one malformed element are refused, not reported as incomplete", count: Count::Rand(40_000, 400_000), f: p01_bad },
            Suite { name: "p01_arbitrary", what: "arbitrary bytes: result determined by the bytes used, stable under cutting and extending, never a panic", count: Count::Rand(60_000, 1_500_000), f: p01_arb },
            Suite { name: "p01_targets", what: "request targets: path and query decoded, Host used for the authority, CONNECT", count: Count::Rand(20_000, 200_000), f: p01_targets },
        ]},
        Prop { id: "P02", suites: vec![
            Suite { name: "p02_wellformed", what: "well-formed responses: version, status, fields, bytes used; every cut is Partial", count: Count::Rand(20_000, 400_000), f: p02_well },
            Suite { name: "p02_malformed", what: "responses with one malformed element are refused", count: Count::Rand(40_000, 400_000), f: p02_bad },
            Suite { name: "p02_arbitrary", what: "arbitrary bytes: stable under cutting and extending, never a panic", count: Count::Rand(60_000, 1_500_000), f: p02_arb },
        ]},
        Prop { id: "P03", suites: vec![
            Suite { name: "p03_roundtrip", what: "requests built, encoded, parsed back: same parts, body right behind", count: Count::Rand(30_000, 400_000), f: p03_rt },
        ]},
        Prop { id: "P04", suites: vec![
            Suite { name: "p04_roundtrip", what: "responses built, encoded, parsed back: same parts, body right behind", count: Count::Rand(30_000, 400_000), f: p04_rt },
            Suite { name: "p04_all_status", what: "every status 100..=999 in both versions", count: Count::All(1800), f: p04_status },
        ]},
        Prop { id: "P05", suites: vec![
            Suite { name: "p05_histories", what: "operation histories on a header map against an ordered association list with ASCII case-insensitive names", count: Count::Rand(40_000, 500_000), f: p05_hist },
            Suite { name: "p05_names", what: "equality and hash of names: exactly ASCII case folding, all pairs of octets", count: Count::All(128 * 128), f: p05_names },
            Suite { name: "p05_bytes", what: "all 65536 pairs of octets in byte names", count: Count::All(65536), f: p05_bytes },
        ]},
        Prop { id: "P06", suites: vec![
            Suite { name: "p06_numbers", what: "decimal values around the limits of usize and isize", count: Count::Rand(100_000, 1_000_000), f: p06_num },
            Suite { name: "p06_short", what: "all values of up to three octets from a small alphabet", count: Count::All(15 * 15 * 15 + 15 * 15 + 15 + 1), f: p06_short },
            Suite { name: "p06_any", what: "arbitrary octets", count: Count::Rand(60_000, 500_000), f: p06_any },
        ]},
        Prop { id: "P07", suites: vec![
            Suite { name: "p07_roundtrip", what: "chunks encoded and read back, every cut Partial, following chunks untouched", count: Count::Rand(20_000, 200_000), f: p07_rt },
            Suite { name: "p07_sizes", what: "every chunk length 0..=1200", count: Count::All(1201), f: p07_sizes },
            Suite { name: "p07_large", what: "chunk lengths around every power of 16 and 2 up to 2^24", count: Count::All(39), f: p07_large },
            Suite { name: "p07_arbitrary", what: "arbitrary octets against a reference chunk reader", count: Count::Rand(100_000, 1_500_000), f: p07_arb },
            Suite { name: "p07_huge", what: "announced sizes around 2^31, 2^63, 2^64 and longer", count: Count::All(400), f: p07_huge },
        ]},
        Prop { id: "P08", suites: vec![
            Suite { name: "p08_status", what: "all 65536 numbers and all three-octet strings of a class", count: Count::All(65536), f: p08_status },
            Suite { name: "p08_status_text", what: "status text of any three octets", count: Count::Rand(100_000, 1_000_000), f: p08_text },
            Suite { name: "p08_names", what: "methods, versions, schemes: text and back, near misses", count: Count::Rand(40_000, 400_000), f: p08_names },
        ]},
        Prop { id: "P09", suites: vec![
            Suite { name: "p09_fields_legal", what: "whatever bytes are parsed, field names are tokens and values hold no line break", count: Count::Rand(100_000, 1_500_000), f: p09_legal },
            Suite { name: "p09_each_byte", what: "every octet at the start, middle and end of a name, a value, a method, a target, a reason", count: Count::All(256 * 12), f: p09_bytes },
        ]},
        Prop { id: "P10", suites: vec![
            Suite { name: "p10_request", what: "histories of request builder and request operations against a record of the parts", count: Count::Rand(30_000, 400_000), f: p10_req },
            Suite { name: "p10_response", what: "histories of response builder and response operations against a record of the parts", count: Count::Rand(30_000, 400_000), f: p10_resp },
            Suite { name: "p10_url", what: "histories of URL builder operations", count: Count::Rand(20_000, 200_000), f: p10_url },
        ]},
    ]
}

pub const METHODS: [(&str, Method); 9] = [("GET", Method::Get), ("POST", Method::Post), ("PUT", Method::Put), ("DELETE", Method::Delete), ("HEAD", Method::Head), ("OPTIONS", Method::Options), ("CONNECT", Method::Connect), ("PATCH", Method::Patch), ("TRACE", Method::Trace)];
pub const VERSIONS: [(&str, Version); 4] = [("HTTP/1.0", Version::Http10), ("HTTP/1.1", Version::Http11), ("HTTP/2", Version::Http2), ("HTTP/3", Version::Http3)];
const TCHAR: &[u8] = b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn fname(c: &mut Case) -> Vec<u8> {
    const N: [&str; 14] = ["Host", "content-length", "Content-Type", "X-A", "Accept", "Connection", "Transfer-Encoding", "cookie", "User-Agent", "x", "Upgrade", "Referer", "etag", "VARY"];
    if c.rng.bool() { c.rng.pick(&N).as_bytes().to_vec() } else { let n = c.rng.range(1, 12); c.rng.from(TCHAR, n) }
}
/// a value without line breaks that does not start with a blank
fn fvalue(c: &mut Case) -> Vec<u8> {
    let n = if c.rng.one_in(20) { c.rng.below(300) } else { c.rng.below(12) };
    let mut v: Vec<u8> = match c.rng.below(4) {
        0 => c.rng.bytes(n),
        1 => c.rng.from(b"0123456789", n),
        2 => c.rng.from(b"a b:;,=/\"\t\xe9\x00\x7f", n),
        _ => c.rng.from(b"abcXYZ -0", n),
    };
    for b in v.iter_mut() { if *b == b'\r' || *b == b'\n' { *b = b'.' } }
    while v.first() == Some(&b' ') { v.remove(0); }
    v
}
fn fields(c: &mut Case, max: usize) -> Pairs {
    let mut o: Pairs = vec![];
    for _ in 0..c.rng.below(max + 1) {
        let n = fname(c);
        if o.iter().any(|(m, _)| low(m) == low(&n)) { continue; }
        let v = fvalue(c);
        o.push((n, v));
    }
    // Host decides the authority of the parsed URL: keep it a host
    for (n, v) in o.iter_mut() { if low(n) == b"host" { *v = c.rng.pick(&["a.example", "a.example:8080", "localhost:1"]).as_bytes().to_vec() } }
    o
}
fn eol(c: &mut Case, lf: bool) -> &'static [u8] { if lf && c.rng.bool() { b"\n" } else { b"\r\n" } }
fn put_fields(c: &mut Case, b: &mut Vec<u8>, f: &Pairs, lf: bool) {
    for (n, v) in f {
        b.extend_from_slice(n);
        b.push(b':');
        for _ in 0..(if c.rng.one_in(3) { c.rng.below(4) } else { 1 }) { b.push(b' ') }
        b.extend_from_slice(v);
        let e = eol(c, lf);
        b.extend_from_slice(e);
    }
    let e = eol(c, lf);
    b.extend_from_slice(e);
}
fn got_fields(h: &HeaderMap) -> Pairs { h.iter().map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec())).collect() }
fn showf(p: &Pairs) -> String { p.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>().join(", ") }
fn kind(e: &WebError) -> &'static str { if e.is_partial() { "Partial" } else { "error" } }

/// raw octets, percent form for the rest
fn pct_target(c: &mut Case, raw: &[u8], keep: &dyn Fn(u8) -> bool) -> Vec<u8> {
    let mut o = vec![];
    for &b in raw {
        if keep(b) && !c.rng.one_in(12) { o.push(b) } else {
            let h = format!("{:02x}", b);
            let h = if c.rng.bool() { h.to_uppercase() } else { h };
            o.push(b'%');
            o.extend_from_slice(h.as_bytes());
        }
    }
    o
}
fn text(c: &mut Case, n: usize) -> String {
    const S: [&str; 14] = ["a", "b", "Z", "0", "/", ".", "-", "_", " ", "\u{e9}", "%", "?", "\u{4f60}", "#"];
    (0..n).map(|_| *c.rng.pick(&S)).collect()
}
fn raw_ok(b: u8) -> bool { b > 0x20 && b < 0x7f && b != b'%' }
/// (bytes on the wire, path, query) of an origin-form target
fn target(c: &mut Case) -> (Vec<u8>, String, Option<String>) {
    let n = c.rng.below(8);
    let path = format!("/{}", text(c, n));
    let query = if c.rng.bool() { let n = c.rng.below(8); Some(text(c, n)) } else { None };
    let mut w = b"/".to_vec();
    w.extend(pct_target(c, &path.as_bytes()[1..], &|b| raw_ok(b) && b != b'?'));
    if let Some(q) = &query { w.push(b'?'); w.extend(pct_target(c, q.as_bytes(), &raw_ok)); }
    (w, path, query)
}

struct Msg { bytes: Vec<u8>, method: usize, version: usize, path: String, query: Option<String>, fields: Pairs, status: u16 }
fn gen_request(c: &mut Case, lf: bool) -> Msg {
    let method = { let m = c.rng.below(8); if m >= 6 { m + 1 } else { m } };
    let version = c.rng.below(4);
    let (t, path, query) = target(c);
    let f = fields(c, 5);
    let mut b = vec![];
    if c.rng.one_in(8) { for _ in 0..c.rng.range(1, 3) { let e = eol(c, lf); b.extend_from_slice(e) } }
    b.extend_from_slice(METHODS[method].0.as_bytes());
    b.push(b' ');
    b.extend(t);
    b.push(b' ');
    b.extend_from_slice(VERSIONS[version].0.as_bytes());
    let e = eol(c, lf);
    b.extend_from_slice(e);
    put_fields(c, &mut b, &f, lf);
    Msg { bytes: b, method, version, path, query, fields: f, status: 0 }
}
fn p01_well(c: &mut Case) -> R {
    let m = gen_request(c, true);
    let k = c.rng.below(20);
    let tail = if c.rng.bool() { c.rng.bytes(k) } else { m.bytes.clone() };
    c.key(&m.bytes);
    let mut all = m.bytes.clone();
    all.extend_from_slice(&tail);
    let mut r = Request::new();
    let n = r.parse(&all).map_err(|e| format!("well-formed request refused: {:?}", e))?;
    check_req(&r, &m)?;
    ckeq!(n, m.bytes.len(), "bytes used");
    ck!(r.is_complete() && !r.is_partial(), "complete request reported as partial");
    let mut r2 = Request::new();
    let mut rd = Binary::from(all.clone());
    let n2 = r2.parse_buffer(&mut rd).map_err(|e| format!("well-formed request refused from a buffer: {:?}", e))?;
    ckeq!(n2, n, "bytes used from a buffer");
    ckeq!(hex(rd.chunk()), hex(&tail), "bytes after the request");
    check_req(&r2, &m)?;
    // every cut is incomplete; one request object across the attempts
    let cuts: Vec<usize> = if m.bytes.len() < 70 || c.thorough { (0..m.bytes.len()).collect() } else { (0..40).map(|_| c.rng.below(m.bytes.len())).chain([m.bytes.len() - 1, m.bytes.len() - 2]).collect() };
    let mut r = Request::new();
    for k in cuts {
        match r.parse(&m.bytes[..k]) {
            Err(e) if e.is_partial() => {}
            Err(e) => return Err(format!("request cut after {} of {} bytes refused instead of incomplete: {:?}", k, m.bytes.len(), e)),
            Ok(n) => return Err(format!("request cut after {} of {} bytes reported complete ({})", k, m.bytes.len(), n)),
        }
        ck!(r.is_partial(), "cut request not flagged partial");
    }
    let n = r.parse(&m.bytes).map_err(|e| format!("request refused after incomplete attempts: {:?}", e))?;
    ckeq!(n, m.bytes.len(), "bytes used after incomplete attempts");
    check_req(&r, &m)?;
    // the same object reads the next request: nothing of the earlier one is left
    let m2 = gen_request(c, true);
    let n = r.parse(&m2.bytes).map_err(|e| format!("next request refused by the object of an earlier one: {:?}", e))?;
    ckeq!(n, m2.bytes.len(), "bytes used by the next request");
    check_req(&r, &m2)
}
fn check_req(r: &Request<()>, m: &Msg) -> R {
    ckeq!(*r.method(), METHODS[m.method].1, "method");
    ckeq!(r.version(), VERSIONS[m.version].1, "version");
    ckeq!(*r.path(), m.path, "path");
    ckeq!(r.url().query, m.query, "query");
    let g = got_fields(r.headers());
    ck!(g == m.fields, "fields: got {}, expected {}", showf(&g), showf(&m.fields));
    match m.fields.iter().find(|f| low(&f.0) == b"host") {
        Some((_, v)) => {
            let s = String::from_utf8(v.clone()).unwrap();
            let (d, p) = match s.split_once(':') { Some((d, p)) => (d.to_string(), p.parse().unwrap()), None => (s.clone(), 80) };
            ckeq!((r.url().domain.clone(), r.url().port), (Some(d), Some(p)), "authority from Host");
        }
        None => { ckeq!(r.url().domain, None, "authority without Host"); }
    }
    Ok(())
}
fn p01_bad(c: &mut Case) -> R {
    let mut f = fields(c, 3);
    f.retain(|x| low(&x.0) != b"host");
    let mut m = METHODS[c.rng.below(9)].0.as_bytes().to_vec();
    if m == b"CONNECT" { m = b"GET".to_vec() }
    let mut v = VERSIONS[c.rng.below(2)].0.as_bytes().to_vec();
    let mut t = b"/x?y=z".to_vec();
    let mut extra: Vec<u8> = vec![];
    let (mut e1, mut e2): (Vec<u8>, Vec<u8>) = (b"\r\n".to_vec(), b"\r\n".to_vec());
    let ctl = { let b = *c.rng.pick(&[0u8, 1, 7, 9, 11, 0x1f, 0x7f, 0x80, 0xff]); b };
    let what = c.rng.below(14);
    match what {
        0 => { let i = c.rng.below(m.len()); m[i] = m[i].to_ascii_lowercase(); }
        1 => { let i = c.rng.below(m.len() + 1); m.insert(i, *c.rng.pick(&[b'X', ctl, b'"', b'g'])); }
        2 => { let i = c.rng.below(m.len()); m.remove(i); if METHODS.iter().any(|x| x.0.as_bytes() == &m[..]) || m.is_empty() { c.trivial(); return Ok(()); } }
        3 => { let i = c.rng.below(v.len()); v[i] = *c.rng.pick(&[b'4', b'h', ctl, b'/', b'.', b'X']); if VERSIONS.iter().any(|x| x.0.as_bytes() == &v[..]) { c.trivial(); return Ok(()); } }
        4 => v = c.rng.pick(&["HTTP/1.2", "HTTP/0.9", "HTTP/11", "HTTP/1.1.", "http/1.1", "HTTP/2.0", "HTTP/4", "ICY"]).as_bytes().to_vec(),
        5 => { let i = c.rng.below(t.len() + 1); t.insert(i, ctl); }
        6 => { let i = c.rng.range(1, t.len()); for (k, b) in c.rng.pick(&["%", "%4", "%zz", "%g0", "%0x", "%ff", "%c3%28", "%-1", "%+1"]).bytes().enumerate() { t.insert(i + k, b) } }
        7 => t = c.rng.pick(&["*a", "a", "?x", "http:/a", "http//a", "http", "http://a:x/", "http://a:70000/", "http://a:1:2/", "[::1]", "%2f", "=/"]).as_bytes().to_vec(),
        8 => e1 = { let b = c.rng.u8(); if b == b'\n' { b'x' } else { b } }.to_be_bytes().iter().fold(b"\r".to_vec(), |mut a, b| { a.push(*b); a }),
        9 => e1 = vec![ctl, b'\r', b'\n'],
        10 => { let n = vec![*c.rng.pick(b"(),/:;<=>?@[\\]{}\"\x00\x7f\x80\t"), b'a']; extra = n; extra.extend_from_slice(b": 1\r\n"); }
        11 => { extra = b"na".to_vec(); extra.push(*c.rng.pick(b"(),/;<=>?@[\\]{}\"\x00\x7f\x80\t\r\n")); extra.extend_from_slice(b"b: 1\r\n"); }
        12 => { extra = b"X-Name\r\n".to_vec(); }
        _ => { extra = b"X-Name: v".to_vec(); extra.push(b'\r'); extra.push({ let b = c.rng.u8(); if b == b'\n' { 0 } else { b } }); extra.extend_from_slice(b"\r\n"); e2 = b"\r\n".to_vec(); }
    }
    let mut b = m;
    b.push(b' ');
    b.extend(t);
    b.push(b' ');
    b.extend(v);
    b.extend(e1);
    let mut fb = vec![];
    put_fields(c, &mut fb, &f, false);
    fb.truncate(fb.len() - 2);
    b.extend(fb);
    b.extend(extra);
    b.extend(e2);
    c.key(&(what, &b));
    let r = Request::new().parse(&b);
    match r {
        Ok(_) => Err(format!("malformed request accepted (case {})", what)),
        Err(e) => { ck!(!e.is_partial(), "malformed request reported as incomplete (case {})", what); Ok(()) }
    }
}
fn arb_message(c: &mut Case, req: bool) -> Vec<u8> {
    let mut b = match c.rng.below(8) {
        0 => { let n = c.rng.below(40); return c.rng.bytes(n); }
        1 => { let n = c.rng.below(40); let mut b = if req { b"GET / HTTP/1.1\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\n".to_vec() }; b.extend(c.rng.from(b"aA:\r\n \t1", n)); return b; }
        _ => { let mut b = if req { gen_request(c, true).bytes } else { gen_response(c, true).bytes }; let k = c.rng.below(6); b.extend(c.rng.bytes(k)); b }
    };
    for _ in 0..c.rng.below(4) {
        if b.is_empty() { break; }
        let i = c.rng.below(b.len());
        match c.rng.below(6) { 0 => b[i] = c.rng.u8(), 1 => { b.remove(i); } 2 => { let x = *c.rng.pick(b" \r\n:\t%/?@#\x00"); b.insert(i, x) } 3 => b.truncate(i), 4 => { let j = c.rng.below(b.len()); b.swap(i, j) } _ => b[i] = *c.rng.pick(b" \r\n:%?@/") }
    }
    b
}
/// what one parse attempt answers
#[derive(PartialEq, Debug)]
enum Ans { Ok(usize, String), Part, Err }
fn ans_req(b: &[u8]) -> Ans {
    let mut r = Request::new();
    match r.parse(b) {
        Ok(n) => Ans::Ok(n, format!("{:?} {:?} {:?} {}", r.method(), r.version(), r.url(), showf(&got_fields(r.headers())))),
        Err(e) if e.is_partial() => Ans::Part,
        Err(_) => Ans::Err,
    }
}
fn ans_resp(b: &[u8]) -> Ans {
    let mut r = Response::new(());
    match r.parse(b) {
        Ok(n) => Ans::Ok(n, format!("{:?} {:?} {}", r.version(), r.status(), showf(&got_fields(r.headers())))),
        Err(e) if e.is_partial() => Ans::Part,
        Err(_) => Ans::Err,
    }
}
fn laws(c: &mut Case, b: &[u8], f: fn(&[u8]) -> Ans) -> R {
    let a = f(b);
    let k = c.rng.below(12);
    let mut ext = b.to_vec();
    ext.extend(if c.rng.bool() { c.rng.bytes(k) } else { b"\r\n\r\n".to_vec() });
    match &a {
        Ans::Ok(n, _) => {
            ck!(*n <= b.len() && *n > 0, "{} bytes used of {}", n, b.len());
            ckeq!(f(&ext), a, "message with bytes appended");
            ckeq!(f(&b[..*n]), a, "message without the bytes behind it");
            for _ in 0..8 { let k = c.rng.below(*n); ckeq!(f(&b[..k]), Ans::Part, "message cut after {} of {} bytes", k, n); }
            ckeq!(f(&b[..*n - 1]), Ans::Part, "message cut by one byte");
        }
        Ans::Err => { ckeq!(f(&ext), Ans::Err, "refused message with bytes appended"); }
        Ans::Part => { for _ in 0..4 { let k = c.rng.below(b.len() + 1); ckeq!(f(&b[..k]), Ans::Part, "incomplete message cut further, after {} bytes", k); } }
    }
    Ok(())
}
fn p01_arb(c: &mut Case) -> R { let b = arb_message(c, true); c.key(&b); laws(c, &b, ans_req) }
fn p01_targets(c: &mut Case) -> R {
    let n = c.rng.range(1, 8);
    let host = String::from_utf8(c.rng.from(b"abc019.-", n)).unwrap();
    let port = if c.rng.bool() { Some(c.rng.u16()) } else { None };
    let (t, path, query) = target(c);
    let hp = match port { Some(p) => format!("{}:{}", host, p), None => host.clone() };
    let mut b = vec![];
    let which = c.rng.below(4);
    let (wm, wp, wq, wd, wport): (Method, String, Option<String>, Option<String>, Option<u16>);
    match which {
        0 => {
            let p = port.unwrap_or(443);
            b.extend_from_slice(format!("CONNECT {}:{} HTTP/1.1\r\n\r\n", host, p).as_bytes());
            wm = Method::Connect; wp = "/".into(); wq = None; wd = Some(host); wport = Some(p);
        }
        1 => {
            // absolute form
            b.extend_from_slice(format!("GET http://{}", hp).as_bytes());
            b.extend_from_slice(&t);
            b.extend_from_slice(b" HTTP/1.1\r\nHost: other.example:7\r\n\r\n");
            wm = Method::Get; wp = path; wq = query; wd = Some(host); wport = Some(port.unwrap_or(80));
        }
        _ => {
            b.extend_from_slice(b"POST ");
            b.extend_from_slice(&t);
            let name = *c.rng.pick(&["Host", "host", "HOST", "hOsT"]);
            b.extend_from_slice(format!(" HTTP/1.1\r\nX: 1\r\n{}: {}\r\n\r\n", name, hp).as_bytes());
            wm = Method::Post; wp = path; wq = query; wd = Some(host); wport = Some(port.unwrap_or(80));
        }
    }
    c.key(&b);
    let mut r = Request::new();
    let n = r.parse(&b).map_err(|e| format!("request refused: {:?}", e))?;
    ckeq!(n, b.len(), "bytes used");
    ckeq!(*r.method(), wm, "method");
    ckeq!((r.url().path.clone(), r.url().query.clone()), (wp, wq), "path and query");
    ckeq!((r.url().domain.clone(), r.url().port), (wd.clone(), wport), "authority");
    ckeq!(r.get_connect_url(), Some(format!("{}:{}", wd.unwrap(), wport.unwrap())), "connection address");
    Ok(())
}

fn gen_response(c: &mut Case, lf: bool) -> Msg {
    let version = c.rng.below(4);
    let status = match c.rng.below(3) { 0 => *c.rng.pick(&[100u16, 200, 204, 301, 404, 500, 599, 999]), _ => c.rng.range(100, 999) as u16 };
    let n = c.rng.below(12);
    let reason = if c.rng.one_in(3) { vec![] } else { c.rng.from(b"OK Not-Found(x)~!", n) };
    let f = fields(c, 5);
    let mut b = vec![];
    if c.rng.one_in(8) { let e = eol(c, lf); b.extend_from_slice(e) }
    b.extend_from_slice(VERSIONS[version].0.as_bytes());
    b.push(b' ');
    b.extend_from_slice(status.to_string().as_bytes());
    if !reason.is_empty() || c.rng.bool() { b.push(b' '); }
    b.extend(reason);
    let e = eol(c, lf);
    b.extend_from_slice(e);
    put_fields(c, &mut b, &f, lf);
    Msg { bytes: b, method: 0, version, path: String::new(), query: None, fields: f, status }
}
fn check_resp(r: &Response<()>, m: &Msg) -> R {
    ckeq!(r.version(), VERSIONS[m.version].1, "version");
    ckeq!(r.status().as_u16(), m.status, "status");
    let g = got_fields(r.headers());
    ck!(g == m.fields, "fields: got {}, expected {}", showf(&g), showf(&m.fields));
    Ok(())
}
fn p02_well(c: &mut Case) -> R {
    let m = gen_response(c, true);
    c.key(&m.bytes);
    let k = c.rng.below(20);
    let tail = if c.rng.bool() { c.rng.bytes(k) } else { m.bytes.clone() };
    let mut all = m.bytes.clone();
    all.extend_from_slice(&tail);
    let mut r = Response::new(());
    let n = r.parse(&all).map_err(|e| format!("well-formed response refused: {:?}", e))?;
    check_resp(&r, &m)?;
    ckeq!(n, m.bytes.len(), "bytes used");
    ck!(!r.is_partial(), "complete response reported as partial");
    let mut r2 = Response::new(());
    let mut rd = Binary::from(all);
    let n2 = r2.parse_buffer(&mut rd).map_err(|e| format!("well-formed response refused from a buffer: {:?}", e))?;
    ckeq!(n2, n, "bytes used from a buffer");
    ckeq!(hex(rd.chunk()), hex(&tail), "bytes after the response");
    check_resp(&r2, &m)?;
    let cuts: Vec<usize> = if m.bytes.len() < 70 || c.thorough { (0..m.bytes.len()).collect() } else { (0..40).map(|_| c.rng.below(m.bytes.len())).chain([m.bytes.len() - 1, m.bytes.len() - 2]).collect() };
    let mut r = Response::new(());
    for k in cuts {
        match r.parse(&m.bytes[..k]) {
            Err(e) if e.is_partial() => {}
            Err(e) => return Err(format!("response cut after {} of {} bytes refused instead of incomplete: {:?}", k, m.bytes.len(), e)),
            Ok(n) => return Err(format!("response cut after {} of {} bytes reported complete ({})", k, m.bytes.len(), n)),
        }
        ck!(r.is_partial(), "cut response not flagged partial");
    }
    let n = r.parse(&m.bytes).map_err(|e| format!("response refused after incomplete attempts: {:?}", e))?;
    ckeq!(n, m.bytes.len(), "bytes used after incomplete attempts");
    check_resp(&r, &m)?;
    let m2 = gen_response(c, true);
    let n = r.parse(&m2.bytes).map_err(|e| format!("next response refused by the object of an earlier one: {:?}", e))?;
    ckeq!(n, m2.bytes.len(), "bytes used by the next response");
    check_resp(&r, &m2)
}
fn p02_bad(c: &mut Case) -> R {
    let f = fields(c, 3);
    let mut v = VERSIONS[c.rng.below(2)].0.as_bytes().to_vec();
    let mut st = format!("{}", c.rng.range(100, 999)).into_bytes();
    let mut reason = b"OK".to_vec();
    let mut e1 = b"\r\n".to_vec();
    let mut extra: Vec<u8> = vec![];
    let ctl = *c.rng.pick(&[0u8, 1, 7, 9, 11, 0x1f, 0x7f, 0x80, 0xff]);
    let what = c.rng.below(10);
    match what {
        0 => v = c.rng.pick(&["HTTP/1.2", "HTTP/0.9", "HTTP/11", "http/1.1", "HTTP/2.0", "HTTP/4", "ICY", "200"]).as_bytes().to_vec(),
        1 => { let i = c.rng.below(3); st[i] = *c.rng.pick(&[b'a', b'/', b':', b'-', b'+', b'.', ctl]) }
        2 => { let k = c.rng.below(3); if c.rng.bool() { st.truncate(k.max(1)) } else { st.push(b'0' + k as u8) } }
        3 => st[0] = b'0',
        4 => { let i = c.rng.below(reason.len() + 1); reason.insert(i, ctl) }
        5 => e1 = { let b = c.rng.u8(); vec![b'\r', if b == b'\n' { b'x' } else { b }] },
        6 => { extra = vec![*c.rng.pick(b"(),/:;<=>?@[\\]{}\"\x00\x7f\x80\t"), b'a']; extra.extend_from_slice(b": 1\r\n"); }
        7 => { extra = b"na".to_vec(); extra.push(*c.rng.pick(b"(),/;<=>?@[\\]{}\"\x00\x7f\x80\t\r\n")); extra.extend_from_slice(b"b: 1\r\n"); }
        8 => { extra = b"X-Name\r\n".to_vec(); }
        _ => { extra = b"X-Name: v\r".to_vec(); extra.push({ let b = c.rng.u8(); if b == b'\n' { 0 } else { b } }); extra.extend_from_slice(b"\r\n"); }
    }
    let mut b = v;
    b.push(b' ');
    b.extend(st);
    b.push(b' ');
    b.extend(reason);
    b.extend(e1);
    let mut fb = vec![];
    put_fields(c, &mut fb, &f, false);
    fb.truncate(fb.len() - 2);
    b.extend(fb);
    b.extend(extra);
    b.extend_from_slice(b"\r\n");
    c.key(&(what, &b));
    match Response::new(()).parse(&b) {
        Ok(_) => Err(format!("malformed response accepted (case {})", what)),
        Err(e) => { ck!(!e.is_partial(), "malformed response reported as incomplete (case {})", what); Ok(()) }
    }
}
fn p02_arb(c: &mut Case) -> R { let b = arb_message(c, false); c.key(&b); laws(c, &b, ans_resp) }

fn body(c: &mut Case) -> Vec<u8> { let n = c.rng.small_len(); c.rng.bytes(n) }
fn p03_rt(c: &mut Case) -> R {
    let mi = { let m = c.rng.below(8); if m >= 6 { m + 1 } else { m } };
    let vi = c.rng.below(4);
    let n = c.rng.below(10);
    let path = format!("/{}", text(c, n));
    let query = if c.rng.bool() { let n = c.rng.below(10); Some(text(c, n)) } else { None };
    let host = c.rng.bool();
    let f = fields(c, 6);
    let bd = body(c);
    c.key(&(mi, vi, &path, &query, host, &f, &bd));
    let mut url = Url::builder().path(path.clone());
    if let Some(q) = &query { url = url.query(q.clone()) }
    if host { url = url.scheme("http").domain("h.example").port(8081) }
    let url = url.build().map_err(|e| format!("{:?}", e))?;
    let mut map = HeaderMap::new();
    for (n, v) in &f { map.insert(HeaderName::try_from(String::from_utf8(n.clone()).unwrap()).unwrap(), HeaderValue::from_bytes(v)); }
    let mut want: Pairs = vec![];
    let mut put = |n: &[u8], v: &[u8]| match want.iter_mut().find(|x| low(&x.0) == low(n)) { Some(x) => x.1 = v.to_vec(), None => want.push((n.to_vec(), v.to_vec())) };
    let via = c.rng.bool();
    let mut rq = if via {
        if host { put(b"Host", b"h.example:8081") }
        for (n, v) in &f { put(n, v) }
        if !want.iter().any(|x| low(&x.0) == b"user-agent") { want.push((b"User-Agent".to_vec(), b"wenmeng".to_vec())) }
        Request::builder().method(METHODS[mi].0).version(VERSIONS[vi].1).url(Url::try_from("/").unwrap()).url(UrlBox(url)).headers(map).body(bd.clone()).map_err(|e| format!("{:?}", e))?
    } else {
        for (n, v) in &f { put(n, v) }
        let mut r = Request::new();
        r.set_method(METHODS[mi].1.clone());
        r.set_version(VERSIONS[vi].1);
        *r.url_mut() = url;
        *r.headers_mut() = map;
        r.into(bd.clone()).0
    };
    let w = rq.http1_data().map_err(|e| format!("request not encodable: {:?}", e))?;
    c.note(|| show(&w));
    let mut hd = BinaryMut::new();
    hd.put_slice(b"xx");
    let hn = rq.encode_header(&mut hd).map_err(|e| format!("{:?}", e))?;
    ckeq!(hn, hd.chunk().len() - 2, "size reported for the header part");
    ck!(w.len() == hn + bd.len() && w[..hn] == hd.chunk()[2..] && w[hn..] == bd[..], "whole message is not header part plus body");
    let mut r = Request::new();
    let n = r.parse(&w).map_err(|e| format!("own encoding refused ({}): {:?}", kind(&e), e))?;
    ckeq!(hex(&w[n..]), hex(&bd), "body behind the parsed header part");
    ckeq!(*r.method(), METHODS[mi].1, "method");
    ckeq!(r.version(), VERSIONS[vi].1, "version");
    ckeq!((r.url().path.clone(), r.url().query.clone()), (path, query), "path and query");
    let g = got_fields(r.headers());
    ck!(g == want, "fields: got {}, expected {}", showf(&g), showf(&want));
    Ok(())
}
struct UrlBox(Url);
impl TryFrom<UrlBox> for Url { type Error = WebError; fn try_from(u: UrlBox) -> Result<Url, WebError> { Ok(u.0) } }
fn p04_one(c: &mut Case, status: u16, vi: usize, f: Pairs, bd: Vec<u8>) -> R {
    c.key(&(status, vi, &f, &bd));
    let mut b = Response::builder().status(status).version(VERSIONS[vi].1);
    for (n, v) in &f { b = b.header(HeaderName::try_from(String::from_utf8(n.clone()).unwrap()).unwrap(), HeaderValue::from_bytes(v)); }
    let mut want = f.clone();
    if !want.iter().any(|x| low(&x.0) == b"server") { want.push((b"Server".to_vec(), b"wenmeng".to_vec())) }
    let mut rs = b.body(bd.clone()).map_err(|e| format!("{:?}", e))?;
    let w = rs.httpdata().map_err(|e| format!("response not encodable: {:?}", e))?;
    c.note(|| show(&w));
    let mut hd = BinaryMut::new();
    let hn = rs.encode_header(&mut hd).map_err(|e| format!("{:?}", e))?;
    ckeq!(hn, hd.chunk().len(), "size reported for the header part");
    ck!(w.len() == hn + bd.len() && w[..hn] == hd.chunk()[..] && w[hn..] == bd[..], "whole message is not header part plus body");
    let mut r = Response::new(());
    let n = r.parse(&w).map_err(|e| format!("own encoding refused ({}): {:?}", kind(&e), e))?;
    ckeq!(hex(&w[n..]), hex(&bd), "body behind the parsed header part");
    ckeq!((r.version(), r.status().as_u16()), (VERSIONS[vi].1, status), "version and status");
    let g = got_fields(r.headers());
    ck!(g == want, "fields: got {}, expected {}", showf(&g), showf(&want));
    Ok(())
}
fn p04_rt(c: &mut Case) -> R { let s = c.rng.range(100, 999) as u16; let v = c.rng.below(4); let f = fields(c, 6); let b = body(c); p04_one(c, s, v, f, b) }
fn p04_status(c: &mut Case) -> R { let s = 100 + (c.idx % 900) as u16; let v = (c.idx / 900) as usize; p04_one(c, s, v, vec![], b"x".to_vec()) }

fn p05_name(c: &mut Case) -> Vec<u8> {
    const N: [&str; 16] = ["host", "Host", "HOST", "hosu", "x-a", "X-A", "x_a", "x@a", "[", "{", "Connection", "connection", "content-length", "a", "b", "X-`a"];
    match c.rng.below(5) { 0 => { let n = c.rng.range(1, 3); c.rng.from(b"abAB-_@`[{", n) } _ => c.rng.pick(&N).as_bytes().to_vec() }
}
fn p05_hist(c: &mut Case) -> R {
    let mut h = HeaderMap::new();
    let mut m: Pairs = vec![];
    let fd = |m: &Pairs, n: &[u8]| m.iter().position(|x| low(&x.0) == low(n));
    for k in 0..c.rng.range(1, 25) {
        let n = p05_name(c);
        let ns = String::from_utf8(n.clone()).unwrap();
        let l = c.rng.below(6);
        let v: Vec<u8> = match c.rng.below(4) { 0 => c.rng.from(b"abKeep-Alivechunked", l), 1 => c.rng.pick(&["Keep-Alive", "x, Keep-Alive", "chunked", "gzip, chunked", "12", "Upgrade", "h2c", "keep-alive"]).as_bytes().to_vec(), 2 => c.rng.bytes(l), _ => c.rng.from(b"0129", l) };
        let op = c.rng.below(12);
        c.key(&(op, &n, &v));
        match op {
            0..=3 => {
                if c.rng.one_in(4) && std::str::from_utf8(&v).is_ok() { h.insert(ns.clone(), String::from_utf8(v.clone()).unwrap()); } else { h.insert(ns.clone(), HeaderValue::from_bytes(&v)); }
                match fd(&m, &n) { Some(i) => m[i].1 = v, None => m.push((n, v)) }
            }
            4 | 5 => {
                h.push(ns.clone(), HeaderValue::from_bytes(&v));
                match fd(&m, &n) { Some(i) => { m[i].1.push(b';'); m[i].1.extend(v) } None => m.push((n, v)) }
            }
            6 | 7 => {
                let r = h.remove(&ns);
                let w = fd(&m, &n).map(|i| m.remove(i).1);
                ckeq!(r.map(|x| hex(x.as_bytes())), w.map(|x| hex(&x)), "value removed");
            }
            8 => { if c.rng.one_in(4) { h.clear(); m.clear(); } }
            9 => {
                const K: [&str; 3] = ["X-A", "fresh", "hOST"];
                let key: &'static str = *c.rng.pick(&K);
                let _ = &mut h[key];
                if fd(&m, key.as_bytes()).is_none() { m.push((key.as_bytes().to_vec(), vec![])) }
                ckeq!(hex(h[key].as_bytes()), hex(&m[fd(&m, key.as_bytes()).unwrap()].1), "value by index");
            }
            10 => { let s: &'static str = "stand"; h.insert(ns.clone(), s); match fd(&m, &n) { Some(i) => m[i].1 = b"stand".to_vec(), None => m.push((n, b"stand".to_vec())) } }
            _ => { h = h.clone(); }
        }
        let probes = [p05_name(c), p05_name(c), m.first().map(|x| x.0.to_ascii_uppercase()).unwrap_or(b"q".to_vec())];
        for p in &probes {
            let w = fd(&m, p).map(|i| m[i].1.clone());
            ckeq!(h.contains(p), w.is_some(), "contains {} after step {}", show(p), k);
            ckeq!(h.get_option_value(p).map(|x| hex(x.as_bytes())), w.as_ref().map(|x| hex(x)), "value of {} after step {}", show(p), k);
            ckeq!(h.get_str_value(p), w.as_ref().and_then(|x| String::from_utf8(x.clone()).ok()), "text of {}", show(p));
            let sub: &[u8] = *c.rng.pick(&[&b"Keep"[..], b"", b"a", b";", b"chunked"]);
            ckeq!(h.is_contains(p, sub), w.as_ref().map_or(false, |x| sub.is_empty() || x.windows(sub.len()).any(|y| y == sub)), "is_contains");
            ckeq!(h.is_equal(p, &w.clone().unwrap_or_default()), w.is_some(), "is_equal");
            ck!(!h.is_equal(p, b"no such value"), "is_equal of another value");
        }
        let val = |n: &str| fd(&m, n.as_bytes()).map(|i| m[i].1.clone());
        let has = |v: &Option<Vec<u8>>, s: &[u8]| v.as_ref().map_or(false, |x| x.windows(s.len()).any(|y| y == s));
        ckeq!(h.is_keep_alive(), has(&val("connection"), b"Keep-Alive"), "is_keep_alive");
        ckeq!(h.is_chunked(), has(&val("transfer-encoding"), b"chunked"), "is_chunked");
        ckeq!(h.get_host(), val("host").map(|x| String::from_utf8_lossy(&x).to_string()), "get_host");
        let up = if has(&val("connection"), b"Upgrade") { val("upgrade").and_then(|x| String::from_utf8(x).ok()) } else { None };
        ckeq!(h.get_upgrade_protocol(), up, "get_upgrade_protocol");
        let g = got_fields(&h);
        let gl: Pairs = g.iter().map(|(a, b)| (low(a), b.clone())).collect();
        let ml: Pairs = m.iter().map(|(a, b)| (low(a), b.clone())).collect();
        ck!(gl == ml, "entries after step {}: got {}, expected {}", k, showf(&g), showf(&m));
        ckeq!((h.len(), h.is_empty()), (m.len(), m.is_empty()), "number of entries");
        let mut b = BinaryMut::new();
        let n = h.encode(&mut b).map_err(|e| format!("{:?}", e))?;
        let mut w = vec![];
        for (a, v) in &g { w.extend_from_slice(a); w.extend_from_slice(b": "); w.extend_from_slice(v); w.extend_from_slice(b"\r\n"); }
        w.extend_from_slice(b"\r\n");
        ckeq!(hex(b.chunk()), hex(&w), "encoded entries");
        ckeq!(n, w.len(), "size reported by encode");
    }
    Ok(())
}
fn hash_of<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn p05_names(c: &mut Case) -> R {
    let (a, b) = ((c.idx / 128) as u8, (c.idx % 128) as u8);
    c.key(&(a, b));
    let mk = |x: u8| String::from_utf8(vec![b'k', x, b'z']).unwrap();
    let (x, y) = (HeaderName::try_from(mk(a)).unwrap(), HeaderName::try_from(mk(b)).unwrap());
    let same = low(&[a]) == low(&[b]);
    ckeq!(x == y, same, "names {:?} and {:?} equal", mk(a), mk(b));
    if same { ckeq!(hash_of(&x), hash_of(&y), "hashes of equal names"); }
    let longer = HeaderName::try_from(mk(a) + "z").unwrap();
    ck!(longer != x && x != longer, "a name equals a longer one");
    let mut h = HeaderMap::new();
    h.insert(mk(a), "1");
    h.insert(mk(b), "2");
    ckeq!(h.len(), if same { 1 } else { 2 }, "entries after inserting both");
    Ok(())
}
fn p05_bytes(c: &mut Case) -> R {
    let (a, b) = ((c.idx >> 8) as u8, c.idx as u8);
    c.key(&(a, b));
    let same = low(&[a]) == low(&[b]);
    ckeq!(Helper::eq_bytes_ignore_ascii_case(&[b'x', a], &[b'X', b]), same, "octets {} and {} equal as name octets", a, b);
    ck!(!Helper::eq_bytes_ignore_ascii_case(&[a, b], &[a]), "names of different length equal");
    let s: Vec<u8> = vec![a, b, a, a];
    for i in 0..s.len() { ck!(Helper::contains_bytes(&s, &s[i..]), "suffix not contained"); }
    ckeq!(Helper::contains_bytes(&[a, a, b], &[b, b]), a == b, "containment");
    Ok(())
}

fn ref_usize(v: &[u8]) -> Option<usize> {
    if v.is_empty() || v.iter().any(|b| !(b'0'..=b'9').contains(b)) { return None; }
    let mut n: u128 = 0;
    for b in v { n = (n * 10 + (b - b'0') as u128).min(1 << 100); }
    if n > u64::MAX as u128 { None } else { Some(n as usize) }
}
fn ref_isize(v: &[u8]) -> Option<isize> {
    let (neg, d) = match v.first() { Some(b'-') => (true, &v[1..]), _ => (false, v) };
    if d.is_empty() || d.iter().any(|b| !(b'0'..=b'9').contains(b)) { return None; }
    let mut n: i128 = 0;
    for b in d { n = (n * 10 + (b - b'0') as i128).min(1 << 100); }
    if neg { n = -n }
    if n > i64::MAX as i128 || n < i64::MIN as i128 { None } else { Some(n as isize) }
}
fn p06_check(c: &mut Case, v: Vec<u8>) -> R {
    c.key(&v);
    let hv = HeaderValue::from_bytes(&v);
    let u: Result<usize, WebError> = (&hv).try_into();
    ckeq!(u.ok(), ref_usize(&v), "unsigned number {}", show(&v));
    let i: Result<isize, WebError> = (&hv).try_into();
    ckeq!(i.ok(), ref_isize(&v), "signed number {}", show(&v));
    if v.len() <= 8 {
        if let Ok(t) = String::from_utf8(v.clone()) {
            let hs = HeaderValue::from_static(Box::leak(t.into_boxed_str()));
            let u: Result<usize, WebError> = (&hs).try_into();
            ckeq!(u.ok(), ref_usize(&v), "unsigned number, static text {}", show(&v));
            let i: Result<isize, WebError> = (&hs).try_into();
            ckeq!(i.ok(), ref_isize(&v), "signed number, static text {}", show(&v));
        }
    }
    let mut h = HeaderMap::new();
    h.insert(HeaderName::CONTENT_LENGTH, hv);
    ckeq!(h.get_body_len(), ref_isize(&v).unwrap_or(0), "content length {}", show(&v));
    Ok(())
}
fn p06_num(c: &mut Case) -> R {
    let base: i128 = *c.rng.pick(&[0i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1i128 << 70, 1 << 32, 999, u64::MAX as i128 / 10, i64::MAX as i128 / 10 * 10]);
    let n = base + c.rng.range(0, 24) as i128 - 12;
    let mut s = n.to_string();
    if c.rng.one_in(5) { let k = c.rng.below(4); let z = "0".repeat(k); s = if let Some(r) = s.strip_prefix('-') { format!("-{}{}", z, r) } else { format!("{}{}", z, s) } }
    if c.rng.one_in(5) { s.push((b'0' + c.rng.below(10) as u8) as char) }
    if c.rng.bool() {
        let v = c.rng.u64();
        let hv = HeaderValue::try_from(v as usize).unwrap();
        let u: Result<usize, WebError> = (&hv).try_into();
        ckeq!(u.ok(), Some(v as usize), "number put in and read back");
        let w = v as isize;
        let hv = HeaderValue::try_from(w).unwrap();
        let u: Result<isize, WebError> = (&hv).try_into();
        ckeq!(u.ok(), Some(w), "signed number put in and read back");
    }
    p06_check(c, s.into_bytes())
}
fn p06_short(c: &mut Case) -> R {
    const A: &[u8; 15] = b"0123456789-+ a/";
    let mut i = c.idx;
    let n = if i == 0 { 0 } else if i <= 15 { i -= 1; 1 } else if i <= 240 { i -= 16; 2 } else { i -= 241; 3 };
    let mut v = vec![];
    for _ in 0..n { v.push(A[(i % 15) as usize]); i /= 15; }
    p06_check(c, v)
}
fn p06_any(c: &mut Case) -> R {
    let n = c.rng.below(24);
    let v = if c.rng.bool() { c.rng.bytes(n) } else { c.rng.from(b"0123456789--+ ,;.:/\t", n) };
    p06_check(c, v)
}

/// reference chunk reader: Ok(header length, data length) / Partial / Err
fn ref_chunk(b: &[u8]) -> Ans {
    let k = b.iter().position(|x| !x.is_ascii_hexdigit());
    let k = match k { None => return Ans::Part, Some(k) => k };
    if k == 0 { return Ans::Err; }
    let mut n: u128 = 0;
    for x in &b[..k] { n = (n * 16 + (*x as char).to_digit(16).unwrap() as u128).min(1 << 100); }
    if n > u64::MAX as u128 { return Ans::Err; }
    let h = match b[k] {
        b'\n' => k + 1,
        b'\r' => match b.get(k + 1) { Some(b'\n') => k + 2, Some(_) => return Ans::Err, None => return Ans::Part },
        _ => return Ans::Err,
    };
    if ((b.len() - h) as u128) < n + 2 { return Ans::Part; }
    Ans::Ok(h, n.to_string())
}
fn got_chunk(b: &[u8]) -> Ans {
    let mut rd = b;
    let r = Helper::parse_chunk_data(&mut rd);
    match r { Ok((h, n)) => Ans::Ok(h, n.to_string()), Err(e) if e.is_partial() => Ans::Part, Err(_) => Ans::Err }
}
fn p07_one(c: &mut Case, bodies: Vec<Vec<u8>>) -> R {
    c.key(&bodies);
    let mut out = BinaryMut::new();
    let mut ends = vec![];
    for b in &bodies {
        let before = out.chunk().len();
        let n = Helper::encode_chunk_data(&mut out, b).map_err(|e| format!("{:?}", e))?;
        ckeq!(n, out.chunk().len() - before, "size reported for a chunk");
        ends.push(out.chunk().len());
    }
    let w = out.chunk().to_vec();
    let mut p = 0;
    for (i, b) in bodies.iter().enumerate() {
        let want_head = format!("{:x}\r\n", b.len());
        match got_chunk(&w[p..]) {
            Ans::Ok(h, n) => {
                ckeq!(n, b.len().to_string(), "length of chunk {}", i);
                ckeq!(h, want_head.len(), "length of the size line of chunk {}", i);
                ck!(w[p + h..p + h + b.len()] == b[..], "data of chunk {}", i);
                ckeq!(&w[p + h + b.len()..ends[i]], b"\r\n", "end of chunk {}", i);
            }
            a => return Err(format!("own chunk {} answered {:?}", i, a)),
        }
        for cut in [ends[i] - 1, ends[i] - 2, p + c.rng.below(ends[i] - p)] {
            if cut >= p { ckeq!(got_chunk(&w[p..cut.max(p)]), Ans::Part, "chunk cut after {} of {} bytes", cut - p, ends[i] - p); }
        }
        p = ends[i];
    }
    Ok(())
}
fn p07_rt(c: &mut Case) -> R {
    let k = c.rng.range(1, 5);
    let v = (0..k).map(|_| { let n = c.rng.small_len(); c.rng.bytes(n) }).collect();
    p07_one(c, v)
}
fn p07_sizes(c: &mut Case) -> R { let n = c.idx as usize; let v = vec![(0..n).map(|i| i as u8).collect(), b"tail".to_vec()]; p07_one(c, v) }
fn p07_large(c: &mut Case) -> R {
    let n = (1usize << (12 + c.idx / 3)) + (c.idx % 3) as usize - 1;
    c.key(&n);
    let data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let mut out = BinaryMut::new();
    let k = Helper::encode_chunk_data(&mut out, &data).map_err(|e| format!("{:?}", e))?;
    let head = format!("{:x}\r\n", n);
    ckeq!(k, head.len() + n + 2, "size reported for a chunk of {}", n);
    let w = out.chunk();
    ck!(w[..head.len()] == *head.as_bytes() && w[head.len()..head.len() + n] == data[..] && &w[head.len() + n..] == b"\r\n", "octets of a chunk of {}", n);
    ckeq!(got_chunk(w), Ans::Ok(head.len(), n.to_string()), "chunk of {} read back", n);
    ckeq!(got_chunk(&w[..w.len() - 1]), Ans::Part, "chunk of {} without its last octet", n);
    Ok(())
}
fn p07_arb(c: &mut Case) -> R {
    let k = c.rng.below(4);
    let mut b = match c.rng.below(3) { 0 => { let n = c.rng.below(12); c.rng.from(b"0123afAFgG\r\n x;", n) } 1 => { let n = c.rng.below(10); c.rng.bytes(n) } _ => { let n = c.rng.below(40); let mut b = format!("{:x}", n).into_bytes(); if c.rng.bool() { b.insert(0, b'0') } if c.rng.one_in(3) { b = b.to_ascii_uppercase() } b.extend_from_slice(if c.rng.one_in(4) { b"\n" } else { b"\r\n" }); let m = (n + k).saturating_sub(2); b.extend(c.rng.bytes(m)); b } };
    if c.rng.one_in(4) && !b.is_empty() { let i = c.rng.below(b.len()); b[i] = c.rng.u8() }
    c.key(&b);
    ckeq!(got_chunk(&b), ref_chunk(&b), "chunk");
    Ok(())
}
fn p07_huge(c: &mut Case) -> R {
    let n: u128 = [1u128 << 31, 1 << 32, 1 << 62, (1 << 63) - 2, 1 << 63, (1u128 << 64) - 4, (1u128 << 64) - 2, 1u128 << 64, 1u128 << 65, 1u128 << 99][(c.idx % 10) as usize] + (c.idx / 10 % 4) as u128;
    let mut b = format!("{}{:x}\r\n", "0".repeat((c.idx / 40 % 3) as usize * 20), n).into_bytes();
    let k = (c.idx / 120) as usize * 5;
    b.extend(vec![b'x'; k]);
    c.key(&b);
    ckeq!(got_chunk(&b), ref_chunk(&b), "chunk announcing {:x}", n);
    Ok(())
}

// the HTTP status code registry (RFC 7231 and the RFCs it cites)
const REASONS: &str = "100 Continue|101 Switching Protocols|102 Processing|103 Early Hints|200 OK|201 Created|202 Accepted|203 Non-Authoritative Information|204 No Content|205 Reset Content|206 Partial Content|207 Multi-Status|208 Already Reported|226 IM Used|300 Multiple Choices|301 Moved Permanently|302 Found|303 See Other|304 Not Modified|305 Use Proxy|307 Temporary Redirect|308 Permanent Redirect|400 Bad Request|401 Unauthorized|402 Payment Required|403 Forbidden|404 Not Found|405 Method Not Allowed|406 Not Acceptable|407 Proxy Authentication Required|408 Request Timeout|409 Conflict|410 Gone|411 Length Required|412 Precondition Failed|413 Payload Too Large|414 URI Too Long|415 Unsupported Media Type|416 Range Not Satisfiable|417 Expectation Failed|418 I'm a teapot|421 Misdirected Request|422 Unprocessable Entity|423 Locked|424 Failed Dependency|425 Too Early|426 Upgrade Required|428 Precondition Required|429 Too Many Requests|431 Request Header Fields Too Large|451 Unavailable For Legal Reasons|500 Internal Server Error|501 Not Implemented|502 Bad Gateway|503 Service Unavailable|504 Gateway Timeout|505 HTTP Version Not Supported|506 Variant Also Negotiates|507 Insufficient Storage|508 Loop Detected|510 Not Extended|511 Network Authentication Required";
fn p08_status(c: &mut Case) -> R {
    let n = c.idx as u16;
    c.key(&n);
    let ok = (100..1000).contains(&n);
    let s = StatusCode::try_from(n).ok();
    ckeq!(s.map(|s| s.as_u16()), if ok { Some(n) } else { None }, "status from {}", n);
    if let Some(s) = s {
        ckeq!(s.as_str(), n.to_string(), "text of status");
        ckeq!(StatusCode::try_from(s.as_str()).ok(), Some(s), "status from its text");
        ckeq!(StatusCode::try_from(s.as_str().as_bytes()).ok(), Some(s), "status from its bytes");
        let cls = [s.is_informational(), s.is_success(), s.is_redirection(), s.is_client_error(), s.is_server_error()];
        for (k, x) in cls.iter().enumerate() { ckeq!(*x, n as usize / 100 == k + 1, "class {} of {}", k + 1, n); }
        ckeq!((s == n, n == s), (true, true), "status compared with its number");
        let (hn, hv) = s.build_header();
        ckeq!((hn.as_bytes().to_vec(), hv.as_bytes().to_vec()), (b":status".to_vec(), n.to_string().into_bytes()), "pseudo header of a status");
        let w = REASONS.split('|').find(|x| x[..3] == n.to_string()).map(|x| &x[4..]);
        if s.canonical_reason().is_some() || (w.is_some() && n != 103 && n != 425) { ckeq!(s.canonical_reason(), w, "reason phrase of {}", n); }
        if let Some(r) = s.canonical_reason() { ck!(!r.is_empty() && r.bytes().all(|b| (0x20..0x7f).contains(&b)), "reason phrase of {} is not printable: {:?}", n, r); }
    }
    Ok(())
}
fn p08_text(c: &mut Case) -> R {
    let n = if c.rng.one_in(4) { c.rng.below(6) } else { 3 };
    let b = if c.rng.bool() { c.rng.bytes(n) } else { c.rng.from(b"0123456789:/", n) };
    c.key(&b);
    let w = if b.len() == 3 && b.iter().all(|x| x.is_ascii_digit()) && b[0] != b'0' { std::str::from_utf8(&b).unwrap().parse::<u16>().ok() } else { None };
    ckeq!(StatusCode::from_bytes(&b).ok().map(|s| s.as_u16()), w, "status from {}", show(&b));
    Ok(())
}
const NAMED: [(StatusCode, u16); 60] = [(StatusCode::CONTINUE, 100), (StatusCode::SWITCHING_PROTOCOLS, 101), (StatusCode::PROCESSING, 102), (StatusCode::OK, 200), (StatusCode::CREATED, 201), (StatusCode::ACCEPTED, 202), (StatusCode::NON_AUTHORITATIVE_INFORMATION, 203), (StatusCode::NO_CONTENT, 204), (StatusCode::RESET_CONTENT, 205), (StatusCode::PARTIAL_CONTENT, 206), (StatusCode::MULTI_STATUS, 207), (StatusCode::ALREADY_REPORTED, 208), (StatusCode::IM_USED, 226), (StatusCode::MULTIPLE_CHOICES, 300), (StatusCode::MOVED_PERMANENTLY, 301), (StatusCode::FOUND, 302), (StatusCode::SEE_OTHER, 303), (StatusCode::NOT_MODIFIED, 304), (StatusCode::USE_PROXY, 305), (StatusCode::TEMPORARY_REDIRECT, 307), (StatusCode::PERMANENT_REDIRECT, 308), (StatusCode::BAD_REQUEST, 400), (StatusCode::UNAUTHORIZED, 401), (StatusCode::PAYMENT_REQUIRED, 402), (StatusCode::FORBIDDEN, 403), (StatusCode::NOT_FOUND, 404), (StatusCode::METHOD_NOT_ALLOWED, 405), (StatusCode::NOT_ACCEPTABLE, 406), (StatusCode::PROXY_AUTHENTICATION_REQUIRED, 407), (StatusCode::REQUEST_TIMEOUT, 408), (StatusCode::CONFLICT, 409), (StatusCode::GONE, 410), (StatusCode::LENGTH_REQUIRED, 411), (StatusCode::PRECONDITION_FAILED, 412), (StatusCode::PAYLOAD_TOO_LARGE, 413), (StatusCode::URI_TOO_LONG, 414), (StatusCode::UNSUPPORTED_MEDIA_TYPE, 415), (StatusCode::RANGE_NOT_SATISFIABLE, 416), (StatusCode::EXPECTATION_FAILED, 417), (StatusCode::IM_A_TEAPOT, 418), (StatusCode::MISDIRECTED_REQUEST, 421), (StatusCode::UNPROCESSABLE_ENTITY, 422), (StatusCode::LOCKED, 423), (StatusCode::FAILED_DEPENDENCY, 424), (StatusCode::UPGRADE_REQUIRED, 426), (StatusCode::PRECONDITION_REQUIRED, 428), (StatusCode::TOO_MANY_REQUESTS, 429), (StatusCode::REQUEST_HEADER_FIELDS_TOO_LARGE, 431), (StatusCode::UNAVAILABLE_FOR_LEGAL_REASONS, 451), (StatusCode::INTERNAL_SERVER_ERROR, 500), (StatusCode::NOT_IMPLEMENTED, 501), (StatusCode::BAD_GATEWAY, 502), (StatusCode::SERVICE_UNAVAILABLE, 503), (StatusCode::GATEWAY_TIMEOUT, 504), (StatusCode::HTTP_VERSION_NOT_SUPPORTED, 505), (StatusCode::VARIANT_ALSO_NEGOTIATES, 506), (StatusCode::INSUFFICIENT_STORAGE, 507), (StatusCode::LOOP_DETECTED, 508), (StatusCode::NOT_EXTENDED, 510), (StatusCode::NETWORK_AUTHENTICATION_REQUIRED, 511)];
fn p08_names(c: &mut Case) -> R {
    for (s, n) in NAMED.iter() { ckeq!(s.as_u16(), *n, "number of a named status"); }
    const SCH: [(&str, Scheme); 5] = [("http", Scheme::Http), ("https", Scheme::Https), ("ws", Scheme::Ws), ("wss", Scheme::Wss), ("ftp", Scheme::Ftp)];
    for (s, m) in METHODS.iter() {
        ckeq!(m.as_str(), *s, "text of a method");
        ckeq!(m.to_string(), *s, "display of a method");
        ckeq!(s.parse::<Method>().ok(), Some(m.clone()), "method from text");
        ckeq!(s.to_lowercase().parse::<Method>().ok(), Some(m.clone()), "method from lower case text");
        ckeq!(Method::try_from(*s).ok(), Some(m.clone()), "method");
        let mut b = BinaryMut::new();
        ckeq!(m.clone().encode(&mut b).ok(), Some(s.len()), "size of a method");
        ckeq!(b.chunk(), s.as_bytes(), "octets of a method");
    }
    for (s, v) in VERSIONS.iter() {
        ckeq!(v.as_str(), *s, "text of a version");
        ckeq!(Version::from(*s), *v, "version");
        let mut b = BinaryMut::new();
        ckeq!(v.clone().encode(&mut b).ok(), Some(s.len()), "size of a version");
        ckeq!(b.chunk(), s.as_bytes(), "octets of a version");
    }
    for (s, v) in SCH.iter() {
        ckeq!(v.as_str(), *s, "text of a scheme");
        ckeq!(s.parse::<Scheme>().ok(), Some(v.clone()), "scheme from text");
        ckeq!(s.to_uppercase().parse::<Scheme>().ok(), Some(v.clone()), "scheme from upper case text");
        ckeq!(Scheme::try_from(*s).ok(), Some(v.clone()), "scheme");
    }
    ck!(Method::None.clone().encode(&mut BinaryMut::new()).is_err() && Version::None.clone().encode(&mut BinaryMut::new()).is_err(), "an absent method or version was written");
    let all: Vec<&str> = METHODS.iter().map(|x| x.0).chain(VERSIONS.iter().map(|x| x.0)).chain(SCH.iter().map(|x| x.0)).collect();
    let mut s = c.rng.pick(&all).to_string().into_bytes();
    let i = c.rng.below(s.len() + 1);
    match c.rng.below(4) { 0 => s.insert(i, b'A' + c.rng.below(26) as u8), 1 => { if i < s.len() { s.remove(i); } } 2 => { if i < s.len() { s[i] ^= 0x20 } } _ => { if i < s.len() { s[i] = b'!' + c.rng.below(90) as u8 } } }
    let s = String::from_utf8_lossy(&s).to_string();
    c.key(&s);
    ckeq!(Method::try_from(&*s).ok(), METHODS.iter().find(|x| x.0 == s).map(|x| x.1.clone()), "method from {:?}", s);
    ckeq!(Version::from(&*s), VERSIONS.iter().find(|x| x.0 == s).map_or(Version::None, |x| x.1), "version from {:?}", s);
    let w = SCH.iter().find(|x| x.0 == s).map_or(Scheme::Extension(s.clone()), |x| x.1.clone());
    ckeq!(Scheme::try_from(&*s).ok(), Some(w), "scheme from {:?}", s);
    Ok(())
}

fn legal(h: &HeaderMap) -> R {
    for (n, v) in h.iter() {
        ck!(!n.as_bytes().is_empty() && n.as_bytes().iter().all(|b| TCHAR.contains(b)), "field name is not a token: {}", show(n.as_bytes()));
        ck!(!v.as_bytes().iter().any(|b| *b == b'\r' || *b == b'\n'), "field value holds a line break: {}", show(v.as_bytes()));
        ck!(v.as_bytes().first() != Some(&b' '), "field value starts with a blank: {}", show(v.as_bytes()));
    }
    let k: std::collections::HashSet<Vec<u8>> = h.iter().map(|(n, _)| low(n.as_bytes())).collect();
    ckeq!(k.len(), h.len(), "distinct field names");
    Ok(())
}
fn p09_legal(c: &mut Case) -> R {
    let req = c.rng.bool();
    let b = arb_message(c, req);
    c.key(&(req, &b));
    if req { let mut r = Request::new(); if let Ok(n) = r.parse(&b) { legal(r.headers())?; lines(&b[..n], r.headers().len())?; } else { c.trivial() } }
    else { let mut r = Response::new(()); if let Ok(n) = r.parse(&b) { legal(r.headers())?; lines(&b[..n], r.headers().len())?; } else { c.trivial() } }
    Ok(())
}
/// the parsed part ends with the first empty line behind the start line and has at least as many lines as fields
fn lines(b: &[u8], fields: usize) -> R {
    let ls: Vec<&[u8]> = b.split(|x| *x == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l)).collect();
    ck!(ls.last() == Some(&&b""[..]), "parsed part does not end with a line end");
    let first = ls.iter().position(|l| !l.is_empty()).unwrap_or(0);
    let end = ls[first..].iter().position(|l| l.is_empty()).map(|x| x + first);
    ckeq!(end, Some(ls.len() - 2), "line of the parsed part that is empty");
    ck!(fields <= ls.len() - 2 - first - 1, "{} fields from {} lines", fields, ls.len() - 3 - first);
    Ok(())
}
fn p09_bytes(c: &mut Case) -> R {
    let x = c.idx as u8;
    let pos = (c.idx >> 8) as usize;
    let put = |pre: &[u8], mid: [&[u8]; 3], k: usize, post: &[u8]| { let mut v = pre.to_vec(); for (i, m) in mid.iter().enumerate() { if i == k { v.push(x) } v.extend_from_slice(m) } v.extend_from_slice(post); v };
    let tok = TCHAR.contains(&x);
    let vis = x > 0x20 && x < 0x7f;
    let (b, req, want): (Vec<u8>, bool, Option<bool>) = match pos {
        0 => (put(b"GET / HTTP/1.1\r\n", [b"", b"a", b""], 0, b": v\r\n\r\n"), true, if x == b'\n' { None } else { Some(tok) }),
        1 => (put(b"GET / HTTP/1.1\r\n", [b"a", b"b", b""], 1, b": v\r\n\r\n"), true, if x == b':' || x == b' ' { None } else { Some(tok) }),
        2 => (put(b"GET / HTTP/1.1\r\n", [b"a", b"", b""], 1, b": v\r\n\r\n"), true, if x == b':' || x == b' ' { None } else { Some(tok) }),
        3 => (put(b"GET / HTTP/1.1\r\nn: ", [b"", b"v", b""], 0, b"\r\n\r\n"), true, if x == b'\r' || x == b'\n' { Some(false) } else { Some(true) }),
        4 => (put(b"GET / HTTP/1.1\r\nn: ", [b"v", b"w", b""], 1, b"\r\n\r\n"), true, if x == b'\r' || x == b'\n' { Some(false) } else { Some(true) }),
        5 => (put(b"GET / HTTP/1.1\r\nn: ", [b"v", b"", b""], 1, b"\r\n\r\n"), true, if x == b'\r' || x == b'\n' { None } else { Some(true) }),
        6 => (put(b"", [b"GE", b"T", b""], 1, b" / HTTP/1.1\r\nn: v\r\n\r\n"), true, if vis || x == b' ' { None } else { Some(false) }),
        7 => (put(b"GET /", [b"a", b"b", b""], 1, b" HTTP/1.1\r\nn: v\r\n\r\n"), true, if x == b'%' || x == b' ' { Some(false) } else { Some(vis) }),
        8 => (put(b"GET /?", [b"a", b"b", b""], 1, b" HTTP/1.1\r\nn: v\r\n\r\n"), true, if x == b'%' || x == b' ' { Some(false) } else { Some(vis) }),
        9 => (put(b"HTTP/1.1 200 ", [b"O", b"K", b""], 1, b"\r\nn: v\r\n\r\n"), false, if x == b'\r' || x == b'\n' { None } else { Some(vis || x == b' ') }),
        10 => (put(b"HTTP/1.1 2", [b"0", b"", b""], 1, b" OK\r\nn: v\r\n\r\n"), false, Some(x.is_ascii_digit())),
        _ => (put(b"HTTP/1.1 200 OK\r\nn", [b"", b"", b""], 0, b": v\r\n\r\n"), false, if x == b':' || x == b' ' { None } else { Some(tok) }),
    };
    c.key(&b);
    let (ok, fields) = if req { let mut r = Request::new(); let a = r.parse(&b); if a.is_ok() { legal(r.headers())? } (a.is_ok(), got_fields(r.headers())) } else { let mut r = Response::new(()); let a = r.parse(&b); if a.is_ok() { legal(r.headers())? } (a.is_ok(), got_fields(r.headers())) };
    if let Some(w) = want { ckeq!(ok, w, "octet {:#04x} at place {} accepted", x, pos); }
    if ok && (3..=5).contains(&pos) && x != b' ' && x != b'\r' && x != b'\n' {
        let w = match pos { 3 => vec![x, b'v'], 4 => vec![b'v', x, b'w'], _ => vec![b'v', x] };
        ckeq!(fields.iter().map(|x| hex(&x.1)).collect::<Vec<_>>(), vec![hex(&w)], "value at place {}", pos);
    }
    Ok(())
}

fn put(m: &mut Pairs, n: &[u8], v: &[u8]) { match m.iter_mut().find(|x| low(&x.0) == low(n)) { Some(x) => x.1 = v.to_vec(), None => m.push((n.to_vec(), v.to_vec())) } }
fn has(m: &Pairs, n: &str) -> bool { m.iter().any(|x| low(&x.0) == low(n.as_bytes())) }
const P10_NAMES: [&str; 10] = ["Host", "host", "User-Agent", "user-agent", "Server", "SERVER", "X-A", "content-length", "Content-Length", "accept"];
fn p10_map(c: &mut Case) -> (HeaderMap, Pairs) {
    let mut h = HeaderMap::new();
    let mut m: Pairs = vec![];
    for _ in 0..c.rng.below(4) {
        let n = *c.rng.pick(&P10_NAMES);
        let k = c.rng.below(6);
        let v = c.rng.from(b"abc0189", k);
        h.insert(n, HeaderValue::from_bytes(&v));
        put(&mut m, n.as_bytes(), &v);
    }
    (h, m)
}
fn body_len(m: &Pairs) -> isize { m.iter().find(|x| low(&x.0) == b"content-length").and_then(|x| std::str::from_utf8(&x.1).ok().filter(|s| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())).and_then(|s| s.parse::<isize>().ok())).unwrap_or(0) }
// text, path, query, host, port
const P10_URLS: [(&str, &str, Option<&str>, Option<&str>, Option<u16>); 8] = [
    ("/", "/", None, None, None), ("http://g.example/q", "/q", None, Some("g.example"), Some(80)), ("http://h.example:90/q", "/q", None, Some("h.example"), Some(90)), ("http://H.example/", "/", None, Some("H.example"), Some(80)),
    ("/a/b?x=1", "/a/b", Some("x=1"), None, None), ("http://h.example/q", "/q", None, Some("h.example"), Some(80)),
    ("https://s.example:8443/?k", "/", Some("k"), Some("s.example"), Some(8443)), ("wss://w.example", "/", None, Some("w.example"), Some(443))];
type UrlM = (String, Option<String>, Option<String>, Option<u16>);
fn url_m(u: &Url) -> UrlM { (u.path.clone(), u.query.clone(), u.domain.clone(), if u.domain.is_none() { None } else { u.port }) }
fn url_w(k: usize) -> UrlM { let u = P10_URLS[k]; (u.1.to_string(), u.2.map(|x| x.to_string()), u.3.map(|x| x.to_string()), u.4) }
fn p10_req(c: &mut Case) -> R {
    let mut b = if c.rng.bool() { Request::builder() } else { webparse::http::request::Builder::new() };
    let (mut m, mut v, mut u, mut f, mut bad): (Method, Version, UrlM, Pairs, bool) = (Method::Get, Version::Http11, url_w(0), vec![], false);
    let mut ops = vec![];
    for _ in 0..c.rng.below(8) {
        let op = c.rng.below(12);
        match op {
            0 => { let k = c.rng.below(9); ops.push(format!("method {}", METHODS[k].0)); b = b.method(METHODS[k].0); if !bad { m = METHODS[k].1.clone() } }
            1 => { let k = c.rng.below(9); ops.push(format!("method value {}", METHODS[k].0)); b = b.method(METHODS[k].1.clone()); if !bad { m = METHODS[k].1.clone() } }
            2 | 3 => { let k = c.rng.below(8); ops.push(format!("url {}", P10_URLS[k].0)); b = if op == 2 { b.url(P10_URLS[k].0) } else { b.url(P10_URLS[k].0.to_string()) }; if !bad { u = url_w(k); if let (Some(h), Some(p)) = (&u.2, u.3) { put(&mut f, b"Host", format!("{}:{}", h, p).as_bytes()) } } }
            4 => { let k = c.rng.below(4); ops.push(format!("version {}", VERSIONS[k].0)); b = b.version(VERSIONS[k].1); if !bad { v = VERSIONS[k].1 } }
            5 => { let n = *c.rng.pick(&P10_NAMES); let x = *c.rng.pick(&["", "7", "text", "65"]); ops.push(format!("header {} {:?}", n, x)); b = b.header(n, x); if !bad { put(&mut f, n.as_bytes(), x.as_bytes()) } }
            6 => { let n = c.rng.pick(&P10_NAMES).to_string(); let x = if c.rng.one_in(4) { usize::MAX } else { c.rng.below(3000) }; ops.push(format!("header {} {}", n, x)); b = b.header(n.clone(), x); if !bad { put(&mut f, n.as_bytes(), x.to_string().as_bytes()) } }
            7 | 8 => { let (h, p) = p10_map(c); ops.push(format!("headers {}", showf(&p))); b = b.headers(h); if !bad { for (n, x) in &p { put(&mut f, n, x) } } }
            9 => { let n = *c.rng.pick(&P10_NAMES); ops.push(format!("headers_mut {}", n)); if let Some(h) = b.headers_mut() { h.insert(n, "m"); } if !bad { put(&mut f, n.as_bytes(), b"m") } }
            10 if c.rng.one_in(4) => { ops.push("method BREW".into()); b = b.method("BREW"); bad = true }
            11 if c.rng.one_in(4) => { ops.push("url bad".into()); b = b.url("http://h:99999/"); bad = true }
            _ => {}
        }
        ck!(b.headers_ref().map(got_fields) == if bad { None } else { Some(f.clone()) }, "builder fields after {:?}: {:?}, expected {}", ops, b.headers_ref().map(|h| showf(&got_fields(h))), showf(&f));
        ckeq!((b.method_ref().cloned(), b.version_ref().copied(), b.url_ref().map(url_m)), if bad { (None, None, None) } else { (Some(m.clone()), Some(v), Some(u.clone())) }, "builder parts after {:?}", ops);
        ckeq!(b.get_body_len(), if bad { 0 } else { body_len(&f) }, "builder body length after {:?}", ops);
    }
    c.key(&ops);
    let n = c.rng.below(4);
    let bd = c.rng.bytes(n);
    let rq = b.body(bd.clone());
    if bad { ck!(rq.is_err(), "request built in spite of a refused part: {:?}", ops); return Ok(()); }
    let mut rq = rq.map_err(|e| format!("request not built from {:?}: {:?}", ops, e))?;
    if !has(&f, "user-agent") { f.push((b"User-Agent".to_vec(), b"wenmeng".to_vec())) }
    let mut bd = bd;
    for _ in 0..c.rng.below(8) {
        match c.rng.below(12) {
            0 => { let k = c.rng.below(9); ops.push(format!("set_method {}", METHODS[k].0)); rq.set_method(METHODS[k].1.clone()); m = METHODS[k].1.clone() }
            1 => { let k = c.rng.below(4); ops.push(format!("set_version {}", VERSIONS[k].0)); rq.set_version(VERSIONS[k].1); v = VERSIONS[k].1 }
            2 => { ops.push("set_path".into()); rq.set_path("/p".to_string()); u.0 = "/p".to_string() }
            3 => { let k = c.rng.below(8); ops.push(format!("set_url {}", P10_URLS[k].0)); rq.set_url(Url::try_from(P10_URLS[k].0).unwrap()); u = url_w(k); if let (Some(h), Some(p)) = (&u.2, u.3) { if !has(&f, "host") { put(&mut f, b"Host", format!("{}:{}", h, p).as_bytes()) } } }
            4 => { let k = c.rng.below(8); ops.push(format!("url_mut {}", P10_URLS[k].0)); *rq.url_mut() = Url::try_from(P10_URLS[k].0).unwrap(); u = url_w(k) }
            5 => { let n = *c.rng.pick(&P10_NAMES); ops.push(format!("headers_mut {}", n)); rq.headers_mut().insert(n, "z"); put(&mut f, n.as_bytes(), b"z") }
            6 => { ops.push("body_mut".into()); rq.body_mut().push(9); bd.push(9) }
            7 => { ops.push("into".into()); let nb = vec![1u8, 2]; let (r2, old) = rq.into(nb.clone()); ckeq!(old, bd, "body given back after {:?}", ops); rq = r2; bd = nb }
            8 => { ops.push("replace_clone".into()); let mut r2 = rq.replace_clone(vec![4u8]); ckeq!(*rq.body(), vec![4u8], "body left behind after {:?}", ops); ckeq!((rq.method().clone(), rq.version(), url_m(rq.url())), (m.clone(), v, u.clone()), "parts left behind after {:?}", ops); std::mem::swap(&mut rq, &mut r2) }
            9 => { ops.push("into_type".into()); rq = rq.into_type::<Vec<u8>>() }
            10 => { ops.push("parts_mut".into()); rq.parts_mut().header.insert("X-A", "q"); put(&mut f, b"X-A", b"q") }
            _ => { ops.push("set_scheme".into()); rq.set_scheme(Scheme::Ftp); ckeq!(*rq.scheme(), Scheme::Ftp, "scheme after {:?}", ops) }
        }
        ckeq!((rq.method().clone(), rq.version(), url_m(rq.url()), rq.path().clone()), (m.clone(), v, u.clone(), u.0.clone()), "parts after {:?}", ops);
        ckeq!((rq.parts().method.clone(), rq.parts().version, url_m(&rq.parts().url), rq.is_http2()), (m.clone(), v, u.clone(), v == Version::Http2), "parts after {:?}", ops);
        ck!(got_fields(rq.headers()) == f, "fields after {:?}: {}, expected {}", ops, showf(&got_fields(rq.headers())), showf(&f));
        ckeq!(*rq.body(), bd, "body after {:?}", ops);
        ckeq!(rq.get_body_len(), body_len(&f), "body length after {:?}", ops);
        ckeq!(rq.get_connect_url(), match (&u.2, u.3) { (Some(h), Some(p)) => Some(format!("{}:{}", h, p)), _ => None }, "address after {:?}", ops);
    }
    let fresh = Request::new();
    ckeq!((fresh.method().clone(), fresh.version(), url_m(fresh.url()), fresh.headers().len(), fresh.is_partial()), (Method::None, Version::Http11, url_w(0), 0, false), "a new request");
    Ok(())
}
fn p10_resp(c: &mut Case) -> R {
    const KIND: [(u16, &str); 6] = [(200, "text/plain; charset=utf-8"), (200, "application/json; charset=utf-8"), (404, "text/html; charset=utf-8"), (503, "text/html; charset=utf-8"), (502, "text/html; charset=utf-8"), (500, "text/html; charset=utf-8")];
    let k = c.rng.below(9);
    let mut b = match k { 0 => Response::text(), 1 => Response::json(), 2 => Response::status404(), 3 => Response::status503(), 4 => Response::status502(), 5 => Response::status500(), _ => Response::builder() };
    let (mut s, mut v, mut f, mut bad): (u16, Version, Pairs, bool) = if k < 6 { (KIND[k].0, Version::Http11, vec![(b"content-type".to_vec(), KIND[k].1.as_bytes().to_vec())], false) } else { (200, Version::Http11, vec![], false) };
    let mut ops = vec![format!("kind {}", k)];
    for _ in 0..c.rng.below(8) {
        let op = c.rng.below(9);
        match op {
            0 | 1 => { let n = if c.rng.one_in(8) { *c.rng.pick(&[0u16, 99, 1000, 65535]) } else { c.rng.range(100, 999) as u16 }; ops.push(format!("status {}", n)); b = if op == 0 { b.status(n) } else { match StatusCode::from_u16(n) { Ok(x) => b.status(x), Err(_) => b.status(n) } }; if (100..1000).contains(&n) { if !bad { s = n } } else { bad = true } }
            2 => { let n = *c.rng.pick(&["201", "999", "100", "099", "20", "2000", "2x1"]); let ok = n.len() == 3 && n != "099" && n != "2x1"; ops.push(format!("status {:?}", n)); b = b.status(n); if ok { if !bad { s = n.parse().unwrap() } } else { bad = true } }
            3 => { let k = c.rng.below(4); ops.push(format!("version {}", VERSIONS[k].0)); b = b.version(VERSIONS[k].1); if !bad { v = VERSIONS[k].1 } }
            4 => { let n = *c.rng.pick(&P10_NAMES); let x = *c.rng.pick(&["", "7", "text", "65"]); ops.push(format!("header {} {:?}", n, x)); b = b.header(n, x); if !bad { put(&mut f, n.as_bytes(), x.as_bytes()) } }
            5 | 6 => { let (h, p) = p10_map(c); ops.push(format!("headers {}", showf(&p))); b = b.headers(h); if !bad { for (n, x) in &p { put(&mut f, n, x) } } }
            7 => { let n = *c.rng.pick(&P10_NAMES); ops.push(format!("headers_mut {}", n)); if let Some(h) = b.headers_mut() { h.insert(n, "m"); } if !bad { put(&mut f, n.as_bytes(), b"m") } }
            _ => {}
        }
        ck!(b.headers_ref().map(got_fields) == if bad { None } else { Some(f.clone()) }, "builder fields after {:?}: {:?}, expected {}", ops, b.headers_ref().map(|h| showf(&got_fields(h))), showf(&f));
        ckeq!(b.get_body_len(), if bad { 0 } else { body_len(&f) }, "builder body length after {:?}", ops);
    }
    c.key(&ops);
    let n = c.rng.below(4);
    let mut bd = c.rng.bytes(n);
    let rs = b.body(bd.clone());
    if bad { ck!(rs.is_err(), "response built in spite of a refused part: {:?}", ops); return Ok(()); }
    let mut rs = rs.map_err(|e| format!("response not built from {:?}: {:?}", ops, e))?;
    if !has(&f, "server") { f.push((b"Server".to_vec(), b"wenmeng".to_vec())) }
    for i in 0..=c.rng.below(8) {
        match if i == 0 { 99 } else { c.rng.below(11) } {
            0 => { ops.push("status_mut".into()); *rs.status_mut() = StatusCode::from_u16(299).unwrap(); s = 299 }
            1 => { ops.push("version_mut".into()); *rs.version_mut() = Version::Http2; v = Version::Http2 }
            2 => { let n = *c.rng.pick(&P10_NAMES); ops.push(format!("headers_mut {}", n)); rs.headers_mut().insert(n, "z"); put(&mut f, n.as_bytes(), b"z") }
            3 => { ops.push("body_mut".into()); rs.body_mut().push(9); bd.push(9) }
            4 => { ops.push("into".into()); let nb = vec![1u8, 2]; let (r2, old) = rs.into(nb.clone()); ckeq!(old, bd, "body given back after {:?}", ops); rs = r2; bd = nb }
            5 => { ops.push("map".into()); rs = rs.map(|mut x: Vec<u8>| { x.push(7); x }); bd.push(7) }
            6 => { ops.push("into_parts/from_parts".into()); let (p, x) = rs.into_parts(); rs = Response::from_parts(p, x) }
            7 => { ops.push("replace_body".into()); rs.replace_body(vec![5u8]); bd = vec![5] }
            8 => { ops.push("replace_clone".into()); let mut r2 = rs.replace_clone(vec![4u8]); ckeq!(*rs.body(), vec![4u8], "body left behind after {:?}", ops); ckeq!((rs.status().as_u16(), rs.version()), (s, v), "parts left behind after {:?}", ops); std::mem::swap(&mut rs, &mut r2) }
            9 => { ops.push("into_type".into()); rs = rs.into_type::<Vec<u8>>() }
            10 => { ops.push("headers_body_mut".into()); { let (h, x) = rs.headers_body_mut(); h.insert("X-A", "q"); x.push(1) } put(&mut f, b"X-A", b"q"); bd.push(1) }
            _ => {}
        }
        ckeq!((rs.status().as_u16(), rs.version()), (s, v), "parts after {:?}", ops);
        ck!(got_fields(rs.headers()) == f, "fields after {:?}: {}, expected {}", ops, showf(&got_fields(rs.headers())), showf(&f));
        ckeq!(*rs.body(), bd, "body after {:?}", ops);
        ckeq!(rs.get_body_len(), body_len(&f), "body length after {:?}", ops);
        ck!(!rs.is_partial(), "a built response is incomplete after {:?}", ops);
    }
    let fresh = Response::new(3u8.to_string());
    ckeq!((fresh.status().as_u16(), fresh.version(), fresh.headers().len(), fresh.body().as_str()), (200, Version::Http11, 0, "3"), "a new response");
    Ok(())
}
fn p10_url(c: &mut Case) -> R {
    let mut b = Url::builder();
    let (mut sc, mut us, mut pw, mut w): (Scheme, Option<String>, Option<String>, UrlM) = (Scheme::None, None, None, url_w(0));
    let mut bad = false;
    let mut ops = vec![];
    for _ in 0..c.rng.below(10) {
        let n = c.rng.below(6);
        let t = String::from_utf8(c.rng.from(b"ab/?:@%1", n)).unwrap();
        let op = c.rng.below(9);
        ops.push(format!("{} {:?}", op, t));
        match op {
            0 => { b = b.username(t.clone()); us = Some(t) }
            1 => { b = b.password(t.clone()); pw = Some(t) }
            2 => { b = b.domain(t.clone()); w.2 = Some(t) }
            3 => { b = b.domain(&*t); w.2 = Some(t) }
            4 => { let p = c.rng.u16(); b = b.port(p); w.3 = Some(p); }
            5 => { b = b.path(t.clone()); w.0 = t }
            6 => { b = b.query(t.clone()); w.1 = Some(t) }
            7 => { b = b.scheme("https"); sc = Scheme::Https }
            _ => if c.rng.one_in(8) { let l = "x".repeat(65); b = b.scheme(&*l); bad = true } else { b = b.scheme(Scheme::Ws); sc = Scheme::Ws },
        }
    }
    c.key(&ops);
    let r = b.build();
    if bad { ck!(r.is_err(), "URL built in spite of a refused scheme: {:?}", ops); return Ok(()); }
    let u = r.map_err(|e| format!("URL not built from {:?}: {:?}", ops, e))?;
    ckeq!((u.scheme.clone(), u.username.clone(), u.password.clone(), (u.path.clone(), u.query.clone(), u.domain.clone(), u.port)), (sc, us, pw, w), "URL built by {:?}", ops);
    Ok(())
}

//! U01..U03: percent coding and URLs.
use crate::core::*;
use crate::{ck, ckeq};
use webparse::{Scheme, Url};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "U01", suites: vec![
            Suite { name: "u01_roundtrip", what: "decode(encode(s)) == s, the encoded form is legal ASCII; the crate's own table of raw octets is percent free", count: Count::Rand(60_000, 800_000), f: u01_rt },
            Suite { name: "u01_each_char", what: "every octet value and many code points alone", count: Count::All(0x800 + 256), f: u01_char },
            Suite { name: "u01_decode_reference", what: "arbitrary text against a reference decoder", count: Count::Rand(100_000, 1_000_000), f: u01_dec },
            Suite { name: "u01_every_escape", what: "% followed by any two ASCII octets", count: Count::All(128 * 128), f: u01_esc },
        ]},
        Prop { id: "U02", suites: vec![
            Suite { name: "u02_components", what: "URL text assembled from components: parsed components, default ports, authority, connection address", count: Count::Rand(60_000, 800_000), f: u02_comp },
            Suite { name: "u02_display", what: "URLs built from components: shown and parsed back", count: Count::Rand(60_000, 800_000), f: u02_disp },
            Suite { name: "u02_arbitrary", what: "arbitrary octets: a URL or an error, never a panic; an accepted URL shown and parsed back is unchanged", count: Count::Rand(100_000, 1_500_000), f: u02_arb },
            Suite { name: "u02_ports", what: "every port with every scheme", count: Count::All(65536), f: u02_ports },
            Suite { name: "u02_bad", what: "malformed URLs refused", count: Count::Rand(40_000, 400_000), f: u02_bad },
        ]},
        Prop { id: "U03", suites: vec![
            Suite { name: "u03_merge", what: "merge takes every component the other URL sets and keeps the rest", count: Count::Rand(60_000, 500_000), f: u03_merge },
        ]},
    ]
}

fn word(c: &mut Case, n: usize) -> String {
    const S: [&str; 30] = ["a", "b", "Z", "0", "/", ".", "-", "_", " ", "\u{e9}", "%", "?", "\u{4f60}", "#", "&", "=", ":", "@", "+", "~", "\t", "\"", "<", "[", "{", "\u{1F600}", "\u{7f}", "\u{0}", ";", ","];
    (0..n).map(|_| *c.rng.pick(&S)).collect()
}
fn is_hexd(b: u8) -> bool { b.is_ascii_hexdigit() }
fn ref_decode(s: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            if i + 2 >= s.len() || !is_hexd(s[i + 1]) || !is_hexd(s[i + 2]) { return None; }
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else { o.push(s[i]); i += 1; }
    }
    Some(o)
}
fn u01_one(c: &mut Case, s: String) -> R {
    c.key(&s);
    let e = Url::url_encode(&s);
    ck!(e.bytes().all(|b| b > 0x20 && b < 0x7f), "encoded text holds an illegal octet: {:?}", e);
    let b = e.as_bytes();
    for i in 0..b.len() { if b[i] == b'%' { ck!(i + 2 < b.len() && is_hexd(b[i + 1]) && is_hexd(b[i + 2]), "encoded text holds an incomplete escape: {:?}", e); } }
    ck!(!b.contains(&b' ') && !b.contains(&b'#') && !b.contains(&b'"'), "encoded text holds a delimiter: {:?}", e);
    for ch in s.bytes() { if ch.is_ascii_alphanumeric() { continue } }
    let d = Url::url_decode(&e).map_err(|x| format!("encoded text {:?} refused: {:?}", e, x))?;
    ckeq!(d, s, "text decoded from {:?}", e);
    ckeq!(ref_decode(b).map(|x| hex(&x)), Some(hex(s.as_bytes())), "encoded text {:?} read by a reference decoder", e);
    Ok(())
}
fn u01_rt(c: &mut Case) -> R {
    let n = c.rng.small_len().min(60);
    let s = if c.rng.bool() { word(c, n) } else { let b = c.rng.bytes(n); String::from_utf8_lossy(&b).to_string() };
    u01_one(c, s)
}
fn u01_char(c: &mut Case) -> R {
    let i = c.idx as u32;
    let ch = if i < 0x800 { char::from_u32(i).unwrap() } else { char::from_u32(0x800 + (i - 0x800) * 0x1fd + 0x9000).unwrap_or('\u{10ffff}') };
    u01_one(c, format!("{}", ch))?;
    u01_one(c, format!("a{}b", ch))
}
fn u01_dec(c: &mut Case) -> R {
    let n = c.rng.below(14);
    let s = if c.rng.bool() { String::from_utf8(c.rng.from(b"%%%0123aAfFgGzZ/ +", n)).unwrap() } else { word(c, n) };
    c.key(&s);
    let w = ref_decode(s.as_bytes()).map(|v| String::from_utf8_lossy(&v).to_string());
    ckeq!(Url::url_decode(&s).ok(), w, "text decoded from {:?}", s);
    Ok(())
}
fn u01_esc(c: &mut Case) -> R {
    let (a, b) = ((c.idx / 128) as u8 as char, (c.idx % 128) as u8 as char);
    for s in [format!("%{}{}", a, b), format!("x%{}{}y", a, b), format!("%{}", a), format!("{}{}%", a, b)] {
        c.key(&s);
        let w = ref_decode(s.as_bytes()).map(|v| String::from_utf8_lossy(&v).to_string());
        ckeq!(Url::url_decode(&s).ok(), w, "text decoded from {:?}", s);
    }
    Ok(())
}

#[derive(Hash, Debug, Clone, PartialEq)]
struct Comp { scheme: Option<String>, user: Option<(String, String)>, host: Option<String>, port: Option<u16>, path: String, query: Option<String> }
fn known(s: &str) -> Option<u16> { match s { "http" | "ws" => Some(80), "https" | "wss" => Some(443), "ftp" => Some(21), _ => None } }
fn pct(c: &mut Case, s: &str, keep: &dyn Fn(u8) -> bool) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if keep(b) && !c.rng.one_in(10) { o.push(b as char) } else { o += &if c.rng.bool() { format!("%{:02x}", b) } else { format!("%{:02X}", b) } }
    }
    o
}
fn comps(c: &mut Case) -> Comp {
    let abs = !c.rng.one_in(4);
    let n = c.rng.below(6);
    let path = if abs && c.rng.one_in(4) { "/".to_string() } else { format!("/{}", word(c, n)) };
    let n = c.rng.below(6);
    let query = if c.rng.bool() { Some(word(c, n)) } else { None };
    if !abs { return Comp { scheme: None, user: None, host: None, port: None, path, query }; }
    let scheme = c.rng.pick(&["http", "https", "ws", "wss", "ftp", "custom", "h2", "HTTP", "a+b.c-1"]).to_string();
    let user = if c.rng.one_in(3) { let (a, b) = (c.rng.below(5), c.rng.below(5)); Some((word(c, a), word(c, b))) } else { None };
    let host = if c.rng.one_in(6) { let n = c.rng.range(1, 6); word(c, n) } else { c.rng.pick(&["a.example", "localhost", "127.0.0.1", "x-y.z"]).to_string() };
    let port = match c.rng.below(5) { 0 => Some(c.rng.u16()), 1 => Some(*c.rng.pick(&[0u16, 21, 80, 443, 8080, 65535])), _ => None };
    Comp { scheme: Some(scheme), user, host: Some(host), port, path, query }
}
fn of(u: &Url) -> Comp {
    Comp {
        scheme: if u.scheme == Scheme::None { None } else { Some(u.scheme.as_str().to_string()) },
        user: match (&u.username, &u.password) { (None, None) => None, (a, b) => Some((a.clone().unwrap_or_default(), b.clone().unwrap_or_default())) },
        host: u.domain.clone(), port: u.port, path: u.path.clone(), query: u.query.clone(),
    }
}
fn text_of(c: &mut Case, k: &Comp, bare: bool) -> String {
    let tok = |b: u8| b > 0x20 && b < 0x7f && b != b'%';
    let mut s = String::new();
    if let Some(x) = &k.scheme { s += x; s += "://"; }
    if let Some((u, p)) = &k.user {
        s += &pct(c, u, &|b| tok(b) && !b":/?@".contains(&b)); s.push(':');
        s += &pct(c, p, &|b| tok(b) && !b":/?@".contains(&b)); s.push('@');
    }
    if let Some(h) = &k.host { s += &pct(c, h, &|b| tok(b) && !b":/?@".contains(&b)); }
    if let Some(p) = k.port { s += &format!(":{}", p); }
    if !bare { s.push('/'); let p = &k.path[1..]; s += &pct(c, p, &|b| tok(b) && b != b'?'); }
    if let Some(q) = &k.query { s.push('?'); s += &pct(c, q, &tok); }
    s
}
fn u02_comp(c: &mut Case) -> R {
    let k = comps(c);
    let bare = k.path == "/" && k.scheme.is_some() && c.rng.bool();
    let t = text_of(c, &k, bare);
    c.key(&t);
    let u = Url::parse(t.clone().into_bytes()).map_err(|e| format!("URL {:?} refused: {:?}", t, e))?;
    let mut w = k.clone();
    w.port = Some(k.port.unwrap_or(k.scheme.as_deref().and_then(known).unwrap_or(0)));
    ckeq!(of(&u), w, "components of {:?}", t);
    for v in [Url::try_from(&t[..]), Url::try_from(t.clone()), Url::try_from(t.as_bytes()), t.parse::<Url>()] { ckeq!(v.map(|v| of(&v)).ok(), Some(w.clone()), "components by another entry point"); }
    derived(&u, &w)
}
fn derived(u: &Url, w: &Comp) -> R {
    let p = w.port.unwrap();
    let dflt = matches!((w.scheme.as_deref(), p), (Some("http"), 80) | (Some("https"), 443));
    let auth = match (&w.host, &w.scheme) { (None, _) => String::new(), (Some(h), None) => h.clone(), (Some(h), Some(_)) => if dflt { h.clone() } else { format!("{}:{}", h, p) } };
    ckeq!(u.get_authority(), auth, "authority");
    ckeq!(u.get_connect_url(), w.host.as_ref().map(|h| format!("{}:{}", h, p)), "connection address");
    ckeq!(u.get_scheme(), w.scheme.clone().unwrap_or_default(), "scheme text");
    Ok(())
}
fn u02_disp(c: &mut Case) -> R {
    let mut k = comps(c);
    k.port = k.scheme.as_ref().map(|s| k.port.unwrap_or(known(s).unwrap_or(4711)));
    c.key(&k);
    let mut b = Url::builder().path(k.path.clone());
    if let Some(s) = &k.scheme { b = b.scheme(&s[..]); }
    if let Some((u, p)) = &k.user { b = b.username(u.clone()).password(p.clone()); }
    if let Some(h) = &k.host { b = b.domain(h.clone()); }
    if let Some(p) = k.port { b = b.port(p); }
    if let Some(q) = &k.query { b = b.query(q.clone()); }
    let u = b.build().map_err(|e| format!("{:?}", e))?;
    ckeq!(of(&u), k, "components of the URL built");
    let t = format!("{}", u);
    let v = Url::parse(t.clone().into_bytes()).map_err(|e| format!("shown form {:?} refused: {:?}", t, e))?;
    let mut w = k.clone();
    if w.scheme.is_none() { w.port = Some(0) }
    ckeq!(of(&v), w, "components of the shown form {:?}", t);
    ckeq!(format!("{}", v), t, "shown form shown again");
    ck!(t[..] == v || format!("{}", v) == t, "URL differs from its text");
    Ok(())
}
fn u02_arb(c: &mut Case) -> R {
    let n = c.rng.below(20);
    let mut b = match c.rng.below(4) { 0 => c.rng.bytes(n), 1 => { let mut b = b"http://".to_vec(); b.extend(c.rng.from(b"ab:/@?%20.#", n)); b } 2 => { let mut b = b"/".to_vec(); b.extend(c.rng.from(b"ab:/@?%2F0\xff", n)); b } _ => { let k = comps(c); text_of(c, &k, false).into_bytes() } };
    for _ in 0..c.rng.below(3) { if !b.is_empty() { let i = c.rng.below(b.len()); match c.rng.below(4) { 0 => b[i] = c.rng.u8(), 1 => { b.remove(i); } 2 => { let x = *c.rng.pick(b":/?@%"); b.insert(i, x) } _ => b.truncate(i) } } }
    c.key(&b);
    if let Ok(u) = Url::parse(b.clone()) {
        // nothing but visible ASCII is accepted
        ck!(b.iter().all(|x| *x > 0x20 && *x < 0x7f), "URL with an illegal octet accepted");
        let k = of(&u);
        if k.host.is_some() || k.scheme.is_none() {
            let t = format!("{}", u);
            let v = Url::parse(t.clone().into_bytes()).map_err(|e| format!("shown form {:?} of an accepted URL refused: {:?}", t, e))?;
            ckeq!(of(&v), k, "components of the shown form {:?}", t);
        }
    }
    Ok(())
}
fn u02_ports(c: &mut Case) -> R {
    let p = c.idx as u16;
    c.key(&p);
    for s in ["http", "https", "ws", "wss", "ftp", "other"] {
        let t = format!("{}://h:{}/x", s, p);
        let u = Url::parse(t.into_bytes()).map_err(|e| format!("port {} refused: {:?}", p, e))?;
        let w = Comp { scheme: Some(s.into()), user: None, host: Some("h".into()), port: Some(p), path: "/x".into(), query: None };
        ckeq!(of(&u), w, "components");
        derived(&u, &w)?;
        let v = Url::parse(format!("{}", u).into_bytes()).map_err(|e| format!("shown form refused: {:?}", e))?;
        ckeq!(of(&v), w, "components of the shown form");
    }
    Ok(())
}
fn u02_bad(c: &mut Case) -> R {
    let k = comps(c);
    let mut t = text_of(c, &k, false).into_bytes();
    let what = c.rng.below(6);
    match what {
        0 => { let i = c.rng.below(t.len() + 1); t.insert(i, *c.rng.pick(&[0u8, 9, 10, 13, 32, 0x7f, 0x80, 0xff])); }
        1 => { t = format!("http://h:{}/", c.rng.pick(&["x", "-1", "65536", "99999", "1:2", "1x", "", "0x1", "+80", "%2B80", "+", "-0", "80+", " 80"])).into_bytes(); }
        2 => { t.extend_from_slice(c.rng.pick(&["%", "%4", "%zz", "%4x", "%g1", "%x4"]).as_bytes()); }
        3 => { t.extend_from_slice(c.rng.pick(&["%ff", "%c3", "%e4%bd", "%f0%9f%98", "%80"]).as_bytes()); }
        4 => t = c.rng.pick(&["", "1http://a/", "http", "http:", "http:/", "http:/a", "http//a", ":", "?a", "@", "#a", "http://u@h/", "//"]).as_bytes().to_vec(),
        _ => { t = c.rng.pick(&["http://a:b:c@h/", "http://a:1:2/", "http://a:b@c:d@h/", "http://a:b@c@h/", "http://a:b@@h", "http://a@b:c@h?x", "ht_tp://a/", "ht tp://a/"]).as_bytes().to_vec(); }
    }
    if t == b"//" { c.trivial(); return Ok(()); }
    c.key(&(what, &t));
    ck!(Url::parse(t.clone()).is_err(), "malformed URL accepted (case {}): {}", what, show(&t));
    Ok(())
}
fn u03_url(c: &mut Case) -> Url {
    let mut u = Url::new();
    if c.rng.bool() { u.scheme = c.rng.pick(&[Scheme::Http, Scheme::Https, Scheme::Ws, Scheme::Extension("x".into())]).clone() }
    if c.rng.bool() { u.path = c.rng.pick(&["/", "/a", "/b/c", ""]).to_string() }
    let o = |c: &mut Case| if c.rng.bool() { Some(c.rng.pick(&["", "u", "v"]).to_string()) } else { None };
    u.username = o(c); u.password = o(c); u.domain = o(c); u.query = o(c);
    u.port = if c.rng.bool() { Some(*c.rng.pick(&[0u16, 1, 80, 443])) } else { None };
    u
}
fn u03_merge(c: &mut Case) -> R {
    let (a, b) = (u03_url(c), u03_url(c));
    c.key(&format!("{:?} {:?}", a, b));
    let mut m = a.clone();
    m.merge(b.clone());
    let mut w = a.clone();
    if b.scheme != Scheme::None { w.scheme = b.scheme.clone() }
    if b.path != "/" { w.path = b.path.clone() }
    if b.username.is_some() { w.username = b.username.clone() }
    if b.password.is_some() { w.password = b.password.clone() }
    if b.domain.is_some() { w.domain = b.domain.clone() }
    if b.port.is_some() && b.port != Some(0) { w.port = b.port }
    if b.query.is_some() { w.query = b.query.clone() }
    ckeq!(format!("{:?}", m), format!("{:?}", w), "merged URL");
    Ok(())
}

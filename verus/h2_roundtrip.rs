//@import h2_headers.rs
//@import frame.rs
//@import f01.rs
verus! {
// ================= what was written reads back =================
pub open spec fn optl(n: Seq<u8>, v: Option<Seq<u8>>) -> Seq<Ent> { match v { Some(x) => seq![(n, x)], None => Seq::empty() } }
/// the pseudo fields that are set, in the order they are written
pub open spec fn pseudo(v: Hv) -> Seq<Ent> { optl(nmethod(), v.method) + (optl(nauth(), v.authority) + (optl(nscheme(), v.scheme) + (optl(npath(), v.path) + optl(nstatus(), status_text(v.status))))) }
pub open spec fn no_pseudo(f: Seq<Ent>) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0.len() == 0 || f[i].0[0] != 58 }
pub open spec fn distinct(f: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> !same((#[trigger] f[i]).0, (#[trigger] f[j]).0) }
pub open spec fn textual(x: Option<Seq<u8>>) -> bool { x is Some ==> utf8(x->0) && x->0.len() < 67108864 }
/// what Headers can be made of: a standard method, a status code, texts, and fields with distinct names that are not pseudo fields
pub open spec fn sendable(v: Hv) -> bool {
    &&& (v.method is Some ==> exists|m: Method| !(m is None) && !(m is Extension) && #[trigger] m.text() == v.method->0)
    &&& textual(v.authority) && textual(v.scheme) && textual(v.path) && (v.scheme is Some ==> v.scheme->0.len() <= 64)
    &&& (v.status is Some ==> 100 <= v.status->0 <= 999)
    &&& no_pseudo(v.fields) && distinct(v.fields)
    &&& (forall|i: int| 0 <= i < v.fields.len() ==> small(#[trigger] v.fields[i]) && utf8(v.fields[i].0))
}
pub open spec fn pname(n: Seq<u8>) -> bool { n == nmethod() || n == nauth() || n == nscheme() || n == npath() || n == nstatus() }
pub open spec fn pnames(m: Seq<Ent>) -> bool { forall|i: int| 0 <= i < m.len() ==> pname((#[trigger] m[i]).0) }
pub proof fn lemma_pnames()
    ensures forall|n: Seq<u8>| #[trigger] pname(n) ==> fold(n) == n && n.len() > 0 && n[0] == 58 && n.len() <= 10 && utf8(n),
        nmethod() != nauth(), nmethod() != nscheme(), nmethod() != npath(), nmethod() != nstatus(), nauth() != nscheme(), nauth() != npath(), nauth() != nstatus(), nscheme() != npath(), nscheme() != nstatus(), npath() != nstatus(),
        forall|a: Seq<u8>, b: Seq<u8>| pname(a) && pname(b) ==> #[trigger] same(a, b) == (a == b),
{
    assert(nmethod()[1] == 109); assert(nscheme()[1] == 115); assert(nstatus()[1] == 115); assert(nscheme()[2] == 99); assert(nstatus()[2] == 116);
    assert(nauth().len() == 10 && nmethod().len() == 7 && nscheme().len() == 7 && nstatus().len() == 7 && npath().len() == 5);
    assert forall|n: Seq<u8>| #[trigger] pname(n) implies fold(n) == n && n.len() > 0 && n[0] == 58 && n.len() <= 10 && utf8(n) by { assert(is_ascii(n)); ascii_utf8(n); assert(fold(n) =~= n); }
}
/// the order the pseudo fields are written in
pub open spec fn rank(n: Seq<u8>) -> int { if n == nmethod() { 0 } else if n == nauth() { 1 } else if n == nscheme() { 2 } else if n == npath() { 3 } else { 4 } }
pub open spec fn below(m: Seq<Ent>, k: int) -> bool { pnames(m) && forall|i: int| 0 <= i < m.len() ==> rank((#[trigger] m[i]).0) < k }
pub proof fn lemma_put(m: Seq<Ent>, n: Seq<u8>, v: Option<Seq<u8>>, k: int)
    requires below(m, k), pname(n), rank(n) == k
    ensures put(m, n, v) == m + optl(n, v), below(m + optl(n, v), k + 1)
{
    lemma_pnames();
    assert forall|i: int| 0 <= i < m.len() implies !same((#[trigger] m[i]).0, n) by { assert(pname(m[i].0)); }
    lemma_pos_none(m, n);
    if let Some(x) = v { assert(m.push((n, x)) =~= m + optl(n, v)); } else { assert(m + optl(n, v) =~= m); }
    assert forall|i: int| 0 <= i < (m + optl(n, v)).len() implies pname((#[trigger] (m + optl(n, v))[i]).0) && rank((m + optl(n, v))[i].0) < k + 1 by { if i < m.len() { assert((m + optl(n, v))[i] == m[i]); } }
}
#[verifier::spinoff_prover]
pub proof fn lemma_pseudo(v: Hv)
    ensures put_parts(Seq::empty(), v) == pseudo(v), pnames(pseudo(v))
{
    hide(put); hide(optl); hide(rank); hide(pname); hide(nmethod); hide(nauth); hide(nscheme); hide(npath); hide(nstatus); hide(status_text);
    let (a, b, c, d, e) = (optl(nmethod(), v.method), optl(nauth(), v.authority), optl(nscheme(), v.scheme), optl(npath(), v.path), optl(nstatus(), status_text(v.status)));
    assert(rank(nmethod()) == 0 && rank(nauth()) == 1 && rank(nscheme()) == 2 && rank(npath()) == 3 && rank(nstatus()) == 4 && pname(nmethod()) && pname(nauth()) && pname(nscheme()) && pname(npath()) && pname(nstatus())) by { reveal(rank); reveal(pname); lemma_pnames(); }
    let z = Seq::<Ent>::empty();
    assert(below(z, 0));
    lemma_put(z, nmethod(), v.method, 0); assert(z + a =~= a);
    lemma_put(a, nauth(), v.authority, 1);
    lemma_put(a + b, nscheme(), v.scheme, 2);
    lemma_put(a + b + c, npath(), v.path, 3);
    lemma_put(a + b + c + d, nstatus(), status_text(v.status), 4);
    assert(a + b + c + d + e =~= a + (b + (c + (d + e))));
}
pub proof fn lemma_insert_all(m: Seq<Ent>, f: Seq<Ent>)
    requires distinct(f), forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < f.len() ==> !same((#[trigger] m[i]).0, (#[trigger] f[j]).0)
    ensures insert_all(m, f) == m + f decreases f.len()
{
    if f.len() > 0 {
        lemma_pos_none(m, f[0].0);
        let (g, r) = (m.push(f[0]), f.skip(1));
        assert(g =~= m.push((f[0].0, f[0].1)));
        assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < r.len() implies !same((#[trigger] g[i]).0, (#[trigger] r[j]).0) by { assert(r[j] == f[j + 1]); if i < m.len() { assert(g[i] == m[i]); } else { assert(g[i] == f[0]); } }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies !same((#[trigger] r[i]).0, (#[trigger] r[j]).0) by { assert(r[i] == f[i + 1] && r[j] == f[j + 1]); }
        lemma_insert_all(g, r); assert(g + r =~= m + f);
    } else { assert(m + f =~= m); }
}
pub proof fn lemma_not_pseudo(n: Seq<u8>) requires n.len() == 0 || n[0] != 58 ensures !pname(n), !pname(fold(n)), fold(n).len() == 0 || fold(n)[0] != 58 { lemma_pnames(); if n.len() > 0 { assert(fold(n)[0] == low(n[0])); } else { assert(fold(n).len() == 0); } }
/// the list written: the pseudo fields first, then the fields, in order
pub proof fn lemma_header_list(v: Hv)
    requires sendable(v)
    ensures header_list(v) == pseudo(v) + v.fields
{
    lemma_pseudo(v); lemma_pnames();
    let p = pseudo(v);
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < v.fields.len() implies !same((#[trigger] p[i]).0, (#[trigger] v.fields[j]).0) by { assert(pname(p[i].0)); lemma_not_pseudo(v.fields[j].0); }
    lemma_insert_all(p, v.fields);
}
pub proof fn lemma_read_opt(v: Hv, n: Seq<u8>, x: Option<Seq<u8>>, rest: Seq<Ent>)
    ensures read_rest(v, optl(n, x) + rest) == (match x { None => read_rest(v, rest), Some(t) => match take_field(v, (n, t)) { Some(w) => read_rest(w, rest), None => None } })
{
    if let Some(t) = x { let l = optl(n, x) + rest; assert(l[0] == (n, t)); assert(l.skip(1) =~= rest); } else { assert(optl(n, x) + rest =~= rest); }
}
pub proof fn lemma_read_fields(v: Hv, f: Seq<Ent>)
    requires no_pseudo(f), distinct(f), forall|i: int, j: int| 0 <= i < v.fields.len() && 0 <= j < f.len() ==> !same((#[trigger] v.fields[i]).0, (#[trigger] f[j]).0)
    ensures read_rest(v, f) == Some(Hv { fields: v.fields + f, ..v }) decreases f.len()
{
    if f.len() > 0 {
        lemma_pnames(); lemma_not_pseudo(f[0].0);
        lemma_pos_none(v.fields, f[0].0);
        let (g, r) = (v.fields.push(f[0]), f.skip(1));
        let w = Hv { fields: g, ..v };
        assert(g =~= v.fields.push((f[0].0, f[0].1)));
        assert(take_field(v, f[0]) == Some(w));
        assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < r.len() implies !same((#[trigger] g[i]).0, (#[trigger] r[j]).0) by { assert(r[j] == f[j + 1]); if i < v.fields.len() { assert(g[i] == v.fields[i]); } else { assert(g[i] == f[0]); } }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies !same((#[trigger] r[i]).0, (#[trigger] r[j]).0) by { assert(r[i] == f[i + 1] && r[j] == f[j + 1]); }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0.len() == 0 || r[i].0[0] != 58 by { assert(r[i] == f[i + 1]); }
        lemma_read_fields(w, r); assert(g + r =~= v.fields + f);
    } else { assert(v.fields + f =~= v.fields); }
}
pub proof fn lemma_foldt(f: Seq<Ent>)
    ensures no_pseudo(f) ==> no_pseudo(foldt(f)), distinct(f) ==> distinct(foldt(f)), pnames(f) ==> foldt(f) == f
{
    let g = foldt(f);
    if no_pseudo(f) { assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).0.len() == 0 || g[i].0[0] != 58 by { lemma_not_pseudo(f[i].0); } }
    if distinct(f) { assert forall|i: int, j: int| 0 <= i < j < g.len() implies !same((#[trigger] g[i]).0, (#[trigger] g[j]).0) by { assert(!same(f[i].0, f[j].0)); assert(fold(fold(f[i].0)) =~= fold(f[i].0)); assert(fold(fold(f[j].0)) =~= fold(f[j].0)); } }
    if pnames(f) { lemma_pnames(); assert forall|i: int| 0 <= i < g.len() implies g[i] == f[i] by { assert(pname(f[i].0)); } assert(g =~= f); }
}
pub proof fn lemma_text3(n: u16) requires 100 <= n <= 999 ensures utf8(text3(n)), text3(n).len() == 3 { assert(is_ascii(text3(n))); ascii_utf8(text3(n)); }
pub proof fn lemma_method_text(t: Seq<u8>)
    requires exists|m: Method| !(m is None) && !(m is Extension) && #[trigger] m.text() == t
    ensures method_of(t) is Some, method_of(t)->0.text() == t, utf8(t), t.len() <= 7
{ let m = choose|m: Method| !(m is None) && !(m is Extension) && #[trigger] m.text() == t; lemma_method_roundtrip(m); assert(is_ascii(t)); ascii_utf8(t); }
#[verifier::spinoff_prover]
pub proof fn lemma_take_pseudo(v0: Hv, v: Hv)
    requires sendable(v)
    ensures v.method is Some ==> take_field(v0, (nmethod(), v.method->0)) == Some(Hv { method: v.method, ..v0 }),
        v.authority is Some ==> take_field(v0, (nauth(), v.authority->0)) == Some(Hv { authority: v.authority, ..v0 }),
        v.scheme is Some ==> take_field(v0, (nscheme(), v.scheme->0)) == Some(Hv { scheme: v.scheme, ..v0 }),
        v.path is Some ==> take_field(v0, (npath(), v.path->0)) == Some(Hv { path: v.path, ..v0 }),
        v.status is Some ==> take_field(v0, (nstatus(), status_text(v.status)->0)) == Some(Hv { status: v.status, ..v0 }),
{
    lemma_pnames();
    if v.method is Some { lemma_method_text(v.method->0); }
    if v.status is Some { lemma_status_roundtrip(v.status->0 as u16); lemma_text3(v.status->0 as u16); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_read_pseudo(v: Hv, f: Seq<Ent>)
    requires sendable(v), no_pseudo(f), distinct(f)
    ensures read_rest(no_hv(), pseudo(v) + f) == Some(Hv { fields: f, ..v })
{
    hide(read_rest); hide(take_field); hide(optl); hide(pseudo); hide(nmethod); hide(nauth); hide(nscheme); hide(npath); hide(nstatus); hide(status_text); hide(sendable); hide(distinct); hide(no_pseudo);
    let (a, b, c, d, e) = (optl(nmethod(), v.method), optl(nauth(), v.authority), optl(nscheme(), v.scheme), optl(npath(), v.path), optl(nstatus(), status_text(v.status)));
    reveal(pseudo);
    assert(pseudo(v) + f =~= a + (b + (c + (d + (e + f)))));
    let v0 = no_hv(); let v1 = Hv { method: v.method, ..v0 }; let v2 = Hv { authority: v.authority, ..v1 }; let v3 = Hv { scheme: v.scheme, ..v2 }; let v4 = Hv { path: v.path, ..v3 }; let v5 = Hv { status: v.status, ..v4 };
    lemma_take_pseudo(v0, v); lemma_take_pseudo(v1, v); lemma_take_pseudo(v2, v); lemma_take_pseudo(v3, v); lemma_take_pseudo(v4, v);
    lemma_read_fields(v5, f);
    assert(v5.fields + f =~= f);
    assert(status_text(v.status) is Some == v.status is Some) by { reveal(status_text); }
    lemma_read_opt(v0, nmethod(), v.method, b + (c + (d + (e + f))));
    lemma_read_opt(v1, nauth(), v.authority, c + (d + (e + f)));
    lemma_read_opt(v2, nscheme(), v.scheme, d + (e + f));
    lemma_read_opt(v3, npath(), v.path, e + f);
    lemma_read_opt(v4, nstatus(), status_text(v.status), f);
    assert(Hv { fields: v5.fields + f, ..v5 } == Hv { fields: f, ..v });
}
/// the list read: the same pseudo fields, and the same fields with their names in lower case
#[verifier::spinoff_prover]
pub proof fn lemma_read_list(v: Hv)
    requires sendable(v)
    ensures read_rest(no_hv(), foldt(header_list(v))) == Some(Hv { fields: foldt(v.fields), ..v }), plain(foldt(header_list(v))),
        forall|i: int| 0 <= i < header_list(v).len() ==> small(#[trigger] header_list(v)[i]) && utf8(header_list(v)[i].0),
{
    hide(take_field); hide(read_rest); hide(put_parts); hide(insert_all);
    lemma_header_list(v); lemma_pseudo(v); lemma_pnames(); lemma_foldt(v.fields); lemma_foldt(pseudo(v));
    let (p, f, l) = (pseudo(v), foldt(v.fields), header_list(v));
    assert(foldt(l) =~= p + f);
    lemma_read_pseudo(v, f);
    assert forall|i: int| 0 <= i < p.len() implies small(#[trigger] p[i]) && utf8(p[i].0) && utf8(p[i].1) by { assert(pname(p[i].0)); lemma_pseudo_value(v, i); }
    assert forall|i: int| 0 <= i < l.len() implies small(#[trigger] l[i]) && utf8(l[i].0) by { if i < p.len() { assert(l[i] == p[i]); } else { assert(l[i] == v.fields[i - p.len()]); } }
    let m = foldt(l);
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0.len() > 0 && m[i].0[0] == 58 implies utf8(m[i].1) by { if i < p.len() { assert(m[i] == p[i]); } else { assert(m[i] == f[i - p.len()]); } }
}
pub proof fn lemma_pseudo_value(v: Hv, i: int)
    requires sendable(v), 0 <= i < pseudo(v).len()
    ensures utf8(pseudo(v)[i].1), pseudo(v)[i].1.len() < 67108864
{
    if v.method is Some { lemma_method_text(v.method->0); }
    if v.status is Some { lemma_text3(v.status->0 as u16); }
    let (a, b, c, d, e) = (optl(nmethod(), v.method), optl(nauth(), v.authority), optl(nscheme(), v.scheme), optl(npath(), v.path), optl(nstatus(), status_text(v.status)));
    let p = pseudo(v);
    if i < a.len() { assert(p[i] == a[i]); } else { let i = i - a.len(); if i < b.len() { assert(p[i + a.len()] == b[i]); } else { let i = i - b.len(); if i < c.len() { assert(p[i + a.len() + b.len()] == c[i]); }
        else { let i = i - c.len(); if i < d.len() { assert(p[i + a.len() + b.len() + c.len()] == d[i]); } else { let i = i - d.len(); assert(p[i + a.len() + b.len() + c.len() + d.len()] == e[i]); } } } }
}
pub proof fn lemma_lsize_fold(l: Seq<Ent>) ensures lsize(foldt(l)) == lsize(l) decreases l.len()
{ if l.len() > 0 { lemma_lsize_fold(l.skip(1)); assert(foldt(l).skip(1) =~= foldt(l.skip(1))); assert(fold(l[0].0).len() == l[0].0.len()); } }
/// F07: the block the encoder writes, read by a decoder in step with it, is the header list; unless it is over the limit, a HEADERS payload made of it reads as the same Headers
pub proof fn thm_headers(v: Hv, e: HState, o: Seq<u8>, e2: HState, d: HState, max: nat)
    requires sendable(v), in_step(e, d), emits_all(e, header_list(v), o, e2)
    ensures block_read(o, d) matches Some((m, d2)) && in_step(e2, d2) && m == foldt(pseudo(v) + v.fields)
            && (headers_ok(0, o, d, max, no_hv()) == (lsize(pseudo(v) + v.fields) <= max)) && (headers_bad(0, o, d, max, no_hv()) == (lsize(pseudo(v) + v.fields) > max)),
        forall|h: Headers, f: u8, d2: HState| f & 0x20 == 0 && #[trigger] headers_are(f, o, d, d2, no_hv(), h) ==> h.hv() == (Hv { fields: foldt(v.fields), ..v }),
{
    hide(block_read); hide(emits_all); hide(read_rest); hide(sendable);
    lemma_read_list(v); lemma_header_list(v); lemma_lsize_fold(header_list(v));
    thm_in_step(e, header_list(v), o, e2, d);
    assert(0u8 & 0x20u8 == 0u8) by (bit_vector);
}
/// a block that fits one frame is one HEADERS frame with END_HEADERS; its payload is the block, without padding or dependency
pub proof fn thm_one_frame(o: Seq<u8>, max: int, flag: u8, id: u32, h: FrameHeader)
    requires 16 <= max < 0x1000000, o.len() <= max, id < 0x80000000, flag & 0x2d == flag, flag & 8 == 0, flag & 0x20 == 0, fh_is(block_frames(chunks(o, max), 1, flag, id), h)
    ensures chunks(o, max).len() == 1, fh_some(block_frames(chunks(o, max), 1, flag, id)), h.kind == Kind::Headers, h.length == o.len(), h.id.0 == id, h.flag.b == flag | 4, h.flag.b & 1 == flag & 1,
        block_frames(chunks(o, max), 1, flag, id).skip(9) == o, body(h, o) == o, pad_fits(h, o), h.flag.b & 0x20 == 0
{
    lemma_chunks(o, max); reveal_with_fuel(block_frames, 2);
    let cs = chunks(o, max);
    let g = FrameHeader { length: o.len() as u32, kind: Kind::Headers, flag: Flag { b: flag | 4 }, id: StreamIdentifier(id) };
    assert(block_frames(cs, 1, flag, id) =~= fh_octets(g) + o);
    assert((flag | 4u8) & 0x2du8 == (flag | 4u8) && (flag | 4u8) & 8 == 0 && (flag | 4u8) & 0x20 == 0 && (flag | 4u8) & 1 == flag & 1) by (bit_vector) requires flag & 0x2du8 == flag, flag & 8 == 0, flag & 0x20 == 0;
    lemma_fh_roundtrip(g, o);
    assert(!padded(h)) by { assert((flag | 4u8) & 8u8 != 8u8) by (bit_vector) requires flag & 8 == 0; }
    assert(o.take(o.len() as int) =~= o);
}
/// the frames of a block: END_HEADERS on the last only, END_STREAM only on HEADERS, CONTINUATION after HEADERS
pub proof fn thm_flags(flag: u8, k: int, n: int)
    requires 0 <= k < n
    ensures nth_flag(flag, k, n) & 4 == (if k == n - 1 { 4u8 } else { 0 }), nth_flag(flag, k, n) & 1 == (if k == 0 { flag & 1 } else { 0 }), nth_kind(k) == (if k == 0 { Kind::Headers } else { Kind::Continuation })
{
    assert((flag | 4u8) & 4u8 == 4u8 && (flag & !4u8) & 4u8 == 0u8 && (flag | 4u8) & 1u8 == flag & 1u8 && (flag & !4u8) & 1u8 == flag & 1u8 && 4u8 & 4u8 == 4u8 && 4u8 & 1u8 == 0u8 && 0u8 & 4u8 == 0u8 && 0u8 & 1u8 == 0u8) by (bit_vector);
}
}
fn main() {}

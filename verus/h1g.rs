//@import h1t.rs
verus! {
// ================= what is accepted =================
pub open spec fn all(s: Seq<u8>, p: spec_fn(u8) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
/// field names are tokens, field values hold no line ends
pub open spec fn legal_ent(e: Ent) -> bool { e.0.len() > 0 && all(e.0, p_name()) && all(e.1, p_val()) }
pub open spec fn legal(m: Seq<Ent>) -> bool { forall|i: int| 0 <= i < m.len() ==> legal_ent(#[trigger] m[i]) }
pub proof fn legal_fields(s: Seq<u8>, m: Seq<Ent>)
    requires legal(m) ensures fields(s, m) is Done ==> legal(fields(s, m)->Done_0)
    decreases s.len()
{
    if s.len() > 0 && s[0] != 13 && s[0] != 10 && fld(s) is Done {
        let e = fld(s)->Done_0; let n = fld(s)->Done_1; let m2 = m_insert(m, e.0, e.1);
        lemma_fld(s); lemma_tok(s, p_name(), false);
        let k1 = tok(s, p_name(), false)->Done_1; let s1 = s.skip(k1 as int); let k2 = spaces(s1)->Done_1; let s2 = s1.skip(k2 as int); let s3 = s2.skip(1);
        let k4 = spaces(s3)->Done_1; let s4 = s3.skip(k4 as int); lemma_tok(s4, p_val(), true);
        assert(legal_ent(e));
        lemma_pos(m, e.0);
        assert(legal(m2)) by { assert forall|i: int| 0 <= i < m2.len() implies legal_ent(#[trigger] m2[i]) by { if i < m.len() { assert(legal_ent(m[i])); } } }
        if 0 < n <= s.len() { legal_fields(s.skip(n as int), m2); }
    }
}
/// the parts of an accepted request head hold only their legal characters
#[verifier::spinoff_prover] pub proof fn thm_req_legal(s: Seq<u8>)
    ensures req_head(s) is Done ==> legal(req_head(s)->Done_0.h) && req_head(s)->Done_0.t.len() > 0 && all(req_head(s)->Done_0.t, p_tok())
{
    hide(tok); hide(spaces); hide(rd_method); hide(rd_version); hide(nl); hide(empties); hide(fields); hide(legal_ent);
    if req_head(s) is Done {
        let s1 = s.skip(empties(s)->Done_1 as int); let s2 = s1.skip(rd_method(s1)->Done_1 as int); let s3 = s2.skip(spaces(s2)->Done_1 as int);
        lemma_tok(s3, p_tok(), false); let s4 = s3.skip(tok(s3, p_tok(), false)->Done_1 as int); let s5 = s4.skip(spaces(s4)->Done_1 as int); let s6 = s5.skip(rd_version(s5)->Done_1 as int);
        legal_fields(s6.skip(nl(s6)->Done_1 as int), Seq::empty());
    }
}
/// the parts of an accepted response head hold only their legal characters
#[verifier::spinoff_prover] pub proof fn thm_res_legal(s: Seq<u8>)
    ensures res_head(s) is Done ==> legal(res_head(s)->Done_0.h) && all(res_head(s)->Done_0.r, p_reason()) && 100 <= res_head(s)->Done_0.c <= 999
{
    hide(tok); hide(spaces); hide(rd_version); hide(nl); hide(empties); hide(fields); hide(legal_ent);
    if res_head(s) is Done {
        let s1 = s.skip(empties(s)->Done_1 as int); let s2 = s1.skip(rd_version(s1)->Done_1 as int); let s3 = s2.skip(spaces(s2)->Done_1 as int);
        let s4 = s3.skip(rd_status(s3)->Done_1 as int); let s5 = s4.skip(spaces(s4)->Done_1 as int);
        lemma_tok(s5, p_reason(), true); let s6 = s5.skip(tok(s5, p_reason(), true)->Done_1 as int);
        legal_fields(s6.skip(nl(s6)->Done_1 as int), Seq::empty());
    }
}
// ================= the grammar: every head of this form is accepted with these parts =================
pub open spec fn sp(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 32u8) }
pub open spec fn nlt(crlf: bool) -> Seq<u8> { if crlf { seq![13u8, 10] } else { seq![10u8] } }
/// a field line: its name, spaces before and after the colon, its value (not beginning with a space), its line end
pub struct Fl { pub n: Seq<u8>, pub a: nat, pub b: nat, pub v: Seq<u8>, pub e: bool }
pub open spec fn fl_ok(f: Fl) -> bool { f.n.len() > 0 && all(f.n, p_name()) && all(f.v, p_val()) && (f.v.len() > 0 ==> f.v[0] != 32) }
pub open spec fn fl_text(f: Fl, t: Seq<u8>) -> Seq<u8> { f.n + (sp(f.a) + (seq![58u8] + (sp(f.b) + (f.v + (nlt(f.e) + t))))) }
pub open spec fn fls_ok(fs: Seq<Fl>) -> bool { forall|i: int| 0 <= i < fs.len() ==> fl_ok(#[trigger] fs[i]) }
pub open spec fn fls_text(fs: Seq<Fl>, e: bool, t: Seq<u8>) -> Seq<u8> decreases fs.len() { if fs.len() == 0 { nlt(e) + t } else { fl_text(fs[0], fls_text(fs.skip(1), e, t)) } }
/// the map the field lines give: a name given again replaces the value
pub open spec fn fls_map(m: Seq<Ent>, fs: Seq<Fl>) -> Seq<Ent> decreases fs.len() { if fs.len() == 0 { m } else { fls_map(m_insert(m, fs[0].n, fs[0].v), fs.skip(1)) } }
pub open spec fn els_text(es: Seq<bool>, t: Seq<u8>) -> Seq<u8> decreases es.len() { if es.len() == 0 { t } else { nlt(es[0]) + els_text(es.skip(1), t) } }
/// a reads v off the front of s and leaves t
pub open spec fn reads_to<T>(d: Rd<T>, s: Seq<u8>, v: T, t: Seq<u8>) -> bool { d is Done && d->Done_0 == v && d->Done_1 + t.len() == s.len() && s.skip(d->Done_1 as int) == t }
pub proof fn cat(a: Seq<u8>, t: Seq<u8>) ensures (a + t).skip(a.len() as int) == t, (a + t).take(a.len() as int) == a { assert((a + t).skip(a.len() as int) =~= t); assert((a + t).take(a.len() as int) =~= a); }
pub proof fn g_tok(a: Seq<u8>, t: Seq<u8>, p: spec_fn(u8) -> bool, e: bool)
    requires all(a, p), a.len() > 0 || e, t.len() > 0, !p(t[0]) ensures reads_to(tok(a + t, p, e), a + t, a, t)
{ cat(a, t); assert forall|j: int| 0 <= j < a.len() implies p(#[trigger] (a + t)[j]) by { assert(p(a[j])); } assert((a + t)[a.len() as int] == t[0]); lemma_run_is(a + t, p, a.len() as int); }
pub proof fn g_spaces(n: nat, t: Seq<u8>)
    requires t.len() > 0, t[0] != 32 ensures reads_to(spaces(sp(n) + t), sp(n) + t, (), t)
{ let p = |b: u8| b == 32; let a = sp(n); cat(a, t); assert((a + t)[a.len() as int] == t[0]); lemma_run_is(a + t, p, a.len() as int); }
pub proof fn g_nl(e: bool, t: Seq<u8>) ensures reads_to(nl(nlt(e) + t), nlt(e) + t, (), t)
{ cat(nlt(e), t); assert((nlt(e) + t)[0] == nlt(e)[0]); if e { assert((nlt(e) + t)[1] == 10); } }
#[verifier::spinoff_prover] pub proof fn g_fld(f: Fl, t: Seq<u8>)
    requires fl_ok(f) ensures reads_to(fld(fl_text(f, t)), fl_text(f, t), (f.n, f.v), t)
{
    let t5 = nlt(f.e) + t; let t4 = f.v + t5; let t3 = sp(f.b) + t4; let t2 = seq![58u8] + t3; let t1 = sp(f.a) + t2; let s = f.n + t1;
    g_fld_back(f, t); g_fld_front(f, t3);
    fld_join(s, f.n, t1, t2, t3, f.v, t4, t5, t);
}
pub proof fn g_fld_back(f: Fl, t: Seq<u8>)
    requires fl_ok(f)
    ensures ({ let t5 = nlt(f.e) + t; let t4 = f.v + t5; let t3 = sp(f.b) + t4; reads_to(spaces(t3), t3, (), t4) && reads_to(tok(t4, p_val(), true), t4, f.v, t5) && reads_to(nl(t5), t5, (), t) })
{
    hide(tok); hide(spaces); hide(nl);
    let t5 = nlt(f.e) + t; let t4 = f.v + t5;
    g_nl(f.e, t);
    assert(t5[0] == nlt(f.e)[0]); g_tok(f.v, t5, p_val(), true);
    if f.v.len() > 0 { assert(t4[0] == f.v[0]); } else { assert(t4 =~= t5); }
    g_spaces(f.b, t4);
}
pub proof fn g_fld_front(f: Fl, t3: Seq<u8>)
    requires fl_ok(f)
    ensures ({ let t2 = seq![58u8] + t3; let t1 = sp(f.a) + t2; let s = f.n + t1; reads_to(tok(s, p_name(), false), s, f.n, t1) && reads_to(spaces(t1), t1, (), t2) && t2[0] == 58 && t2.len() > 0 && t2.skip(1) == t3 })
{
    hide(tok); hide(spaces); hide(nl);
    let t2 = seq![58u8] + t3; let t1 = sp(f.a) + t2;
    cat(seq![58u8], t3); assert(t2[0] == 58); g_spaces(f.a, t2);
    if f.a > 0 { assert(t1[0] == 32); } else { assert(t1 =~= t2); } g_tok(f.n, t1, p_name(), false);
}
pub proof fn fld_join(s: Seq<u8>, n: Seq<u8>, t1: Seq<u8>, t2: Seq<u8>, t3: Seq<u8>, v: Seq<u8>, t4: Seq<u8>, t5: Seq<u8>, t: Seq<u8>)
    requires reads_to(tok(s, p_name(), false), s, n, t1), reads_to(spaces(t1), t1, (), t2), t2.len() > 0, t2[0] == 58, t2.skip(1) == t3,
        reads_to(spaces(t3), t3, (), t4), reads_to(tok(t4, p_val(), true), t4, v, t5), reads_to(nl(t5), t5, (), t)
    ensures reads_to(fld(s), s, (n, v), t)
{ hide(tok); hide(spaces); hide(nl); lemma_fld(s); }
#[verifier::spinoff_prover] pub proof fn g_fields(fs: Seq<Fl>, e: bool, t: Seq<u8>, m: Seq<Ent>)
    requires fls_ok(fs) ensures reads_to(fields(fls_text(fs, e, t), m), fls_text(fs, e, t), fls_map(m, fs), t)
    decreases fs.len()
{
    hide(fld); hide(nl); hide(fl_text);
    let s = fls_text(fs, e, t);
    if fs.len() == 0 { g_nl(e, t); assert(s[0] == nlt(e)[0]); }
    else {
        let f = fs[0]; let t1 = fls_text(fs.skip(1), e, t); assert(fl_ok(f)); g_fld(f, t1); fl_head(f, t1);
        assert(fls_ok(fs.skip(1))) by { assert forall|i: int| 0 <= i < fs.skip(1).len() implies fl_ok(#[trigger] fs.skip(1)[i]) by { assert(fl_ok(fs[i + 1])); } }
        let m2 = m_insert(m, f.n, f.v); g_fields(fs.skip(1), e, t, m2);
        let n = fld(s)->Done_1; fld_pos(s); let k = fields(t1, m2)->Done_1; fields_step(s, m, t1); cut2(s, n as int, k as int);
    }
}
pub proof fn fl_head(f: Fl, t: Seq<u8>) requires fl_ok(f) ensures fl_text(f, t).len() > 0, fl_text(f, t)[0] != 13, fl_text(f, t)[0] != 10
{ assert(fl_text(f, t)[0] == f.n[0]); assert(p_name()(f.n[0])); }
pub proof fn fld_pos(s: Seq<u8>) ensures fld(s) is Done ==> 0 < fld(s)->Done_1 <= s.len() { lemma_fld(s); }
pub proof fn fields_step(s: Seq<u8>, m: Seq<Ent>, t: Seq<u8>)
    requires s.len() > 0, s[0] != 13, s[0] != 10, fld(s) is Done, 0 < fld(s)->Done_1 <= s.len(), s.skip(fld(s)->Done_1 as int) == t
    ensures fields(s, m) == fields(t, m_insert(m, fld(s)->Done_0.0, fld(s)->Done_0.1)).shift(fld(s)->Done_1)
{ hide(fld); hide(nl); }
pub proof fn g_empties(es: Seq<bool>, t: Seq<u8>)
    requires t.len() > 0, t[0] != 13, t[0] != 10 ensures reads_to(empties(els_text(es, t)), els_text(es, t), (), t)
    decreases es.len()
{
    let s = els_text(es, t);
    if es.len() > 0 {
        g_empties(es.skip(1), t); let t1 = els_text(es.skip(1), t); let a = nlt(es[0]); cat(a, t1); assert(s[0] == a[0]); if es[0] { assert(s[1] == 10); }
        let k = empties(t1)->Done_1; cut2(s, a.len() as int, k as int);
    } else { assert(s.skip(0) =~= s); }
}
pub proof fn chain(s: Seq<u8>, n: int, t: Seq<u8>, k: int, u: Seq<u8>)
    requires 0 <= n <= s.len(), s.skip(n) == t, n + t.len() == s.len(), 0 <= k <= t.len(), t.skip(k) == u, k + u.len() == t.len()
    ensures s.skip(n + k) == u, n + k + u.len() == s.len(), 0 <= n + k <= s.len()
{ assert(s.skip(n + k) =~= u); }
/// empty lines, method SP target SP version, line end, field lines, empty line
pub open spec fn req_text(es: Seq<bool>, m: Method, a: nat, t: Seq<u8>, b: nat, v: Version, e: bool, fs: Seq<Fl>, z: bool, rest: Seq<u8>) -> Seq<u8> {
    els_text(es, m.text() + (sp(a + 1) + (t + (sp(b + 1) + (v.text() + (nlt(e) + fls_text(fs, z, rest)))))))
}
pub open spec fn std_method(m: Method) -> bool { method_of(m.text()) == Some(m) }
#[verifier::spinoff_prover] pub proof fn lemma_method_token(m: Method) requires std_method(m) ensures all(m.text(), p_tok()), m.text().len() > 0 {}
pub proof fn lemma_version_token(v: Version) requires !(v is None) ensures all(v.text(), p_tok()), v.text().len() > 0, version_of(v.text()) == Some(v) { lemma_version_roundtrip(v); }
pub proof fn g_method(m: Method, t: Seq<u8>)
    requires std_method(m), t.len() > 0, t[0] == 32 ensures reads_to(rd_method(m.text() + t), m.text() + t, m, t)
{ lemma_method_token(m); g_tok(m.text(), t, p_tok(), false); }
pub proof fn g_version(v: Version, t: Seq<u8>)
    requires !(v is None), t.len() > 0, t[0] == 32 || t[0] == 13 || t[0] == 10 ensures reads_to(rd_version(v.text() + t), v.text() + t, v, t)
{ lemma_version_token(v); g_tok(v.text(), t, p_tok(), false); }
proof fn compose_req(s: Seq<u8>, t0: Seq<u8>, t1: Seq<u8>, t2: Seq<u8>, t3: Seq<u8>, t4: Seq<u8>, t5: Seq<u8>, t6: Seq<u8>, rest: Seq<u8>, m: Method, t: Seq<u8>, v: Version, h: Seq<Ent>)
    requires reads_to(empties(s), s, (), t0), reads_to(rd_method(t0), t0, m, t1), reads_to(spaces(t1), t1, (), t2), reads_to(tok(t2, p_tok(), false), t2, t, t3), reads_to(spaces(t3), t3, (), t4), reads_to(rd_version(t4), t4, v, t5), reads_to(nl(t5), t5, (), t6), reads_to(fields(t6, Seq::empty()), t6, h, rest)
    ensures reads_to(req_head(s), s, Head { m, t, v, h }, rest)
{
    hide(tok); hide(spaces); hide(nl); hide(empties); hide(rd_method); hide(rd_version); hide(rd_status); hide(fields);
    let k0 = (empties(s))->Done_1;
    let k1 = (rd_method(t0))->Done_1;
    let k2 = (spaces(t1))->Done_1;
    let k3 = (tok(t2, p_tok(), false))->Done_1;
    let k4 = (spaces(t3))->Done_1;
    let k5 = (rd_version(t4))->Done_1;
    let k6 = (nl(t5))->Done_1;
    let k7 = (fields(t6, Seq::empty()))->Done_1;
    chain(s, (k0) as int, t0, k1 as int, t1);
    chain(s, (k0 + k1) as int, t1, k2 as int, t2);
    chain(s, (k0 + k1 + k2) as int, t2, k3 as int, t3);
    chain(s, (k0 + k1 + k2 + k3) as int, t3, k4 as int, t4);
    chain(s, (k0 + k1 + k2 + k3 + k4) as int, t4, k5 as int, t5);
    chain(s, (k0 + k1 + k2 + k3 + k4 + k5) as int, t5, k6 as int, t6);
    chain(s, (k0 + k1 + k2 + k3 + k4 + k5 + k6) as int, t6, k7 as int, rest);
    assert(req_head(s) is Done);
    assert(req_head(s)->Done_1 == k0 + k1 + k2 + k3 + k4 + k5 + k6 + k7);
}
/// every well-formed request head is read as exactly its parts, whatever follows
#[verifier::spinoff_prover] pub proof fn thm_req_grammar(es: Seq<bool>, m: Method, a: nat, t: Seq<u8>, b: nat, v: Version, e: bool, fs: Seq<Fl>, z: bool, rest: Seq<u8>)
    requires std_method(m), t.len() > 0, all(t, p_tok()), !(v is None), fls_ok(fs)
    ensures reads_to(req_head(req_text(es, m, a, t, b, v, e, fs, z, rest)), req_text(es, m, a, t, b, v, e, fs, z, rest), Head { m, t, v, h: fls_map(Seq::empty(), fs) }, rest)
{
    hide(tok); hide(spaces); hide(nl); hide(empties); hide(rd_method); hide(rd_version); hide(fields); hide(fls_text); hide(method_of); hide(version_of);
    let t6 = fls_text(fs, z, rest); let t5 = nlt(e) + t6; let t4 = v.text() + t5; let t3 = sp(b + 1) + t4; let t2 = t + t3; let t1 = sp(a + 1) + t2; let t0 = m.text() + t1;
    lemma_method_token(m); lemma_version_token(v);
    g_fields(fs, z, rest, Seq::empty()); g_nl(e, t6);
    assert(t5[0] == nlt(e)[0]); g_version(v, t5);
    assert(p_tok()(v.text()[0])); assert(t4[0] == v.text()[0]); g_spaces(b + 1, t4);
    assert(t3[0] == 32); g_tok(t, t3, p_tok(), false);
    assert(p_tok()(t[0])); assert(t2[0] == t[0]); g_spaces(a + 1, t2);
    assert(t1[0] == 32); g_method(m, t1);
    assert(p_tok()(m.text()[0])); assert(t0[0] == m.text()[0]); g_empties(es, t0);
    compose_req(els_text(es, t0), t0, t1, t2, t3, t4, t5, t6, rest, m, t, v, fls_map(Seq::empty(), fs));
}
/// empty lines, version SP status SP reason, line end, field lines, empty line
pub open spec fn res_text(es: Seq<bool>, v: Version, a: nat, c: u16, b: nat, r: Seq<u8>, e: bool, fs: Seq<Fl>, z: bool, rest: Seq<u8>) -> Seq<u8> {
    els_text(es, v.text() + (sp(a + 1) + (text3(c) + (sp(b + 1) + (r + (nlt(e) + fls_text(fs, z, rest)))))))
}
pub proof fn lemma_status_token(c: u16) requires 100 <= c <= 999 ensures all(text3(c), p_tok()), text3(c).len() == 3, from_text(text3(c)) == Some(c as int) { lemma_status_roundtrip(c); }
pub proof fn g_status(c: u16, t: Seq<u8>)
    requires 100 <= c <= 999, t.len() > 0, t[0] == 32 ensures reads_to(rd_status(text3(c) + t), text3(c) + t, c as int, t)
{ lemma_status_token(c); g_tok(text3(c), t, p_tok(), false); }
proof fn compose_res(s: Seq<u8>, t0: Seq<u8>, t1: Seq<u8>, t2: Seq<u8>, t3: Seq<u8>, t4: Seq<u8>, t5: Seq<u8>, t6: Seq<u8>, rest: Seq<u8>, v: Version, c: int, r: Seq<u8>, h: Seq<Ent>)
    requires reads_to(empties(s), s, (), t0), reads_to(rd_version(t0), t0, v, t1), reads_to(spaces(t1), t1, (), t2), reads_to(rd_status(t2), t2, c, t3), reads_to(spaces(t3), t3, (), t4), reads_to(tok(t4, p_reason(), true), t4, r, t5), reads_to(nl(t5), t5, (), t6), reads_to(fields(t6, Seq::empty()), t6, h, rest)
    ensures reads_to(res_head(s), s, RHead { v, c, r, h }, rest)
{
    hide(tok); hide(spaces); hide(nl); hide(empties); hide(rd_method); hide(rd_version); hide(rd_status); hide(fields);
    let k0 = (empties(s))->Done_1;
    let k1 = (rd_version(t0))->Done_1;
    let k2 = (spaces(t1))->Done_1;
    let k3 = (rd_status(t2))->Done_1;
    let k4 = (spaces(t3))->Done_1;
    let k5 = (tok(t4, p_reason(), true))->Done_1;
    let k6 = (nl(t5))->Done_1;
    let k7 = (fields(t6, Seq::empty()))->Done_1;
    chain(s, (k0) as int, t0, k1 as int, t1);
    chain(s, (k0 + k1) as int, t1, k2 as int, t2);
    chain(s, (k0 + k1 + k2) as int, t2, k3 as int, t3);
    chain(s, (k0 + k1 + k2 + k3) as int, t3, k4 as int, t4);
    chain(s, (k0 + k1 + k2 + k3 + k4) as int, t4, k5 as int, t5);
    chain(s, (k0 + k1 + k2 + k3 + k4 + k5) as int, t5, k6 as int, t6);
    chain(s, (k0 + k1 + k2 + k3 + k4 + k5 + k6) as int, t6, k7 as int, rest);
    assert(res_head(s) is Done);
    assert(res_head(s)->Done_1 == k0 + k1 + k2 + k3 + k4 + k5 + k6 + k7);
}
/// every well-formed response head is read as exactly its parts, whatever follows
#[verifier::spinoff_prover] pub proof fn thm_res_grammar(es: Seq<bool>, v: Version, a: nat, c: u16, b: nat, r: Seq<u8>, e: bool, fs: Seq<Fl>, z: bool, rest: Seq<u8>)
    requires !(v is None), 100 <= c <= 999, all(r, p_reason()), r.len() > 0 ==> r[0] != 32, fls_ok(fs)
    ensures reads_to(res_head(res_text(es, v, a, c, b, r, e, fs, z, rest)), res_text(es, v, a, c, b, r, e, fs, z, rest), RHead { v, c: c as int, r, h: fls_map(Seq::empty(), fs) }, rest)
{
    hide(tok); hide(spaces); hide(nl); hide(empties); hide(rd_status); hide(rd_version); hide(fields); hide(fls_text); hide(version_of); hide(text3); hide(res_head); hide(from_text); hide(els_text); hide(fls_map);
    let t6 = fls_text(fs, z, rest); let t5 = nlt(e) + t6; let t4 = r + t5; let t3 = sp(b + 1) + t4; let t2 = text3(c) + t3; let t1 = sp(a + 1) + t2; let t0 = v.text() + t1;
    lemma_version_token(v); lemma_status_token(c);
    g_fields(fs, z, rest, Seq::empty()); g_nl(e, t6);
    assert(t5[0] == nlt(e)[0]); g_tok(r, t5, p_reason(), true);
    if r.len() > 0 { assert(t4[0] == r[0]); } else { assert(t4 =~= t5); } g_spaces(b + 1, t4);
    assert(t3[0] == 32); g_status(c, t3);
    assert(p_tok()(text3(c)[0])); assert(t2[0] == text3(c)[0]); g_spaces(a + 1, t2);
    assert(t1[0] == 32); g_version(v, t1);
    assert(p_tok()(v.text()[0])); assert(t0[0] == v.text()[0]); g_empties(es, t0);
    compose_res(els_text(es, t0), t0, t1, t2, t3, t4, t5, t6, rest, v, c as int, r, fls_map(Seq::empty(), fs));
}
}
fn main() {}

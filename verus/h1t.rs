//@import h1.rs
verus! {
// ================= theorems on the readers =================
pub proof fn ext(s: Seq<u8>, t: Seq<u8>, n: int)
    requires 0 <= n <= s.len() ensures (s + t).skip(n) == s.skip(n) + t
{ assert((s + t).skip(n) =~= s.skip(n) + t); }
pub proof fn cut(s: Seq<u8>, k: int, n: int)
    requires 0 <= n <= k <= s.len() ensures s.take(k).skip(n) == s.skip(n).take(k - n)
{ assert(s.take(k).skip(n) =~= s.skip(n).take(k - n)); }
// ---- what has been read or refused stays so, whatever follows ----
pub proof fn mono_run(s: Seq<u8>, p: spec_fn(u8) -> bool, t: Seq<u8>)
    ensures run(s, p) < s.len() ==> run(s + t, p) == run(s, p)
{
    lemma_run(s, p); let n = run(s, p) as int;
    if n < s.len() { assert forall|j: int| 0 <= j < n implies p(#[trigger] (s + t)[j]) by { assert(p(s[j])); } assert((s + t)[n] == s[n]); lemma_run_is(s + t, p, n); }
}
pub proof fn mono_tok(s: Seq<u8>, p: spec_fn(u8) -> bool, e: bool, t: Seq<u8>)
    ensures tok(s, p, e) is Part || tok(s + t, p, e) == tok(s, p, e), tok(s, p, e) is Done ==> tok(s, p, e)->Done_1 < s.len()
{ mono_run(s, p, t); let n = run(s, p) as int; if n < s.len() { assert((s + t).take(n) =~= s.take(n)); } }
pub proof fn mono_spaces(s: Seq<u8>, t: Seq<u8>)
    ensures spaces(s) is Part || spaces(s + t) == spaces(s), spaces(s) is Done ==> spaces(s)->Done_1 < s.len()
{ mono_run(s, |b: u8| b == 32, t); }
pub proof fn mono_nl(s: Seq<u8>, t: Seq<u8>)
    ensures nl(s) is Part || nl(s + t) == nl(s), nl(s) is Done ==> 0 < nl(s)->Done_1 <= s.len()
{ if s.len() > 0 { assert((s + t)[0] == s[0]); } if s.len() > 1 { assert((s + t)[1] == s[1]); } }
pub proof fn mono_empties(s: Seq<u8>, t: Seq<u8>)
    ensures empties(s) is Part || empties(s + t) == empties(s), empties(s) is Done ==> empties(s)->Done_1 < s.len()
    decreases s.len()
{
    if s.len() > 0 { assert((s + t)[0] == s[0]);
        if s[0] == 10 { ext(s, t, 1); mono_empties(s.skip(1), t); }
        else if s[0] == 13 && s.len() > 1 { assert((s + t)[1] == s[1]); if s[1] == 10 { ext(s, t, 2); mono_empties(s.skip(2), t); } } }
}
pub proof fn mono_rd_method(s: Seq<u8>, t: Seq<u8>)
    ensures rd_method(s) is Part || rd_method(s + t) == rd_method(s), rd_method(s) is Done ==> 0 < rd_method(s)->Done_1 < s.len()
{ mono_tok(s, p_tok(), false, t); }
pub proof fn mono_rd_version(s: Seq<u8>, t: Seq<u8>)
    ensures rd_version(s) is Part || rd_version(s + t) == rd_version(s), rd_version(s) is Done ==> 0 < rd_version(s)->Done_1 < s.len()
{ mono_tok(s, p_tok(), false, t); }
pub proof fn mono_rd_status(s: Seq<u8>, t: Seq<u8>)
    ensures rd_status(s) is Part || rd_status(s + t) == rd_status(s), rd_status(s) is Done ==> 0 < rd_status(s)->Done_1 < s.len()
{ mono_tok(s, p_tok(), false, t); }
pub proof fn mono_fld(s: Seq<u8>, t: Seq<u8>)
    ensures fld(s) is Part || fld(s + t) == fld(s), fld(s) is Done ==> 0 < fld(s)->Done_1 <= s.len()
{
    hide(tok); hide(spaces); hide(nl);
    lemma_fld(s);
    mono_tok(s, p_name(), false, t);
    if tok(s, p_name(), false) is Done {
        let k1 = tok(s, p_name(), false)->Done_1; let s1 = s.skip(k1 as int); ext(s, t, k1 as int); mono_spaces(s1, t);
        if spaces(s1) is Done {
            let k2 = spaces(s1)->Done_1; let s2 = s1.skip(k2 as int); ext(s1, t, k2 as int); 
            assert(s2.len() > 0); assert((s2 + t)[0] == s2[0]);
            if s2[0] == 58 {
                let s3 = s2.skip(1); ext(s2, t, 1); mono_spaces(s3, t);
                if spaces(s3) is Done {
                    let k4 = spaces(s3)->Done_1; let s4 = s3.skip(k4 as int); ext(s3, t, k4 as int); mono_tok(s4, p_val(), true, t);
                    if tok(s4, p_val(), true) is Done { let k5 = tok(s4, p_val(), true)->Done_1; ext(s4, t, k5 as int); mono_nl(s4.skip(k5 as int), t); }
                }
            }
        }
    }
}
pub proof fn mono_fields(s: Seq<u8>, m: Seq<Ent>, t: Seq<u8>)
    ensures fields(s, m) is Part || fields(s + t, m) == fields(s, m), fields(s, m) is Done ==> 0 < fields(s, m)->Done_1 <= s.len()
    decreases s.len()
{
    if s.len() > 0 { assert((s + t)[0] == s[0]); mono_nl(s, t);
        if s[0] != 10 && s[0] != 13 { mono_fld(s, t); if fld(s) is Done { let e = fld(s)->Done_0; let n = fld(s)->Done_1; ext(s, t, n as int); mono_fields(s.skip(n as int), m_insert(m, e.0, e.1), t); } } }
}
pub proof fn lemma_fields_pos(s: Seq<u8>, m: Seq<Ent>)
    ensures fields(s, m) is Done ==> fields(s, m)->Done_1 >= 1
{ mono_fields(s, m, Seq::empty()); }
pub proof fn mono_req_head(s: Seq<u8>, t: Seq<u8>)
    ensures req_head(s) is Part || req_head(s + t) == req_head(s), req_head(s) is Done ==> 0 < req_head(s)->Done_1 <= s.len()
{
    hide(tok); hide(spaces); hide(rd_method); hide(rd_version); hide(rd_status); hide(nl); hide(empties); hide(fields);
    mono_empties(s, t);
    if empties(s) is Done {
      let k0 = empties(s)->Done_1; let s1 = s.skip(k0 as int); ext(s, t, k0 as int);
      mono_rd_method(s1, t);
      if rd_method(s1) is Done {
        let k1 = rd_method(s1)->Done_1; let s2 = s1.skip(k1 as int); ext(s1, t, k1 as int);
        mono_spaces(s2, t);
        if spaces(s2) is Done {
          let k2 = spaces(s2)->Done_1; let s3 = s2.skip(k2 as int); ext(s2, t, k2 as int);
          mono_tok(s3, p_tok(), false, t);
          if tok(s3, p_tok(), false) is Done {
            let k3 = tok(s3, p_tok(), false)->Done_1; let s4 = s3.skip(k3 as int); ext(s3, t, k3 as int);
            mono_spaces(s4, t);
            if spaces(s4) is Done {
              let k4 = spaces(s4)->Done_1; let s5 = s4.skip(k4 as int); ext(s4, t, k4 as int);
              mono_rd_version(s5, t);
              if rd_version(s5) is Done {
                let k5 = rd_version(s5)->Done_1; let s6 = s5.skip(k5 as int); ext(s5, t, k5 as int);
                mono_nl(s6, t);
                if nl(s6) is Done {
                  let k6 = nl(s6)->Done_1; let s7 = s6.skip(k6 as int); ext(s6, t, k6 as int);
                  mono_fields(s7, Seq::empty(), t);
                }
              }
            }
          }
        }
      }
    }
}
pub proof fn mono_res_head(s: Seq<u8>, t: Seq<u8>)
    ensures res_head(s) is Part || res_head(s + t) == res_head(s), res_head(s) is Done ==> 0 < res_head(s)->Done_1 <= s.len()
{
    hide(tok); hide(spaces); hide(rd_method); hide(rd_version); hide(rd_status); hide(nl); hide(empties); hide(fields);
    mono_empties(s, t);
    if empties(s) is Done {
      let k0 = empties(s)->Done_1; let s1 = s.skip(k0 as int); ext(s, t, k0 as int);
      mono_rd_version(s1, t);
      if rd_version(s1) is Done {
        let k1 = rd_version(s1)->Done_1; let s2 = s1.skip(k1 as int); ext(s1, t, k1 as int);
        mono_spaces(s2, t);
        if spaces(s2) is Done {
          let k2 = spaces(s2)->Done_1; let s3 = s2.skip(k2 as int); ext(s2, t, k2 as int);
          mono_rd_status(s3, t);
          if rd_status(s3) is Done {
            let k3 = rd_status(s3)->Done_1; let s4 = s3.skip(k3 as int); ext(s3, t, k3 as int);
            mono_spaces(s4, t);
            if spaces(s4) is Done {
              let k4 = spaces(s4)->Done_1; let s5 = s4.skip(k4 as int); ext(s4, t, k4 as int);
              mono_tok(s5, p_reason(), true, t);
              if tok(s5, p_reason(), true) is Done {
                let k5 = tok(s5, p_reason(), true)->Done_1; let s6 = s5.skip(k5 as int); ext(s5, t, k5 as int);
                mono_nl(s6, t);
                if nl(s6) is Done {
                  let k6 = nl(s6)->Done_1; let s7 = s6.skip(k6 as int); ext(s6, t, k6 as int);
                  mono_fields(s7, Seq::empty(), t);
                }
              }
            }
          }
        }
      }
    }
}
// ---- the last octet of a head is the last octet looked at ----
pub proof fn loc_run(s: Seq<u8>, p: spec_fn(u8) -> bool, k: int)
    requires run(s, p) < k <= s.len() ensures run(s.take(k), p) == run(s, p)
{ lemma_run(s, p); let n = run(s, p) as int; assert forall|j: int| 0 <= j < n implies p(#[trigger] s.take(k)[j]) by { assert(p(s[j])); } assert(s.take(k)[n] == s[n]); lemma_run_is(s.take(k), p, n); }
pub proof fn loc_tok(s: Seq<u8>, p: spec_fn(u8) -> bool, e: bool, k: int)
    requires tok(s, p, e) is Done, tok(s, p, e)->Done_1 < k <= s.len() ensures tok(s.take(k), p, e) == tok(s, p, e)
{ loc_run(s, p, k); assert(s.take(k).take(run(s, p) as int) =~= s.take(run(s, p) as int)); }
pub proof fn loc_spaces(s: Seq<u8>, k: int)
    requires spaces(s) is Done, spaces(s)->Done_1 < k <= s.len() ensures spaces(s.take(k)) == spaces(s)
{ loc_run(s, |b: u8| b == 32, k); }
pub proof fn loc_nl(s: Seq<u8>, k: int)
    requires nl(s) is Done, nl(s)->Done_1 <= k <= s.len() ensures nl(s.take(k)) == nl(s)
{ assert(s.take(k)[0] == s[0]); if k > 1 { assert(s.take(k)[1] == s[1]); } }
pub proof fn loc_empties(s: Seq<u8>, k: int)
    requires empties(s) is Done, empties(s)->Done_1 < k <= s.len() ensures empties(s.take(k)) == empties(s)
    decreases s.len()
{
    assert(s.take(k)[0] == s[0]);
    if s[0] == 10 { cut(s, k, 1); loc_empties(s.skip(1), k - 1); }
    else if s[0] == 13 { assert(s.take(k)[1] == s[1]); cut(s, k, 2); loc_empties(s.skip(2), k - 2); }
}
pub proof fn loc_rd_method(s: Seq<u8>, k: int)
    requires rd_method(s) is Done, rd_method(s)->Done_1 < k <= s.len() ensures rd_method(s.take(k)) == rd_method(s)
{ loc_tok(s, p_tok(), false, k); }
pub proof fn loc_rd_version(s: Seq<u8>, k: int)
    requires rd_version(s) is Done, rd_version(s)->Done_1 < k <= s.len() ensures rd_version(s.take(k)) == rd_version(s)
{ loc_tok(s, p_tok(), false, k); }
pub proof fn loc_rd_status(s: Seq<u8>, k: int)
    requires rd_status(s) is Done, rd_status(s)->Done_1 < k <= s.len() ensures rd_status(s.take(k)) == rd_status(s)
{ loc_tok(s, p_tok(), false, k); }
pub proof fn loc_fld(s: Seq<u8>, k: int)
    requires fld(s) is Done, fld(s)->Done_1 <= k <= s.len() ensures fld(s.take(k)) == fld(s)
{
    hide(tok); hide(spaces); hide(nl);
    lemma_fld(s);
    let k1 = tok(s, p_name(), false)->Done_1; let s1 = s.skip(k1 as int);
    let k2 = spaces(s1)->Done_1; let s2 = s1.skip(k2 as int); let s3 = s2.skip(1);
    let k4 = spaces(s3)->Done_1; let s4 = s3.skip(k4 as int);
    let k5 = tok(s4, p_val(), true)->Done_1; let s5 = s4.skip(k5 as int);
    let k6 = nl(s5)->Done_1;
    loc_tok(s, p_name(), false, k); cut(s, k, k1 as int);
    loc_spaces(s1, k - k1); cut(s1, k - k1, k2 as int);
    assert(s2.take(k - k1 - k2)[0] == s2[0]); cut(s2, k - k1 - k2, 1);
    loc_spaces(s3, k - k1 - k2 - 1); cut(s3, k - k1 - k2 - 1, k4 as int);
    loc_tok(s4, p_val(), true, k - k1 - k2 - 1 - k4); cut(s4, k - k1 - k2 - 1 - k4, k5 as int);
    loc_nl(s5, k - k1 - k2 - 1 - k4 - k5);
}
pub proof fn loc_fields(s: Seq<u8>, m: Seq<Ent>, k: int)
    requires fields(s, m) is Done, fields(s, m)->Done_1 <= k <= s.len() ensures fields(s.take(k), m) == fields(s, m)
    decreases s.len()
{
    if s[0] == 13 || s[0] == 10 { mono_nl(s, Seq::empty()); assert(s.take(k)[0] == s[0]); loc_nl(s, k); }
    else {
        mono_fld(s, Seq::empty()); let e = fld(s)->Done_0; let n = fld(s)->Done_1; let m2 = m_insert(m, e.0, e.1);
        mono_fields(s.skip(n as int), m2, Seq::empty());
        assert(s.take(k)[0] == s[0]); loc_fld(s, k); cut(s, k, n as int); loc_fields(s.skip(n as int), m2, k - n);
    }
}
pub proof fn loc_req_head(s: Seq<u8>, k: int)
    requires req_head(s) is Done, req_head(s)->Done_1 <= k <= s.len()
    ensures req_head(s.take(k)) == req_head(s)
{
    hide(tok); hide(spaces); hide(rd_method); hide(rd_version); hide(rd_status); hide(nl); hide(empties); hide(fields);
    let t = Seq::<u8>::empty();
    mono_empties(s, t);
    let k0 = empties(s)->Done_1; let s1 = s.skip(k0 as int);
    mono_rd_method(s1, t);
    let k1 = rd_method(s1)->Done_1; let s2 = s1.skip(k1 as int);
    mono_spaces(s2, t);
    let k2 = spaces(s2)->Done_1; let s3 = s2.skip(k2 as int);
    mono_tok(s3, p_tok(), false, t);
    let k3 = tok(s3, p_tok(), false)->Done_1; let s4 = s3.skip(k3 as int);
    mono_spaces(s4, t);
    let k4 = spaces(s4)->Done_1; let s5 = s4.skip(k4 as int);
    mono_rd_version(s5, t);
    let k5 = rd_version(s5)->Done_1; let s6 = s5.skip(k5 as int);
    mono_nl(s6, t);
    let k6 = nl(s6)->Done_1; let s7 = s6.skip(k6 as int);
    mono_fields(s7, Seq::empty(), t); lemma_fields_pos(s7, Seq::empty());
    loc_empties(s, k); cut(s, k, k0 as int);
    loc_rd_method(s1, k - k0); cut(s1, k - k0, k1 as int);
    loc_spaces(s2, k - k0 - k1); cut(s2, k - k0 - k1, k2 as int);
    loc_tok(s3, p_tok(), false, k - k0 - k1 - k2); cut(s3, k - k0 - k1 - k2, k3 as int);
    loc_spaces(s4, k - k0 - k1 - k2 - k3); cut(s4, k - k0 - k1 - k2 - k3, k4 as int);
    loc_rd_version(s5, k - k0 - k1 - k2 - k3 - k4); cut(s5, k - k0 - k1 - k2 - k3 - k4, k5 as int);
    loc_nl(s6, k - k0 - k1 - k2 - k3 - k4 - k5); cut(s6, k - k0 - k1 - k2 - k3 - k4 - k5, k6 as int);
    loc_fields(s7, Seq::empty(), k - k0 - k1 - k2 - k3 - k4 - k5 - k6);
}
pub proof fn loc_res_head(s: Seq<u8>, k: int)
    requires res_head(s) is Done, res_head(s)->Done_1 <= k <= s.len()
    ensures res_head(s.take(k)) == res_head(s)
{
    hide(tok); hide(spaces); hide(rd_method); hide(rd_version); hide(rd_status); hide(nl); hide(empties); hide(fields);
    let t = Seq::<u8>::empty();
    mono_empties(s, t);
    let k0 = empties(s)->Done_1; let s1 = s.skip(k0 as int);
    mono_rd_version(s1, t);
    let k1 = rd_version(s1)->Done_1; let s2 = s1.skip(k1 as int);
    mono_spaces(s2, t);
    let k2 = spaces(s2)->Done_1; let s3 = s2.skip(k2 as int);
    mono_rd_status(s3, t);
    let k3 = rd_status(s3)->Done_1; let s4 = s3.skip(k3 as int);
    mono_spaces(s4, t);
    let k4 = spaces(s4)->Done_1; let s5 = s4.skip(k4 as int);
    mono_tok(s5, p_reason(), true, t);
    let k5 = tok(s5, p_reason(), true)->Done_1; let s6 = s5.skip(k5 as int);
    mono_nl(s6, t);
    let k6 = nl(s6)->Done_1; let s7 = s6.skip(k6 as int);
    mono_fields(s7, Seq::empty(), t); lemma_fields_pos(s7, Seq::empty());
    loc_empties(s, k); cut(s, k, k0 as int);
    loc_rd_version(s1, k - k0); cut(s1, k - k0, k1 as int);
    loc_spaces(s2, k - k0 - k1); cut(s2, k - k0 - k1, k2 as int);
    loc_rd_status(s3, k - k0 - k1 - k2); cut(s3, k - k0 - k1 - k2, k3 as int);
    loc_spaces(s4, k - k0 - k1 - k2 - k3); cut(s4, k - k0 - k1 - k2 - k3, k4 as int);
    loc_tok(s5, p_reason(), true, k - k0 - k1 - k2 - k3 - k4); cut(s5, k - k0 - k1 - k2 - k3 - k4, k5 as int);
    loc_nl(s6, k - k0 - k1 - k2 - k3 - k4 - k5); cut(s6, k - k0 - k1 - k2 - k3 - k4 - k5, k6 as int);
    loc_fields(s7, Seq::empty(), k - k0 - k1 - k2 - k3 - k4 - k5 - k6);
}
/// a request head: read exactly whatever follows, every proper prefix incomplete, refusals final
pub proof fn thm_req_head(s: Seq<u8>, t: Seq<u8>, k: int)
    ensures match req_head(s) {
        Rd::Done(h, n) => 0 < n <= s.len() && req_head(s.take(n as int)) == Rd::Done(h, n) && req_head(s.take(n as int) + t) == Rd::Done(h, n) && (0 <= k < n ==> req_head(s.take(k)) is Part),
        Rd::Bad => req_head(s + t) is Bad,
        Rd::Part => true }
{
    hide(req_head);
    mono_req_head(s, t);
    if req_head(s) is Done {
        let n = req_head(s)->Done_1 as int;
        loc_req_head(s, n); mono_req_head(s.take(n), t);
        if 0 <= k < n { mono_req_head(s.take(k), s.skip(k)); assert(s.take(k) + s.skip(k) =~= s); }
    }
}
/// a response head: read exactly whatever follows, every proper prefix incomplete, refusals final
pub proof fn thm_res_head(s: Seq<u8>, t: Seq<u8>, k: int)
    ensures match res_head(s) {
        Rd::Done(h, n) => 0 < n <= s.len() && res_head(s.take(n as int)) == Rd::Done(h, n) && res_head(s.take(n as int) + t) == Rd::Done(h, n) && (0 <= k < n ==> res_head(s.take(k)) is Part),
        Rd::Bad => res_head(s + t) is Bad,
        Rd::Part => true }
{
    hide(res_head);
    mono_res_head(s, t);
    if res_head(s) is Done {
        let n = res_head(s)->Done_1 as int;
        loc_res_head(s, n); mono_res_head(s.take(n), t);
        if 0 <= k < n { mono_res_head(s.take(k), s.skip(k)); assert(s.take(k) + s.skip(k) =~= s); }
    }
}
// ---- a head that has ended is accepted or refused, never reported as incomplete ----
/// s begins with an empty line
pub open spec fn blank(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] == 10 || s.len() > 1 && s[0] == 13 && s[1] == 10) }
/// s contains an empty line after one that is ended
pub open spec fn ended(s: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == 10 && blank(s.skip(i + 1)) }
pub open spec fn no_lf(s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] s[i] != 10 }
pub proof fn lf_join(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b, a + b <= s.len(), no_lf(s, a), no_lf(s.skip(a), b) ensures no_lf(s, a + b)
{ assert forall|i: int| 0 <= i < a + b implies #[trigger] s[i] != 10 by { if i >= a { assert(s.skip(a)[i - a] == s[i]); } } }
pub proof fn lf_tok(s: Seq<u8>, p: spec_fn(u8) -> bool, e: bool)
    requires !p(10u8)
    ensures tok(s, p, e) is Done ==> no_lf(s, tok(s, p, e)->Done_1 as int), tok(s, p, e) is Part ==> no_lf(s, s.len() as int)
{ lemma_run(s, p); assert forall|i: int| 0 <= i < run(s, p) implies #[trigger] s[i] != 10 by { assert(p(s[i])); } }
pub proof fn lf_spaces(s: Seq<u8>)
    ensures spaces(s) is Done ==> no_lf(s, spaces(s)->Done_1 as int), spaces(s) is Part ==> no_lf(s, s.len() as int)
{ let p = |b: u8| b == 32; lemma_run(s, p); assert forall|i: int| 0 <= i < run(s, p) implies #[trigger] s[i] != 10 by { assert(p(s[i])); } }
pub proof fn lf_nl(s: Seq<u8>)
    ensures nl(s) is Done ==> no_lf(s, nl(s)->Done_1 - 1) && s[nl(s)->Done_1 - 1] == 10, nl(s) is Part ==> no_lf(s, s.len() as int)
{}
pub proof fn lf_fld(s: Seq<u8>)
    ensures fld(s) is Part ==> no_lf(s, s.len() as int), fld(s) is Done ==> no_lf(s, fld(s)->Done_1 - 1) && s[fld(s)->Done_1 - 1] == 10
{
    hide(tok); hide(spaces); hide(nl); hide(no_lf); hide(run);
    lemma_fld(s); lf_tok(s, p_name(), false); lemma_tok(s, p_name(), false);
    if tok(s, p_name(), false) is Done {
        let k1 = tok(s, p_name(), false)->Done_1 as int; let s1 = s.skip(k1); lf_spaces(s1); lemma_spaces(s1);
        if spaces(s1) is Part { lf_join(s, k1, s1.len() as int); }
        if spaces(s1) is Done {
            let k2 = spaces(s1)->Done_1 as int; let s2 = s1.skip(k2); lf_join(s, k1, k2); cut2(s, k1, k2);
            if s2[0] == 58 {
                let s3 = s2.skip(1); one_colon(s2); lf_join(s, k1 + k2, 1); cut2(s, k1 + k2, 1); lf_spaces(s3); lemma_spaces(s3);
                if spaces(s3) is Part { lf_join(s, k1 + k2 + 1, s3.len() as int); }
                if spaces(s3) is Done {
                    let k4 = spaces(s3)->Done_1 as int; let s4 = s3.skip(k4); lf_join(s, k1 + k2 + 1, k4); cut2(s, k1 + k2 + 1, k4); lf_tok(s4, p_val(), true); lemma_tok(s4, p_val(), true);
                    if tok(s4, p_val(), true) is Part { lf_join(s, k1 + k2 + 1 + k4, s4.len() as int); }
                    if tok(s4, p_val(), true) is Done { let k5 = tok(s4, p_val(), true)->Done_1 as int; let s5 = s4.skip(k5); lf_join(s, k1 + k2 + 1 + k4, k5); cut2(s, k1 + k2 + 1 + k4, k5); lf_nl(s5); nl_len(s5);
                        let z = k1 + k2 + 1 + k4 + k5;
                        if nl(s5) is Part { lf_join(s, z, s5.len() as int); }
                        if nl(s5) is Done { let k6 = nl(s5)->Done_1 as int; lf_join(s, z, k6 - 1); assert(s5[k6 - 1] == s[z + k6 - 1]); } }
                }
            }
        }
    }
}
pub proof fn cut2(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub proof fn one_colon(s: Seq<u8>) requires s.len() > 0, s[0] == 58 ensures no_lf(s, 1) {}
pub proof fn nl_len(s: Seq<u8>) ensures nl(s) is Done ==> 0 < nl(s)->Done_1 <= s.len() {}
pub proof fn end_none(s: Seq<u8>) requires no_lf(s, s.len() as int) ensures !ended(s), !blank(s) {}
/// an end inside s is one after its first line
pub proof fn end_rest(s: Seq<u8>, n: int)
    requires 1 <= n <= s.len(), no_lf(s, n - 1), s[n - 1] == 10, !blank(s.skip(n)), !ended(s.skip(n)) ensures !ended(s)
{
    if ended(s) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == 10 && blank(s.skip(i + 1));
        if i >= n { assert(s.skip(n)[i - n] == s[i]); cut2(s, n, i - n + 1); assert(ended(s.skip(n))); }
    }
}
pub proof fn end_fields(s: Seq<u8>, m: Seq<Ent>)
    requires fields(s, m) is Part ensures !ended(s), !blank(s)
    decreases s.len()
{
    if s.len() > 0 && (s[0] == 13 || s[0] == 10) { lf_nl(s); end_none(s); }
    else if s.len() > 0 {
        lf_fld(s);
        if fld(s) is Part { end_none(s); }
        else { let e = fld(s)->Done_0; let n = fld(s)->Done_1; end_fields(s.skip(n as int), m_insert(m, e.0, e.1)); end_rest(s, n as int); }
    }
}
pub proof fn one_none(s: Seq<u8>) ensures no_lf(s, 0) {}
pub proof fn lf_rd_method(s: Seq<u8>) ensures rd_method(s) is Done ==> no_lf(s, rd_method(s)->Done_1 as int), rd_method(s) is Part ==> no_lf(s, s.len() as int) { lf_tok(s, p_tok(), false); }
pub proof fn lf_rd_version(s: Seq<u8>) ensures rd_version(s) is Done ==> no_lf(s, rd_version(s)->Done_1 as int), rd_version(s) is Part ==> no_lf(s, s.len() as int) { lf_tok(s, p_tok(), false); }
pub proof fn lf_rd_status(s: Seq<u8>) ensures rd_status(s) is Done ==> no_lf(s, rd_status(s)->Done_1 as int), rd_status(s) is Part ==> no_lf(s, s.len() as int) { lf_tok(s, p_tok(), false); }
/// a request head that has ended is accepted or refused
pub proof fn thm_req_head_ended(s: Seq<u8>)
    requires empties(s) is Done, ended(s.skip(empties(s)->Done_1 as int))
    ensures !(req_head(s) is Part)
{
    hide(tok); hide(spaces); hide(nl); hide(no_lf); hide(run); hide(fields); hide(rd_method); hide(rd_version); hide(rd_status); hide(ended); hide(blank);
    mono_empties(s, Seq::empty());
    let z = s.skip(empties(s)->Done_1 as int);
    let a0 = 0int; let s1 = z; assert(z.skip(0) =~= z); one_none(z);
    lf_rd_method(s1); mono_rd_method(s1, Seq::empty());
    if rd_method(s1) is Part { lf_join(z, a0, s1.len() as int); end_none(z); }
    if rd_method(s1) is Done {
      let k1 = rd_method(s1)->Done_1 as int; let s2 = s1.skip(k1); lf_join(z, a0, k1); let a1 = a0 + k1; cut2(z, a0, k1);
      lf_spaces(s2); mono_spaces(s2, Seq::empty());
      if spaces(s2) is Part { lf_join(z, a1, s2.len() as int); end_none(z); }
      if spaces(s2) is Done {
        let k2 = spaces(s2)->Done_1 as int; let s3 = s2.skip(k2); lf_join(z, a1, k2); let a2 = a1 + k2; cut2(z, a1, k2);
        lf_tok(s3, p_tok(), false); mono_tok(s3, p_tok(), false, Seq::empty());
        if tok(s3, p_tok(), false) is Part { lf_join(z, a2, s3.len() as int); end_none(z); }
        if tok(s3, p_tok(), false) is Done {
          let k3 = tok(s3, p_tok(), false)->Done_1 as int; let s4 = s3.skip(k3); lf_join(z, a2, k3); let a3 = a2 + k3; cut2(z, a2, k3);
          lf_spaces(s4); mono_spaces(s4, Seq::empty());
          if spaces(s4) is Part { lf_join(z, a3, s4.len() as int); end_none(z); }
          if spaces(s4) is Done {
            let k4 = spaces(s4)->Done_1 as int; let s5 = s4.skip(k4); lf_join(z, a3, k4); let a4 = a3 + k4; cut2(z, a3, k4);
            lf_rd_version(s5); mono_rd_version(s5, Seq::empty());
            if rd_version(s5) is Part { lf_join(z, a4, s5.len() as int); end_none(z); }
            if rd_version(s5) is Done {
              let k5 = rd_version(s5)->Done_1 as int; let s6 = s5.skip(k5); lf_join(z, a4, k5); let a5 = a4 + k5; cut2(z, a4, k5);
              lf_nl(s6); mono_nl(s6, Seq::empty());
              if nl(s6) is Part { lf_join(z, a5, s6.len() as int); end_none(z); }
              if nl(s6) is Done {
                let k6 = nl(s6)->Done_1 as int; let s7 = s6.skip(k6); lf_join(z, a5, k6 - 1); cut2(z, a5, k6); assert(s6[k6 - 1] == z[a5 + k6 - 1]);
                if fields(s7, Seq::empty()) is Part { end_fields(s7, Seq::empty()); end_rest(z, a5 + k6); }
              }
            }
          }
        }
      }
    }
}
/// a response head that has ended is accepted or refused
pub proof fn thm_res_head_ended(s: Seq<u8>)
    requires empties(s) is Done, ended(s.skip(empties(s)->Done_1 as int))
    ensures !(res_head(s) is Part)
{
    hide(tok); hide(spaces); hide(nl); hide(no_lf); hide(run); hide(fields); hide(rd_method); hide(rd_version); hide(rd_status); hide(ended); hide(blank);
    mono_empties(s, Seq::empty());
    let z = s.skip(empties(s)->Done_1 as int);
    let a0 = 0int; let s1 = z; assert(z.skip(0) =~= z); one_none(z);
    lf_rd_version(s1); mono_rd_version(s1, Seq::empty());
    if rd_version(s1) is Part { lf_join(z, a0, s1.len() as int); end_none(z); }
    if rd_version(s1) is Done {
      let k1 = rd_version(s1)->Done_1 as int; let s2 = s1.skip(k1); lf_join(z, a0, k1); let a1 = a0 + k1; cut2(z, a0, k1);
      lf_spaces(s2); mono_spaces(s2, Seq::empty());
      if spaces(s2) is Part { lf_join(z, a1, s2.len() as int); end_none(z); }
      if spaces(s2) is Done {
        let k2 = spaces(s2)->Done_1 as int; let s3 = s2.skip(k2); lf_join(z, a1, k2); let a2 = a1 + k2; cut2(z, a1, k2);
        lf_rd_status(s3); mono_rd_status(s3, Seq::empty());
        if rd_status(s3) is Part { lf_join(z, a2, s3.len() as int); end_none(z); }
        if rd_status(s3) is Done {
          let k3 = rd_status(s3)->Done_1 as int; let s4 = s3.skip(k3); lf_join(z, a2, k3); let a3 = a2 + k3; cut2(z, a2, k3);
          lf_spaces(s4); mono_spaces(s4, Seq::empty());
          if spaces(s4) is Part { lf_join(z, a3, s4.len() as int); end_none(z); }
          if spaces(s4) is Done {
            let k4 = spaces(s4)->Done_1 as int; let s5 = s4.skip(k4); lf_join(z, a3, k4); let a4 = a3 + k4; cut2(z, a3, k4);
            lf_tok(s5, p_reason(), true); mono_tok(s5, p_reason(), true, Seq::empty());
            if tok(s5, p_reason(), true) is Part { lf_join(z, a4, s5.len() as int); end_none(z); }
            if tok(s5, p_reason(), true) is Done {
              let k5 = tok(s5, p_reason(), true)->Done_1 as int; let s6 = s5.skip(k5); lf_join(z, a4, k5); let a5 = a4 + k5; cut2(z, a4, k5);
              lf_nl(s6); mono_nl(s6, Seq::empty());
              if nl(s6) is Part { lf_join(z, a5, s6.len() as int); end_none(z); }
              if nl(s6) is Done {
                let k6 = nl(s6)->Done_1 as int; let s7 = s6.skip(k6); lf_join(z, a5, k6 - 1); cut2(z, a5, k6); assert(s6[k6 - 1] == z[a5 + k6 - 1]);
                if fields(s7, Seq::empty()) is Part { end_fields(s7, Seq::empty()); end_rest(z, a5 + k6); }
              }
            }
          }
        }
      }
    }
}
}
fn main() {}

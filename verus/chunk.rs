//@import h1g.rs
//@strings
verus! {
// ================= chunks (RFC 7230, 4.1) =================
pub open spec fn hexnum(b: u8) -> nat { if digit(b) { (b - 48) as nat } else if 97 <= b <= 102 { (b - 87) as nat } else { (b - 55) as nat } }
pub open spec fn hexval(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + hexnum(s.last()) } }
/// size line, then the data and the two octets behind it, all there: the size, and where the data begin
pub open spec fn chunk(s: Seq<u8>) -> Rd<nat> {
    match tok(s, p_hex(), false) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(t, k1) => { let s1 = s.skip(k1 as int);
    if hexval(t) > usize::MAX { Rd::Bad } else {
    match nl(s1) { Rd::Part => Rd::Part, Rd::Bad => Rd::Bad, Rd::Done(_, k2) => if s1.len() < k2 + hexval(t) + 2 { Rd::Part } else { Rd::Done(hexval(t), k1 + k2) } } } } }
}
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
/// a chunk as written
pub open spec fn chunk_text(d: Seq<u8>) -> Seq<u8> { hexs(d.len()) + crlf() + d + crlf() }
pub proof fn lemma_hexs(n: nat)
    ensures hexval(hexs(n)) == n, hexs(n).len() > 0, all(hexs(n), p_hex()) decreases n
{
    if n < 16 { let s = hexs(n); assert(s.drop_last() =~= Seq::empty()); assert(s.last() == hexd(n)); assert(hexval(s) == hexval(s.drop_last()) * 16 + hexnum(s.last())); assert(hexval(Seq::empty()) == 0); }
    else { lemma_hexs(n / 16); let s = hexs(n); assert(s.drop_last() =~= hexs(n / 16)); assert forall|i: int| 0 <= i < s.len() implies p_hex()(#[trigger] s[i]) by { if i < s.len() - 1 { assert(p_hex()(hexs(n / 16)[i])); } } }
}
pub proof fn lemma_hex_zero(t: Seq<u8>)
    requires all(t, p_hex()) ensures hexval(t) == 0 <==> (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == 48u8) decreases t.len()
{
    if t.len() > 0 {
        assert(all(t.drop_last(), p_hex())) by { assert forall|i: int| 0 <= i < t.len() - 1 implies p_hex()(#[trigger] t.drop_last()[i]) by { assert(p_hex()(t[i])); } } lemma_hex_zero(t.drop_last()); assert(p_hex()(t.last()));
        if hexval(t) == 0 { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == 48u8 by { if i < t.len() - 1 { assert(t.drop_last()[i] == t[i]); } } }
        else if forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == 48u8 { assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] t.drop_last()[i] == 48u8 by { assert(t[i] == 48); } assert(t.last() == 48); }
    }
}
/// an answer other than "incomplete" stays, whatever follows
#[verifier::spinoff_prover] pub proof fn thm_chunk_stays(s: Seq<u8>, t: Seq<u8>)
    ensures chunk(s) is Part || chunk(s + t) == chunk(s)
{
    mono_tok(s, p_hex(), false, t);
    if tok(s, p_hex(), false) is Done { let k = tok(s, p_hex(), false)->Done_1 as int; ext(s, t, k); mono_nl(s.skip(k), t); }
}
/// a written chunk is read back: its size, its data, all of it; and is incomplete wherever it is cut
#[verifier::spinoff_prover] pub proof fn thm_chunk_roundtrip(d: Seq<u8>, rest: Seq<u8>)
    requires d.len() <= usize::MAX
    ensures ({ let s = chunk_text(d) + rest; let c = chunk(s);
        c is Done && c->Done_0 == d.len() && c->Done_1 + d.len() + 2 == chunk_text(d).len()
        && s.subrange(c->Done_1 as int, (c->Done_1 + d.len()) as int) == d }),
        forall|k: int| 0 <= k < chunk_text(d).len() ==> chunk(#[trigger] chunk_text(d).take(k)) is Part,
{
    let h = hexs(d.len()); lemma_hexs(d.len());
    let s = chunk_text(d) + rest; let t1 = crlf() + (d + crlf() + rest);
    assert(s =~= h + t1); assert(t1[0] == 13); assert(!p_hex()(13));
    g_tok(h, t1, p_hex(), false); assert(nlt(true) =~= crlf()); g_nl(true, d + crlf() + rest);
    assert(s.subrange(chunk(s)->Done_1 as int, (chunk(s)->Done_1 + d.len()) as int) =~= d);
    assert forall|k: int| 0 <= k < chunk_text(d).len() implies chunk(#[trigger] chunk_text(d).take(k)) is Part by {
        let x = chunk_text(d).take(k); let y = chunk_text(d).skip(k) + rest; assert(x + y =~= s); thm_chunk_stays(x, y);
        if !(chunk(x) is Part) { let t = tok(x, p_hex(), false); lemma_tok(x, p_hex(), false); }
    }
}
/// only a size of zero (any number of zeros) announces the empty chunk; a written chunk is the last one exactly when it is empty
#[verifier::spinoff_prover] pub proof fn thm_last_chunk(s: Seq<u8>)
    requires chunk(s) is Done
    ensures chunk(s)->Done_0 == 0 <==> (forall|i: int| 0 <= i < tok(s, p_hex(), false)->Done_1 ==> #[trigger] s[i] == 48u8)
{
    lemma_tok(s, p_hex(), false); let d = tok(s, p_hex(), false)->Done_0; assert(all(d, p_hex())); lemma_hex_zero(d);
    assert forall|i: int| 0 <= i < d.len() implies d[i] == #[trigger] s[i] by {}
    if forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == 48u8 { assert forall|i: int| 0 <= i < d.len() implies #[trigger] s[i] == 48u8 by { assert(d[i] == 48); } }
}
// ---- usize::from_str_radix(_, 16) on hexadecimal digits (std, modelled), its error turned into a WebError as src/error.rs does ----
pub struct ParseIntError;
#[verifier::external_body]
pub fn usize_from_str_radix(s: &Str, radix: u32) -> (r: Result<usize, ParseIntError>)
    requires radix == 16, s.bytes().len() > 0, all(s.bytes(), p_hex()),
    ensures match r { Ok(v) => v == hexval(s.bytes()), Err(_) => hexval(s.bytes()) > usize::MAX }
{ unimplemented!() }
//@fn src/error.rs | impl From<std::num::ParseIntError> for WebError | from | as=parse_int_web
//@ret r
//@sub std\s*::\s*num\s*::\s*ParseIntError => ParseIntError
//@sub \bSelf\b => WebError
//@sub \(\s*_\s*: => (_e:
//@sub Str::lit\([^)]*\) => ""
//@spec
        ensures !partial(r)
//@end
impl Helper {
//@fn src/helper.rs | impl Helper | parse_chunk_data
//@ret r
//@sub \busize\s*::\s*from_str_radix\( => usize_from_str_radix(
//@sub \.map_err\(\s*WebError\s*::\s*from\s*\) => .map_err(parse_int_web)
//@spec
        requires old(buffer).rem().len() <= isize::MAX,
        ensures final(buffer).rem() == old(buffer).rem(),
            match chunk(old(buffer).rem()) { Rd::Done(v, n) => r is Ok && r->Ok_0.0 == n && r->Ok_0.1 == v, Rd::Part => r is Err && partial(r->Err_0), Rd::Bad => r is Err && !partial(r->Err_0) }
//@at start
        proof { let s = buffer.rem(); lemma_tok(s, p_hex(), false); mono_nl(s.skip(run(s, p_hex()) as int), Seq::empty()); }
//@end
//@fn src/helper.rs | impl Helper | encode_chunk_data
//@ret r
//@sub std\s*::\s*io\s*::\s*Result<\s*usize\s*> => Result<usize, IoError>
//@spec
        requires data@.len() <= usize::MAX - 20,
        ensures r is Ok, final(buffer).out() == old(buffer).out() + chunk_text(data@), r->Ok_0 == chunk_text(data@).len()
//@at start
        proof { lemma_hexs_len(data@.len()); }
//@end
//@fn src/helper.rs | impl Helper | convert_hex
//@ret r
//@spec
        ensures match r { Some(v) => hexdig(b) && v == hexnum(b), None => !hexdig(b) }
//@end
}
pub proof fn lemma_hexs_len(n: nat)
    requires n <= usize::MAX ensures hexs(n).len() <= 16
{ reveal_with_fuel(hexs, 17); }
}
fn main() {}

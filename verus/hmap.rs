//@import p06.rs
//@include ents.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub \bString\b => Text
//@globsub \bAsRef\s*<\s*\[\s*u8\s*\]\s*> => AsRefBytes
//@globsub \bHeaderName\s*::\s*try_from\(name\)\s*\.map_err\(\s*Into\s*::\s*into\s*\) => name.try_name()
//@globsub \bHeaderValue\s*::\s*try_from\(value\)\s*\.map_err\(\s*Into\s*::\s*into\s*\) => value.try_value()
//@globsub \bHeaderName\s*:\s*TryFrom\s*<\s*T\s*>\s*, => T: TryName,
//@globsub \bHeaderValue\s*:\s*TryFrom\s*<\s*V\s*>\s*, => V: TryValue,
//@globsub <\s*HeaderName\s+as\s+TryFrom\s*<\s*T\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
//@globsub <\s*HeaderValue\s+as\s+TryFrom\s*<\s*V\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*WebError\s*>\s*,? =>
verus! {
// what HeaderName: TryFrom<T> with T::Error: Into<WebError> gives for the types it is implemented for
pub trait TryName: Sized {
    spec fn nm(self) -> Option<Seq<u8>>;
    fn try_name(self) -> (r: Result<HeaderName, WebError>) ensures match self.nm() { Some(b) => r is Ok && r->Ok_0.bytes() == b, None => r is Err };
}
impl TryName for HeaderName { open spec fn nm(self) -> Option<Seq<u8>> { Some(self.bytes()) } fn try_name(self) -> (r: Result<HeaderName, WebError>) { Ok(self) } }
impl TryName for &'static Str { open spec fn nm(self) -> Option<Seq<u8>> { Some(self.bytes()) } fn try_name(self) -> (r: Result<HeaderName, WebError>) { HeaderName::try_from(self) } }
impl TryName for Text { open spec fn nm(self) -> Option<Seq<u8>> { Some(self.bytes()) } fn try_name(self) -> (r: Result<HeaderName, WebError>) { HeaderName::try_from(self) } }
pub trait TryValue: Sized {
    spec fn vl(self) -> Option<Seq<u8>>;
    fn try_value(self) -> (r: Result<HeaderValue, WebError>) ensures match self.vl() { Some(b) => r is Ok && r->Ok_0.bytes() == b, None => r is Err };
}
impl TryValue for HeaderValue { open spec fn vl(self) -> Option<Seq<u8>> { Some(self.bytes()) } fn try_value(self) -> (r: Result<HeaderValue, WebError>) { Ok(self) } }
impl TryValue for &'static Str { open spec fn vl(self) -> Option<Seq<u8>> { Some(self.bytes()) } fn try_value(self) -> (r: Result<HeaderValue, WebError>) { HeaderValue::try_from(self) } }
impl TryValue for Text { open spec fn vl(self) -> Option<Seq<u8>> { Some(self.bytes()) } fn try_value(self) -> (r: Result<HeaderValue, WebError>) { HeaderValue::try_from(self) } }

// ---- the map as an association list of octets ----
// position of the first entry with this name, or the number of entries
pub open spec fn pos(m: Seq<Ent>, n: Seq<u8>) -> nat decreases m.len() {
    if m.len() == 0 { 0 } else if same(m[0].0, n) { 0 } else { 1 + pos(m.skip(1), n) }
}
pub open spec fn knows(m: Seq<Ent>, n: Seq<u8>) -> bool { pos(m, n) < m.len() }
pub open spec fn val(m: Seq<Ent>, n: Seq<u8>) -> Seq<u8> { m[pos(m, n) as int].1 }
pub open spec fn m_insert(m: Seq<Ent>, n: Seq<u8>, v: Seq<u8>) -> Seq<Ent> {
    if knows(m, n) { m.update(pos(m, n) as int, (m[pos(m, n) as int].0, v)) } else { m.push((n, v)) }
}
/// every entry of another map inserted, in order
pub open spec fn m_inserts(m: Seq<Ent>, a: Seq<Ent>) -> Seq<Ent> decreases a.len() { if a.len() == 0 { m } else { m_insert(m_inserts(m, a.drop_last()), a.last().0, a.last().1) } }
pub open spec fn m_push(m: Seq<Ent>, n: Seq<u8>, v: Seq<u8>) -> Seq<Ent> {
    if knows(m, n) { m_insert(m, n, val(m, n).push(59) + v) } else { m.push((n, v)) }
}
pub open spec fn m_remove(m: Seq<Ent>, n: Seq<u8>) -> Seq<Ent> { if knows(m, n) { m.remove(pos(m, n) as int) } else { m } }
pub proof fn lemma_pos(m: Seq<Ent>, n: Seq<u8>)
    ensures pos(m, n) <= m.len(), knows(m, n) ==> same(m[pos(m, n) as int].0, n), forall|j: int| 0 <= j < pos(m, n) ==> !same(#[trigger] m[j].0, n),
    decreases m.len()
{
    if m.len() > 0 && !same(m[0].0, n) {
        lemma_pos(m.skip(1), n);
        assert forall|j: int| 0 <= j < pos(m, n) implies !same(#[trigger] m[j].0, n) by { if j > 0 { assert(m[j] == m.skip(1)[j - 1]); } }
    }
}
pub proof fn lemma_pos_is(m: Seq<Ent>, n: Seq<u8>, i: int)
    requires 0 <= i < m.len(), same(m[i].0, n), forall|j: int| 0 <= j < i ==> !same(#[trigger] m[j].0, n)
    ensures pos(m, n) == i
{ lemma_pos(m, n); if pos(m, n) < i { assert(!same(m[pos(m, n) as int].0, n)); } }
pub proof fn lemma_pos_none(m: Seq<Ent>, n: Seq<u8>)
    requires forall|j: int| 0 <= j < m.len() ==> !same(#[trigger] m[j].0, n)
    ensures pos(m, n) == m.len()
{ lemma_pos(m, n); }
pub open spec fn line(e: Ent) -> Seq<u8> { e.0 + seq![58u8, 32] + e.1 + seq![13u8, 10] }
pub open spec fn lines(m: Seq<Ent>) -> Seq<u8> decreases m.len() { if m.len() == 0 { Seq::empty() } else { lines(m.drop_last()) + line(m.last()) } }
// the names the derived views look up
pub open spec fn con() -> Seq<u8> { seq![99u8, 111, 110, 110, 101, 99, 116, 105, 111, 110] }
pub open spec fn nhost() -> Seq<u8> { seq![104u8, 111, 115, 116] }
pub open spec fn nauth() -> Seq<u8> { seq![58u8, 97, 117, 116, 104, 111, 114, 105, 116, 121] }
pub open spec fn nref() -> Seq<u8> { seq![114u8, 101, 102, 101, 114, 101, 114] }
pub open spec fn nua() -> Seq<u8> { seq![117u8, 115, 101, 114, 45, 97, 103, 101, 110, 116] }
pub open spec fn ncook() -> Seq<u8> { seq![99u8, 111, 111, 107, 105, 101] }
pub open spec fn upg() -> Seq<u8> { seq![117u8, 112, 103, 114, 97, 100, 101] }
pub open spec fn cl() -> Seq<u8> { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104] }
pub open spec fn te() -> Seq<u8> { seq![116u8, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103] }
//@item src/http/header.rs | struct | HeaderMap
//@sub systems\s*:\s*HashMap\s*<\s*Text\s*,\s*Text\s*>\s*, =>
//@sub systems\s*:\s*HashMap\s*<\s*String\s*,\s*String\s*>\s*, =>
impl HeaderMap {
    pub open spec fn m(&self) -> Seq<Ent> { ents(self.headers@) }
//@fn src/http/header.rs | impl HeaderMap | new
//@ret r
//@sub systems\s*:\s*HashMap\s*::\s*new\s*\(\s*\)\s*, =>
//@spec
        ensures r.m() == Seq::<Ent>::empty(),
//@at start
        proof { assert(ents(Seq::empty()) =~= Seq::<Ent>::empty()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | push
//@ret r
//@spec
        ensures r is None, name.nm() is Some && value.vl() is Some ==> final(self).m() == m_push(old(self).m(), name.nm()->0, value.vl()->0),
            name.nm() is None || value.vl() is None ==> final(self).m() == old(self).m(),
//@at start
        let ghost nm = name.nm()->0; let ghost vl = value.vl()->0; let ghost ok = name.nm() is Some && value.vl() is Some;
//@at before 0
        #[verifier::loop_isolation(false)]
//@loop 0
            invariant self.headers@ == old(self).headers@, v_n <= self.headers@.len(), ok, name.bytes() == nm, value.bytes() == vl,
                forall|j: int| 0 <= j < v_n ==> !same(#[trigger] self.m()[j].0, nm),
            decreases self.headers@.len() - v_n
//@at start 0
            proof { if same(self.m()[v_n as int].0, nm) { lemma_pos_is(self.m(), nm, v_n as int);
                assert forall|x: (HeaderName, HeaderValue)| x.0.bytes() == self.headers@[v_n as int].0.bytes() && x.1.bytes() == val(self.m(), nm).push(59) + vl
                    implies ents(#[trigger] self.headers@.update(v_n as int, x)) == m_push(self.m(), nm, vl) by { assert(ents(self.headers@.update(v_n as int, x)) =~= m_push(self.m(), nm, vl)); } } }
//@at after 0
        proof { lemma_pos_none(self.m(), nm); assert(ents(self.headers@.push((name, value))) =~= self.m().push((nm, vl))); }
//@end
//@fn src/http/header.rs | impl HeaderMap | insert
//@ret r
//@spec
        ensures r is None, name.nm() is Some && value.vl() is Some ==> final(self).m() == m_insert(old(self).m(), name.nm()->0, value.vl()->0),
            name.nm() is None || value.vl() is None ==> final(self).m() == old(self).m(),
//@at start
        let ghost nm = name.nm()->0; let ghost vl = value.vl()->0; let ghost ok = name.nm() is Some && value.vl() is Some;
//@at before 0
        #[verifier::loop_isolation(false)]
//@loop 0
            invariant self.headers@ == old(self).headers@, v_n <= self.headers@.len(), ok, name.bytes() == nm, value.bytes() == vl,
                forall|j: int| 0 <= j < v_n ==> !same(#[trigger] self.m()[j].0, nm),
            decreases self.headers@.len() - v_n
//@at start 0
            proof { if same(self.m()[v_n as int].0, nm) { lemma_pos_is(self.m(), nm, v_n as int);
                assert forall|x: (HeaderName, HeaderValue)| x.0.bytes() == self.headers@[v_n as int].0.bytes() && x.1.bytes() == vl
                    implies ents(#[trigger] self.headers@.update(v_n as int, x)) == m_insert(self.m(), nm, vl) by { assert(ents(self.headers@.update(v_n as int, x)) =~= m_insert(self.m(), nm, vl)); } } }
//@at after 0
        proof { lemma_pos_none(self.m(), nm); assert(ents(self.headers@.push((name, value))) =~= self.m().push((nm, vl))); }
//@end
//@fn src/http/header.rs | impl HeaderMap | remove
//@ret r
//@spec
        ensures final(self).m() == m_remove(old(self).m(), name.sp_ref()), r is Some == knows(old(self).m(), name.sp_ref()), r is Some ==> r->0.bytes() == val(old(self).m(), name.sp_ref()),
//@loop 0
            invariant self.headers@ == old(self).headers@, forall|j: int| 0 <= j < i ==> !same(#[trigger] self.m()[j].0, name.sp_ref()), it0.snapshot.end == self.headers@.len(),
//@at start 0
            proof { if same(self.m()[i as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), i as int); assert(ents(self.headers@.remove(i as int)) =~= self.m().remove(i as int)); } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | clear
//@spec
        ensures final(self).m() == Seq::<Ent>::empty(),
//@at start
        proof { assert(ents(Seq::empty()) =~= Seq::<Ent>::empty()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | contains
//@ret r
//@spec
        ensures r == knows(self.m(), name.sp_ref()),
//@loop 0
            invariant forall|j: int| 0 <= j < i ==> !same(#[trigger] self.m()[j].0, name.sp_ref()),
//@at start 0
            proof { if same(self.m()[i as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), i as int); } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | get_value
//@ret r
//@spec
        requires knows(self.m(), name.sp_ref()),
        ensures r.bytes() == val(self.m(), name.sp_ref()),
//@loop 0
            invariant forall|j: int| 0 <= j < i ==> !same(#[trigger] self.m()[j].0, name.sp_ref()),
//@at start 0
            proof { if same(self.m()[i as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), i as int); } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | get_mut_value
//@ret r
//@spec
        requires knows(old(self).m(), name.sp_ref()),
        ensures r.bytes() == val(old(self).m(), name.sp_ref()), final(self).m() == m_insert(old(self).m(), name.sp_ref(), final(r).bytes()),
//@loop 0
            invariant self.headers@ == old(self).headers@, v_n <= self.headers@.len(), forall|j: int| 0 <= j < v_n ==> !same(#[trigger] self.m()[j].0, name.sp_ref()),
            decreases self.headers@.len() - v_n
//@at start 0
            proof { if same(self.m()[v_n as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), v_n as int);
                assert forall|x: (HeaderName, HeaderValue)| x.0.bytes() == self.headers@[v_n as int].0.bytes()
                    implies ents(#[trigger] self.headers@.update(v_n as int, x)) == m_insert(self.m(), name.sp_ref(), x.1.bytes()) by { assert(ents(self.headers@.update(v_n as int, x)) =~= m_insert(self.m(), name.sp_ref(), x.1.bytes())); } } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | get_option_value
//@ret r
//@spec
        ensures r is Some == knows(self.m(), name.sp_ref()), r is Some ==> r->0.bytes() == val(self.m(), name.sp_ref()),
//@loop 0
            invariant forall|j: int| 0 <= j < i ==> !same(#[trigger] self.m()[j].0, name.sp_ref()),
//@at start 0
            proof { if same(self.m()[i as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), i as int); } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | get_str_value
//@ret r
//@spec
        ensures r is Some ==> knows(self.m(), name.sp_ref()) && r->0.bytes() == val(self.m(), name.sp_ref()), knows(self.m(), name.sp_ref()) && utf8(val(self.m(), name.sp_ref())) ==> r is Some,
//@loop 0
            invariant forall|j: int| 0 <= j < i ==> !same(#[trigger] self.m()[j].0, name.sp_ref()),
//@at start 0
            proof { if same(self.m()[i as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), i as int); } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | is_contains
//@ret r
//@spec
        ensures r == (knows(self.m(), name.sp_ref()) && contains_seq(val(self.m(), name.sp_ref()), value@)),
//@loop 0
            invariant forall|j: int| 0 <= j < i ==> !same(#[trigger] self.m()[j].0, name.sp_ref()),
//@at start 0
            proof { if same(self.m()[i as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), i as int); } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | is_equal
//@ret r
//@spec
        ensures r == (knows(self.m(), name.sp_ref()) && val(self.m(), name.sp_ref()) == value@),
//@loop 0
            invariant forall|j: int| 0 <= j < i ==> !same(#[trigger] self.m()[j].0, name.sp_ref()),
//@at start 0
            proof { if same(self.m()[i as int].0, name.sp_ref()) { lemma_pos_is(self.m(), name.sp_ref(), i as int); } }
//@at after 0
        proof { lemma_pos_none(self.m(), name.sp_ref()); }
//@end
//@fn src/http/header.rs | impl HeaderMap | len
//@ret r
//@spec
        ensures r == self.m().len(),
//@end
//@fn src/http/header.rs | impl HeaderMap | is_empty
//@ret r
//@spec
        ensures r == (self.m().len() == 0),
//@end
//@fn src/http/header.rs | impl HeaderMap | contains_bytes
//@ret r
//@spec
        requires src@.len() < usize::MAX,
        ensures r == contains_seq(src@, dst@),
//@loop 0
            invariant dst@.len() <= src@.len() < usize::MAX, forall|j: int| 0 <= j < i ==> !occurs_at(src@, dst@, j),
//@at start 0
            proof { assert(occurs_at(src@, dst@, i as int) == (src@.subrange(i as int, i + dst@.len()) == dst@)); }
//@end
//@fn src/http/header.rs | impl HeaderMap | is_keep_alive
//@ret r
//@spec
        ensures r == (knows(self.m(), con()) && contains_seq(val(self.m(), con()), seq![75u8, 101, 101, 112, 45, 65, 108, 105, 118, 101])),
//@end
//@fn src/http/header.rs | impl HeaderMap | is_chunked
//@ret r
//@spec
        ensures r == (knows(self.m(), te()) && contains_seq(val(self.m(), te()), seq![99u8, 104, 117, 110, 107, 101, 100])),
//@end
//@fn src/http/header.rs | impl HeaderMap | get_host
//@ret r
//@sub value\.try_into\(\)\.ok\(\) => value.try_into_text().ok()
//@sub TryInto\s*::\s*<\s*Text\s*>\s*::\s*try_into\(value\) => value.try_into_text()
//@sub value\.splitn\(2,\s*':'\)\.collect\(\) => value.splitn_collect(2, ':')
//@sub Vec<&str> => Vec<&Str>
//@spec
        ensures r is Some == (knows(self.m(), nhost()) || knows(self.m(), nauth())),
            knows(self.m(), nhost()) && utf8(val(self.m(), nhost())) ==> r->0.bytes() == val(self.m(), nhost()),
            !knows(self.m(), nhost()) && knows(self.m(), nauth()) && utf8(val(self.m(), nauth())) ==> r->0.bytes() == until(val(self.m(), nauth()), 58),
//@at start
        proof { let v = val(self.m(), nauth()); 
            if !(exists|i: int| sub_at(v, seq![58u8], i)) { assert forall|i: int| 0 <= i < v.len() implies v[i] != 58 by { if v[i] == 58 { assert(v.subrange(i, i + 1) =~= seq![58u8]); assert(sub_at(v, seq![58u8], i)); } } lemma_until_all(v, 58); }
        }
//@end
//@fn src/http/header.rs | impl HeaderMap | get_referer
//@ret r
//@sub value\.try_into\(\) => value.try_into_text()
//@spec
        ensures r is Some == knows(self.m(), nref()), knows(self.m(), nref()) && utf8(val(self.m(), nref())) ==> r->0.bytes() == val(self.m(), nref()),
//@end
//@fn src/http/header.rs | impl HeaderMap | get_user_agent
//@ret r
//@sub value\.try_into\(\) => value.try_into_text()
//@spec
        ensures r is Some == knows(self.m(), nua()), knows(self.m(), nua()) && utf8(val(self.m(), nua())) ==> r->0.bytes() == val(self.m(), nua()),
//@end
//@fn src/http/header.rs | impl HeaderMap | get_cookie
//@ret r
//@sub value\.try_into\(\) => value.try_into_text()
//@spec
        ensures r is Some == knows(self.m(), ncook()), knows(self.m(), ncook()) && utf8(val(self.m(), ncook())) ==> r->0.bytes() == val(self.m(), ncook()),
//@end
//@fn src/http/header.rs | impl HeaderMap | get_body_len
//@ret r
//@sub \.try_into\(\) => .try_into_isize()
//@spec
        ensures r == (match int_of(val(self.m(), cl())) { Some(v) if knows(self.m(), cl()) && isize::MIN <= v <= isize::MAX => v, _ => 0 }),
//@end
//@fn src/http/header.rs | impl HeaderMap | get_upgrade_protocol
//@ret r
//@spec
        ensures r is Some ==> knows(self.m(), con()) && contains_seq(val(self.m(), con()), seq![85u8, 112, 103, 114, 97, 100, 101]) && knows(self.m(), upg()) && r->0.bytes() == val(self.m(), upg()),
            knows(self.m(), con()) && contains_seq(val(self.m(), con()), seq![85u8, 112, 103, 114, 97, 100, 101]) && knows(self.m(), upg()) && utf8(val(self.m(), upg())) ==> r is Some,
//@end
//@fn src/http/header.rs | impl Index<&'static str> for HeaderMap | index
//@ret r
//@sub &Self::Output => &HeaderValue
//@spec
        requires knows(self.m(), index.bytes()),
        ensures r.bytes() == val(self.m(), index.bytes()),
//@end
//@fn src/http/header.rs | impl IndexMut<&'static str> for HeaderMap | index_mut
//@ret r
//@sub &mut Self::Output => &mut HeaderValue
//@spec
        ensures r.bytes() == (if knows(old(self).m(), index.bytes()) { val(old(self).m(), index.bytes()) } else { Seq::<u8>::empty() }),
            final(self).m() == m_insert(old(self).m(), index.bytes(), final(r).bytes()),
//@at start
        proof { let m = self.m(); let n = index.bytes(); if !knows(m, n) {
            let m2 = m.push((n, Seq::<u8>::empty())); lemma_pos(m, n);
            assert forall|j: int| 0 <= j < m.len() implies !same(#[trigger] m2[j].0, n) by { assert(m2[j] == m[j]); }
            lemma_pos_is(m2, n, m.len() as int);
            assert forall|v: Seq<u8>| #[trigger] m_insert(m2, n, v) == m_insert(m, n, v) by { assert(m_insert(m2, n, v) =~= m_insert(m, n, v)); } } }
//@end
//@fn src/http/header.rs | impl HeaderMap | encode
//@ret r
//@sub in\s+self\.iter\(\) => in self.headers.iter()
//@sub let mut size = 0 => let mut size: usize = 0
//@spec
        requires old(buffer).out().len() + lines(self.m()).len() + 2 <= usize::MAX,
        ensures r is Ok, r->Ok_0 == lines(self.m()).len() + 2, final(buffer).out() == old(buffer).out() + lines(self.m()) + seq![13u8, 10],
//@at start
        let ghost ob = buffer.out();
//@loop 0
            invariant it0.seq().len() == self.headers@.len(), forall|j: int| 0 <= j < self.headers@.len() ==> *it0.seq()[j] == self.headers@[j],
                buffer.out() == ob + lines(self.m().take(it0.index@)), size == lines(self.m().take(it0.index@)).len(), ob.len() + lines(self.m()).len() + 2 <= usize::MAX,
//@at start 0
            proof { let k = it0.index@; lemma_lines_mono(self.m(), k + 1); assert(self.m().take(k + 1).drop_last() =~= self.m().take(k)); assert(self.m().take(k + 1).last() == self.m()[k]); }
//@at end 0
            proof { let k = it0.index@; assert(buffer.out() =~= ob + lines(self.m().take(k + 1))); }
//@at before 0
        proof { assert(buffer.out() =~= ob + lines(self.m().take(0))); }
//@at after 0
        proof { assert(self.m().take(self.m().len() as int) =~= self.m()); }
//@end
}
pub proof fn lemma_lines_mono(m: Seq<Ent>, k: int)
    requires 0 <= k <= m.len() ensures lines(m.take(k)).len() <= lines(m).len() decreases m.len() - k
{
    if k < m.len() { assert(m.take(k + 1).drop_last() =~= m.take(k)); lemma_lines_mono(m, k + 1); } else { assert(m.take(k) =~= m); }
}
}
fn main() {}

//@include prelude.rs
//@include text_model.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub \bString\b => Text
//@globsub \bstd\s*::\s*hash\s*::\s*Hasher\b => HasherM
//@globsub \bB\s*:\s*Bt\s*\+\s*BtMut\b => B: Bt + BtMut
verus! {
// ---- names are compared under ASCII case folding ----
pub open spec fn low(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn fold(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| low(b)) }
pub open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { fold(a) == fold(b) }
pub assume_specification [u8::to_ascii_lowercase] (b: &u8) -> (r: u8) ensures r == low(*b);
pub open spec fn occurs_at(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i && i + b.len() <= a.len() && a.subrange(i, i + b.len()) == b }
pub open spec fn contains_seq(a: Seq<u8>, b: Seq<u8>) -> bool { exists|i: int| occurs_at(a, b, i) }
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
impl Helper {
    //@item src/helper.rs | const | DIGIT_0
//@fn src/helper.rs | impl Helper | is_digit
//@ret r
//@spec
        ensures r == digit(b)
//@end
//@fn src/helper.rs | impl Helper | eq_bytes_ignore_ascii_case
//@ret r
//@spec
        ensures r == same(a@, b@),
//@loop 0
            invariant a@.len() == b@.len(), i_e == a@.len(), i_n <= i_e, forall|j: int| 0 <= j < i_n ==> low(#[trigger] a@[j]) == low(b@[j]),
                same(a@, b@) ==> forall|j: int| 0 <= j < a@.len() ==> low(#[trigger] a@[j]) == low(b@[j]),
            decreases i_e - i_n
//@at start
        proof {
            if a@.len() != b@.len() { assert(fold(a@).len() != fold(b@).len()); }
            assert forall|j: int| 0 <= j < a@.len() && 0 <= j < b@.len() && same(a@, b@) implies low(#[trigger] a@[j]) == low(b@[j]) by {
                assert(fold(a@)[j] == low(a@[j])); assert(fold(b@)[j] == low(b@[j]));
            }
        }
//@at after 0
        proof { assert(fold(a@) =~= fold(b@)); }
//@end
//@fn src/helper.rs | impl Helper | eq_bytes
//@ret r
//@spec
        ensures r == (a@ == b@),
//@end
//@fn src/helper.rs | impl Helper | contains_bytes
//@ret r
//@spec
        requires a@.len() < usize::MAX,
        ensures r == contains_seq(a@, b@),
//@loop 0
            invariant b@.len() <= a@.len() < usize::MAX, forall|j: int| 0 <= j < i ==> !occurs_at(a@, b@, j),
//@at start 0
            proof { assert(occurs_at(a@, b@, i as int) == (a@.subrange(i as int, i + b@.len()) == b@)); }
//@end
}
//@item src/http/name.rs | enum | HeaderName
//@item src/http/value.rs | enum | HeaderValue
impl HeaderName {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { HeaderName::Stand(s) => s.bytes(), HeaderName::Value(t) => t.bytes() } }
//@hnames src/http/name.rs | ALL
//@fn src/http/name.rs | impl HeaderName | from_static
//@ret r
//@spec
        ensures r.bytes() == s.bytes(), r is Stand
//@end
//@fn src/http/name.rs | impl HeaderName | bytes_len
//@ret r
//@spec
        ensures r == self.bytes().len(), r <= isize::MAX
//@end
//@fn src/http/name.rs | impl HeaderName | as_bytes
//@ret r
//@spec
        ensures r@ == self.bytes(), r@.len() <= isize::MAX,
//@end
//@fn src/http/name.rs | impl HeaderName | is_spec
//@ret r
//@spec
        ensures r == (self.bytes().len() > 0 && self.bytes()[0] == 58)
//@end
//@fn src/http/name.rs | impl HeaderName | name
//@ret r
//@sub Self\s*::\s*Value\s*\(\s*s\s*\)\s*=>\s*s\b => Self::Value(s) => s.as_str()
//@sub &str\b => &Str
//@spec
        ensures r.bytes() == self.bytes()
//@end
//@fn src/http/name.rs | impl HeaderName | encode
//@ret r
//@spec
        ensures r is Ok, r->Ok_0 == self.bytes().len(), final(buffer).out() == old(buffer).out() + self.bytes(),
//@end
// the octets a name feeds to a hasher
//@fn src/http/name.rs | impl Hash for HeaderName | hash
//@spec
        ensures final(state).fed() == old(state).fed() + fold(self.bytes()),
//@loop 0
            invariant state.fed() == old(state).fed() + fold(self.bytes().take(it0.index@)), it0.seq().len() == self.bytes().len(), forall|j: int| 0 <= j < self.bytes().len() ==> *it0.seq()[j] == self.bytes()[j],
//@at end 0
            proof { assert(self.bytes().take(it0.index@ + 1).drop_last() =~= self.bytes().take(it0.index@)); assert(fold(self.bytes().take(it0.index@ + 1)) =~= fold(self.bytes().take(it0.index@)).push(low(b))); }
//@at before 0
        proof { assert(fold(self.bytes().take(0)) =~= Seq::<u8>::empty()); }
//@at after 0
        proof { assert(self.bytes().take(self.bytes().len() as int) =~= self.bytes()); }
//@end
}
// two names equal as keys are fed alike to any hasher: equal names have equal hashes
proof fn lemma_equal_names_hash_equally(a: HeaderName, b: HeaderName)
    requires same(a.bytes(), b.bytes())
    ensures fold(a.bytes()) == fold(b.bytes())
{ }
impl AsRefBytes for HeaderName {
    open spec fn sp_ref(&self) -> Seq<u8> { self.bytes() }
//@fn src/http/name.rs | impl AsRef<[u8]> for HeaderName | as_ref
//@end
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for HeaderName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HeaderName) -> bool { same(self.bytes(), o.bytes()) }
}
impl PartialEq for HeaderName {
//@fn src/http/name.rs | impl PartialEq for HeaderName | eq
//@end
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a [u8]> for HeaderName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a [u8]) -> bool { same(self.bytes(), o@) }
}
impl<'a> PartialEq<&'a [u8]> for HeaderName {
//@fn src/http/name.rs | impl PartialEq<&[u8]> for HeaderName | eq
//@sub &&\[u8\] => &&'a [u8]
//@end
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a Str> for HeaderName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a Str) -> bool { same(self.bytes(), o.bytes()) }
}
impl<'a> PartialEq<&'a Str> for HeaderName {
//@fn src/http/name.rs | impl PartialEq<&str> for HeaderName | eq
//@sub &&str => &&'a Str
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<&'static Str> for HeaderName {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: &'static Str) -> Result<HeaderName, WebError> { Ok(HeaderName::Stand(v)) }
}
impl TryFrom<&'static Str> for HeaderName {
    type Error = WebError;
//@fn src/http/name.rs | impl TryFrom<&'static str> for HeaderName | try_from
//@ret r
//@spec
        ensures r is Ok, r->Ok_0.bytes() == value.bytes(),
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Text> for HeaderName {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: Text) -> Result<HeaderName, WebError> { Ok(HeaderName::Value(v)) }
}
impl TryFrom<Text> for HeaderName {
    type Error = WebError;
//@fn src/http/name.rs | impl TryFrom<String> for HeaderName | try_from
//@ret r
//@spec
        ensures r is Ok, r->Ok_0.bytes() == value.bytes(),
//@end
}
impl HeaderValue {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { HeaderValue::Stand(s) => s.bytes(), HeaderValue::Value(v) => v@ } }
//@fn src/http/value.rs | impl HeaderValue | from_static
//@ret r
//@spec
        ensures r.bytes() == s.bytes(), r is Stand
//@end
//@fn src/http/value.rs | impl HeaderValue | from_bytes
//@ret r
//@spec
        ensures r.bytes() == b@, r is Value
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
//@end
//@fn src/http/value.rs | impl HeaderValue | bytes_len
//@ret r
//@spec
        ensures r == self.bytes().len()
//@end
//@fn src/http/value.rs | impl HeaderValue | as_bytes
//@ret r
//@spec
        ensures r@ == self.bytes(), r@.len() <= isize::MAX,
//@at start
        proof { if let HeaderValue::Value(v) = self { axiom_vec_max(v); } }
//@end
//@fn src/http/value.rs | impl HeaderValue | as_string
//@ret r
//@sub map_or\(None,\s*\|s\|\s*Some\(s\)\) => ok()
//@spec
        ensures r is Some ==> r->0.bytes() == self.bytes(), utf8(self.bytes()) ==> r is Some,
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
//@end
//@fn src/http/value.rs | impl HeaderValue | push
//@spec
        ensures final(self).bytes() == old(self).bytes().push(59) + value.bytes(),
//@sub s\.append\(&mut value\.as_bytes\(\)\.to_vec\(\)\) => let mut tail = value.as_bytes().to_vec(); s.append(&mut tail)
//@at start
        broadcast use {cloned_u8, all_cloned_u8};
//@end
//@fn src/http/value.rs | impl HeaderValue | encode
//@ret r
//@sub &\*\*vec => vec.as_slice()
//@spec
        ensures r is Ok, r->Ok_0 == self.bytes().len(), final(buffer).out() == old(buffer).out() + self.bytes(),
//@end
//@fn src/http/value.rs | impl HeaderValue | contains
//@ret r
//@spec
        ensures r == contains_seq(self.bytes(), bytes@),
//@end
//@fn src/http/value.rs | impl TryInto<String> for &HeaderValue | try_into | as=try_into_text
//@sub \(\s*self\s*\) => (&self)
//@ret r
//@spec
        ensures r is Ok, utf8(self.bytes()) ==> r->Ok_0.bytes() == self.bytes(),
//@end
//@fn src/http/value.rs | impl Hash for HeaderValue | hash
//@sub \(\*stand\.as_bytes\(\)\)\.hash\(state\) => state.write_slice(stand.as_bytes())
//@sub val\.hash\(state\) => state.write_slice(val.as_slice())
//@spec
        ensures final(state).fed() == old(state).fed() + be_bytes(self.bytes().len(), 8) + self.bytes(),
//@end
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for HeaderValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HeaderValue) -> bool { self.bytes() == o.bytes() }
}
impl PartialEq for HeaderValue {
//@fn src/http/value.rs | impl PartialEq<HeaderValue> for HeaderValue | eq
//@sub l0\.as_bytes\(\)\s*==\s*r0\b => l0.as_bytes() == r0.as_slice()
//@sub l0\s*==\s*r0\.as_bytes\(\) => l0.as_slice() == r0.as_bytes()
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<&'static Str> for HeaderValue {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: &'static Str) -> Result<HeaderValue, WebError> { Ok(HeaderValue::Stand(v)) }
}
impl TryFrom<&'static Str> for HeaderValue {
    type Error = WebError;
//@fn src/http/value.rs | impl TryFrom<&'static str> for HeaderValue | try_from
//@ret r
//@spec
        ensures r is Ok, r->Ok_0.bytes() == value.bytes(),
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Text> for HeaderValue {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: Text) -> Result<HeaderValue, WebError> { Ok(HeaderValue::Value(v.v)) }
}
impl TryFrom<Text> for HeaderValue {
    type Error = WebError;
//@fn src/http/value.rs | impl TryFrom<String> for HeaderValue | try_from
//@ret r
//@spec
        ensures r is Ok, r->Ok_0.bytes() == value.bytes(),
//@end
}
}
fn main() {}

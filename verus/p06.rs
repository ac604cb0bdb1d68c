//@import hname.rs
//@strings
verus! {
pub open spec fn dec(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() - 48) } }
pub open spec fn alldig(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
// the number a value spells, if it spells one
pub open spec fn nat_of(s: Seq<u8>) -> Option<int> { if s.len() > 0 && alldig(s) { Some(dec(s)) } else { None } }
pub open spec fn int_of(s: Seq<u8>) -> Option<int> {
    if s.len() > 0 && s[0] == 45 { match nat_of(s.skip(1)) { Some(v) => Some(-v), None => None } } else { nat_of(s) }
}
pub assume_specification [usize::overflowing_mul] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a * b > usize::MAX), !r.1 ==> r.0 == a * b;
pub assume_specification [usize::overflowing_add] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), !r.1 ==> r.0 == a + b;
pub assume_specification [isize::overflowing_mul] (a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == (a * b > isize::MAX || a * b < isize::MIN), !r.1 ==> r.0 == a * b;
pub assume_specification [isize::overflowing_add] (a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == (a + b > isize::MAX || a + b < isize::MIN), !r.1 ==> r.0 == a + b;
proof fn lemma_dec_step(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), alldig(s)
    ensures dec(s.take(k + 1)) == dec(s.take(k)) * 10 + (s[k] - 48), 0 <= dec(s.take(k)), dec(s.take(k)) * 10 + (s[k] - 48) <= dec(s)
    decreases s.len()
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    lemma_dec_pos(s.take(k));
    lemma_dec_mono(s, k + 1);
}
proof fn lemma_dec_pos(s: Seq<u8>)
    requires alldig(s) ensures dec(s) >= 0 decreases s.len()
{ if s.len() > 0 { assert(alldig(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies digit(#[trigger] s.drop_last()[i]) by { assert(digit(s[i])); } } lemma_dec_pos(s.drop_last()); assert(digit(s[s.len() - 1])); } }
proof fn lemma_dec_mono(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), alldig(s) ensures dec(s.take(k)) <= dec(s) decreases s.len() - k
{
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(digit(s[k]));
        assert(alldig(s.take(k)));
        lemma_dec_pos(s.take(k));
        lemma_dec_mono(s, k + 1);
    } else { assert(s.take(k) =~= s); }
}
impl HeaderValue {
//@fn src/http/value.rs | impl TryInto<usize> for &HeaderValue | try_into | as=try_into_usize
//@ret r
//@sub \(\s*self\s*\) => (&self)
//@sub \.try_into\(\) => .try_into_usize()
//@spec
        ensures match nat_of(self.bytes()) { Some(v) if v <= usize::MAX => r is Ok && r->Ok_0 == v, _ => r is Err },
        decreases (if self is Stand { 1int } else { 0 })
//@at start
        proof { assert forall|k: int| 0 <= k < self.bytes().len() && alldig(self.bytes()) implies
            dec(#[trigger] self.bytes().take(k)) * 10 + (self.bytes()[k] - 48) <= dec(self.bytes()) && dec(self.bytes().take(k + 1)) == dec(self.bytes().take(k)) * 10 + (self.bytes()[k] - 48) by { lemma_dec_step(self.bytes(), k); } }
//@loop 0
            invariant self is Value, self->Value_0@ == v@, v@ == self.bytes(), v@.len() > 0, alldig(v@.take(it0.index@)), result == dec(v@.take(it0.index@)), it0.seq().len() == v@.len(), forall|j: int| 0 <= j < v@.len() ==> *it0.seq()[j] == v@[j],
//@at start 0
            proof {
                let k = it0.index@;
                if alldig(v@) { lemma_dec_step(v@, k); } else { assert(!alldig(v@)); }
                assert(v@.take(k + 1).drop_last() =~= v@.take(k));
                if digit(v@[k]) { assert(alldig(v@.take(k + 1))) by { assert forall|i: int| 0 <= i < k + 1 implies digit(#[trigger] v@.take(k + 1)[i]) by { if i < k { assert(digit(v@.take(k)[i])); } } } }
            }
//@at after 0
        proof { assert(v@.take(v@.len() as int) =~= v@); }
//@end
//@fn src/http/value.rs | impl TryInto<isize> for &HeaderValue | try_into | as=try_into_isize
//@ret r
//@sub \(\s*self\s*\) => (&self)
//@sub \.try_into\(\) => .try_into_isize()
//@sub &v\[\.\.\] => v.as_slice()
//@spec
        ensures match int_of(self.bytes()) { Some(v) if isize::MIN <= v <= isize::MAX => r is Ok && r->Ok_0 == v, _ => r is Err },
        decreases (if self is Stand { 1int } else { 0 })
//@loop 0
            invariant self is Value, self->Value_0@ == v@, v@ == self.bytes(), digits@.len() > 0, is_neg == (v@.len() > 0 && v@[0] == 45), digits@ == (if is_neg { v@.skip(1) } else { v@ }),
                alldig(digits@.take(it0.index@)), result == (if is_neg { -dec(digits@.take(it0.index@)) } else { dec(digits@.take(it0.index@)) }), it0.seq().len() == digits@.len(), forall|j: int| 0 <= j < digits@.len() ==> *it0.seq()[j] == digits@[j],
//@at start 0
            proof {
                let k = it0.index@;
                if alldig(digits@) { lemma_dec_step(digits@, k); } else { assert(!alldig(digits@)); }
                assert(digits@.take(k + 1).drop_last() =~= digits@.take(k));
                if digit(digits@[k]) { assert(alldig(digits@.take(k + 1))) by { assert forall|i: int| 0 <= i < k + 1 implies digit(#[trigger] digits@.take(k + 1)[i]) by { if i < k { assert(digit(digits@.take(k)[i])); } } } }
            }
//@at after 0
        proof { assert(digits@.take(digits@.len() as int) =~= digits@); }
//@end
}
}
fn main() {}

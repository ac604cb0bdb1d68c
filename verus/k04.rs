//@import k03.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub \bSTATIC_TABLE_RAW\.iter\(\) => raw.iter()
//@globsub \bSTATIC_TABLE\b => static_table_ref()
//@globsub \bSTATIC_HASH\b => static_hash_ref()
//@globsub \bEMPTY_HEADER_VALUE\b => empty_header_value_ref()
//@globsub &static_hash_ref\(\)\[([^\]]*)\] => static_hash_ref().at(\1)
//@globsub \bv\[([^\]]*)\] => (*v.at(\1))
//@globsub \bHashMap\b => HMap
verus! {
// the hash map holds, under every static name, the index of every static value of that name and nothing else
pub open spec fn hash_ok(h: Map<Seq<u8>, HMap<HeaderValue, usize>>, n: int) -> bool {
    &&& forall|k: Seq<u8>, v: Seq<u8>| h.dom().contains(k) && #[trigger] h[k].m().dom().contains(v) ==> { let j = h[k].m()[v]; 1 <= j <= n && fold(rfc_name(j - 1)) == k && rfc_value(j - 1) == v }
    &&& forall|i: int| 0 <= i < n ==> h.dom().contains(#[trigger] fold(rfc_name(i))) && h[fold(rfc_name(i))].m().dom().contains(rfc_value(i))
    &&& forall|k: Seq<u8>| #[trigger] h.dom().contains(k) ==> exists|i: int| 0 <= i < n && fold(rfc_name(i)) == k
}
//@fn src/http/http2/hpack/header_index.rs | lazy_static | STATIC_HASH
//@ret r
//@mustsub h\s*\.\s*entry\(name\)\s*\.\s*and_modify\(\s*\|v\|\s*\{(?P<b>[^{}]*)\}\s*\) => { let v = h.modify(name); \g<b> }
//@spec
        ensures hash_ok(r.m(), 61),
//@loop 0
            invariant hash_ok(h.m(), idx_n as int), idx_n == it0.index@, it0.seq().len() == 61, raw@.len() == 61,
                forall|i: int| 0 <= i < 61 ==> (#[trigger] raw@[i]).0.bytes() == rfc_name(i) && raw@[i].1.bytes() == rfc_value(i),
//@at start
        let raw = static_table_raw();
//@end
#[verifier::external_body]
pub fn static_hash_ref() -> (r: &'static HMap<HeaderName, HMap<HeaderValue, usize>>) ensures hash_ok(r.m(), 61) { unimplemented!() }
// entry i (from 1) of the table: static, then dynamic newest first
pub open spec fn entry(t: Seq<Ent>, i: int) -> Option<Ent> { if 1 <= i <= 61 { Some(rfc(i - 1)) } else if 62 <= i < 62 + t.len() { Some(t[i - 62]) } else { None } }
pub open spec fn static_name(n: Seq<u8>) -> bool { exists|j: int| 0 <= j < 61 && same(#[trigger] rfc_name(j), n) }
pub open spec fn static_field(n: Seq<u8>, v: Seq<u8>) -> bool { exists|j: int| 0 <= j < 61 && same(#[trigger] rfc_name(j), n) && rfc_value(j) == v }
pub open spec fn dyn_field(t: Seq<Ent>, n: Seq<u8>, v: Seq<u8>) -> bool { exists|j: int| 0 <= j < t.len() && same((#[trigger] t[j]).0, n) && t[j].1 == v }
impl HeaderIndex {
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | get_from_index
//@ret r
//@sub Some\(&\(ref (\w+), ref (\w+)\)\) => Some((\1, \2))
//@spec
        requires self.ents().len() + 62 <= usize::MAX,
        ensures match entry(self.ents(), index as int) { Some(e) => r is Some && (r->0).0.bytes() == e.0 && (r->0).1.bytes() == e.1, None => r is None },
//@end
//@fn src/http/http2/hpack/header_index.rs | impl HeaderIndex | find_header
//@ret r
//@sub \bself\.iter\(\) => self.table.iter()
//@sub \bvalue\.0 == header\.0 => value.0 == *header.0
//@sub \bvalue\.1 == header\.1 => value.1 == *header.1
//@spec
        requires self.ents().len() + 62 <= usize::MAX,
        ensures match r {
                Some((i, true)) => entry(self.ents(), i as int) is Some && same((entry(self.ents(), i as int)->0).0, header.0.bytes()) && (entry(self.ents(), i as int)->0).1 == header.1.bytes(),
                Some((i, false)) => entry(self.ents(), i as int) is Some && same((entry(self.ents(), i as int)->0).0, header.0.bytes()),
                None => true },
            static_field(header.0.bytes(), header.1.bytes()) ==> r is Some && (r->0).1,
            !static_name(header.0.bytes()) && dyn_field(self.ents(), header.0.bytes(), header.1.bytes()) ==> r is Some && (r->0).1,
//@loop 0
            invariant forall|j: int| 0 <= j < idx_n ==> !(same((#[trigger] self.ents()[j]).0, header.0.bytes()) && self.ents()[j].1 == header.1.bytes()),
                self.ents().len() + 62 <= usize::MAX, idx_n == it0.index@, it0.seq().len() == self.ents().len(), forall|j: int| 0 <= j < self.ents().len() ==> ent(*#[trigger] it0.seq()[j]) == self.ents()[j],
//@end
}
}
fn main() {}

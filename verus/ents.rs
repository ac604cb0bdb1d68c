verus! {
// header entries as octets
pub type Ent = (Seq<u8>, Seq<u8>);
pub open spec fn ent(e: (HeaderName, HeaderValue)) -> Ent { (e.0.bytes(), e.1.bytes()) }
pub open spec fn ents(h: Seq<(HeaderName, HeaderValue)>) -> Seq<Ent> { h.map_values(|e: (HeaderName, HeaderValue)| ent(e)) }
}

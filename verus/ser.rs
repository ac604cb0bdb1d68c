//@include prelude.rs
//@include text_model.rs
//@include bin_model.rs
//@strings
//@globsub \bString\b => Text
verus! {
// ================= bodies: what is written for them =================
/// serialize appends ser() and reports its length
pub trait Serialize {
    spec fn ser(&self) -> Seq<u8>;
    fn serialize<B: Bt + BtMut>(&mut self, buffer: &mut B) -> (r: WebResult<usize>)
        ensures match r { Ok(n) => final(buffer).out() == old(buffer).out() + old(self).ser() && n == old(self).ser().len(), Err(_) => true };
}
impl Serialize for &'static Str {
    open spec fn ser(&self) -> Seq<u8> { self.bytes() }
//@fn src/serialize.rs | impl Serialize for &'static str | serialize
//@ret r
//@end
}
impl Serialize for Text {
    open spec fn ser(&self) -> Seq<u8> { self.bytes() }
//@fn src/serialize.rs | impl Serialize for String | serialize
//@ret r
//@spec
        ensures r is Ok
//@end
}
impl Serialize for () {
    open spec fn ser(&self) -> Seq<u8> { Seq::empty() }
//@fn src/serialize.rs | impl Serialize for () | serialize
//@ret r
//@at start
        proof { assert forall|a: Seq<u8>| #[trigger] (a + Seq::<u8>::empty()) == a by { assert(a + Seq::<u8>::empty() =~= a); } }
//@end
}
impl Serialize for Vec<u8> {
    open spec fn ser(&self) -> Seq<u8> { self@ }
//@fn src/serialize.rs | impl Serialize for Vec<u8> | serialize
//@ret r
//@end
}
impl Serialize for &[u8] {
    open spec fn ser(&self) -> Seq<u8> { self@ }
//@fn src/serialize.rs | impl Serialize for &[u8] | serialize
//@ret r
//@end
}
impl Serialize for Binary {
    open spec fn ser(&self) -> Seq<u8> { self.rem() }
//@fn src/serialize.rs | impl Serialize for Binary | serialize
//@ret r
//@end
}
}
fn main() {}

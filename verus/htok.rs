//@include prelude.rs
//@include text_model.rs
verus! {
/// a visible character
pub open spec fn vchar(b: u8) -> bool { 33 <= b <= 126 }
impl Helper {
//@fn src/helper.rs | impl Helper | is_token
//@ret r
//@spec
        ensures r == vchar(b)
//@end
}
}
fn main() {}

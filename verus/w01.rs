//@include ws_header.rs
verus! {
pub trait DataFrameable {
    spec fn sp_size(&self) -> nat;
    fn size(&self) -> (r: usize)
        ensures r == self.sp_size();
//@fn src/ws/dataframe.rs | trait DataFrameable | frame_size
//@ret r
//@spec
        requires self.sp_size() + 14 <= usize::MAX,
        ensures r == hdr_size(self.sp_size(), masked) + self.sp_size(),
//@end
}
}
fn main() {}

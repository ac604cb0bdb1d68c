verus! {
// RFC 7541 appendix A, written down independently of the code; index 1 is entry 0
#[verifier::opaque]
pub open spec fn rfc_name(i: int) -> Seq<u8> {
    if i == 0 { seq![58u8, 97, 117, 116, 104, 111, 114, 105, 116, 121] }
    else if i == 1 { seq![58u8, 109, 101, 116, 104, 111, 100] }
    else if i == 2 { seq![58u8, 109, 101, 116, 104, 111, 100] }
    else if i == 3 { seq![58u8, 112, 97, 116, 104] }
    else if i == 4 { seq![58u8, 112, 97, 116, 104] }
    else if i == 5 { seq![58u8, 115, 99, 104, 101, 109, 101] }
    else if i == 6 { seq![58u8, 115, 99, 104, 101, 109, 101] }
    else if i == 7 { seq![58u8, 115, 116, 97, 116, 117, 115] }
    else if i == 8 { seq![58u8, 115, 116, 97, 116, 117, 115] }
    else if i == 9 { seq![58u8, 115, 116, 97, 116, 117, 115] }
    else if i == 10 { seq![58u8, 115, 116, 97, 116, 117, 115] }
    else if i == 11 { seq![58u8, 115, 116, 97, 116, 117, 115] }
    else if i == 12 { seq![58u8, 115, 116, 97, 116, 117, 115] }
    else if i == 13 { seq![58u8, 115, 116, 97, 116, 117, 115] }
    else if i == 14 { seq![97u8, 99, 99, 101, 112, 116, 45, 99, 104, 97, 114, 115, 101, 116] }
    else if i == 15 { seq![97u8, 99, 99, 101, 112, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103] }
    else if i == 16 { seq![97u8, 99, 99, 101, 112, 116, 45, 108, 97, 110, 103, 117, 97, 103, 101] }
    else if i == 17 { seq![97u8, 99, 99, 101, 112, 116, 45, 114, 97, 110, 103, 101, 115] }
    else if i == 18 { seq![97u8, 99, 99, 101, 112, 116] }
    else if i == 19 { seq![97u8, 99, 99, 101, 115, 115, 45, 99, 111, 110, 116, 114, 111, 108, 45, 97, 108, 108, 111, 119, 45, 111, 114, 105, 103, 105, 110] }
    else if i == 20 { seq![97u8, 103, 101] }
    else if i == 21 { seq![97u8, 108, 108, 111, 119] }
    else if i == 22 { seq![97u8, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110] }
    else if i == 23 { seq![99u8, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108] }
    else if i == 24 { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110] }
    else if i == 25 { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103] }
    else if i == 26 { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 108, 97, 110, 103, 117, 97, 103, 101] }
    else if i == 27 { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104] }
    else if i == 28 { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 108, 111, 99, 97, 116, 105, 111, 110] }
    else if i == 29 { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 114, 97, 110, 103, 101] }
    else if i == 30 { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101] }
    else if i == 31 { seq![99u8, 111, 111, 107, 105, 101] }
    else if i == 32 { seq![100u8, 97, 116, 101] }
    else if i == 33 { seq![101u8, 116, 97, 103] }
    else if i == 34 { seq![101u8, 120, 112, 101, 99, 116] }
    else if i == 35 { seq![101u8, 120, 112, 105, 114, 101, 115] }
    else if i == 36 { seq![102u8, 114, 111, 109] }
    else if i == 37 { seq![104u8, 111, 115, 116] }
    else if i == 38 { seq![105u8, 102, 45, 109, 97, 116, 99, 104] }
    else if i == 39 { seq![105u8, 102, 45, 109, 111, 100, 105, 102, 105, 101, 100, 45, 115, 105, 110, 99, 101] }
    else if i == 40 { seq![105u8, 102, 45, 110, 111, 110, 101, 45, 109, 97, 116, 99, 104] }
    else if i == 41 { seq![105u8, 102, 45, 114, 97, 110, 103, 101] }
    else if i == 42 { seq![105u8, 102, 45, 117, 110, 109, 111, 100, 105, 102, 105, 101, 100, 45, 115, 105, 110, 99, 101] }
    else if i == 43 { seq![108u8, 97, 115, 116, 45, 109, 111, 100, 105, 102, 105, 101, 100] }
    else if i == 44 { seq![108u8, 105, 110, 107] }
    else if i == 45 { seq![108u8, 111, 99, 97, 116, 105, 111, 110] }
    else if i == 46 { seq![109u8, 97, 120, 45, 102, 111, 114, 119, 97, 114, 100, 115] }
    else if i == 47 { seq![112u8, 114, 111, 120, 121, 45, 97, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 101] }
    else if i == 48 { seq![112u8, 114, 111, 120, 121, 45, 97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110] }
    else if i == 49 { seq![114u8, 97, 110, 103, 101] }
    else if i == 50 { seq![114u8, 101, 102, 101, 114, 101, 114] }
    else if i == 51 { seq![114u8, 101, 102, 114, 101, 115, 104] }
    else if i == 52 { seq![114u8, 101, 116, 114, 121, 45, 97, 102, 116, 101, 114] }
    else if i == 53 { seq![115u8, 101, 114, 118, 101, 114] }
    else if i == 54 { seq![115u8, 101, 116, 45, 99, 111, 111, 107, 105, 101] }
    else if i == 55 { seq![115u8, 116, 114, 105, 99, 116, 45, 116, 114, 97, 110, 115, 112, 111, 114, 116, 45, 115, 101, 99, 117, 114, 105, 116, 121] }
    else if i == 56 { seq![116u8, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103] }
    else if i == 57 { seq![117u8, 115, 101, 114, 45, 97, 103, 101, 110, 116] }
    else if i == 58 { seq![118u8, 97, 114, 121] }
    else if i == 59 { seq![118u8, 105, 97] }
    else if i == 60 { seq![119u8, 119, 119, 45, 97, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 101] }
    else { Seq::empty() }
}
#[verifier::opaque]
pub open spec fn rfc_value(i: int) -> Seq<u8> {
    if i == 1 { seq![71u8, 69, 84] }
    else if i == 2 { seq![80u8, 79, 83, 84] }
    else if i == 3 { seq![47u8] }
    else if i == 4 { seq![47u8, 105, 110, 100, 101, 120, 46, 104, 116, 109, 108] }
    else if i == 5 { seq![104u8, 116, 116, 112] }
    else if i == 6 { seq![104u8, 116, 116, 112, 115] }
    else if i == 7 { seq![50u8, 48, 48] }
    else if i == 8 { seq![50u8, 48, 52] }
    else if i == 9 { seq![50u8, 48, 54] }
    else if i == 10 { seq![51u8, 48, 52] }
    else if i == 11 { seq![52u8, 48, 48] }
    else if i == 12 { seq![52u8, 48, 52] }
    else if i == 13 { seq![53u8, 48, 48] }
    else if i == 15 { seq![103u8, 122, 105, 112, 44, 32, 100, 101, 102, 108, 97, 116, 101] }
    else { Seq::empty() }
}
pub open spec fn rfc(i: int) -> Ent { (rfc_name(i), rfc_value(i)) }
}

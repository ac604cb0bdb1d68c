//@include h2_settings.rs
verus! {
/// a SETTINGS frame written and read back is the same settings; an acknowledgement is a frame without entries and reads as one
pub proof fn lemma_settings_frame(s: Settings, h: FrameHeader)
    requires valid_settings(s), s.flags.b == 0 || s == no_settings(1), fh_is(settings_octets(s), h),
    ensures fh_some(settings_octets(s)), h.kind == Kind::Settings, h.length == settings_octets(s).len() - 9, h.id.0 == 0, h.flag == s.flags,
        settings_read(h, settings_octets(s).skip(9)) == Some(s),
{
    lens(s); lemma_settings_roundtrip(s);
    reveal_with_fuel(pow256, 5);
    let o = settings_octets(s);
    be_inverse(entries(s).len(), 3); be_inverse(0, 4);
    assert(o.take(3) =~= be_bytes(entries(s).len(), 3)); assert(o.skip(5).take(4) =~= be_bytes(0, 4)); assert(o.skip(9) =~= entries(s));
    assert(o[3] == kind_num(Kind::Settings)); assert(o[4] == s.flags.b);
    assert(0u8 & 0x2d == 0u8) by (bit_vector); assert(1u8 & 0x2d == 1u8) by (bit_vector); assert(0u8 & 1 == 0u8) by (bit_vector); assert(1u8 & 1 == 1u8) by (bit_vector);
}
/// the HTTP2-Settings header value
pub proof fn lemma_http_settings(s: Settings)
    requires valid_settings(s), s.flags.b == 0,
    ensures b64_dec(b64(entries(s))) == Some(entries(s)), read_entries(entries(s), no_settings(0)) == Some(s),
{ broadcast use b64_inverse; lemma_settings_roundtrip(s); }
/// unknown settings are ignored, the last value of a setting wins
pub proof fn lemma_last_wins(acc: Settings, id: nat, v: u32, w: u32)
    requires apply(acc, id, v) is Some,
    ensures apply(apply(acc, id, v)->0, id, w) == apply(acc, id, w), !(id == 1 || id == 2 || id == 3 || id == 4 || id == 5 || id == 6 || id == 8) ==> apply(acc, id, v) == Some(acc),
{ }
}
fn main() {}

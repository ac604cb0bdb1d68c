//@include h2_header.rs
//@globsub \bflags\s*\.\s*into\s*\(\s*\) => flags
//@globsub \bcrate\s*::\s*WebError\b => WebError
verus! {
//@item src/http/http2/mod.rs | type | FrameSize
//@item src/http/http2/mod.rs | const | DEFAULT_MAX_FRAME_SIZE
//@item src/http/http2/mod.rs | const | MAX_INITIAL_WINDOW_SIZE
//@sub const MAX_INITIAL_WINDOW_SIZE\s*:\s*usize\s*=\s*([^;]*); => exec const MAX_INITIAL_WINDOW_SIZE: usize ensures MAX_INITIAL_WINDOW_SIZE == 0x7fffffff { proof { c64(); } \1 }
//@item src/http/http2/mod.rs | const | MAX_MAX_FRAME_SIZE
//@sub const MAX_MAX_FRAME_SIZE\s*:\s*FrameSize\s*=\s*([^;]*); => exec const MAX_MAX_FRAME_SIZE: FrameSize ensures MAX_MAX_FRAME_SIZE == 0xffffff { proof { c64(); } \1 }
proof fn c64() ensures 1usize << 31 == 0x80000000usize, 1u32 << 24 == 0x1000000u32 {
    assert(1usize << 31 == 0x80000000usize) by (bit_vector); assert(1u32 << 24 == 0x1000000u32) by (bit_vector);
}
//@item src/http/http2/frame/settings.rs | struct | Settings
//@item src/http/http2/frame/settings.rs | enum | Setting
// ---- RFC 7540 section 6.5.2 (and RFC 8441) ----
pub open spec fn no_settings(flag: u8) -> Settings {
    Settings { flags: Flag { b: flag }, header_table_size: None, enable_push: None, max_concurrent_streams: None, initial_window_size: None, max_frame_size: None,
        max_header_list_size: None, enable_connect_protocol: None }
}
/// the settings after one entry; None: the value is not allowed
pub open spec fn apply(s: Settings, id: nat, v: u32) -> Option<Settings> {
    if id == 1 { Some(Settings { header_table_size: Some(v), ..s }) }
    else if id == 2 { if v <= 1 { Some(Settings { enable_push: Some(v), ..s }) } else { None } }
    else if id == 3 { Some(Settings { max_concurrent_streams: Some(v), ..s }) }
    else if id == 4 { if v <= 0x7fffffff { Some(Settings { initial_window_size: Some(v), ..s }) } else { None } }
    else if id == 5 { if 16384 <= v <= 16777215 { Some(Settings { max_frame_size: Some(v), ..s }) } else { None } }
    else if id == 6 { Some(Settings { max_header_list_size: Some(v), ..s }) }
    else if id == 8 { if v <= 1 { Some(Settings { enable_connect_protocol: Some(v), ..s }) } else { None } }
    else { Some(s) }
}
pub open spec fn read_entries(b: Seq<u8>, acc: Settings) -> Option<Settings> decreases b.len() {
    if b.len() < 6 { if b.len() == 0 { Some(acc) } else { None } }
    else { match apply(acc, be(b.take(2)), be(b.skip(2).take(4)) as u32) { Some(a) => read_entries(b.skip(6), a), None => None } }
}
pub open spec fn settings_read(h: FrameHeader, b: Seq<u8>) -> Option<Settings> {
    if h.id.0 != 0 { None } else if h.flag.b & 1 == 1 { if b.len() > 0 { None } else { Some(no_settings(1)) } } else { read_entries(b, no_settings(0)) }
}
pub open spec fn s_entry(id: nat, v: u32) -> Seq<u8> { be_bytes(id, 2) + be_bytes(v as nat, 4) }
pub open spec fn opt(id: nat, v: Option<u32>) -> Seq<u8> { match v { Some(x) => s_entry(id, x), None => Seq::empty() } }
pub open spec fn entries(s: Settings) -> Seq<u8> {
    opt(1, s.header_table_size) + opt(2, s.enable_push) + opt(3, s.max_concurrent_streams) + opt(4, s.initial_window_size) + opt(5, s.max_frame_size)
    + opt(6, s.max_header_list_size) + opt(8, s.enable_connect_protocol)
}
pub open spec fn settings_octets(s: Settings) -> Seq<u8> {
    fh_octets(FrameHeader { length: entries(s).len() as u32, kind: Kind::Settings, flag: s.flags, id: StreamIdentifier(0) }) + entries(s)
}
pub proof fn opt_len(id: nat, v: Option<u32>) ensures opt(id, v).len() == if v is Some { 6nat } else { 0 }
{ if v is Some { be_bytes_len(id, 2); be_bytes_len(v->0 as nat, 4); } }
proof fn lens(s: Settings) ensures entries(s).len() <= 42, entries(s).len() == 6 * (
        (if s.header_table_size is Some { 1nat } else { 0 }) + (if s.enable_push is Some { 1nat } else { 0 }) + (if s.max_concurrent_streams is Some { 1nat } else { 0 })
        + (if s.initial_window_size is Some { 1nat } else { 0 }) + (if s.max_frame_size is Some { 1nat } else { 0 }) + (if s.max_header_list_size is Some { 1nat } else { 0 })
        + (if s.enable_connect_protocol is Some { 1nat } else { 0 })),
{
    opt_len(1, s.header_table_size); opt_len(2, s.enable_push); opt_len(3, s.max_concurrent_streams); opt_len(4, s.initial_window_size);
    opt_len(5, s.max_frame_size); opt_len(6, s.max_header_list_size); opt_len(8, s.enable_connect_protocol);
}
pub open spec fn valid_settings(s: Settings) -> bool {
    (s.enable_push is Some ==> s.enable_push->0 <= 1) && (s.initial_window_size is Some ==> s.initial_window_size->0 <= 0x7fffffff)
    && (s.max_frame_size is Some ==> 16384 <= s.max_frame_size->0 <= 16777215) && (s.enable_connect_protocol is Some ==> s.enable_connect_protocol->0 <= 1)
}
proof fn read_opt(id: nat, v: Option<u32>, r: Seq<u8>, acc: Settings)
    requires id < 256, v is Some ==> apply(acc, id, v->0) is Some,
    ensures read_entries(opt(id, v) + r, acc) == read_entries(r, if v is Some { apply(acc, id, v->0)->0 } else { acc }),
{
    opt_len(id, v);
    let b = opt(id, v) + r;
    if v is Some {
        reveal_with_fuel(pow256, 5);
        be_inverse(id, 2); be_inverse(v->0 as nat, 4);
        assert(b.take(2) =~= be_bytes(id, 2)); assert(b.skip(2).take(4) =~= be_bytes(v->0 as nat, 4)); assert(b.skip(6) =~= r);
    } else { assert(b =~= r); }
}
proof fn assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + b + c == a + (b + c) { assert(a + b + c =~= a + (b + c)); }
proof fn regroup(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>, g: Seq<u8>)
    ensures a + b + c + d + e + f + g == a + (b + (c + (d + (e + (f + (g + Seq::<u8>::empty()))))))
{
    assert(g + Seq::<u8>::empty() =~= g);
    assoc(a + b + c + d + e, f, g); assoc(a + b + c + d, e, f + g); assoc(a + b + c, d, e + (f + g)); assoc(a + b, c, d + (e + (f + g))); assoc(a, b, c + (d + (e + (f + g))));
}
pub open spec fn s_pre(o: Seq<u8>, s: Settings, n: int) -> Seq<u8> {
    let p0 = o; let p1 = p0 + opt(1, s.header_table_size); let p2 = p1 + opt(2, s.enable_push); let p3 = p2 + opt(3, s.max_concurrent_streams);
    let p4 = p3 + opt(4, s.initial_window_size); let p5 = p4 + opt(5, s.max_frame_size); let p6 = p5 + opt(6, s.max_header_list_size); let p7 = p6 + opt(8, s.enable_connect_protocol);
    if n == 0 { p0 } else if n == 1 { p1 } else if n == 2 { p2 } else if n == 3 { p3 } else if n == 4 { p4 } else if n == 5 { p5 } else if n == 6 { p6 } else { p7 }
}
proof fn s_step(o: Seq<u8>, id: nat, v: Option<u32>) ensures match v { Some(x) => o + opt(id, v) == o + s_entry(id, x), None => o + opt(id, v) == o }
{ if v is None { assert(o + opt(id, v) =~= o); } }
/// what each step of writing the entries adds
pub open spec fn adds(o: Seq<u8>, s: Settings, k: int, id: nat, v: Option<u32>) -> bool { match v { Some(x) => s_pre(o, s, k) == s_pre(o, s, k - 1) + s_entry(id, x), None => s_pre(o, s, k) == s_pre(o, s, k - 1) } }
pub proof fn steps(o: Seq<u8>, s: Settings)
    ensures s_pre(o, s, 0) == o, s_pre(o, s, 7) == o + entries(s),
        adds(o, s, 1, 1, s.header_table_size), adds(o, s, 2, 2, s.enable_push), adds(o, s, 3, 3, s.max_concurrent_streams), adds(o, s, 4, 4, s.initial_window_size),
        adds(o, s, 5, 5, s.max_frame_size), adds(o, s, 6, 6, s.max_header_list_size), adds(o, s, 7, 8, s.enable_connect_protocol),
{
    hide(opt); hide(s_entry);
    let (a, b, c, d, e, f, g) = (opt(1, s.header_table_size), opt(2, s.enable_push), opt(3, s.max_concurrent_streams), opt(4, s.initial_window_size), opt(5, s.max_frame_size),
        opt(6, s.max_header_list_size), opt(8, s.enable_connect_protocol));
    regroup(a, b, c, d, e, f, g); regroup(o + a, b, c, d, e, f, g);
    assoc(o, a, b + (c + (d + (e + (f + (g + Seq::<u8>::empty()))))));
    s_step(s_pre(o, s, 0), 1, s.header_table_size); s_step(s_pre(o, s, 1), 2, s.enable_push); s_step(s_pre(o, s, 2), 3, s.max_concurrent_streams); s_step(s_pre(o, s, 3), 4, s.initial_window_size);
    s_step(s_pre(o, s, 4), 5, s.max_frame_size); s_step(s_pre(o, s, 5), 6, s.max_header_list_size); s_step(s_pre(o, s, 6), 8, s.enable_connect_protocol);
}
/// the entries written read back as exactly the settings that were set
pub proof fn lemma_settings_roundtrip(s: Settings)
    requires valid_settings(s),
    ensures read_entries(entries(s), no_settings(0)) == Some(Settings { flags: Flag { b: 0 }, ..s }), entries(s).len() % 6 == 0,
{
    hide(opt); hide(read_entries);
    lens(s);
    let a0 = no_settings(0);
    let a1 = Settings { header_table_size: s.header_table_size, ..a0 };
    let a2 = Settings { enable_push: s.enable_push, ..a1 };
    let a3 = Settings { max_concurrent_streams: s.max_concurrent_streams, ..a2 };
    let a4 = Settings { initial_window_size: s.initial_window_size, ..a3 };
    let a5 = Settings { max_frame_size: s.max_frame_size, ..a4 };
    let a6 = Settings { max_header_list_size: s.max_header_list_size, ..a5 };
    let r7 = opt(8, s.enable_connect_protocol) + Seq::<u8>::empty();
    let r6 = opt(6, s.max_header_list_size) + r7;
    let r5 = opt(5, s.max_frame_size) + r6;
    let r4 = opt(4, s.initial_window_size) + r5;
    let r3 = opt(3, s.max_concurrent_streams) + r4;
    let r2 = opt(2, s.enable_push) + r3;
    let r1 = opt(1, s.header_table_size) + r2;
    regroup(opt(1, s.header_table_size), opt(2, s.enable_push), opt(3, s.max_concurrent_streams), opt(4, s.initial_window_size), opt(5, s.max_frame_size),
        opt(6, s.max_header_list_size), opt(8, s.enable_connect_protocol));
    read_opt(1, s.header_table_size, r2, a0); read_opt(2, s.enable_push, r3, a1); read_opt(3, s.max_concurrent_streams, r4, a2); read_opt(4, s.initial_window_size, r5, a3);
    read_opt(5, s.max_frame_size, r6, a4); read_opt(6, s.max_header_list_size, r7, a5); read_opt(8, s.enable_connect_protocol, Seq::<u8>::empty(), a6);
    read_nil(Settings { enable_connect_protocol: s.enable_connect_protocol, ..a6 });
}
proof fn read_nil(a: Settings) ensures read_entries(Seq::<u8>::empty(), a) == Some(a) { }
// ---- base64 (external crate): URL_SAFE_NO_PAD decode undoes encode ----
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64_dec(s: Seq<char>) -> Option<Seq<u8>>;
pub broadcast axiom fn b64_inverse(s: Seq<u8>) ensures #[trigger] b64_dec(b64(s)) == Some(s);
#[verifier::external_body]
pub fn b64_decode(s: &str) -> (r: Result<Vec<u8>, ()>) ensures match r { Ok(v) => b64_dec(s@) == Some(v@), Err(_) => b64_dec(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn b64_encode(s: &[u8]) -> (r: String) ensures r@ == b64(s@) { unimplemented!() }
impl Setting {
//@fn src/http/http2/frame/settings.rs | impl Setting | from_id
//@ret r
//@spec
        ensures r == (if id == 1 { Some(Setting::HeaderTableSize(val)) } else if id == 2 { Some(Setting::EnablePush(val)) } else if id == 3 { Some(Setting::MaxConcurrentStreams(val)) }
            else if id == 4 { Some(Setting::InitialWindowSize(val)) } else if id == 5 { Some(Setting::MaxFrameSize(val)) } else if id == 6 { Some(Setting::MaxHeaderListSize(val)) }
            else if id == 8 { Some(Setting::EnableConnectProtocol(val)) } else { None }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Setting | parse
//@ret r
//@spec
        requires old(bytes).rem().len() >= 6,
        ensures final(bytes).rem() == old(bytes).rem().skip(6),
            ({ let id = be(old(bytes).rem().take(2)); let v = be(old(bytes).rem().skip(2).take(4)) as u32;
               r == (if id == 1 { Some(Setting::HeaderTableSize(v)) } else if id == 2 { Some(Setting::EnablePush(v)) } else if id == 3 { Some(Setting::MaxConcurrentStreams(v)) }
            else if id == 4 { Some(Setting::InitialWindowSize(v)) } else if id == 5 { Some(Setting::MaxFrameSize(v)) } else if id == 6 { Some(Setting::MaxHeaderListSize(v)) }
            else if id == 8 { Some(Setting::EnableConnectProtocol(v)) } else { None }) }),
//@at start
        proof { broadcast use skip_skip; }
//@end
//@fn src/http/http2/frame/settings.rs | impl Setting | encode
//@sub match\s+\*\s*self => match self
//@sub \(\s*(\d)\s*,\s*v\s*\) => (\1, *v)
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>(6), final(dst).taken() == old(dst).taken(), final(dst).out() == old(dst).out() + (match *self {
            Setting::HeaderTableSize(v) => s_entry(1, v), Setting::EnablePush(v) => s_entry(2, v), Setting::MaxConcurrentStreams(v) => s_entry(3, v), Setting::InitialWindowSize(v) => s_entry(4, v),
            Setting::MaxFrameSize(v) => s_entry(5, v), Setting::MaxHeaderListSize(v) => s_entry(6, v), Setting::EnableConnectProtocol(v) => s_entry(8, v) }),
//@at start
        proof { let o = dst.out(); let v = match *self { Setting::HeaderTableSize(v) => v, Setting::EnablePush(v) => v, Setting::MaxConcurrentStreams(v) => v, Setting::InitialWindowSize(v) => v,
            Setting::MaxFrameSize(v) => v, Setting::MaxHeaderListSize(v) => v, Setting::EnableConnectProtocol(v) => v };
            let id = match *self { Setting::HeaderTableSize(_) => 1nat, Setting::EnablePush(_) => 2, Setting::MaxConcurrentStreams(_) => 3, Setting::InitialWindowSize(_) => 4,
            Setting::MaxFrameSize(_) => 5, Setting::MaxHeaderListSize(_) => 6, Setting::EnableConnectProtocol(_) => 8 };
            assert(o + be_bytes(id, 2) + be_bytes(v as nat, 4) =~= o + s_entry(id, v)); }
//@end
}
impl Settings {
//@fn src/http/http2/frame/settings.rs | impl Default for Settings | default
//@ret r
//@spec
        ensures r == no_settings(0),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | ack
//@ret r
//@spec
        ensures r == no_settings(1),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | is_ack
//@ret r
//@spec
        ensures r == (self.flags.b & 1 == 1),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | flags
//@ret r
//@spec
        ensures r == self.flags,
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | initial_window_size
//@ret r
//@spec
        ensures r == self.initial_window_size,
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | set_initial_window_size
//@spec
        ensures *final(self) == (Settings { initial_window_size: size, ..*old(self) }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | max_concurrent_streams
//@ret r
//@spec
        ensures r == self.max_concurrent_streams,
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | set_max_concurrent_streams
//@spec
        ensures *final(self) == (Settings { max_concurrent_streams: max, ..*old(self) }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | max_frame_size
//@ret r
//@spec
        ensures r == self.max_frame_size,
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | set_max_frame_size
//@spec
        requires size is Some ==> 16384 <= size->0 <= 16777215,
        ensures *final(self) == (Settings { max_frame_size: size, ..*old(self) }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | max_header_list_size
//@ret r
//@spec
        ensures r == self.max_header_list_size,
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | set_max_header_list_size
//@spec
        ensures *final(self) == (Settings { max_header_list_size: size, ..*old(self) }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | is_push_enabled
//@sub \|\s*val\s*\| => |val: u32| -> (b: bool) ensures b == (val != 0)
//@sub val\s*!=\s*0\s*\) => { val != 0 })
//@ret r
//@spec
        ensures r == (match self.enable_push { Some(v) => Some(v != 0), None => None }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | set_enable_push
//@spec
        ensures *final(self) == (Settings { enable_push: Some(if enable { 1 } else { 0 }), ..*old(self) }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | is_extended_connect_protocol_enabled
//@sub \|\s*val\s*\| => |val: u32| -> (b: bool) ensures b == (val != 0)
//@sub val\s*!=\s*0\s*\) => { val != 0 })
//@ret r
//@spec
        ensures r == (match self.enable_connect_protocol { Some(v) => Some(v != 0), None => None }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | set_enable_connect_protocol
//@spec
        ensures *final(self) == (Settings { enable_connect_protocol: val, ..*old(self) }),
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | header_table_size
//@ret r
//@spec
        ensures r == self.header_table_size,
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | parse_setting
//@ret r
//@spec
        ensures match r { Ok(s) => read_entries(old(payload).rem(), no_settings(0)) == Some(s), Err(_) => read_entries(old(payload).rem(), no_settings(0)) is None },
//@loop 0
            invariant
                payload.rem().len() == 6 * (len - it0.index@), it0.index@ <= len,
                read_entries(payload.rem(), settings) == read_entries(old(payload).rem(), no_settings(0)),
//@at start
        proof { mod6(payload.rem(), no_settings(0)); assert(0u8 & 1 == 0u8) by (bit_vector); }
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | parse
//@ret r
//@spec
        requires head.kind == Kind::Settings,
        ensures match r { Ok(s) => settings_read(head, old(payload).rem()) == Some(s), Err(_) => settings_read(head, old(payload).rem()) is None },
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | payload_len
//@inline impl Settings | for_each
//@ret r
//@spec
        ensures r == entries(*self).len(),
//@at start
        proof { lens(*self); }
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | parse_http_settings
//@sub use\s+base64\s*::\s*Engine\s*; =>
//@sub base64\s*::\s*engine\s*::\s*general_purpose\s*::\s*URL_SAFE_NO_PAD\s*\.\s*decode\s*\(\s*value\s*\.\s*as_bytes\s*\(\s*\)\s*\) => b64_decode(value)
//@ret r
//@spec
        ensures match r { Ok(s) => b64_dec(value@) is Some && read_entries(b64_dec(value@)->0, no_settings(0)) == Some(s),
            Err(_) => b64_dec(value@) is None || read_entries(b64_dec(value@)->0, no_settings(0)) is None },
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | encode_http_settings
//@inline impl Settings | for_each
//@sub use\s+base64\s*::\s*Engine\s*; =>
//@sub base64\s*::\s*engine\s*::\s*general_purpose\s*::\s*URL_SAFE_NO_PAD\s*\.\s*encode\s*\( => b64_encode(
//@ret r
//@spec
        ensures r@ == b64(entries(*self)),
//@at start
        hide(s_entry); hide(s_pre); hide(entries);
        proof { bin_rems(); steps(Seq::<u8>::empty(), *self); assert(Seq::<u8>::empty() + entries(*self) =~= entries(*self)); }
//@end
//@fn src/http/http2/frame/settings.rs | impl Settings | encode
//@inline impl Settings | for_each
//@ret r
//@spec
        ensures r == Ok::<usize, WebError>((9 + entries(*self).len()) as usize), final(dst).out() == old(dst).out() + settings_octets(*self),
//@at start
        hide(s_entry); hide(s_pre); hide(entries); hide(fh_octets); hide(read_entries);
        let ghost hd = fh_octets(FrameHeader { length: entries(*self).len() as u32, kind: Kind::Settings, flag: self.flags, id: StreamIdentifier(0) });
        proof { lens(*self); steps(dst.out() + hd, *self); assoc(dst.out(), hd, entries(*self)); }
//@end
}
proof fn mod6(b: Seq<u8>, acc: Settings)
    ensures b.len() % 6 != 0 ==> read_entries(b, acc) is None,
    decreases b.len()
{
    if b.len() >= 6 { match apply(acc, be(b.take(2)), be(b.skip(2).take(4)) as u32) { Some(a) => mod6(b.skip(6), a), None => {} } }
}
}
fn main() {}

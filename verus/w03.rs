//@include ws_frame.rs
//@include text_model.rs
//@globsub &\s*mut\s+dyn\s+BtMut => &mut impl Sink
//@globsub \bcrate\s*::\s*WebError => WebError
//@globsub match\s+\*\s*self => match self
//@globsub \(\s*ref\s+(\w+)\s*\) => (\1)
//@globsub &\s*(Some\b|None\b)(?=\s*(\(\s*\w+\s*\))?\s*=>) => \1
//@globsub \bOwnedMessage\s*::\s*from\b => OwnedMessage::from_message
//@globsub \bString\b => Text
//@globsub Cow\s*<\s*'a\s*,\s*\[\s*u8\s*\]\s*> => Cow<Vec<u8>, &'a [u8]>
//@globsub Cow\s*<\s*'a\s*,\s*str\s*> => Cow<Text, &'a Str>
//@globsub Into\s*<\s*Cow<Text, &'a Str>\s*> => IntoCowStr<'a>
verus! {
// ---- std::borrow::Cow ----
#[verifier::external_body]
pub fn from_utf8_lossy<'a>(s: &'a [u8]) -> (r: Cow<Text, &'a Str>)
    ensures utf8(s@) ==> r.bytes() == s@
{ unimplemented!() }
pub enum Cow<O, B> { Owned(O), Borrowed(B) }
impl<'a> Cow<Text, &'a Str> {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { Cow::Owned(t) => t.bytes(), Cow::Borrowed(s) => s.bytes() } }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Text) ensures r.bytes() == self.bytes() { unimplemented!() }
}
impl<'a> Cow<Vec<u8>, &'a [u8]> {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { Cow::Owned(t) => t@, Cow::Borrowed(s) => s@ } }
    // no Rust allocation is larger than isize::MAX octets
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), r <= isize::MAX { match self { Cow::Owned(t) => t.len(), Cow::Borrowed(s) => s.len() } }
    pub fn deref(&self) -> (r: &[u8]) ensures r@ == self.bytes() { match self { Cow::Owned(t) => t.as_slice(), Cow::Borrowed(s) => s } }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
}
pub trait IntoCowStr<'a>: Sized {
    spec fn sp_bytes(self) -> Seq<u8>;
    fn into(self) -> (r: Cow<Text, &'a Str>) ensures r.bytes() == self.sp_bytes();
}
impl<'a> IntoCowStr<'a> for Text { open spec fn sp_bytes(self) -> Seq<u8> { self.bytes() } fn into(self) -> (r: Cow<Text, &'a Str>) { Cow::Owned(self) } }
impl<'a> IntoCowStr<'a> for &'a Str { open spec fn sp_bytes(self) -> Seq<u8> { self.bytes() } fn into(self) -> (r: Cow<Text, &'a Str>) { Cow::Borrowed(self) } }
pub trait IntoCowBytes<'a>: Sized {
    spec fn sp_bytes(self) -> Seq<u8>;
    fn into(self) -> (r: Cow<Vec<u8>, &'a [u8]>) ensures r.bytes() == self.sp_bytes();
}
impl<'a> IntoCowBytes<'a> for Vec<u8> {
    open spec fn sp_bytes(self) -> Seq<u8> { self@ }
//@fn src/ws/message.rs | impl<'a> IntoCowBytes<'a> for Vec<u8> | into
//@end
}
impl<'a> IntoCowBytes<'a> for &'a [u8] {
    open spec fn sp_bytes(self) -> Seq<u8> { self@ }
//@fn src/ws/message.rs | impl<'a> IntoCowBytes<'a> for &'a [u8] | into
//@end
}
impl<'a> IntoCowBytes<'a> for Cow<Vec<u8>, &'a [u8]> {
    open spec fn sp_bytes(self) -> Seq<u8> { self.bytes() }
//@fn src/ws/message.rs | impl<'a> IntoCowBytes<'a> for Cow<'a,[u8]> | into
//@end
}
// ---- messages ----
//@item src/ws/message.rs | enum | Type | derive=Clone, Copy, PartialEq, Eq, Structural
//@item src/ws/message.rs | struct | Message
//@item src/ws/message.rs | struct | CloseData
//@item src/ws/message.rs | enum | OwnedMessage
pub open spec fn type_num(t: Type) -> u8 { match t { Type::Text => 1, Type::Binary => 2, Type::Ping => 9, Type::Pong => 10, Type::Close => 8 } }
pub open spec fn no_rsv() -> Seq<bool> { seq![false, false, false] }
pub open spec fn code_octets(c: Option<u16>) -> Seq<u8> { match c { Some(c) => be_bytes(c as nat, 2), None => Seq::empty() } }
//@item src/ws/message.rs | const | FALSE_RESERVED_BITS
//@sub \[\s*(true|false)\s*;\s*3\s*\] => [\1, \1, \1]
//@sub &\s*\[\s*bool => &'static [bool
impl<'a> Message<'a> {
//@fn src/ws/message.rs | impl<'a> Message<'a> | new
//@ret r
//@spec
        ensures r.opcode == code, r.cd_status_code == status, r.payload == payload,
//@end
//@fn src/ws/message.rs | impl<'a> Message<'a> | text
//@ret r
//@spec
        ensures r.opcode == Type::Text, r.cd_status_code is None, r.payload.bytes() == data.sp_bytes(),
//@end
//@fn src/ws/message.rs | impl<'a> Message<'a> | binary
//@ret r
//@spec
        ensures r.opcode == Type::Binary, r.cd_status_code is None, r.payload.bytes() == data.sp_bytes(),
//@end
//@fn src/ws/message.rs | impl<'a> Message<'a> | close
//@ret r
//@spec
        ensures r.opcode == Type::Close, r.cd_status_code is None, r.payload.bytes() == Seq::<u8>::empty(),
//@end
//@fn src/ws/message.rs | impl<'a> Message<'a> | close_because
//@ret r
//@spec
        ensures r.opcode == Type::Close, r.cd_status_code == Some(code), r.payload.bytes() == reason.sp_bytes(),
//@end
//@fn src/ws/message.rs | impl<'a> Message<'a> | ping
//@ret r
//@spec
        ensures r.opcode == Type::Ping, r.cd_status_code is None, r.payload.bytes() == data.sp_bytes(),
//@end
//@fn src/ws/message.rs | impl<'a> Message<'a> | pong
//@ret r
//@spec
        ensures r.opcode == Type::Pong, r.cd_status_code is None, r.payload.bytes() == data.sp_bytes(),
//@end
//@fn src/ws/message.rs | impl<'a> Message<'a> | into_pong
//@ret r
//@spec
        ensures r is Ok <==> old(self).opcode == Type::Ping, final(self).payload == old(self).payload, final(self).cd_status_code == old(self).cd_status_code,
            final(self).opcode == (if r is Ok { Type::Pong } else { old(self).opcode }),
//@end
}
impl<'a> DataFrameable for Message<'a> {
    open spec fn sp_last(&self) -> bool { true }
    open spec fn sp_op(&self) -> u8 { type_num(self.opcode) }
    open spec fn sp_rsv(&self) -> Seq<bool> { no_rsv() }
    open spec fn sp_payload(&self) -> Seq<u8> { code_octets(self.cd_status_code) + self.payload.bytes() }
//@fn src/ws/message.rs | impl<'a> DataFrameable for Message<'a> | is_last
//@end
//@fn src/ws/message.rs | impl<'a> DataFrameable for Message<'a> | opcode
//@end
//@fn src/ws/message.rs | impl<'a> DataFrameable for Message<'a> | reserved
//@at start
        proof { assert(FALSE_RESERVED_BITS@ =~= no_rsv()); }
//@end
//@fn src/ws/message.rs | impl<'a> DataFrameable for Message<'a> | size
//@at start
        proof { reveal_with_fuel(be_bytes, 3); }
//@end
//@fn src/ws/message.rs | impl<'a> DataFrameable for Message<'a> | write_payload
//@sub fn\s+write_payload\s*\( => fn write_payload<S: Sink>(
//@sub impl\s+Sink => S
//@sub &\s*\*\s*self\s*\.\s*payload => self.payload.deref()
//@end
//@fn src/ws/message.rs | impl<'a> DataFrameable for Message<'a> | take_payload
//@sub (\w+)\s*\.\s*put_u16\s*\( => Sink::put_u16(&mut \1, 
//@end
}

// <&[u8] as Bt>::try_get_u16 of algorithm
#[verifier::external_body]
pub fn slice_u16(s: &[u8]) -> (r: Result<u16, IoError>)
    ensures r is Ok <==> s@.len() >= 2, r is Ok ==> r->Ok_0 as nat == be(s@.take(2))
{ unimplemented!() }
// a capacity hint: only the allocation depends on it
#[verifier::external_body]
pub fn any_capacity() -> (r: usize) { 0 }
// [bool; 3] != [false; 3]
pub fn is_reserved(r: &[bool; 3]) -> (b: bool) ensures b == (r@ != no_rsv())
{ proof { assert(!r[0] && !r[1] && !r[2] ==> r@ =~= no_rsv()); } r[0] || r[1] || r[2] }
/// octets of all payloads, in order
pub open spec fn joined<D: DataFrameable>(f: Seq<D>) -> Seq<u8> decreases f.len() {
    if f.len() == 0 { Seq::empty() } else { joined(f.drop_last()) + f.last().sp_payload() }
}
/// the sequences of frames that are one message
pub open spec fn is_message<D: DataFrameable>(f: Seq<D>) -> bool {
    &&& f.len() > 0
    &&& forall|i: int| 0 < i < f.len() ==> (#[trigger] f[i]).sp_op() == 0
    &&& forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).sp_rsv() == no_rsv()
    &&& f[0].sp_op() == 1 || f[0].sp_op() == 2 || f[0].sp_op() == 8 || f[0].sp_op() == 9 || f[0].sp_op() == 10
    &&& f[0].sp_op() == 1 ==> utf8(joined(f))
    &&& f[0].sp_op() == 8 ==> joined(f).len() == 0 || (joined(f).len() >= 2 && utf8(joined(f).skip(2)))
}
impl<'a> Message<'a> {
//@fn src/ws/message.rs | impl<'a> Message<'a> | from_dataframes
//@sub std\s*::\s*str\s*::\s*from_utf8 => from_utf8
//@sub \|\s*_\s*\| => |_e|
//@sub \(\s*&\s*data\s*\[\s*\.\.\s*\]\s*\)\s*\.\s*try_get_u16\s*\(\s*\) => slice_u16(data.as_slice())
//@sub let\s+payload_size\s*=\s*frames\s*\.\s*iter\s*\(\s*\)\s*\.\s*map\s*\(\s*DataFrameable\s*::\s*size\s*\)\s*\.\s*sum\s*\(\s*\)\s*; => let payload_size = any_capacity();
//@sub \*\s*dataframe\s*\.\s*reserved\s*\(\s*\)\s*!=\s*\[\s*false\s*;\s*3\s*\] => is_reserved(dataframe.reserved())
//@ret r
//@spec
        ensures r is Ok <==> is_message(frames@), r is Ok ==> r->Ok_0.sp_op() == frames@[0].sp_op() && r->Ok_0.sp_payload() == joined(frames@)
            && (r->Ok_0.cd_status_code is Some ==> r->Ok_0.opcode == Type::Close)
            && (r->Ok_0.opcode == Type::Close && r->Ok_0.cd_status_code is None ==> r->Ok_0.payload.bytes().len() == 0)
            && ((r->Ok_0.opcode == Type::Text || r->Ok_0.cd_status_code is Some) ==> utf8(r->Ok_0.payload.bytes())),
//@loop 0
            invariant
                it0.seq() == frames0, i_n == it0.index@, frames0.len() <= usize::MAX,
                data@ =~= joined(frames0.take(it0.index@)),
                forall|j: int| 0 < j < it0.index@ ==> (#[trigger] frames0[j]).sp_op() == 0,
                forall|j: int| 0 <= j < it0.index@ ==> (#[trigger] frames0[j]).sp_rsv() == no_rsv(),
//@at start
        let ghost frames0 = frames@;
//@at before 0
        proof { assert(frames0.take(0) =~= Seq::empty()); }
//@at start 0
            proof { assert(frames0.take(it0.index@ + 1).drop_last() =~= frames0.take(it0.index@)); }
//@at after 0
        proof { assert(frames0.take(frames0.len() as int) =~= frames0);
            if data@.len() >= 2 { be_inverse2(data@.take(2)); assert(data@ =~= data@.take(2) + data@.skip(2)); } }
//@end
}

pub open spec fn owned_op(m: OwnedMessage) -> u8 {
    match m { OwnedMessage::Text(_) => 1, OwnedMessage::Binary(_) => 2, OwnedMessage::Close(_) => 8, OwnedMessage::Ping(_) => 9, OwnedMessage::Pong(_) => 10 }
}
pub open spec fn owned_payload(m: OwnedMessage) -> Seq<u8> {
    match m {
        OwnedMessage::Text(t) => t.bytes(), OwnedMessage::Binary(d) => d@, OwnedMessage::Ping(d) => d@, OwnedMessage::Pong(d) => d@,
        OwnedMessage::Close(None) => Seq::empty(),
        OwnedMessage::Close(Some(c)) => be_bytes(c.status_code as nat, 2) + c.reason.bytes() }
}
impl DataFrameable for OwnedMessage {
    open spec fn sp_last(&self) -> bool { true }
    open spec fn sp_op(&self) -> u8 { owned_op(*self) }
    open spec fn sp_rsv(&self) -> Seq<bool> { no_rsv() }
    open spec fn sp_payload(&self) -> Seq<u8> { owned_payload(*self) }
//@fn src/ws/message.rs | impl DataFrameable for OwnedMessage | is_last
//@end
//@fn src/ws/message.rs | impl DataFrameable for OwnedMessage | opcode
//@end
//@fn src/ws/message.rs | impl DataFrameable for OwnedMessage | reserved
//@at start
        proof { assert(FALSE_RESERVED_BITS@ =~= no_rsv()); }
//@end
//@fn src/ws/message.rs | impl DataFrameable for OwnedMessage | size
//@at start
        proof { reveal_with_fuel(be_bytes, 3); }
//@end
//@fn src/ws/message.rs | impl DataFrameable for OwnedMessage | write_payload
//@sub fn\s+write_payload\s*\( => fn write_payload<S: Sink>(
//@sub impl\s+Sink => S
//@at start
        proof { assert(old(socket).out() + Seq::<u8>::empty() =~= old(socket).out()); }
//@end
//@fn src/ws/message.rs | impl DataFrameable for OwnedMessage | take_payload
//@sub (\w+)\s*\.\s*put_u16\s*\( => Sink::put_u16(&mut \1, 
//@end
}
impl OwnedMessage {
//@fn src/ws/message.rs | impl<'m> From<Message<'m>> for OwnedMessage | from | as=from_message
//@sub Message\s*<\s*'m\s*> => Message<'_>
//@sub Text\s*::\s*from_utf8_lossy\s*\(\s*&\s*message\s*\.\s*payload\s*\) => from_utf8_lossy(message.payload.deref())
//@ret r
//@spec
        requires
            message.opcode == Type::Text ==> utf8(message.payload.bytes()), message.cd_status_code is Some ==> message.opcode == Type::Close && utf8(message.payload.bytes()),
            message.opcode == Type::Close && message.cd_status_code is None ==> message.payload.bytes().len() == 0,
        ensures owned_op(r) == message.sp_op(), owned_payload(r) == message.sp_payload(),
//@at start
        proof { assert(Seq::<u8>::empty() + message.payload.bytes() =~= message.payload.bytes()); reveal_with_fuel(be_bytes, 3); }
//@end
//@fn src/ws/message.rs | impl OwnedMessage | from_dataframes
//@sub Ok\s*\(\s*Message\s*::\s*from_dataframes\s*\(\s*frames\s*\)\s*\?\s*\.\s*into\s*\(\s*\)\s*\) => Ok(OwnedMessage::from_message(Message::from_dataframes(frames)?))
//@ret r
//@spec
        ensures r is Ok <==> is_message(frames@), r is Ok ==> owned_op(r->Ok_0) == frames@[0].sp_op() && owned_payload(r->Ok_0) == joined(frames@),
//@end
//@fn src/ws/message.rs | impl OwnedMessage | message_size
//@ret r
//@spec
        requires owned_payload(*self).len() + 14 <= usize::MAX,
        ensures r == hdr_size(owned_payload(*self).len(), masked) + owned_payload(*self).len(),
//@end
}
impl<'m> Message<'m> {
//@fn src/ws/message.rs | impl<'m> From<OwnedMessage> for Message<'m> | from | as=from_owned
//@ret r
//@spec
        ensures r.sp_op() == owned_op(message), r.sp_payload() == owned_payload(message),
//@at start
        proof { assert(forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) =~= s); }
//@end
}
impl CloseData {
//@fn src/ws/message.rs | impl CloseData | into_bytes
//@sub io\s*::\s*Result\s*<\s*Vec\s*<\s*u8\s*>\s*> => Result<Vec<u8>, IoError>
//@sub (\w+)\s*\.\s*put_u16\s*\( => Sink::put_u16(&mut \1, 
//@ret r
//@spec
        ensures r is Ok, r->Ok_0@ =~= be_bytes(self.status_code as nat, 2) + self.reason.bytes(),
//@loop 0
            invariant it0.seq().len() == self.reason.bytes().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.reason.bytes()[i],
                buf@ =~= be_bytes(self.status_code as nat, 2) + self.reason.bytes().take(it0.index@),
//@at after 0
        proof { assert(self.reason.bytes().take(self.reason.bytes().len() as int) =~= self.reason.bytes()); }
//@end
}
// ---- the property ----
/// the type and the payload octets of an owned message determine it
pub proof fn w03_determined(a: OwnedMessage, b: OwnedMessage)
    requires owned_op(a) == owned_op(b), owned_payload(a) == owned_payload(b),
    ensures match (a, b) {
        (OwnedMessage::Text(x), OwnedMessage::Text(y)) => x.bytes() == y.bytes(),
        (OwnedMessage::Binary(x), OwnedMessage::Binary(y)) => x@ == y@,
        (OwnedMessage::Ping(x), OwnedMessage::Ping(y)) => x@ == y@,
        (OwnedMessage::Pong(x), OwnedMessage::Pong(y)) => x@ == y@,
        (OwnedMessage::Close(None), OwnedMessage::Close(None)) => true,
        (OwnedMessage::Close(Some(x)), OwnedMessage::Close(Some(y))) => x.status_code == y.status_code && x.reason.bytes() == y.reason.bytes(),
        _ => false }
{
    match (a, b) {
        (OwnedMessage::Close(Some(x)), OwnedMessage::Close(Some(y))) => {
            be_bytes_len(x.status_code as nat, 2); be_bytes_len(y.status_code as nat, 2);
            assert(pow256(2) == 65536) by (compute);
            be_inverse(x.status_code as nat, 2); be_inverse(y.status_code as nat, 2);
            assert(owned_payload(a).take(2) =~= be_bytes(x.status_code as nat, 2)); assert(owned_payload(b).take(2) =~= be_bytes(y.status_code as nat, 2));
            assert(owned_payload(a).skip(2) =~= x.reason.bytes()); assert(owned_payload(b).skip(2) =~= y.reason.bytes());
        }
        (OwnedMessage::Close(Some(x)), OwnedMessage::Close(None)) => { be_bytes_len(x.status_code as nat, 2); assert(owned_payload(a).len() > 0); assert(false); }
        (OwnedMessage::Close(None), OwnedMessage::Close(Some(y))) => { be_bytes_len(y.status_code as nat, 2); assert(owned_payload(b).len() > 0); assert(false); }
        _ => {}
    }
}
/// a message whose octets are cut into fragments (any sizes, empty ones too) is put together again
pub proof fn w03_fragments<D: DataFrameable>(m: OwnedMessage, frames: Seq<D>)
    requires
        frames.len() > 0, joined(frames) == owned_payload(m), frames[0].sp_op() == owned_op(m),
        forall|i: int| 0 < i < frames.len() ==> (#[trigger] frames[i]).sp_op() == 0, forall|i: int| 0 <= i < frames.len() ==> (#[trigger] frames[i]).sp_rsv() == no_rsv(),
        m matches OwnedMessage::Text(t) ==> utf8(t.bytes()), m matches OwnedMessage::Close(Some(c)) ==> utf8(c.reason.bytes()),
    ensures is_message(frames),
{
    match m {
        OwnedMessage::Close(Some(c)) => { be_bytes_len(c.status_code as nat, 2); assert(owned_payload(m).skip(2) =~= c.reason.bytes()); }
        _ => {}
    }
}
/// one frame
pub proof fn w03_single<D: DataFrameable>(f: D)
    ensures joined(seq![f]) == f.sp_payload()
{
    reveal_with_fuel(joined, 2);
    assert(seq![f].drop_last() =~= Seq::empty());
    assert(Seq::<u8>::empty() + f.sp_payload() =~= f.sp_payload());
}
}
fn main() {}

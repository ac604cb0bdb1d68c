# what decides each property
def P(level="exploration", verus=(), **k):
    d = dict(level=level, verus=list(verus)); d.update(k); return d
PROPS = {i: P() for i in "W01 W02 W03 W04 F01 F02 F03 F04 F05 F06 F07 K01 K02 K03 K04 K05 K06 P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 U01 U02 U03".split()}
for _i in PROPS: PROPS[_i]["scale"] = {"P05": 6, "F07": 12, "K01": 12, "F04": 12}.get(_i, 20)
PROPS["K01"] = P("proof", ["k01"], scale=8)
PROPS["W01"].update(level="proof", verus=["w01"])
PROPS["W02"].update(level="proof", verus=["w02"])
PROPS["W03"].update(level="proof", verus=["w03"])
PROPS["F01"].update(level="proof", verus=["f01"])
# the dispatch over frame types: verified by itself, its callees' contracts are discharged by the checks of F02, F03, F05 and F07
def out(fns, clause): return dict(shallow=["frame_out"], scope=r"^(?!.*Frame<Binary>::(encode|stream_id|flags|is_))|Frame<Binary>::(%s)\b|Frame<Binary>::encode.*\[self is (%s)\b|Frame<Binary>::encode.*(precondition|ensures r is Ok)" % (fns, clause))
PROPS["F02"].update(level="proof", verus=["f02"], **out("stream_id", "Priority"))
PROPS["F05"].update(level="proof", verus=["f05"], **out("stream_id|flags|is_data|is_end_stream", "Data"))
PROPS["F03"].update(level="proof", verus=["f03"], **out("flags", "Settings"))
PROPS["W04"].update(level="proof", verus=["w04"], scope=r"impl Opcode|CloseCode|::is_\w+:|::opcode\b|^lemma")
PROPS["P05"].update(level="proof", verus=["hmap"], scope=r"^(?!.*(TryInto<|get_body_len))")
PROPS["P06"].update(level="proof", verus=["hmap"], scope=r"TryInto<[ui]size|get_body_len|is_digit|get_option_value|^lemma")
PROPS["K03"].update(level="proof", verus=["k03"], scope=r"HeaderIndex::|^lemma|static_table|STATIC_TABLE|EMPTY|bytes_len")
PROPS["K04"].update(level="proof", verus=["k04"], scope=r"get_from_index|find_header|static_|STATIC_|EMPTY|::eq\b|^lemma")
PROPS["K02"].update(level="proof", verus=["huff"])
PROPS["K06"].update(level="proof", verus=["k06"], scope=r"^(?!.*(find_header|STATIC_HASH|encode_integer)).*(Decoder|HuffmanDecoder|FieldRepresentation|HeaderIndex::|static_table|STATIC_TABLE|EMPTY|table_facts|^lemma)")
PROPS["K05"].update(level="proof", verus=["k05"], scope=r"^(?!.*(find_header|STATIC_HASH|get_from_index|decode|Decoder|FieldRep)).*(Encoder|HeaderIndex::|static_table|STATIC_TABLE|EMPTY|table_facts|low_facts|^lemma)")
PROPS["P07"].update(level="proof", verus=["chunk"], scope=r"chunk_data|parse_hex|skip_new_line|is_hex|ParseIntError|convert_hex|^lemma")
PROPS["P08"].update(level="proof", verus=["codes"])
PROPS["U01"].update(level="proof", verus=["url_codec"])
# a failed obligation decides a property only where its label names one of the functions the property is about;
# a failure elsewhere in the import closure makes the run undecided for this property (it decides its own property)
PROPS["P01"].update(level="proof", verus=["req"], scope=r"impl Helper::(?!parse_(hex|status|scheme))|Request.*::(is_|parse)|WebError|HeaderMap::(insert|push|get_host)|TryFrom<&str> for Method|From<&str> for Version|for Url::try_from|Url::parse|^lemma")
PROPS["P02"].update(level="proof", verus=["res"], scope=r"impl Helper::(?!parse_(hex|scheme))|Response.*::(is_|parse)|HeaderMap::(insert|push)|StatusCode::from_|StatusCode::try_from|From<&str> for Version|^lemma")
PROPS["P03"].update(level="proof", verus=["req"], scope=r"impl Helper::(?!parse_(hex|status|scheme))|Request.*::(is_partial|is_complete|parse\w*|encode_header|http1_data|serialize)\b|HeaderMap::(insert|push|get_host|encode)|Method::(as_str|encode)|for Method|Version::(as_str|encode)|for Version|Url(?!.*::merge)|Serialize for|Header(Name|Value)\b(?!.*TryInto)|^lemma")
PROPS["P04"].update(level="proof", verus=["res"], scope=r"impl Helper::(?!parse_(hex|scheme))|Response.*::(is_partial|parse\w*|encode_header|serialize)\b|HeaderMap::(insert|push|encode)|StatusCode::(?!is_)|canonical_reason|CODE_DIGITS|Version::(as_str|encode)|for Version|Serialize for|Header(Name|Value)\b(?!.*TryInto)|^lemma")
PROPS["P10"].update(level="proof", verus=["hmap"], shallow=["req", "res", "urlb"], scope=r"impl (Builder|Parts|Request<\(\)>|Response<\(\)>)::|Default for (Builder|Parts)|Request<T>.*::(?!is_partial|is_complete|parse|encode_header|http1_data|serialize)|Response<T>.*::(?!is_partial|parse|encode_header|serialize)|HeaderMap::(insert|get_body_len)|lemma_pos")
PROPS["P09"].update(level="proof", verus=["h1g"], scope=r"impl Helper::|^lemma")
PROPS["U02"].update(level="proof", verus=["urlt"], scope=r"^(?!.*::merge).*(Url|Scheme|Helper::parse_(token|scheme)|^lemma)")
PROPS["U03"].update(level="proof", verus=["url"], scope=r"impl Url::(merge|new)|Default for Url|const impl Url")
PROPS["F04"].update(level="proof", verus=["frame"], scope=r"^(?!.*(encode|Encoder|lemma|thm)).*(overflow|underflow|precondition|decreases|terminat|unreachable|divi)")
PROPS["F06"].update(level="proof", verus=["frame"], scope=r"trim_padding|Frame.*::parse.*pad_read|^lemma")
PROPS["F07"].update(level="proof", verus=["h2_roundtrip"], shallow=["frame_out"], scope=r"Frame<Binary>::(stream_id|flags|is_)|Frame<Binary>::encode.*\[self is Headers|Headers::|Parts::|HeaderBlock|encode_header|Frame.*::parse.*Kind::Headers|^lemma")
# what the level means for each property (MANIFEST level_note)
NOTES = {
"W01": "write_header, read_header and the header size are proved against the RFC 6455 layout for every header and every input; assumed: contracts of algorithm::buf readers/writers",
"W02": "Masker, mask_data, DataFrame read/write and the limit are proved for every key, payload and cut; assumed: buffer contracts, zip/cycle iterator contract",
"W03": "Message/OwnedMessage framing and reassembly are proved for every message and fragment sequence; assumed: buffer contracts, UTF-8 validity of String/from_utf8 of std",
"W04": "tables and predicates are proved for every opcode and every 16-bit code; the derive'd `as u8' discriminants are those of the source text",
"F01": "FrameHeader::parse/encode, Kind, Flag and StreamIdentifier proved for every header and octet string; stream ids up to 2^31-1 (precondition)",
"F02": "encode, head and parse of the five frames proved for every field value and payload",
"F03": "Settings parse/encode and the HTTP2-Settings value proved for every settings and payload; assumed: base64 of the base64 crate is injective (decode after encode is the identity)",
"F04": "every panic, overflow, slice and loop obligation of Frame::parse and of all it calls is discharged for all headers, payloads and decoder states; the obligations of contracts not about totality decide other properties",
"F05": "Data::encode proved for every body and every maximum frame size >= 1 (0 loops, documented)",
"F06": "trim_padding and the padding clause of Frame::parse proved for every frame; known finding: DATA padding of n > 0 octets stays in the delivered payload",
"F07": "header-block encoding, the split into HEADERS and CONTINUATION, HEADERS parsing, the list size limit and the write/read round trip proved for every field list and every maximum frame size >= 16",
"K01": "encode_integer_into and decode_integer proved for every value, prefix width and octet string, with the round-trip lemma",
"K02": "code table checked against RFC 7541 appendix B by computation; encoder and decoder loops proved for every string; assumed: HashMap contract for the lazy_static table",
"K03": "table invariant and eviction proved for every history (each operation keeps it and refines the RFC 7541 section 4 function)",
"K04": "static table, index space and search proved for every index and field; assumed: HashMap contract for the lazy_static hash",
"K05": "encoder contracts and decoder contracts compose into lemmas by induction over any history of lists and size changes; lock operations of Arc<RwLock<..>> are dropped by the extraction (no concurrent access)",
"K06": "Decoder::decode* proved to agree with an RFC 7541 decoding function, for every octet string and table state",
"P01": "all of Helper's parsers, Request::parse and the URL parser it calls proved against a grammar of the head; prefix and locality lemmas for every head and every cut",
"P02": "as P01, for Response::parse",
"P03": "encode_header/http1_data and Request::parse proved, composed into the round-trip theorem for every request with legal parts (legal = the grammar of P01)",
"P04": "encode_header and Response::parse proved, composed into the round-trip theorem for every response with legal parts",
"P05": "every HeaderMap operation proved against an association list; eq and Hash of HeaderName/HeaderValue against ASCII case folding",
"P06": "conversions proved for every octet string against the decimal number it spells",
"P07": "parse and encode of chunks proved for every data and input, with prefix lemmas; assumed: contract of usize::from_str_radix",
"P08": "tables proved entry by entry from the source text (exhaustive by computation), conversions for every text and number",
"P09": "P01/P02 contracts imply it: legality lemmas over every accepted head",
"P10": "every builder step and accessor proved against a record of the parts (closures of and_then/map are opened mechanically); the conversions and header map contracts they use are discharged by P05, P08, U02; from_req, extensions and clone are decided by the monitor only",
"U01": "url_encode/url_decode/escape proved for every text, with the inverse lemma; assumed: String::from_utf8_lossy contract (identity on UTF-8)",
"U02": "Url::parse proved against a grammar for every octet string; Display/get_authority/get_connect_url proved, composed into the write/parse theorem for every URL with legal components",
"U03": "Url::merge proved for every pair of URLs",
}
for _i in PROPS: PROPS[_i]["note"] = NOTES[_i]
NA = [("X01", "the extension map is a HashMap<TypeId, Box<dyn Any + Send + Sync>>: Verus has no model of TypeId or dyn Any downcasts, and a bounded model checker can only fix a handful of concrete types, so no contract over `any types' can be stated or discharged")]

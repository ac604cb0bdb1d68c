//@include w03.rs
//@globsub match\s+\*\s*self => match self
verus! {
//@item src/ws/message.rs | enum | CloseCode | derive=Clone, Copy, PartialEq, Eq, Structural
use CloseCode::*;
// RFC 6455 section 7.4.1 and the IANA registry
pub open spec fn registered(n: u16) -> Option<CloseCode> {
    if n == 1000 { Some(CloseCode::Normal) } else if n == 1001 { Some(CloseCode::Away) } else if n == 1002 { Some(CloseCode::Protocol) }
    else if n == 1003 { Some(CloseCode::Unsupported) } else if n == 1005 { Some(CloseCode::Status) } else if n == 1006 { Some(CloseCode::Abnormal) }
    else if n == 1007 { Some(CloseCode::Invalid) } else if n == 1008 { Some(CloseCode::Policy) } else if n == 1009 { Some(CloseCode::Size) }
    else if n == 1010 { Some(CloseCode::Extension) } else if n == 1011 { Some(CloseCode::Error) } else if n == 1012 { Some(CloseCode::Restart) }
    else if n == 1013 { Some(CloseCode::Again) } else if n == 1015 { Some(CloseCode::Tls) } else if n == 0 { Some(CloseCode::Empty) } else { None }
}
pub open spec fn code_of(n: u16) -> CloseCode { match registered(n) { Some(c) => c, None => CloseCode::Other(n) } }
pub open spec fn num_of(c: CloseCode) -> u16 {
    match c { CloseCode::Normal => 1000, CloseCode::Away => 1001, CloseCode::Protocol => 1002, CloseCode::Unsupported => 1003, CloseCode::Status => 1005,
        CloseCode::Abnormal => 1006, CloseCode::Invalid => 1007, CloseCode::Policy => 1008, CloseCode::Size => 1009, CloseCode::Extension => 1010,
        CloseCode::Error => 1011, CloseCode::Restart => 1012, CloseCode::Again => 1013, CloseCode::Tls => 1015, CloseCode::Empty => 0, CloseCode::Other(n) => n }
}
impl CloseCode {
//@fn src/ws/message.rs | impl Into<u16> for CloseCode | into | as=to_u16
//@ret r
//@spec
        ensures r == num_of(self),
//@end
//@fn src/ws/message.rs | impl From<u16> for CloseCode | from | as=from_u16
//@ret r
//@spec
        ensures r == code_of(code),
//@end
}
pub proof fn w04_codes(n: u16)
    ensures num_of(code_of(n)) == n
{}
pub open spec fn is_ctl(m: OwnedMessage) -> bool { m is Close || m is Ping || m is Pong }
impl OwnedMessage {
//@fn src/ws/message.rs | impl OwnedMessage | is_close
//@ret r
//@spec
        ensures r == (self is Close),
//@end
//@fn src/ws/message.rs | impl OwnedMessage | is_control
//@ret r
//@spec
        ensures r == is_ctl(*self), r == (owned_op(*self) >= 8),
//@end
//@fn src/ws/message.rs | impl OwnedMessage | is_data
//@ret r
//@spec
        ensures r == !is_ctl(*self),
//@end
//@fn src/ws/message.rs | impl OwnedMessage | is_ping
//@ret r
//@spec
        ensures r == (self is Ping),
//@end
//@fn src/ws/message.rs | impl OwnedMessage | is_pong
//@ret r
//@spec
        ensures r == (self is Pong),
//@end
}
impl DataFrame {
//@fn src/ws/dataframe.rs | impl DataFrameable for DataFrame | opcode | as=opcode_number
//@ret r
//@spec
        ensures r == op_num(self.opcode),
//@end
}
}
fn main() {}

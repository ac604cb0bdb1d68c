//@import k03.rs
//@globsub Arc<RwLock<HeaderIndex>> => HeaderIndex
verus! {
//@item src/http/http2/hpack/encoder.rs | struct | Encoder
//@sub \bEncoder\b => HEncoder
}
fn main() {}

use crate::core::*;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(crate::ws::props());
    v.extend(crate::h2::props());
    v.extend(crate::hpack::props());
    v.extend(crate::http::props());
    v.extend(crate::url::props());
    v
}

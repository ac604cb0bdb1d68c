//@import url.rs
//@strings
//@globsub &'static\s+str\b => &'static Str
//@globsub &\s*str\b => &Str
//@globsub \bString\b => Text
//@globsub \bcrate\s*::\s*(WebError|HttpError|UrlError)\b => \1
verus! {
// what Scheme: TryFrom<T> and T: Into<String> give for the types they are implemented for
pub trait TryScheme: Sized {
    spec fn sc(self) -> Option<Option<Seq<u8>>>;
    fn try_scheme(self) -> (r: WebResult<Scheme>) ensures match self.sc() { Some(s) => r is Ok && sb(r->Ok_0) == s, None => r is Err };
}
pub open spec fn fresh_url() -> UrlV { UrlV { scheme: None, path: seq![47u8], user: None, pass: None, host: None, port: None, query: None } }
impl TryScheme for &Str { open spec fn sc(self) -> Option<Option<Seq<u8>>> { if self.bytes().len() > 64 { None } else { Some(Some(self.bytes())) } } fn try_scheme(self) -> (r: WebResult<Scheme>) { Scheme::try_from(self) } }
impl TryScheme for Scheme { open spec fn sc(self) -> Option<Option<Seq<u8>>> { Some(sb(self)) } fn try_scheme(self) -> (r: WebResult<Scheme>) { Ok(self) } }
pub trait IntoText: Sized {
    spec fn tx(self) -> Seq<u8>;
    fn into_text(self) -> (r: Text) ensures r.bytes() == self.tx();
}
impl IntoText for Text { open spec fn tx(self) -> Seq<u8> { self.bytes() } fn into_text(self) -> (r: Text) { self } }
impl IntoText for &Str { open spec fn tx(self) -> Seq<u8> { self.bytes() } fn into_text(self) -> (r: Text) { self.to_string() } }
pub mod url_builder {
use super::*;
//@item src/url/builder.rs | struct | Builder
impl Builder {
//@fn src/url/builder.rs | impl Builder | new
//@ret r
//@spec
        ensures r.inner is Ok && r.inner->Ok_0.v() == fresh_url()
//@end
//@fn src/url/builder.rs | impl Default for Builder | default
//@ret r
//@spec
        ensures r.inner is Ok && r.inner->Ok_0.v() == fresh_url()
//@end
//@fn src/url/builder.rs | impl Builder | scheme
//@ret r
//@mustsub self\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+inner\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut inner = h__; \1 } } } }
//@sub Scheme\s*:\s*TryFrom\s*<\s*T\s*>\s*, => T: TryScheme,
//@sub <\s*Scheme\s+as\s+TryFrom\s*<\s*T\s*>\s*>\s*::\s*Error\s*:\s*Into\s*<\s*(?:crate\s*::\s*)?WebError\s*>\s*,? =>
//@sub scheme\.try_into\(\)\.map_err\(\s*Into\s*::\s*into\s*\)\? => (match scheme.try_scheme() { Ok(v__) => v__, Err(e__) => return Builder { inner: Err(e__) } })
//@spec
        ensures match (self.inner, scheme.sc()) { (Ok(u), Some(s)) => r.inner is Ok && r.inner->Ok_0.v() == (UrlV { scheme: s, ..u.v() }), _ => r.inner is Err }
//@end
//@fn src/url/builder.rs | impl Builder | username
//@ret r
//@mustsub self\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+inner\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut inner = h__; \1 } } } }
//@spec
        ensures match self.inner { Ok(u) => r.inner == Ok::<Url, WebError>(Url { username: Some(username), ..u }), Err(e) => r.inner == Err::<Url, WebError>(e) }
//@end
//@fn src/url/builder.rs | impl Builder | password
//@ret r
//@mustsub self\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+inner\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut inner = h__; \1 } } } }
//@spec
        ensures match self.inner { Ok(u) => r.inner == Ok::<Url, WebError>(Url { password: Some(password), ..u }), Err(e) => r.inner == Err::<Url, WebError>(e) }
//@end
//@fn src/url/builder.rs | impl Builder | query
//@ret r
//@mustsub self\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+inner\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut inner = h__; \1 } } } }
//@spec
        ensures match self.inner { Ok(u) => r.inner == Ok::<Url, WebError>(Url { query: Some(query), ..u }), Err(e) => r.inner == Err::<Url, WebError>(e) }
//@end
//@fn src/url/builder.rs | impl Builder | port
//@ret r
//@mustsub self\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+inner\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut inner = h__; \1 } } } }
//@spec
        ensures match self.inner { Ok(u) => r.inner == Ok::<Url, WebError>(Url { port: Some(port), ..u }), Err(e) => r.inner == Err::<Url, WebError>(e) }
//@end
//@fn src/url/builder.rs | impl Builder | path
//@ret r
//@mustsub self\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+inner\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut inner = h__; \1 } } } }
//@spec
        ensures match self.inner { Ok(u) => r.inner == Ok::<Url, WebError>(Url { path: path, ..u }), Err(e) => r.inner == Err::<Url, WebError>(e) }
//@end
//@fn src/url/builder.rs | impl Builder | domain
//@ret r
//@mustsub self\s*\.\s*map\s*\(\s*move\s*\|\s*mut\s+inner\s*\|\s*\{((?:.|\n)*)\}\s*\)\s*\}\s*$ => Builder { inner: match self.inner { Err(e__) => Err(e__), Ok(h__) => { let mut inner = h__; \1 } } } }
//@sub T\s*:\s*Into\s*<\s*Text\s*> => T: IntoText
//@sub domain\.into\(\) => domain.into_text()
//@spec
        ensures match self.inner { Ok(u) => r.inner is Ok && r.inner->Ok_0.v() == (UrlV { host: Some(domain.tx()), ..u.v() }), Err(e) => r.inner == Err::<Url, WebError>(e) }
//@end
//@fn src/url/builder.rs | impl Builder | map
//@ret r
//@sub self\s*\.\s*inner\s*\.\s*and_then\s*\(\s*func\s*\) => (match self.inner { Ok(v__) => func(v__), Err(e__) => Err(e__) })
//@spec
        requires self.inner is Ok ==> func.requires((self.inner->Ok_0,))
        ensures match self.inner { Ok(p) => func.ensures((p,), r.inner), Err(e) => r.inner == Err::<Url, WebError>(e) }
//@end
//@fn src/url/builder.rs | impl Builder | build
//@ret r
//@spec
        ensures r == self.inner
//@end
}
}
}
fn main() {}

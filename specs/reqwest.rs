//@include prelude.rs
// The reqwest adapters: the request that is built, and how the response is read.
// `Response::of` is the request a response answers; `Builder` is what reqwest is asked to send.
verus! {
//@known get get_range into_result stream header headers bytes_stream send error_for_status_ref to_str text clone from_str to_string
//@subst "Box::new" "vx_same"
//@subst "reqwest::Error" "Error"
//@subst "reqwest::Response" "Response"
//@subst "String" "VxStr"
//@subst "u64::from_str" "vx_parse_u64"
//@subst "u64::from_str_radix" "vx_parse_radix"
//@subst "header::CONTENT_LENGTH" "VX_CONTENT_LENGTH"
//@subst "header::CONTENT_TYPE" "VX_CONTENT_TYPE"
//@subst "header::RANGE" "VX_RANGE"
//@method to_string vx_to_string
//@method parse vx_parse
//@method unwrap_or_default vx_unwrap_or_default
/// a string, only its characters matter
pub struct VxStr { pub s: Ghost<Seq<char>> }
/// the decimal digits of a number
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c }) }
pub trait VxDisplay { spec fn shown(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: VxStr) ensures r.s@ == self.shown(); }
impl VxDisplay for u64 {
    open spec fn shown(&self) -> Seq<char> { dec(*self as int) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: VxStr) { unimplemented!() }
}
impl VxDisplay for VxStr {
    open spec fn shown(&self) -> Seq<char> { self.s@ }
    fn vx_to_string(&self) -> (r: VxStr) { VxStr { s: self.s } }
}
pub fn vx_display<T: VxDisplay>(t: &T) -> (r: VxStr) ensures r.s@ == t.shown() { t.vx_to_string() }
pub fn vx_lit(t: &str) -> (r: VxStr) ensures r.s@ == t@ { VxStr { s: Ghost(t@) } }
pub fn vx_concat(a: VxStr, b: VxStr) -> (r: VxStr) ensures r.s@ == a.s@ + b.s@ { VxStr { s: Ghost(a.s@ + b.s@) } }
pub trait VxDefault { fn vx_unwrap_or_default(self) -> VxStr; }
impl VxDefault for Option<VxStr> {
    fn vx_unwrap_or_default(self) -> (r: VxStr)
        ensures match self { Some(s) => r == s, None => r.s@ == Seq::<char>::empty() } { match self { Some(s) => s, None => VxStr { s: Ghost(Seq::empty()) } } }
}
/// u64::from_str
pub uninterp spec fn number(s: Seq<char>) -> Option<u64>;
pub struct ParseIntError { }
#[verifier::external_body]
pub fn vx_parse_u64(s: &str) -> (r: core::result::Result<u64, ParseIntError>)
    ensures match r { Ok(n) => number(s@) == Some(n), Err(_) => number(s@) is None } { unimplemented!() }
pub trait VxParse { fn vx_parse(&self) -> core::result::Result<u64, ParseIntError>; }
impl VxParse for str {
    fn vx_parse(&self) -> (r: core::result::Result<u64, ParseIntError>)
        ensures match r { Ok(n) => number(self@) == Some(n), Err(_) => number(self@) is None } { vx_parse_u64(self) }
}
pub struct Url { pub id: u64 }
impl Url { pub fn clone(&self) -> (r: Url) ensures r == *self { Url { id: self.id } } }
pub struct ToStrError { }
pub struct HeaderValue { pub x: u8 }
impl HeaderValue {
    /// the value as text, if it is visible ASCII
    pub uninterp spec fn txt(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: core::result::Result<&str, ToStrError>)
        ensures match r { Ok(s) => self.txt() == Some(s@), Err(_) => self.txt() is None } { unimplemented!() }
}
pub struct HeaderMap { pub x: u8 }
impl HeaderMap {
    /// header names are looked up without regard to case
    pub uninterp spec fn raw(&self, name: Seq<char>) -> Option<HeaderValue>;
    #[verifier::external_body]
    pub fn get(&self, key: &str) -> (r: Option<&HeaderValue>)
        ensures match r { Some(v) => self.raw(lower(key@)) == Some(*v), None => self.raw(lower(key@)) is None } { unimplemented!() }
    pub fn clone(&self) -> (r: HeaderMap) ensures r == *self { HeaderMap { x: self.x } }
    pub open spec fn val(&self, name: Seq<char>) -> Option<Seq<char>> { match self.raw(lower(name)) { Some(v) => v.txt(), None => None } }
}
pub struct Error { pub code: u16 }
pub struct Body { pub of: Ghost<Response> }
/// status codes 400..=599 are errors (redirects are followed by reqwest)
pub struct Response { pub status: u16, pub h: HeaderMap, pub of: Ghost<Builder> }
impl Response {
    pub open spec fn is_error(&self) -> bool { 400 <= self.status < 600 }
    pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.h { &self.h }
    pub fn status(&self) -> (r: StatusCode) ensures r.c == self.status { StatusCode { c: self.status } }
    #[verifier::external_body]
    pub fn error_for_status_ref(&self) -> (r: core::result::Result<&Response, Error>)
        ensures r is Err <==> self.is_error(), r is Ok ==> *r->Ok_0 == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_stream(self) -> (r: Body) ensures r.of@ == self { unimplemented!() }
}
pub struct StatusCode { pub c: u16 }
impl StatusCode {
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= self.c < 500) { 400 <= self.c && self.c < 500 }
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= self.c < 600) { 500 <= self.c && self.c < 600 }
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.c < 300) { 200 <= self.c && self.c < 300 }
}
/// a GET request under construction: only the URL and the extra headers
pub ghost struct Builder { pub url: Url, pub extra: Seq<(Seq<char>, Seq<char>)> }
pub struct RequestBuilder { pub b: Ghost<Builder> }
impl RequestBuilder {
    #[verifier::external_body]
    pub fn header(self, name: &str, value: VxStr) -> (r: RequestBuilder)
        ensures r.b@ == (Builder { url: self.b@.url, extra: self.b@.extra.push((lower(name@), value.s@)) }) { unimplemented!() }
    /// the answer is to the request as built
    #[verifier::external_body]
    pub fn send(self) -> (r: core::result::Result<Response, Error>)
        ensures r is Ok ==> r->Ok_0.of@ == self.b@ { unimplemented!() }
}
pub struct Client { pub x: u8 }
impl Client {
    #[verifier::external_body]
    pub fn get(&self, url: Url) -> (r: RequestBuilder) ensures r.b@ == (Builder { url, extra: Seq::empty() }) { unimplemented!() }
}
pub struct ClientWithMiddleware { pub x: u8 }
impl ClientWithMiddleware {
    #[verifier::external_body]
    pub fn get(&self, url: Url) -> (r: RequestBuilder) ensures r.b@ == (Builder { url, extra: Seq::empty() }) { unimplemented!() }
}
pub open spec fn range_value(start: u64, end: Option<u64>) -> Seq<char> {
    "bytes="@ + dec(start as int) + "-"@ + match end { Some(e) => dec(e as int), None => Seq::empty() }
}
pub open spec fn range_request(url: Url, start: u64, end: Option<u64>) -> Builder {
    Builder { url, extra: seq![(lower("Range"@), range_value(start, end))] }
}
pub exec const VX_CONTENT_LENGTH: &'static str ensures VX_CONTENT_LENGTH@ == "content-length"@ { "content-length" }
pub exec const VX_CONTENT_TYPE: &'static str ensures VX_CONTENT_TYPE@ == "content-type"@ { "content-type" }
pub exec const VX_RANGE: &'static str ensures VX_RANGE@ == "range"@ { "range" }
//@struct file=http/reqwest_client.rs name=FetchError
//@fn file=http/mod.rs fn=format_range_header_bytes props=C10
//@sig fn format_range_header_bytes(start: u64, end: Option<u64>) -> (r: VxStr)
    ensures r.s@ =~= range_value(start, end), // #C10 bytes=start-end, or bytes=start- without an end
//@end
//@fn file=http/reqwest_client.rs fn=get_header_str props=C10,C11
//@sig fn get_header_str<'a>(headers: &'a HeaderMap, key: &str) -> (r: Option<&'a str>)
    ensures match r { Some(s) => headers.val(key@) == Some(s@), None => headers.val(key@) is None }, // #C10,C11 the header's text, none if absent or not text
//@end
impl HeaderMap {
//@fn file=http/reqwest_client.rs impl="ResponseHeaders for HeaderMap" fn=header props=C10,C11
//@sig fn header(&self, name: &str) -> (r: Option<&str>)
    ensures match r { Some(s) => self.val(name@) == Some(s@), None => self.val(name@) is None }, // #C10,C11
//@end
}
impl Response {
//@fn file=http/reqwest_client.rs impl="ClientResponse for Response" fn=content_length props=C11
//@sig fn content_length(&self) -> (r: Option<u64>)
    ensures r == match self.h.val("content-length"@) { Some(s) => number(s), None => None }, // #C11 exactly the header's number
//@entry
proof { reveal_strlit("content-length"); }
//@end
//@fn file=http/reqwest_client.rs impl="ClientResponse for Response" fn=content_type props=C11
//@sig fn content_type(&self) -> (r: Option<&str>)
    ensures match r { Some(s) => self.h.val("content-type"@) == Some(s@), None => self.h.val("content-type"@) is None }, // #C11
//@end
//@fn file=http/reqwest_client.rs impl="ClientResponse for Response" fn=headers props=C10,C11
//@sig fn get_headers(&self) -> (r: HeaderMap)
    ensures r == self.h, // #C10,C11
//@end
//@fn file=http/reqwest_client.rs impl="ClientResponse for Response" fn=into_result props=C11
//@sig fn into_result(self) -> (r: core::result::Result<Response, FetchError>)
    ensures r is Err <==> self.is_error(), // #C11 an error status is an error
        r is Ok ==> r->Ok_0 == self, // #C11
//@end
//@fn file=http/reqwest_client.rs impl="ClientResponse for Response" fn=stream props=C11
//@sig fn stream(self) -> (r: Body)
    ensures r.of@ == self, // #C11 the stream is this response's body
//@end
}
impl Client {
//@fn file=http/reqwest_client.rs impl="Client for Client" fn=get props=C10,C11
//@sig fn http_get(&self, url: &Url) -> (r: core::result::Result<Response, Error>)
    ensures r is Ok ==> r->Ok_0.of@ == (Builder { url: *url, extra: Seq::empty() }), // #C10,C11 a plain GET
//@end
//@fn file=http/reqwest_client.rs impl="Client for Client" fn=get_range props=C10
//@sig fn http_get_range(&self, url: &Url, start: u64, end: Option<u64>) -> (r: core::result::Result<Response, Error>)
    ensures r is Ok ==> r->Ok_0.of@ == range_request(*url, start, end), // #C10 one GET with exactly this Range header
//@end
}
impl ClientWithMiddleware {
//@fn file=http/reqwest_middleware_client.rs impl="Client for ClientWithMiddleware" fn=get props=C10,C11
//@sig fn http_get(&self, url: &Url) -> (r: core::result::Result<Response, Error>)
    ensures r is Ok ==> r->Ok_0.of@ == (Builder { url: *url, extra: Seq::empty() }), // #C10,C11 a plain GET
//@end
//@fn file=http/reqwest_middleware_client.rs impl="Client for ClientWithMiddleware" fn=get_range props=C10
//@sig fn http_get_range(&self, url: &Url, start: u64, end: Option<u64>) -> (r: core::result::Result<Response, Error>)
    ensures r is Ok ==> r->Ok_0.of@ == range_request(*url, start, end), // #C10 one GET with exactly this Range header
//@end
}
} // verus!

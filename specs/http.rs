//@include prelude.rs
//@include wrap.rs
// HttpStream over an arbitrary Client: what is requested, and what becomes the stream.
// `log` is the history of requests a client has sent; every response knows which request it answers.
verus! {
//@known get get_range into_result stream header headers content_length content_type decode_error parse ty subty to_string clone create empty poll_next seek_range
//@subst "Box::new" "vx_same"
//@subst "Pin::new" "vx_same"
//@subst "futures_util::stream::empty" "vx_empty_body"
//@subst "stream::empty" "vx_empty_body"
//@subst "String" "VxStr"
//@subst "Box<dyn Stream<Item = Result<Bytes, <<C as Client>::Response as ClientResponse>::StreamError>> + Unpin + Send + Sync,>" "Body"
//@method parse vx_parse_media
//@method to_string vx_to_string
pub struct Instant { pub n: u64 }
pub struct Duration { pub n: u64 }
impl Instant {
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) { unimplemented!() }
    #[verifier::external_body]
    pub fn now() -> (r: Instant) { unimplemented!() }
}
/// a string, only its characters matter
pub struct VxStr { pub s: Ghost<Seq<char>> }
pub trait VxToString { spec fn chars(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: VxStr) ensures r.s@ == self.chars(); }
pub struct VxText { pub s: Ghost<Seq<char>> }
impl VxToString for VxText {
    open spec fn chars(&self) -> Seq<char> { self.s@ }
    fn vx_to_string(&self) -> (r: VxStr) { VxStr { s: self.s } }
}
/// what the HTTP library's media type parser says about a header value: type and subtype, or malformed
pub uninterp spec fn media(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
pub struct MediaTypeBuf { pub t: Ghost<Seq<char>>, pub st: Ghost<Seq<char>> }
impl MediaTypeBuf {
    pub fn ty(&self) -> (r: VxText) ensures r.s@ == self.t@ { VxText { s: self.t } }
    pub fn subty(&self) -> (r: VxText) ensures r.s@ == self.st@ { VxText { s: self.st } }
}
pub struct ParseError { }
pub trait VxParse { fn vx_parse_media(&self) -> core::result::Result<MediaTypeBuf, ParseError>; }
impl VxParse for str {
    #[verifier::external_body]
    fn vx_parse_media(&self) -> (r: core::result::Result<MediaTypeBuf, ParseError>)
        ensures match r { Ok(m) => media(self@) == Some((m.t@, m.st@)), Err(_) => media(self@) is None } { unimplemented!() }
}

pub enum Req<U> { Get(U), Range(U, u64, Option<u64>) }
/// the content a stream delivers: nothing, the rest of a response's body, or that of a stream made elsewhere
pub enum Body { Empty, Of(Ghost<int>), Other(Ghost<int>) }
pub struct Item { pub x: u8 }
pub struct Context { pub x: u8 }
/// waking has no effect on the data
pub struct Waker { pub x: u8 }
impl Waker { pub fn wake_by_ref(&self) { } pub fn wake(self) { } pub fn clone(&self) -> Waker { Waker { x: self.x } } }
impl Context { pub fn waker(&self) -> Waker { Waker { x: 0 } } }
pub enum Poll<T> { Ready(T), Pending }
impl Body {
    pub uninterp spec fn polled(pre: Body, post: Body, r: Poll<Option<Item>>) -> bool;
    #[verifier::external_body]
    pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Item>>)
        ensures Body::polled(*old(self), *final(self), r) { unimplemented!() }
}
pub fn vx_empty_body() -> (r: Body) ensures r == Body::Empty { Body::Empty }
pub trait ResponseHeaders: Sized {
    spec fn val(&self, name: Seq<char>) -> Option<Seq<char>>;
    fn header(&self, name: &str) -> (r: Option<&str>)
        ensures r is Some == self.val(name@) is Some, r is Some ==> r->Some_0@ == self.val(name@)->Some_0;
}
pub trait DecodeError: Sized {
    fn decode_error(self) -> VxText;
    fn vx_to_string(&self) -> VxText;
}
pub trait ClientResponse: Sized {
    type ResponseError: DecodeError;
    type Headers: ResponseHeaders;
    /// which request this is the answer to
    spec fn nr(&self) -> int;
    /// a success status
    spec fn good(&self) -> bool;
    spec fn len(&self) -> Option<u64>;
    spec fn ctype(&self) -> Option<Seq<char>>;
    spec fn hdrs(&self) -> Self::Headers;
    fn content_length(&self) -> (r: Option<u64>) ensures r == self.len();
    fn content_type(&self) -> (r: Option<&str>) ensures r is Some == self.ctype() is Some, r is Some ==> r->Some_0@ == self.ctype()->Some_0;
    fn headers(&self) -> (r: Self::Headers) ensures r == self.hdrs();
    fn into_result(self) -> (r: core::result::Result<Self, Self::ResponseError>) ensures r is Ok <==> self.good(), r is Ok ==> r->Ok_0 == self;
    fn stream(self) -> (r: Body)
        requires self.good(), // #C11 the body of an error response never becomes content
        ensures r == Body::Of(Ghost(self.nr()));
}
pub trait Client: Sized {
    type Url;
    type Headers: ResponseHeaders;
    type Response: ClientResponse<Headers = Self::Headers>;
    type Error: DecodeError;
    spec fn log(&self) -> Seq<Req<Self::Url>>;
    /// the response to request number n, if there was one
    spec fn resp(&self, n: int) -> Option<Self::Response>;
    spec fn created(&self) -> bool;
    fn create() -> (r: Self) ensures r.created();
    fn get(&mut self, url: &Self::Url) -> (r: core::result::Result<Self::Response, Self::Error>)
        ensures final(self).log() == old(self).log().push(Req::Get(*url)), old(self).created() ==> final(self).created(),
            match r { Ok(p) => p.nr() == old(self).log().len() && final(self).resp(p.nr()) == Some(p), Err(_) => final(self).resp(old(self).log().len() as int) is None };
    fn get_range(&mut self, url: &Self::Url, start: u64, end: Option<u64>) -> (r: core::result::Result<Self::Response, Self::Error>)
        ensures final(self).log() == old(self).log().push(Req::Range(*url, start, end)), old(self).created() ==> final(self).created(),
            match r { Ok(p) => p.nr() == old(self).log().len() && final(self).resp(p.nr()) == Some(p), Err(_) => final(self).resp(old(self).log().len() as int) is None };
}
//@struct file=http/mod.rs name=ContentType
//@enum file=http/mod.rs name=HttpStreamError generics="<C: Client>"
//@struct file=http/mod.rs name=HttpStream generics="<C: Client>"
impl<C: Client> HttpStream<C> {
    /// the n-th request was answered with a success
    pub open spec fn ok_nr(&self, n: int) -> bool { self.client.resp(n) is Some && self.client.resp(n)->Some_0.good() }
    pub open spec fn ranges(&self) -> bool { self.headers.val("Accept-Ranges"@) is Some && self.headers.val("Accept-Ranges"@)->Some_0 != "none"@ }
    pub open spec fn same(&self, o: Self) -> bool { self.content_length == o.content_length && self.content_type == o.content_type && self.url == o.url && self.headers == o.headers }
    pub open spec fn seek_to(&self, start: u64, end: Option<u64>, o: Self, r: io::Result<()>) -> bool {
        let n = o.client.log().len() as int;
        if o.content_length == Some(start) {
            r is Ok && self.stream == Body::Empty && self.client == o.client // at the end: nothing is sent, the stream is empty
        } else {
            let last = match end { Some(e) => Some((e - 1) as u64), None => None };
            &&& self.client.log() == o.client.log().push(Req::Range(o.url, start, last)) // one request for exactly these bytes
            &&& r is Ok <==> self.ok_nr(n)
            &&& self.stream == if r is Ok { Body::Of(Ghost(n)) } else { o.stream } // its body is the content; on failure nothing changes
        }
    }
}
impl<C: Client> HttpStream<C> {
//@fn file=http/mod.rs impl=HttpStream fn=new props=C11
//@sig fn new(mut client: C, url: C::Url) -> (r: core::result::Result<Self, HttpStreamError<C>>)
    ensures
        r is Ok ==> r->Ok_0.client.log() == client.log().push(Req::Get(r->Ok_0.url)) && r->Ok_0.url == url, // #C11 the resource is requested
        r is Ok ==> r->Ok_0.ok_nr(client.log().len() as int), // #C11 only a success becomes a stream
        r is Ok ==> r->Ok_0.stream == Body::Of(Ghost(client.log().len() as int)), // #C11 its body is the content
        r is Ok ==> r->Ok_0.content_length == r->Ok_0.client.resp(client.log().len() as int)->Some_0.len(), // #C11 the content length is the response's
        r is Ok ==> ({
            let t = r->Ok_0.client.resp(client.log().len() as int)->Some_0.ctype();
            match r->Ok_0.content_type {
                Some(c) => t is Some && media(t->Some_0) == Some((c.r#type.s@, c.subtype.s@)),
                None => t is None || media(t->Some_0) is None,
            }
        }), // #C11 the content type is the parsed header, none only when absent or malformed
        r is Ok ==> r->Ok_0.headers == r->Ok_0.client.resp(client.log().len() as int)->Some_0.hdrs(), // #C11
        client.created() && r is Ok ==> r->Ok_0.client.created(),
//@end
//@fn file=http/mod.rs impl=HttpStream fn=content_type props=C11
//@sig fn content_type(&self) -> (r: &Option<ContentType>)
    ensures *r == self.content_type, // #C11
//@end
//@fn file=http/mod.rs impl=HttpStream fn=header props=C10,C11
//@sig fn header(&self, name: &str) -> (r: Option<&str>)
    ensures r is Some == self.headers.val(name@) is Some, r is Some ==> r->Some_0@ == self.headers.val(name@)->Some_0, // #C10,C11
//@end
//@fn file=http/mod.rs impl=HttpStream fn=headers props=C11
//@sig fn headers(&self) -> (r: &C::Headers)
    ensures *r == self.headers, // #C11
//@end
//@fn file=http/mod.rs impl=HttpStream fn=supports_range_request props=C10
//@sig fn supports_range_request(&self) -> (r: bool)
    ensures r == self.ranges(), // #C10 range support is advertised unless the header is absent or "none"
//@end
//@fn file=http/mod.rs impl="Stream for HttpStream" fn=poll_next props=C11
//@sig fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Item>>)
    ensures Body::polled(old(self).stream, final(self).stream, r), // #C11 delivers the items of the current response's body, nothing else
        final(self).same(*old(self)) && final(self).client == old(self).client,
//@end
//@fn file=http/mod.rs impl="SourceStream for HttpStream" fn=create props=C11
//@sig fn create(params: C::Url) -> (r: core::result::Result<Self, HttpStreamError<C>>)
    ensures r is Ok ==> r->Ok_0.client.created() && r->Ok_0.url == params, // #C11
//@end
//@fn file=http/mod.rs impl="SourceStream for HttpStream" fn=content_length props=C11
//@sig fn content_length(&self) -> (r: Option<u64>)
    ensures r == self.content_length, // #C11
//@end
//@fn file=http/mod.rs impl="SourceStream for HttpStream" fn=seek_range props=C10,C11
//@sig fn seek_range(&mut self, start: u64, end: Option<u64>) -> (r: io::Result<()>)
    requires end is Some ==> start < end->Some_0 || old(self).content_length == Some(start), // checked of the caller in unit source
    ensures
        final(self).seek_to(start, end, *old(self), r), // #C10,C11 exactly the wanted bytes are requested, only a success replaces the stream
        final(self).same(*old(self)),
//@end
//@fn file=http/mod.rs impl="SourceStream for HttpStream" fn=reconnect props=C10,C11
//@sig fn reconnect(&mut self, current_position: u64) -> (r: io::Result<()>)
    ensures
        old(self).ranges() ==> final(self).seek_to(current_position, None, *old(self), r), // #C10,C11 resumes at the current position
        !old(self).ranges() ==> ({
            let n = old(self).client.log().len() as int;
            &&& final(self).client.log() == old(self).client.log().push(Req::Get(old(self).url))
            &&& r is Ok <==> final(self).ok_nr(n)
            &&& final(self).stream == if r is Ok { Body::Of(Ghost(n)) } else { old(self).stream }
        }), // #C10,C11 without range support the resource is requested again
        final(self).same(*old(self)),
//@end
//@fn file=http/mod.rs impl="SourceStream for HttpStream" fn=supports_seek props=C10
//@sig fn supports_seek(&self) -> (r: bool)
    ensures r, // #C10
//@end
}
} // verus!

//@include prelude.rs
// OpendalStream: which part of the object it reads, and that every byte of it is handed over in order.
verus! {
//@known VxFrom new stat content_length content_type reader into_futures_async_read compat clone seek_range create as_deref capacity reserve split freeze with_capacity poll_read_buf get project
//@subst "opendal::Error" "OdError"
//@subst "self.as_mut().project()" "self.project()"
//@subst "vx_self.as_mut().project()" "vx_self.project()"
//@subst "ToString::to_string" "vx_to_string"
//@subst "Into::into" "vx_io_error"
//@subst "io::Error::from" "vx_io_error"
//@method into vx_into
//@method clone vx_clone
//@method as_deref vx_as_deref
//@method get get
pub trait WrapIoResult: Sized {
    spec fn wrapped(self, r: Self) -> bool;
    fn wrap_err<M>(self, msg: M) -> (r: Self) ensures self.wrapped(r);
}
impl<T> WrapIoResult for io::Result<T> {
    open spec fn wrapped(self, r: Self) -> bool {
        match self { Ok(v) => r == Ok::<T, io::Error>(v), Err(e) => r is Err && r->Err_0.k == e.k }
    }
//@fn file=crates/stream-download-opendal/src/lib.rs impl="WrapIoResult for Result" fn=wrap_err props=C19 id=opendal::wrap_err nopub=1
//@sig fn wrap_err<M>(self, msg: M) -> (r: Self)
//@end
}
pub trait VxInto<T: View>: Sized { spec fn to(&self) -> T::V; fn vx_into(self) -> (r: T) ensures r@ == self.to(); }
pub trait VxDeref { fn vx_as_deref(&self) -> Option<&str>; }
impl VxDeref for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) ensures match (*self, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub struct OdError { pub x: u64 }
#[verifier::external_body]
pub fn vx_io_error(e: OdError) -> (r: io::Error) { unimplemented!() }
/// what the service says about an object: its bytes (which do not change), its type
pub struct ObjV { pub bytes: Seq<u8>, pub ctype: Option<Seq<char>> }
pub struct Operator { pub x: u64 }
pub struct Metadata { pub o: Ghost<ObjV> }
impl Operator {
    pub uninterp spec fn obj(&self, path: Seq<char>) -> ObjV;
    #[verifier::external_body]
    pub fn stat(&self, path: &String) -> (r: core::result::Result<Metadata, OdError>) ensures r is Ok ==> r->Ok_0.o@ == self.obj(path@) { unimplemented!() }
    #[verifier::external_body]
    pub fn reader(&self, path: &String) -> (r: core::result::Result<Reader, OdError>) ensures r is Ok ==> r->Ok_0.o@ == self.obj(path@) { unimplemented!() }
}
impl Metadata {
    #[verifier::external_body]
    pub fn content_length(&self) -> (r: u64) ensures r == self.o@.bytes.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn content_type(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.o@.ctype == Some(t@), None => self.o@.ctype is None } { unimplemented!() }
}
pub struct VxFull { }
pub struct VxFrom { pub start: u64 }
pub struct VxTo { pub end: u64 }
pub trait VxBounds { spec fn lo(&self) -> int; spec fn hi(&self) -> Option<int>; }
impl VxBounds for VxFull { open spec fn lo(&self) -> int { 0 } open spec fn hi(&self) -> Option<int> { None } }
impl VxBounds for VxFrom { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self) -> Option<int> { None } }
impl VxBounds for VxTo { open spec fn lo(&self) -> int { 0 } open spec fn hi(&self) -> Option<int> { Some(self.end as int) } }
impl VxBounds for core::ops::Range<u64> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self) -> Option<int> { Some(self.end as int) } }
pub struct Reader { pub o: Ghost<ObjV> }
/// delivers the bytes [at, end) of the object in order, to the object's end if there is no end
pub struct FuturesAsyncReader { pub o: Ghost<ObjV>, pub at: Ghost<int>, pub end: Ghost<Option<int>> }
pub struct Compat<T> { pub i: T }
impl Reader {
    pub fn vx_clone(&self) -> (r: Reader) ensures r == *self { Reader { o: self.o } }
    #[verifier::external_body]
    pub fn into_futures_async_read<R: VxBounds>(self, range: R) -> (r: core::result::Result<FuturesAsyncReader, OdError>)
        ensures r is Ok ==> r->Ok_0.o == self.o && r->Ok_0.at@ == range.lo() && r->Ok_0.end@ == range.hi() { unimplemented!() }
}
impl FuturesAsyncReader { pub fn compat(self) -> (r: Compat<FuturesAsyncReader>) ensures r.i == self { Compat { i: self } } }
impl Compat<FuturesAsyncReader> {
    pub open spec fn stop(&self) -> int { match self.i.end@ { Some(e) if e < self.i.o@.bytes.len() => e, _ => self.i.o@.bytes.len() as int } }
    /// the bytes still to come
    pub open spec fn rest(&self) -> Seq<u8> { if 0 <= self.i.at@ <= self.stop() { self.i.o@.bytes.subrange(self.i.at@, self.stop()) } else { Seq::empty() } }
}
pub struct Bytes { pub b: Ghost<Seq<u8>> }
pub struct BytesMut { pub b: Ghost<Seq<u8>>, pub c: usize }
impl BytesMut {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r.b@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r.b@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.b@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self).b == old(self).b { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).b@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: BytesMut) ensures r.b == old(self).b, final(self).b@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut) requires n <= old(self).b@.len() ensures r.b@ == old(self).b@.take(n as int), final(self).b@ == old(self).b@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self).b@ == (if n < old(self).b@.len() { old(self).b@.take(n as int) } else { old(self).b@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r.b == self.b { unimplemented!() }
}
pub struct Context { pub x: u8 }
/// waking has no effect on the data
pub struct Waker { pub x: u8 }
impl Waker { pub fn wake_by_ref(&self) { } pub fn wake(self) { } pub fn clone(&self) -> Waker { Waker { x: self.x } } }
impl Context { pub fn waker(&self) -> Waker { Waker { x: 0 } } }
pub enum Poll<T> { Ready(T), Pending }
/// appends some of the reader's next bytes to the buffer; 0 only at the end
#[verifier::external_body]
pub fn poll_read_buf(io: &mut Compat<FuturesAsyncReader>, cx: &mut Context, buf: &mut BytesMut) -> (r: Poll<io::Result<usize>>)
    ensures
        final(io).i.o == old(io).i.o && final(io).i.end == old(io).i.end,
        match r {
            Poll::Ready(Ok(n)) => n <= old(io).rest().len() && final(buf).b@ == old(buf).b@ + old(io).rest().take(n as int) && final(io).i.at@ == old(io).i.at@ + n && (n == 0 ==> old(io).rest().len() == 0),
            _ => *final(io) == *old(io) && final(buf).b == old(buf).b,
        } { unimplemented!() }
//@struct file=crates/stream-download-opendal/src/lib.rs name=OpendalStreamParams
//@struct file=crates/stream-download-opendal/src/lib.rs name=OpendalStream
//@struct file=crates/stream-download-opendal/src/lib.rs name=Error
impl From<OdError> for Error { #[verifier::external_body] fn from(e: OdError) -> Error { Error(e) } }
/// pin-project-lite's projection: a mutable reference to every field
pub struct Projection<'a> {
    pub async_reader: &'a mut Compat<FuturesAsyncReader>,
    pub reader: &'a mut Reader,
    pub buf: &'a mut BytesMut,
    pub capacity: &'a mut usize,
    pub content_length: &'a mut Option<u64>,
    pub content_type: &'a mut Option<String>,
}
impl OpendalStream {
    pub fn project(&mut self) -> (r: Projection<'_>)
        ensures *r.async_reader == old(self).async_reader, *r.reader == old(self).reader, *r.buf == old(self).buf, *r.capacity == old(self).capacity, *r.content_length == old(self).content_length, *r.content_type == old(self).content_type,
            *final(self) == (OpendalStream { async_reader: *final(r.async_reader), reader: *final(r.reader), buf: *final(r.buf), capacity: *final(r.capacity), content_length: *final(r.content_length), content_type: *final(r.content_type) }),
    {
        Projection { async_reader: &mut self.async_reader, reader: &mut self.reader, buf: &mut self.buf, capacity: &mut self.capacity, content_length: &mut self.content_length, content_type: &mut self.content_type }
    }
    /// nothing is held back, and the reader is one over the object
    pub open spec fn wf(&self) -> bool { self.buf.b@.len() == 0 && self.async_reader.i.o == self.reader.o }
    pub open spec fn same_but_reader(&self, o: Self) -> bool { self.reader == o.reader && self.capacity == o.capacity && self.content_length == o.content_length && self.content_type == o.content_type && self.buf == o.buf }
    pub open spec fn obj(&self) -> ObjV { self.reader.o@ }
    /// delivers [start, end), or everything from start
    pub open spec fn serves(&self, start: int, end: Option<int>) -> bool { self.async_reader.i.o == self.reader.o && self.async_reader.i.at@ == start && self.async_reader.i.end@ == end }
}
impl OpendalStreamParams {
//@fn file=crates/stream-download-opendal/src/lib.rs impl=OpendalStreamParams fn=new id=OpendalStreamParams::new props=C19
//@sig fn new<S: VxInto<String>>(operator: Operator, path: S) -> (r: OpendalStreamParams)
    ensures r.operator == operator && r.path@ == path.to() && r.chunk_size > 0, // #C19
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl=OpendalStreamParams fn=chunk_size id=OpendalStreamParams::chunk_size props=C19
//@sig fn chunk_size(self, chunk_size: NonZeroUsize) -> (r: OpendalStreamParams)
    ensures r.operator == self.operator && r.path == self.path && r.chunk_size == chunk_size.v, // #C19
//@end
}
impl OpendalStream {
//@fn file=crates/stream-download-opendal/src/lib.rs impl=OpendalStream fn=new id=OpendalStream::new props=C19
//@sig fn new(params: OpendalStreamParams) -> (r: core::result::Result<OpendalStream, Error>)
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.obj() == params.operator.obj(params.path@) && r->Ok_0.serves(0, None), // #C19 everything from the start
        r is Ok ==> r->Ok_0.content_length == (if r->Ok_0.obj().bytes.len() == 0 { None::<u64> } else { Some(r->Ok_0.obj().bytes.len() as u64) }), // #C19 the object's length, none when zero
        r is Ok ==> match r->Ok_0.content_type { Some(t) => r->Ok_0.obj().ctype == Some(t@), None => r->Ok_0.obj().ctype is None }, // #C19
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl=OpendalStream fn=content_type id=OpendalStream::content_type props=C19
//@sig fn content_type(&self) -> (r: Option<&str>)
    ensures match (self.content_type, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }, // #C19
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl="SourceStream for OpendalStream" fn=create id=OpendalStream::create props=C19
//@sig fn create(params: OpendalStreamParams) -> (r: core::result::Result<OpendalStream, Error>)
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.obj() == params.operator.obj(params.path@) && r->Ok_0.serves(0, None), // #C19
        r is Ok ==> r->Ok_0.content_length == (if r->Ok_0.obj().bytes.len() == 0 { None::<u64> } else { Some(r->Ok_0.obj().bytes.len() as u64) }), // #C19
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl="SourceStream for OpendalStream" fn=content_length id=OpendalStream::content_length props=C19
//@sig fn content_length(&self) -> (r: Option<u64>)
    ensures r == self.content_length, // #C19
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl="SourceStream for OpendalStream" fn=supports_seek id=OpendalStream::supports_seek props=C19
//@sig fn supports_seek(&self) -> (r: bool)
    ensures r, // #C19 seekable
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl="SourceStream for OpendalStream" fn=seek_range id=OpendalStream::seek_range props=C19
//@sig fn seek_range(&mut self, start: u64, end: Option<u64>) -> (r: io::Result<()>)
    requires old(self).wf(),
    ensures
        final(self).same_but_reader(*old(self)) && final(self).wf(),
        r is Err ==> *final(self) == *old(self), // #C19 a failed seek leaves the stream where it was
        r is Ok ==> final(self).serves(start as int, match end { Some(e) => Some(e as int), None => None }), // #C19 exactly [start, end)
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl="SourceStream for OpendalStream" fn=reconnect id=OpendalStream::reconnect props=C19
//@sig fn reconnect(&mut self, current_position: u64) -> (r: io::Result<()>)
    requires old(self).wf(),
    ensures
        final(self).same_but_reader(*old(self)) && final(self).wf(),
        r is Err ==> *final(self) == *old(self), // #C19
        r is Ok ==> final(self).serves(current_position as int, None), // #C19 everything from the current position
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl="Stream for OpendalStream" fn=poll_next id=OpendalStream::poll_next props=C19
//@sig fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<io::Result<Bytes>>>)
    requires old(self).wf(),
    ensures
        final(self).wf() && final(self).reader == old(self).reader && final(self).content_length == old(self).content_length && final(self).async_reader.i.end == old(self).async_reader.i.end, // #C19 nothing held back
        match r {
            Poll::Ready(Some(Ok(b))) => 0 < b.b@.len() <= old(self).async_reader.rest().len() && b.b@ =~= old(self).async_reader.rest().take(b.b@.len() as int)
                && final(self).async_reader.i.at@ == old(self).async_reader.i.at@ + b.b@.len(),
            Poll::Ready(None) => old(self).async_reader.rest().len() == 0,
            _ => final(self).async_reader == old(self).async_reader,
        }, // #C19 the next bytes of the object, all of them, in order; the end only at the end
//@end
}
} // verus!

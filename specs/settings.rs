//@include prelude.rs
// Settings builders, and how StreamDownload::from_create_stream wires everything together.
verus! {
//@known create_stream content_length max_capacity into_reader_writer new source_handle download clone cancel cancelled create from_create_stream from_secs get default
//@subst "Box::new" "vx_same"
//@subst "ProgressFn<S>" "ProgressCb<S>"
//@subst "ReconnectFn<S>" "ReconnectCb<S>"
//@subst "tokio::spawn" "vx_spawn"
pub struct Duration { pub n: u64 }
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.ms() == 1000 * s { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> (r: Duration) ensures r.ms() == s { unimplemented!() }
    pub uninterp spec fn ms(&self) -> int;
}
pub trait SourceStream: Sized {
    type StreamCreationError;
    type Params;
    spec fn created(params: Self::Params, r: core::result::Result<Self, Self::StreamCreationError>) -> bool;
    fn create(params: Self::Params) -> (r: core::result::Result<Self, Self::StreamCreationError>) ensures Self::created(params, r);
    spec fn len(&self) -> Option<u64>;
    fn content_length(&self) -> (r: Option<u64>) ensures r == self.len();
}
pub struct ProgressCb<S> { pub id: int, pub s: Option<S> }
pub struct ReconnectCb<S> { pub id: int, pub s: Option<S> }
//@struct file=settings.rs name=Settings generics="<S>"
impl<S> Settings<S> {
//@fn file=settings.rs impl="Default for Settings" fn=default props=C17
//@sig fn default() -> (r: Self)
    ensures r.prefetch_bytes == 262144 && r.batch_write_size == 4096 && r.retry_timeout.ms() == 5000 && r.cancel_on_drop && r.on_progress is None && r.on_reconnect is None, // #C17 the documented defaults
//@end
//@fn file=settings.rs impl=Settings fn=prefetch_bytes props=C17
//@sig fn prefetch_bytes(self, prefetch_bytes: u64) -> (r: Self)
    ensures r == (Settings { prefetch_bytes, ..self }), // #C17 sets exactly this option
//@end
//@fn file=settings.rs impl=Settings fn=batch_write_size props=C17
//@sig fn batch_write_size(self, batch_write_size: NonZeroUsize) -> (r: Self)
    ensures r == (Settings { batch_write_size: batch_write_size.v, ..self }), // #C17 sets exactly this option
//@end
//@fn file=settings.rs impl=Settings fn=retry_timeout props=C17
//@sig fn retry_timeout(self, retry_timeout: Duration) -> (r: Self)
    ensures r == (Settings { retry_timeout, ..self }), // #C17 sets exactly this option
//@end
//@fn file=settings.rs impl=Settings fn=cancel_on_drop props=C17
//@sig fn cancel_on_drop(self, cancel_on_drop: bool) -> (r: Self)
    ensures r == (Settings { cancel_on_drop, ..self }), // #C17 sets exactly this option
//@end
//@fn file=settings.rs impl=Settings fn=on_progress props=C17
//@sig fn on_progress(self, f: ProgressCb<S>) -> (r: Self)
    ensures r == (Settings { on_progress: Some(f), ..self }), // #C17 sets exactly this option
//@end
//@fn file=settings.rs impl=Settings fn=on_reconnect props=C17
//@sig fn on_reconnect(self, f: ReconnectCb<S>) -> (r: Self)
    ensures r == (Settings { on_reconnect: Some(f), ..self }), // #C17 sets exactly this option
//@end
//@fn file=settings.rs impl=Settings fn=get_prefetch_bytes props=C17
//@sig fn get_prefetch_bytes(&self) -> (r: u64)
    ensures r == self.prefetch_bytes, // #C17
//@end
//@fn file=settings.rs impl=Settings fn=get_write_batch_size props=C17
//@sig fn get_write_batch_size(&self) -> (r: usize)
    ensures r == self.batch_write_size, // #C17
//@end
}

// ---------------------------------------------------------------- wiring
//@fn file=storage/mod.rs impl="default for StorageProvider" fn=max_capacity id=default_max_capacity props=C08
//@sig fn default_max_capacity() -> (r: Option<usize>)
    ensures r is None, // #C08 a storage declares no capacity unless it says so
//@end
pub trait StorageProvider: Sized {
    type Reader;
    type Writer;
    spec fn cap(&self) -> Option<usize>;
    spec fn irw_rel(pre: Self, content_length: Option<u64>, r: io::Result<(Self::Reader, Self::Writer)>) -> bool;
    fn max_capacity(&self) -> (r: Option<usize>) ensures r == self.cap();
    fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(Self::Reader, Self::Writer)>)
        ensures Self::irw_rel(self, content_length, r);
}
pub trait CreateStream<S: SourceStream>: Sized {
    spec fn made(&self, r: core::result::Result<S, S::StreamCreationError>) -> bool;
    fn vx_call0(self) -> (r: core::result::Result<S, S::StreamCreationError>) ensures self.made(r);
}
/// `move || S::create(params)` and `move || future::ready(Ok(stream))`
pub struct VxCreate<S: SourceStream> { pub params: S::Params }
impl<S: SourceStream> CreateStream<S> for VxCreate<S> {
    open spec fn made(&self, r: core::result::Result<S, S::StreamCreationError>) -> bool { S::created(self.params, r) }
    fn vx_call0(self) -> (r: core::result::Result<S, S::StreamCreationError>) { S::create(self.params) }
}
pub struct VxReady<S: SourceStream> { pub stream: S }
impl<S: SourceStream> CreateStream<S> for VxReady<S> {
    open spec fn made(&self, r: core::result::Result<S, S::StreamCreationError>) -> bool { r == Ok::<S, S::StreamCreationError>(self.stream) }
    fn vx_call0(self) -> (r: core::result::Result<S, S::StreamCreationError>) { Ok(self.stream) }
}
pub enum StreamInitializationError<S: SourceStream> { StorageCreationFailure(io::Error), StreamCreationFailure(S::StreamCreationError) }
pub struct CancellationToken { pub id: u64 }
impl CancellationToken {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn cancel(&self) { unimplemented!() }
    /// this token was cancelled
    pub uninterp spec fn fired(&self) -> bool;
    #[verifier::external_body]
    pub fn cancelled(&self) ensures self.fired() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_cancelled(&self) -> (r: bool) ensures r ==> self.fired() { unimplemented!() }
}
//@struct file=lib.rs name=StreamHandle
impl StreamHandle {
//@fn file=lib.rs impl=StreamHandle fn=wait_for_completion props=C09
//@sig fn wait_for_completion(self)
    ensures self.finished.fired(), // #C09 returns only once the download was cancelled or has ended
//@end
}
pub struct SourceHandle { pub id: u64, pub content_length: Option<u64> }
/// Source::new and its handle are verified in unit `source`
pub struct Source<S, W> { pub s: Option<S>, pub w: W, pub content_length: Option<u64>, pub settings: Settings<S>, pub token: CancellationToken, pub id: u64 }
impl<S: SourceStream, W> Source<S, W> {
    pub uninterp spec fn started(s: S, w: W, content_length: Option<u64>, settings: Settings<S>, token: CancellationToken, id: u64) -> bool;
    #[verifier::external_body]
    pub fn new(writer: W, content_length: Option<u64>, settings: Settings<S>, token: CancellationToken) -> (r: Self)
        ensures r.w == writer && r.content_length == content_length && r.settings == settings && r.token == token { unimplemented!() }
    #[verifier::external_body]
    pub fn source_handle(&self) -> (r: SourceHandle) ensures r.id == self.id && r.content_length == self.content_length { unimplemented!() }
    /// the background task is started with this stream
    #[verifier::external_body]
    pub fn download(&mut self, stream: S)
        ensures Self::started(stream, old(self).w, old(self).content_length, old(self).settings, old(self).token, old(self).id) { unimplemented!() }
}
pub fn vx_spawn<T>(t: T) { }
// the sources of the convenience constructors; their own contracts are in units http, process, opendal
pub struct Url { pub id: u64 }
pub struct ReqwestClient { pub id: u64 }
pub struct ClientWithMiddleware { pub id: u64 }
pub struct HttpStream<C> { pub id: u64, pub c: Option<C> }
pub struct AsyncReadStream<T> { pub id: u64, pub t: Option<T> }
pub struct AsyncReadStreamParams<T> { pub id: u64, pub t: Option<T> }
pub struct ProcessStream { pub id: u64 }
pub struct ProcessStreamParams { pub id: u64 }
pub struct OpendalStream { pub id: u64 }
pub struct OpendalStreamParams { pub id: u64 }
pub struct VxCreationError { pub id: u64 }
impl<C> SourceStream for HttpStream<C> {
    type StreamCreationError = VxCreationError;
    type Params = Url;
    uninterp spec fn created(params: Self::Params, r: core::result::Result<Self, Self::StreamCreationError>) -> bool;
    #[verifier::external_body]
    fn create(params: Self::Params) -> (r: core::result::Result<Self, Self::StreamCreationError>) { unimplemented!() }
    uninterp spec fn len(&self) -> Option<u64>;
    #[verifier::external_body]
    fn content_length(&self) -> (r: Option<u64>) { unimplemented!() }
}
impl<T> SourceStream for AsyncReadStream<T> {
    type StreamCreationError = VxCreationError;
    type Params = AsyncReadStreamParams<T>;
    uninterp spec fn created(params: Self::Params, r: core::result::Result<Self, Self::StreamCreationError>) -> bool;
    #[verifier::external_body]
    fn create(params: Self::Params) -> (r: core::result::Result<Self, Self::StreamCreationError>) { unimplemented!() }
    uninterp spec fn len(&self) -> Option<u64>;
    #[verifier::external_body]
    fn content_length(&self) -> (r: Option<u64>) { unimplemented!() }
}
impl SourceStream for ProcessStream {
    type StreamCreationError = VxCreationError;
    type Params = ProcessStreamParams;
    uninterp spec fn created(params: Self::Params, r: core::result::Result<Self, Self::StreamCreationError>) -> bool;
    #[verifier::external_body]
    fn create(params: Self::Params) -> (r: core::result::Result<Self, Self::StreamCreationError>) { unimplemented!() }
    uninterp spec fn len(&self) -> Option<u64>;
    #[verifier::external_body]
    fn content_length(&self) -> (r: Option<u64>) { unimplemented!() }
}
impl SourceStream for OpendalStream {
    type StreamCreationError = VxCreationError;
    type Params = OpendalStreamParams;
    uninterp spec fn created(params: Self::Params, r: core::result::Result<Self, Self::StreamCreationError>) -> bool;
    #[verifier::external_body]
    fn create(params: Self::Params) -> (r: core::result::Result<Self, Self::StreamCreationError>) { unimplemented!() }
    uninterp spec fn len(&self) -> Option<u64>;
    #[verifier::external_body]
    fn content_length(&self) -> (r: Option<u64>) { unimplemented!() }
}
// the extension trait of the opendal crate: its method is checked as a function of StreamDownload
//@struct file=lib.rs name=StreamDownload generics="<P: StorageProvider>"
impl<P: StorageProvider> StreamDownload<P> {
    /// reader and task share one storage created for the true content length, one handle and one
    /// token; the task gets all settings; the declared capacity is the one checked; creation fails
    /// only with the error of the stream or of the storage
    pub open spec fn wired<S: SourceStream, F: CreateStream<S>>(create_stream: F, storage_provider: P, settings: Settings<S>, r: core::result::Result<Self, StreamInitializationError<S>>) -> bool {
        match r {
            Ok(d) => {
                &&& d.storage_capacity == storage_provider.cap()
                &&& d.cancel_on_drop == settings.cancel_on_drop
                &&& exists|s: S, w: P::Writer, cl: Option<u64>, st: Settings<S>, tok: CancellationToken, id: u64| {
                    &&& #[trigger] Source::<S, P::Writer>::started(s, w, cl, st, tok, id)
                    &&& create_stream.made(Ok::<S, S::StreamCreationError>(s))
                    &&& cl == s.len() && d.content_length == cl && d.handle.content_length == cl
                    &&& P::irw_rel(storage_provider, cl, Ok::<(P::Reader, P::Writer), io::Error>((d.output_reader, w)))
                    &&& st == settings && tok == d.download_task_cancellation_token && id == d.handle.id
                }
            }
            Err(StreamInitializationError::StreamCreationFailure(e)) => create_stream.made(Err::<S, S::StreamCreationError>(e)),
            Err(StreamInitializationError::StorageCreationFailure(e)) => exists|l: Option<u64>| #[trigger] P::irw_rel(storage_provider, l, Err::<(P::Reader, P::Writer), io::Error>(e)),
        }
    }
//@fn file=lib.rs impl=StreamDownload fn=new props=C17,C09,C13,C08
//@subst "move || S::create(params)" "VxCreate { params }"
//@sig fn new<S: SourceStream>(params: S::Params, storage_provider: P, settings: Settings<S>) -> (r: core::result::Result<Self, StreamInitializationError<S>>)
    ensures Self::wired(VxCreate::<S> { params }, storage_provider, settings, r), // #C17,C13,C04,C09,C08 the stream is created from exactly these parameters, everything else handed on
//@end
//@fn file=lib.rs impl=StreamDownload fn=from_stream props=C17,C09,C13,C08
//@subst "move || (Ok(stream))" "VxReady { stream }"
//@sig fn from_stream<S: SourceStream>(stream: S, storage_provider: P, settings: Settings<S>) -> (r: core::result::Result<Self, StreamInitializationError<S>>)
    ensures Self::wired(VxReady { stream }, storage_provider, settings, r), // #C17,C13,C04,C09,C08 this very stream is downloaded
//@end
//@fn file=lib.rs impl=StreamDownload fn=new_http props=C10,C11,C17,C13,C09,C08
//@sig fn new_http(url: Url, storage_provider: P, settings: Settings<HttpStream<ReqwestClient>>) -> (r: core::result::Result<Self, StreamInitializationError<HttpStream<ReqwestClient>>>)
    ensures Self::wired(VxCreate::<HttpStream<ReqwestClient>> { params: url }, storage_provider, settings, r), // #C10,C11,C17,C13,C09,C08 the URL as given, with the default client, the storage and the settings handed on unchanged
//@end
//@fn file=lib.rs impl=StreamDownload fn=new_http_with_middleware props=C10,C11,C17,C13,C09,C08
//@sig fn new_http_with_middleware(url: Url, storage_provider: P, settings: Settings<HttpStream<ClientWithMiddleware>>) -> (r: core::result::Result<Self, StreamInitializationError<HttpStream<ClientWithMiddleware>>>)
    ensures Self::wired(VxCreate::<HttpStream<ClientWithMiddleware>> { params: url }, storage_provider, settings, r), // #C10,C11,C17,C13,C09,C08 the URL as given, the storage and the settings handed on unchanged
//@end
//@fn file=lib.rs impl=StreamDownload fn=new_async_read props=C19,C17,C13,C09,C08
//@sig fn new_async_read<T>(params: AsyncReadStreamParams<T>, storage_provider: P, settings: Settings<AsyncReadStream<T>>) -> (r: core::result::Result<Self, StreamInitializationError<AsyncReadStream<T>>>)
    ensures Self::wired(VxCreate::<AsyncReadStream<T>> { params: params }, storage_provider, settings, r), // #C19,C17,C13,C09,C08 the reader and content length as given, the storage and the settings handed on unchanged
//@end
//@fn file=lib.rs impl=StreamDownload fn=new_process props=C14,C19,C17,C13,C09,C08
//@sig fn new_process(params: ProcessStreamParams, storage_provider: P, settings: Settings<ProcessStream>) -> (r: core::result::Result<Self, StreamInitializationError<ProcessStream>>)
    ensures Self::wired(VxCreate::<ProcessStream> { params: params }, storage_provider, settings, r), // #C14,C19,C17,C13,C09,C08 the commands and content length as given, the storage and the settings handed on unchanged
//@end
//@fn file=crates/stream-download-opendal/src/lib.rs impl="StreamDownloadExt<P> for StreamDownload" fn=new_opendal nopub=1 props=C19,C17,C13,C09,C08
//@sig fn new_opendal(params: OpendalStreamParams, storage_provider: P, settings: Settings<OpendalStream>) -> (r: core::result::Result<Self, StreamInitializationError<OpendalStream>>)
    ensures Self::wired(VxCreate::<OpendalStream> { params }, storage_provider, settings, r), // #C19,C17,C13,C09,C08 operator, path and chunk size as given, the storage and the settings handed on unchanged
//@end
//@fn file=lib.rs impl=StreamDownload fn=cancellation_token props=C09
//@sig fn cancellation_token(&self) -> (r: CancellationToken)
    ensures r == self.download_task_cancellation_token, // #C09 cancelling it cancels this download
//@end
//@fn file=lib.rs impl=StreamDownload fn=handle props=C09
//@sig fn handle(&self) -> (r: StreamHandle)
    ensures r.finished == self.download_task_cancellation_token, // #C09 waits for this download
//@end
//@fn file=lib.rs impl=StreamDownload fn=from_create_stream props=C17,C08,C13,C04,C09
//@sig fn from_create_stream<S: SourceStream, F: CreateStream<S>>(create_stream: F, storage_provider: P, settings: Settings<S>) -> (r: core::result::Result<Self, StreamInitializationError<S>>)
    ensures Self::wired(create_stream, storage_provider, settings, r), // #C17,C13,C04,C09,C08 see `wired`
//@end
}
} // verus!

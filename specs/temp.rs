//@include prelude.rs
//@include wrap.rs
// Temporary-file storage: one fresh file, two independent positions, nothing cached in between.
verus! {
//@known tempfile tempfile_in prefix reopen try_clone read seek default new into_reader_writer clone
//@subst "Arc::new" "vx_same"
//@subst "tempfile::Builder" "Builder"
//@subst "tempfile::NamedTempFile" "NamedTempFile"
//@subst "io::BufReader" "BufReader"
//@subst "std::io::BufReader" "BufReader"
//@subst "io::Read" "Read"
//@method into vx_into
//@method clone vx_clone
pub struct OsString { pub s: Ghost<Seq<char>> }
impl View for OsString { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
impl OsString {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == 0 <==> self@.len() == 0, r >= self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: OsString) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
}
pub struct PathBuf { pub s: Ghost<Seq<char>> }
impl View for PathBuf { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
impl PathBuf {
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
pub trait VxInto<T: View>: Sized { spec fn to(&self) -> T::V; fn vx_into(self) -> (r: T) ensures r@ == self.to(); }
/// an open file: which file, and which file offset (shared by clones of the handle)
pub struct OpenV { pub file: int, pub offset: int }
/// where a file was created: in this directory (the system's default if none) under this name prefix (if any)
pub struct PlaceV { pub dir: Option<Seq<char>>, pub prefix: Option<Seq<char>> }
pub struct File { pub h: Ghost<OpenV>, pub at: Ghost<int> }
pub struct NamedTempFile { pub h: Ghost<OpenV>, pub at: Ghost<int>, pub place: Ghost<PlaceV>, pub fresh: Ghost<bool> }
/// one read of the operating system at the handle's offset
pub uninterp spec fn os_read(pre: NamedTempFile, post: NamedTempFile, before: Seq<u8>, after: Seq<u8>, r: io::Result<usize>) -> bool;
pub uninterp spec fn os_seek(pre: NamedTempFile, post: NamedTempFile, to: io::SeekFrom, r: io::Result<u64>) -> bool;
/// something that reads from a temporary file, in whatever way
pub trait VxReads { spec fn base(&self) -> NamedTempFile; }
impl VxReads for NamedTempFile { open spec fn base(&self) -> NamedTempFile { *self } }
impl NamedTempFile {
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures os_read(*old(self), *final(self), old(buf)@, final(buf)@, r), final(buf)@.len() == old(buf)@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: io::SeekFrom) -> (r: io::Result<u64>) ensures os_seek(*old(self), *final(self), to, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: io::Result<()>)
        ensures r is Ok ==> exists|p: u64| os_seek(*old(self), *final(self), io::SeekFrom::Start(0), Ok(p)),
                r is Err ==> os_seek(*old(self), *final(self), io::SeekFrom::Start(0), Err(r->Err_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: io::Result<u64>)
        ensures os_seek(*old(self), *final(self), io::SeekFrom::Current(0), r), *final(self) == *old(self) { unimplemented!() }
    /// opens the file anew: an offset of its own, at the start
    #[verifier::external_body]
    pub fn reopen(&self) -> (r: io::Result<File>)
        ensures r is Ok ==> r->Ok_0.h@.file == self.h@.file && r->Ok_0.h@.offset != self.h@.offset && r->Ok_0.at@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_file(&self) -> (r: &File) ensures r.h == self.h && r.at == self.at { unimplemented!() }
}
impl File {
    /// shares the offset
    #[verifier::external_body]
    pub fn try_clone(&self) -> (r: io::Result<File>) ensures r is Ok ==> r->Ok_0 == *self { unimplemented!() }
}
/// a buffering reader: what it returns may have been read from the file earlier
pub struct BufReader<R> { pub inner: R }
impl VxReads for BufReader<NamedTempFile> { open spec fn base(&self) -> NamedTempFile { self.inner } }
impl<R> BufReader<R> {
    pub fn new(inner: R) -> (r: BufReader<R>) ensures r.inner == inner { BufReader { inner } }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, inner: R) -> (r: BufReader<R>) ensures r.inner == inner { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: io::SeekFrom) -> (r: io::Result<u64>) { unimplemented!() }
}
pub struct Builder { pub p: Ghost<Option<Seq<char>>> }
impl Builder {
    #[verifier::external_body]
    pub fn new() -> (r: Builder) ensures r.p@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn prefix(&mut self, p: &OsString) -> (r: &mut Builder) ensures r.p@ == Some(p@), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn tempfile(&mut self) -> (r: io::Result<NamedTempFile>)
        ensures *final(self) == *old(self), r is Ok ==> r->Ok_0.fresh@ && r->Ok_0.at@ == 0 && r->Ok_0.place@ == (PlaceV { dir: None, prefix: old(self).p@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn tempfile_in(&mut self, dir: PathBuf) -> (r: io::Result<NamedTempFile>)
        ensures *final(self) == *old(self), r is Ok ==> r->Ok_0.fresh@ && r->Ok_0.at@ == 0 && r->Ok_0.place@ == (PlaceV { dir: Some(dir@), prefix: old(self).p@ }) { unimplemented!() }
}
/// the builder the user supplied
pub struct TempfileFnType { pub x: u64 }
impl TempfileFnType {
    pub uninterp spec fn made(&self, r: io::Result<NamedTempFile>) -> bool;
    #[verifier::external_body]
    pub fn vx_call0(&self) -> (r: io::Result<NamedTempFile>) ensures self.made(r) { unimplemented!() }
}
//@struct file=storage/temp.rs name=TempfileFn
//@struct file=storage/temp.rs name=TempStorageProvider
//@struct file=storage/temp.rs name=TempStorageReader
pub open spec fn text<T: View<V = Seq<char>>>(o: Option<T>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
impl TempStorageProvider {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: TempStorageProvider) ensures r.storage_dir is None && r.prefix is None && r.tempfile_fn is None { unimplemented!() }
    /// the file is the one this configuration asks for
    pub open spec fn asks(&self, f: NamedTempFile) -> bool {
        match self.tempfile_fn { Some(g) => g.0.made(Ok(f)), None => f.fresh@ && f.at@ == 0 && f.place@ == (PlaceV { dir: text(self.storage_dir), prefix: text(self.prefix) }) }
    }
//@fn file=storage/temp.rs impl=TempStorageProvider fn=new props=C20
//@sig fn new() -> (r: TempStorageProvider)
    ensures r.storage_dir is None && r.prefix is None && r.tempfile_fn is None, // #C20 defaults
//@end
//@fn file=storage/temp.rs impl=TempStorageProvider fn=new_in props=C20
//@sig fn new_in<T: VxInto<PathBuf>>(path: T) -> (r: TempStorageProvider)
    ensures text(r.storage_dir) == Some(path.to()) && r.prefix is None && r.tempfile_fn is None, // #C20 that directory
//@end
//@fn file=storage/temp.rs impl=TempStorageProvider fn=with_prefix props=C20
//@sig fn with_prefix<T: VxInto<OsString>>(prefix: T) -> (r: TempStorageProvider)
    ensures r.storage_dir is None && text(r.prefix) == Some(prefix.to()) && r.tempfile_fn is None, // #C20 that prefix
//@end
//@fn file=storage/temp.rs impl=TempStorageProvider fn=with_prefix_in props=C20
//@sig fn with_prefix_in<S: VxInto<OsString>, P: VxInto<PathBuf>>(prefix: S, path: P) -> (r: TempStorageProvider)
    ensures text(r.storage_dir) == Some(path.to()) && text(r.prefix) == Some(prefix.to()) && r.tempfile_fn is None, // #C20 both
//@end
//@fn file=storage/temp.rs impl=TempStorageProvider fn=with_tempfile_builder props=C20
//@sig fn with_tempfile_builder(builder: TempfileFnType) -> (r: TempStorageProvider)
    ensures r.tempfile_fn is Some && r.tempfile_fn->Some_0.0 == builder, // #C20 that builder
//@end
//@fn file=storage/temp.rs impl="StorageProvider for TempStorageProvider" fn=into_reader_writer props=C20
//@sig fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(TempStorageReader, File)>)
    ensures
        r is Ok ==> self.asks(r->Ok_0.0.reader.base()), // #C20 the configured directory and prefix, or the supplied builder
        r is Ok ==> r->Ok_0.1.h@.file == r->Ok_0.0.reader.base().h@.file, // #C20 the same file
        r is Ok ==> r->Ok_0.1.h@.offset != r->Ok_0.0.reader.base().h@.offset, // #C20 independent positions
        r is Ok ==> r->Ok_0.1.at@ == 0, // #C20 the writer starts at zero
        self.tempfile_fn is None && r is Ok ==> r->Ok_0.0.reader.base().at@ == 0, // #C20 the reader starts at zero
//@end
}
impl TempStorageReader {
//@fn file=storage/temp.rs impl="Read for TempStorageReader" fn=read props=C20
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
    ensures os_read(old(self).reader.base(), final(self).reader.base(), old(buf)@, final(buf)@, r), // #C20 one read of the file at the time of the call, at the reader's position
//@end
//@fn file=storage/temp.rs impl="Seek for TempStorageReader" fn=seek props=C20
//@sig fn seek(&mut self, position: io::SeekFrom) -> (r: io::Result<u64>)
    ensures os_seek(old(self).reader.base(), final(self).reader.base(), position, r), // #C20 moves the reader's position only
//@end
}
} // verus!

//@include prelude.rs
verus! {
//@known seek read write flush into_reader_writer new
/// Any reader/writer: each operation is an uninterpreted relation between the states before and
/// after, the arguments and the result. The only way to establish the relation is the call itself.
pub trait StorageReader: Sized {
    spec fn read_rel(pre: Self, post: Self, buf0: Seq<u8>, buf1: Seq<u8>, r: io::Result<usize>) -> bool;
    spec fn seek_rel(pre: Self, post: Self, p: SeekFrom, r: io::Result<u64>) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures Self::read_rel(*old(self), *final(self), old(buf)@, final(buf)@, r), final(buf)@.len() == old(buf)@.len();
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures Self::seek_rel(*old(self), *final(self), p, r);
}
pub trait StorageWriter: Sized {
    spec fn write_rel(pre: Self, post: Self, buf: Seq<u8>, r: io::Result<usize>) -> bool;
    spec fn wseek_rel(pre: Self, post: Self, p: SeekFrom, r: io::Result<u64>) -> bool;
    spec fn flush_rel(pre: Self, post: Self, r: io::Result<()>) -> bool;
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures Self::write_rel(*old(self), *final(self), buf@, r);
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures Self::wseek_rel(*old(self), *final(self), p, r);
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures Self::flush_rel(*old(self), *final(self), r);
}
pub trait StorageProvider: Sized {
    type Reader: StorageReader;
    type Writer: StorageWriter;
    spec fn irw_rel(pre: Self, content_length: Option<u64>, r: io::Result<(Self::Reader, Self::Writer)>) -> bool;
    fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(Self::Reader, Self::Writer)>)
        ensures Self::irw_rel(self, content_length, r);
}
/// cloning a provider yields an equal provider
pub trait VxClone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
/// The bounded storage as seen from here (verified in unit `bounded`).
pub struct BoundedStorageReader<T: StorageReader> { pub t: T, pub g: Ghost<int> }
pub struct BoundedStorageWriter<T: StorageWriter> { pub t: T, pub g: Ghost<int> }
pub struct BoundedStorageProvider<T: StorageProvider> { pub inner: T, pub buffer_size: usize }
pub uninterp spec fn b_read<T>(pre: BoundedStorageReader<T>, post: BoundedStorageReader<T>, b0: Seq<u8>, b1: Seq<u8>, r: io::Result<usize>) -> bool where T: StorageReader;
pub uninterp spec fn b_seek<T>(pre: BoundedStorageReader<T>, post: BoundedStorageReader<T>, p: SeekFrom, r: io::Result<u64>) -> bool where T: StorageReader;
pub uninterp spec fn b_write<T>(pre: BoundedStorageWriter<T>, post: BoundedStorageWriter<T>, b: Seq<u8>, r: io::Result<usize>) -> bool where T: StorageWriter;
pub uninterp spec fn b_wseek<T>(pre: BoundedStorageWriter<T>, post: BoundedStorageWriter<T>, p: SeekFrom, r: io::Result<u64>) -> bool where T: StorageWriter;
pub uninterp spec fn b_flush<T>(pre: BoundedStorageWriter<T>, post: BoundedStorageWriter<T>, r: io::Result<()>) -> bool where T: StorageWriter;
pub uninterp spec fn b_irw<T>(inner: T, size: usize, content_length: Option<u64>, r: io::Result<(BoundedStorageReader<T::Reader>, BoundedStorageWriter<T::Writer>)>) -> bool where T: StorageProvider;
impl<T: StorageReader> BoundedStorageReader<T> {
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) ensures b_read(*old(self), *final(self), old(buf)@, final(buf)@, r), final(buf)@.len() == old(buf)@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) ensures b_seek(*old(self), *final(self), p, r) { unimplemented!() }
}
impl<T: StorageWriter> BoundedStorageWriter<T> {
    #[verifier::external_body]
    pub fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) ensures b_write(*old(self), *final(self), buf@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) ensures b_wseek(*old(self), *final(self), p, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>) ensures b_flush(*old(self), *final(self), r) { unimplemented!() }
}
impl<T: StorageProvider> BoundedStorageProvider<T> {
    #[verifier::external_body]
    pub fn new(inner: T, buffer_size: NonZeroUsize) -> (r: Self) ensures r.inner == inner, r.buffer_size == buffer_size.v { unimplemented!() }
    #[verifier::external_body]
    pub fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(BoundedStorageReader<T::Reader>, BoundedStorageWriter<T::Writer>)>)
        ensures b_irw(self.inner, self.buffer_size, content_length, r) { unimplemented!() }
}
/// u64::try_from(usize) never fails on this (64 bit) target
pub struct VxU64 { }
impl VxU64 {
    #[verifier::external_body]
    pub fn try_from(v: usize) -> (r: core::result::Result<u64, TryFromIntError>) ensures r is Ok && r->Ok_0 == v { unimplemented!() }
}
//@subst "u64::try_from" "VxU64::try_from"
//@subst "Self::Reader::" "AdaptiveStorageReader::"
//@subst "Self::Writer::" "AdaptiveStorageWriter::"
//@enum file=storage/adaptive.rs name=AdaptiveStorageReader generics="<F: StorageReader, V: StorageReader>"
//@enum file=storage/adaptive.rs name=AdaptiveStorageWriter generics="<F: StorageWriter, V: StorageWriter>"
//@struct file=storage/adaptive.rs name=AdaptiveStorageProvider generics="<F: StorageProvider, V: StorageProvider>"
impl<F: StorageProvider, V: StorageProvider> AdaptiveStorageProvider<F, V> {
//@fn file=storage/adaptive.rs impl=AdaptiveStorageProvider fn=with_fixed_and_variable props=C13
//@sig fn with_fixed_and_variable(fixed_storage: F, variable_storage: V, buffer_size: NonZeroUsize) -> (r: Self)
    ensures r.fixed_storage == fixed_storage && r.variable_storage == variable_storage && r.buffer_size == buffer_size, // #C13 providers and size end up where they belong
//@end
//@fn file=storage/adaptive.rs impl=AdaptiveStorageProvider fn=new props=C13
//@subst "Self::with_fixed_and_variable" "AdaptiveStorageProvider::with_fixed_and_variable"
//@sig fn new<T: StorageProvider + VxClone>(provider: T, buffer_size: NonZeroUsize) -> (r: AdaptiveStorageProvider<T, T>)
    ensures r.fixed_storage == provider && r.variable_storage == provider && r.buffer_size == buffer_size, // #C13 one provider for both
//@end
//@fn file=storage/adaptive.rs impl="StorageProvider for AdaptiveStorageProvider" fn=into_reader_writer props=C13
//@sig fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(AdaptiveStorageReader<F::Reader, V::Reader>, AdaptiveStorageWriter<F::Writer, V::Writer>)>)
    ensures
        content_length is None ==> exists|x: io::Result<(BoundedStorageReader<F::Reader>, BoundedStorageWriter<F::Writer>)>| #[trigger] b_irw(self.fixed_storage, self.buffer_size.v, None, x)
            && (x is Ok ==> r is Ok && r->Ok_0.0 == AdaptiveStorageReader::<F::Reader, V::Reader>::Bounded(x->Ok_0.0) && r->Ok_0.1 == AdaptiveStorageWriter::<F::Writer, V::Writer>::Bounded(x->Ok_0.1))
            && (x is Err ==> r is Err && r->Err_0 == x->Err_0), // #C13 unknown length: bounded buffer of the configured size over the fixed storage
        content_length is Some && content_length->Some_0 <= self.buffer_size.v ==> exists|x: io::Result<(F::Reader, F::Writer)>| #[trigger] F::irw_rel(self.fixed_storage, content_length, x)
            && (x is Ok ==> r is Ok && r->Ok_0.0 == AdaptiveStorageReader::<F::Reader, V::Reader>::Fixed(x->Ok_0.0) && r->Ok_0.1 == AdaptiveStorageWriter::<F::Writer, V::Writer>::Fixed(x->Ok_0.1))
            && (x is Err ==> r is Err && r->Err_0 == x->Err_0), // #C13 length at most the size: fixed storage, given the true length
        content_length is Some && content_length->Some_0 > self.buffer_size.v ==> exists|x: io::Result<(V::Reader, V::Writer)>| #[trigger] V::irw_rel(self.variable_storage, content_length, x)
            && (x is Ok ==> r is Ok && r->Ok_0.0 == AdaptiveStorageReader::<F::Reader, V::Reader>::Variable(x->Ok_0.0) && r->Ok_0.1 == AdaptiveStorageWriter::<F::Writer, V::Writer>::Variable(x->Ok_0.1))
            && (x is Err ==> r is Err && r->Err_0 == x->Err_0), // #C13 larger: variable storage, given the true length
//@end
}
impl<F: StorageReader, V: StorageReader> AdaptiveStorageReader<F, V> {
//@fn file=storage/adaptive.rs impl="Read for AdaptiveStorageReader" fn=read props=C13
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
    ensures match (*old(self), *final(self)) {
        (AdaptiveStorageReader::Bounded(a), AdaptiveStorageReader::Bounded(b)) => b_read(a, b, old(buf)@, final(buf)@, r),
        (AdaptiveStorageReader::Fixed(a), AdaptiveStorageReader::Fixed(b)) => F::read_rel(a, b, old(buf)@, final(buf)@, r),
        (AdaptiveStorageReader::Variable(a), AdaptiveStorageReader::Variable(b)) => V::read_rel(a, b, old(buf)@, final(buf)@, r),
        _ => false,
    }, // #C13 one read on the chosen storage with the same buffer
//@end
//@fn file=storage/adaptive.rs impl="Seek for AdaptiveStorageReader" fn=seek props=C13
//@sig fn seek(&mut self, pos: SeekFrom) -> (r: io::Result<u64>)
    ensures match (*old(self), *final(self)) {
        (AdaptiveStorageReader::Bounded(a), AdaptiveStorageReader::Bounded(b)) => b_seek(a, b, pos, r),
        (AdaptiveStorageReader::Fixed(a), AdaptiveStorageReader::Fixed(b)) => F::seek_rel(a, b, pos, r),
        (AdaptiveStorageReader::Variable(a), AdaptiveStorageReader::Variable(b)) => V::seek_rel(a, b, pos, r),
        _ => false,
    }, // #C13 one seek on the chosen storage with the same target
//@end
}
impl<F: StorageWriter, V: StorageWriter> AdaptiveStorageWriter<F, V> {
//@fn file=storage/adaptive.rs impl="Write for AdaptiveStorageWriter" fn=write props=C13
//@sig fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
    ensures match (*old(self), *final(self)) {
        (AdaptiveStorageWriter::Bounded(a), AdaptiveStorageWriter::Bounded(b)) => b_write(a, b, buf@, r),
        (AdaptiveStorageWriter::Fixed(a), AdaptiveStorageWriter::Fixed(b)) => F::write_rel(a, b, buf@, r),
        (AdaptiveStorageWriter::Variable(a), AdaptiveStorageWriter::Variable(b)) => V::write_rel(a, b, buf@, r),
        _ => false,
    }, // #C13 one write on the chosen storage with the same bytes
//@end
//@fn file=storage/adaptive.rs impl="Write for AdaptiveStorageWriter" fn=flush props=C13
//@sig fn flush(&mut self) -> (r: io::Result<()>)
    ensures match (*old(self), *final(self)) {
        (AdaptiveStorageWriter::Bounded(a), AdaptiveStorageWriter::Bounded(b)) => b_flush(a, b, r),
        (AdaptiveStorageWriter::Fixed(a), AdaptiveStorageWriter::Fixed(b)) => F::flush_rel(a, b, r),
        (AdaptiveStorageWriter::Variable(a), AdaptiveStorageWriter::Variable(b)) => V::flush_rel(a, b, r),
        _ => false,
    }, // #C13 one flush on the chosen storage
//@end
//@fn file=storage/adaptive.rs impl="Seek for AdaptiveStorageWriter" fn=seek props=C13
//@sig fn seek(&mut self, pos: SeekFrom) -> (r: io::Result<u64>)
    ensures match (*old(self), *final(self)) {
        (AdaptiveStorageWriter::Bounded(a), AdaptiveStorageWriter::Bounded(b)) => b_wseek(a, b, pos, r),
        (AdaptiveStorageWriter::Fixed(a), AdaptiveStorageWriter::Fixed(b)) => F::wseek_rel(a, b, pos, r),
        (AdaptiveStorageWriter::Variable(a), AdaptiveStorageWriter::Variable(b)) => V::wseek_rel(a, b, pos, r),
        _ => false,
    }, // #C13 one seek on the chosen storage with the same target
//@end
}
} // verus!

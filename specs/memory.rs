//@include prelude.rs
//@include wrap.rs
verus! {
//@known load fetch_add
//@subst "Arc<AssertUnwindSafe<RwLock<Vec<u8>>>>" "MemBuf"
//@subst "Arc<AtomicUsize>" "AtomicUsize"
//@subst "Arc::new" "vx_same"
//@subst "AssertUnwindSafe" "vx_same"
//@subst "RwLock::new" "MemBuf::new"
//@method try_into vx_try_usize
pub open spec fn LIM() -> int { 0x7fff_ffff_ffff_ffff }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }

/// The shared, lock protected byte vector; the lock is held for a whole operation.
pub struct MemBuf { pub v: Vec<u8> }
impl MemBuf {
    pub fn new(v: Vec<u8>) -> (r: MemBuf) ensures r.v == v { MemBuf { v } }
    pub fn read(&self) -> (r: &Vec<u8>) ensures *r == self.v { &self.v }
    pub fn write(&mut self) -> (r: &mut Vec<u8>) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: MemBuf) ensures r == *self { unimplemented!() }
}
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
pub struct AtomicUsize { pub v: usize }
impl AtomicUsize {
    pub fn new(v: usize) -> (r: AtomicUsize) ensures r.v == v { AtomicUsize { v } }
    pub fn load(&self, o: Ordering) -> (r: usize) ensures r == self.v { self.v }
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: usize, o: Ordering) -> (r: usize)
        ensures r == old(self).v, old(self).v + n <= usize::MAX ==> final(self).v == old(self).v + n { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: AtomicUsize) ensures r == *self { unimplemented!() }
}
//@struct file=storage/memory.rs name=MemoryStorage
//@struct file=storage/memory.rs name=MemoryStorageProvider

//@fn file=lib.rs fn=checked_seek props=C03
//@sig fn checked_seek(base: u64, offset: i64) -> (r: io::Result<u64>)
    ensures
        0 <= base + offset <= u64::MAX ==> r is Ok && r->Ok_0 == base + offset,
        !(0 <= base + offset <= u64::MAX) ==> r is Err && r->Err_0.k == io::ErrorKind::InvalidInput,
//@end

impl MemoryStorageProvider {
//@fn file=storage/memory.rs impl="StorageProvider for MemoryStorageProvider" fn=into_reader_writer props=C03
//@sig fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(MemoryStorage, MemoryStorage)>)
    ensures
        r is Ok,
        r->Ok_0.0.inner == r->Ok_0.1.inner, // #C03 both handles share one array
        r->Ok_0.0.position == 0 && r->Ok_0.1.position == 0, // #C03 both start at zero
        r->Ok_0.0.inner.v@.len() == (match content_length { Some(n) => n as int, None => 0 }), // #C03 initial length is the content length
        r->Ok_0.0.written.v == 0 && r->Ok_0.1.written.v == 0,
//@end
}
impl MemoryStorage {
//@fn file=storage/memory.rs impl="Read for MemoryStorage" fn=read props=C03
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
    ensures
        r is Ok, // #C03 reading past the end is no error
        final(self).inner == old(self).inner && final(self).written == old(self).written, // #C03 a read changes no stored byte
        final(buf)@.len() == old(buf)@.len(),
        r->Ok_0 <= old(buf)@.len() && (r->Ok_0 > 0 ==> old(self).position + r->Ok_0 <= old(self).inner.v@.len()), // #C03 nothing past the end is returned
        forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == old(self).inner.v@[old(self).position + i], // #C03 exactly the stored bytes
        forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i], // #C03 the rest of the buffer is untouched
        final(self).position == old(self).position + r->Ok_0, // #C03 advances by the returned count
        old(self).written.v >= old(self).inner.v@.len() - old(self).position ==> r->Ok_0 == max(0, min(old(self).inner.v@.len() - old(self).position, old(buf)@.len() as int)), // #C03 returns everything there is
        old(self).written.v > 0 && old(self).position < old(self).inner.v@.len() && old(buf)@.len() > 0 ==> r->Ok_0 > 0, // #C03
//@end
//@fn file=storage/memory.rs impl="Seek for MemoryStorage" fn=seek props=C03
//@sig fn seek(&mut self, position: SeekFrom) -> (r: io::Result<u64>)
    ensures
        final(self).inner == old(self).inner && final(self).written == old(self).written, // #C03 only this handle's position moves
        r is Ok <==> (match position {
            SeekFrom::Start(p) => true,
            SeekFrom::Current(d) => 0 <= old(self).position + d <= u64::MAX,
            SeekFrom::End(d) => 0 <= old(self).inner.v@.len() + d <= u64::MAX,
        }), // #C03 a target before the start is an error
        r is Ok ==> r->Ok_0 == final(self).position && r->Ok_0 == (match position {
            SeekFrom::Start(p) => p as int,
            SeekFrom::Current(d) => old(self).position + d,
            SeekFrom::End(d) => old(self).inner.v@.len() + d,
        }), // #C03 the seek lands exactly on the requested position
        r is Err ==> final(self).position == old(self).position, // #C03 a rejected seek does not move
//@end
//@fn file=storage/memory.rs impl="Write for MemoryStorage" fn=write props=C03
//@sig fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
    requires old(self).position + buf@.len() < LIM(),
    ensures
        r is Ok && r->Ok_0 == buf@.len(), // #C03 everything is accepted
        final(self).position == old(self).position + buf@.len(), // #C03
        buf@.len() > 0 ==> final(self).inner.v@.len() == max(old(self).inner.v@.len() as int, old(self).position + buf@.len()), // #C03 grows exactly as needed
        final(self).inner.v@.len() >= old(self).inner.v@.len(),
        forall|k: int| old(self).position <= k < old(self).position + buf@.len() ==> #[trigger] final(self).inner.v@[k] == buf@[k - old(self).position], // #C03 the given bytes at the writer's position
        forall|k: int| 0 <= k < old(self).inner.v@.len() && (k < old(self).position || k >= old(self).position + buf@.len()) ==> #[trigger] final(self).inner.v@[k] == old(self).inner.v@[k], // #C03 no other byte changes
        old(self).written.v + buf@.len() <= usize::MAX ==> final(self).written.v == old(self).written.v + buf@.len(), // #C03
//@end
//@fn file=storage/memory.rs impl="Write for MemoryStorage" fn=flush props=C03
//@sig fn flush(&mut self) -> (r: io::Result<()>)
    ensures r is Ok, *final(self) == *old(self),
//@end
}
} // verus!

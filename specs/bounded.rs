//@include prelude.rs
//@include wrap.rs
verus! {
//@known lock seek read_exact write_all flush into_reader_writer get insert remove evict
//@subst "Arc<AssertUnwindSafe<Mutex<SharedInfo>>>" "SharedInfo"
use vstd::arithmetic::div_mod::*;

/// Contract of the underlying storage's read half: an honest std::io::Read + Seek over `data`,
/// on which accesses are only allowed inside the first `cap` bytes.
pub trait StorageReader {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn cap(&self) -> int;
    spec fn reliable(&self) -> bool;
    fn seek(&mut self, position: SeekFrom) -> (r: io::Result<u64>)
        requires position is Start,
        ensures final(self).data() == old(self).data(), final(self).cap() == old(self).cap(), final(self).reliable() == old(self).reliable(),
            r is Ok ==> final(self).pos() == position->Start_0,
            old(self).reliable() ==> r is Ok;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
        requires old(self).pos() + old(buf)@.len() <= old(self).cap(), // #C02 read inside the buffer
        ensures final(self).data() == old(self).data(), final(self).cap() == old(self).cap(), final(self).reliable() == old(self).reliable(),
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> final(self).pos() == old(self).pos() + old(buf)@.len()
                && forall|i: int| 0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(self).data()[old(self).pos() + i],
            old(self).reliable() ==> r is Ok;
}
/// Write half: may fail, but never touches anything outside the offered range.
pub trait StorageWriter {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn cap(&self) -> int;
    spec fn reliable(&self) -> bool;
    /// everything written so far can be seen by the read half
    spec fn flushed(&self) -> bool;
    fn seek(&mut self, position: SeekFrom) -> (r: io::Result<u64>)
        requires position is Start,
        ensures final(self).data() == old(self).data(), final(self).cap() == old(self).cap(), final(self).reliable() == old(self).reliable(),
            r is Ok ==> final(self).pos() == position->Start_0,
            old(self).reliable() ==> r is Ok;
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        requires old(self).pos() + buf@.len() <= old(self).cap(), // #C02 write inside the buffer
        ensures final(self).cap() == old(self).cap(), final(self).reliable() == old(self).reliable(),
            final(self).data().len() == old(self).data().len(),
            forall|k: int| (k < old(self).pos() || k >= old(self).pos() + buf@.len()) ==> #[trigger] final(self).data()[k] == old(self).data()[k],
            r is Ok ==> final(self).pos() == old(self).pos() + buf@.len()
                && forall|k: int| old(self).pos() <= k < old(self).pos() + buf@.len() ==> #[trigger] final(self).data()[k] == buf@[k - old(self).pos()],
            old(self).reliable() ==> r is Ok;
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).data() == old(self).data(), final(self).cap() == old(self).cap(), final(self).reliable() == old(self).reliable(),
            final(self).pos() == old(self).pos(), old(self).reliable() ==> r is Ok, r is Ok ==> final(self).flushed();
}
/// rangemap::RangeSet<usize>: a set of positions; `get` yields the maximal run around a member.
pub struct RangeSet<T> { pub g: Ghost<vstd::iset::ISet<int>>, pub t: core::marker::PhantomData<T> }
impl RangeSet<usize> {
    pub open spec fn has(&self, p: int) -> bool { self.g@.contains(p) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|p: int| !#[trigger] r.has(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, r: Range<usize>)
        requires r.start < r.end, // RangeSet::insert panics on an empty range
        ensures forall|p: int| #[trigger] final(self).has(p) == (old(self).has(p) || r.start <= p < r.end) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, r: Range<usize>)
        requires r.start < r.end, // RangeSet::remove panics on an empty range
        ensures forall|p: int| #[trigger] final(self).has(p) == (old(self).has(p) && !(r.start <= p < r.end)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, p: &usize) -> (r: Option<&Range<usize>>)
        ensures match r {
            Some(r) => r.start <= *p < r.end && (forall|q: int| r.start <= q < r.end ==> #[trigger] self.has(q)) && self.has(r.end - 1) && !self.has(r.end as int),
            None => !self.has(*p as int),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, p: &usize) -> (r: bool) ensures r == self.has(*p as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures forall|p: int| !#[trigger] final(self).has(p) { unimplemented!() }
}

//@subst "Arc::new" "vx_same"
//@subst "AssertUnwindSafe" "vx_same"
//@subst "Mutex::new" "vx_same"
//@method try_into vx_try_usize
pub trait StorageProvider: Sized {
    type Reader: StorageReader;
    type Writer: StorageWriter;
    spec fn made(&self, content_length: Option<u64>) -> bool;
    fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(Self::Reader, Self::Writer)>)
        ensures r is Ok ==> content_length is Some ==> r->Ok_0.0.cap() == content_length->Some_0 && r->Ok_0.1.cap() == content_length->Some_0
            && r->Ok_0.0.data().len() >= content_length->Some_0 && r->Ok_0.1.data().len() >= content_length->Some_0,
            r is Ok ==> self.made(content_length);
}
//@struct file=storage/bounded.rs name=BoundedStorageProvider generics="<T: StorageProvider>"
impl SharedInfo {
    /// cloning the Arc: both handles refer to the same state
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SharedInfo) ensures r == *self { unimplemented!() }
}
impl<T: StorageProvider> BoundedStorageProvider<T> {
//@fn file=storage/bounded.rs impl=BoundedStorageProvider fn=new props=C02,C08,C13 id=BoundedStorageProvider::new
//@sig fn new(inner: T, buffer_size: NonZeroUsize) -> (r: Self)
    ensures r.inner == inner, r.buffer_size == buffer_size.v, r.buffer_size > 0,
//@end
//@fn file=storage/bounded.rs impl="StorageProvider for BoundedStorageProvider" fn=max_capacity props=C08,C02
//@sig fn max_capacity(&self) -> (r: Option<usize>)
    ensures r == Some(self.buffer_size), // #C08,C02 the declared capacity is the configured size
//@end
//@fn file=storage/bounded.rs impl="StorageProvider for BoundedStorageProvider" fn=into_reader_writer props=C02,C01
//@sig fn into_reader_writer(self, content_length: Option<u64>) -> (r: io::Result<(BoundedStorageReader<T::Reader>, BoundedStorageWriter<T::Writer>)>)
    requires self.buffer_size < LIM(),
    ensures r is Ok ==> ({
        let (rd, wr) = r->Ok_0;
        let size = match content_length { Some(l) => min(l as int, self.buffer_size as int), None => self.buffer_size as int };
        &&& rd.shared_info == wr.shared_info
        &&& rd.inv() && wr.inv()
        &&& rd.shared_info.size == size
        &&& rd.shared_info.max_capacity == self.buffer_size
        &&& self.inner.made(Some(size as u64))
        &&& rd.shared_info.read_position == 0 && rd.shared_info.write_position == 0
        &&& forall|p: int| !#[trigger] rd.shared_info.stored.has(p)
    }), // #C02,C01 the ring has the smaller of the configured size and the content length, both handles share it and start at zero
//@end
}
//@struct file=storage/bounded.rs name=SharedInfo
//@struct file=storage/bounded.rs name=BoundedStorageReader generics="<T: StorageReader>"
//@struct file=storage/bounded.rs name=BoundedStorageWriter generics="<T: StorageWriter>"

pub open spec fn LIM() -> int { 0x4000_0000_0000_0000 }

impl SharedInfo {
    /// The mutex: an operation holds the lock from its first access of the state to its end, so
    /// the guard is the state itself.
    pub fn lock(&mut self) -> (r: &mut SharedInfo)
        ensures *r == *old(self), *final(self) == *final(r),
    { self }

    pub open spec fn inv(&self) -> bool {
        &&& self.size < LIM() && self.max_capacity < LIM()
        &&& self.size <= self.max_capacity
        &&& self.read_position < LIM() && self.write_position < LIM()
        &&& forall|p: int| #[trigger] self.stored.has(p) ==> 0 <= p < LIM() - 1 && !self.stored.has(p + self.size)
    }
    /// bytes written but not yet read
    pub open spec fn avail(&self) -> int {
        if self.write_position >= self.read_position { self.write_position - self.read_position } else { 0 }
    }
    /// everything but the two positions and the set of stored positions
    pub open spec fn same_cfg(&self, o: SharedInfo) -> bool { self.size == o.size && self.max_capacity == o.max_capacity }
}

pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }

/// how far slot k lies behind the slot of position p, walking around the ring
pub open spec fn ring_dist(k: int, p: int, size: int) -> int { if k >= p % size { k - p % size } else { k - p % size + size } }

/// positions p..p+size occupy consecutive slots modulo size, wrapping at most once
pub proof fn lemma_ring(p: int, size: int)
    requires size > 0, p >= 0,
    ensures 0 <= p % size < size, p % size <= p,
        forall|i: int| 0 <= i <= size ==> #[trigger] ((p + i) % size) == (if p % size + i < size { p % size + i } else if p % size + i < 2 * size { p % size + i - size } else { 0 }),
{
    lemma_mod_bound(p, size);
    lemma_fundamental_div_mod(p, size);
    assert(p / size >= 0) by { lemma_div_pos_is_pos(p, size); }
    assert(size * (p / size) >= 0) by (nonlinear_arith) requires size > 0, p / size >= 0;
    assert forall|i: int| 0 <= i <= size implies #[trigger] ((p + i) % size) == (if p % size + i < size { p % size + i } else if p % size + i < 2 * size { p % size + i - size } else { 0 }) by {
        lemma_fundamental_div_mod(p, size);
        let q = p / size;
        assert(size * q == q * size) by (nonlinear_arith);
        assert((q + 1) * size == q * size + size) by (nonlinear_arith);
        let m = p % size;
        if m + i < size {
            lemma_fundamental_div_mod_converse(p + i, size, q, m + i);
        } else if m + i < 2 * size {
            lemma_fundamental_div_mod_converse(p + i, size, q + 1, m + i - size);
        } else {
            assert(false);
        }
    }
}
pub proof fn lemma_map(p: int, val: int, size: int)
    requires size > 0, p >= 0, val >= 0,
    ensures (val + (p % size)) % size == (p + val) % size,
{
    lemma_add_mod_noop_right(val, p, size);
}

impl SharedInfo {
//@fn file=storage/bounded.rs impl=SharedInfo fn=mapped_read_position props=C01
//@sig fn mapped_read_position(&self, val: usize) -> (r: usize)
    requires 0 < self.size < LIM(), val < LIM(),
    ensures r == (self.read_position + val) % (self.size as int), // #C01 reader slot is the position modulo the size
//@entry
    proof { lemma_map(self.read_position as int, val as int, self.size as int); lemma_mod_bound(self.read_position as int, self.size as int); }
//@end
//@fn file=storage/bounded.rs impl=SharedInfo fn=mapped_write_position props=C01
//@sig fn mapped_write_position(&self, val: usize) -> (r: usize)
    requires 0 < self.size < LIM(), val < LIM(),
    ensures r == (self.write_position + val) % (self.size as int), // #C01 writer slot is the position modulo the size
//@entry
    proof { lemma_map(self.write_position as int, val as int, self.size as int); lemma_mod_bound(self.write_position as int, self.size as int); }
//@end
}

impl SharedInfo {
//@fn file=storage/bounded.rs impl=SharedInfo fn=evict props=C01,C02,C05
//@sig fn evict(&mut self, len: usize)
    requires old(self).inv(), 0 < len <= old(self).size, old(self).write_position + len < LIM(),
    ensures
        final(self).same_cfg(*old(self)) && final(self).read_position == old(self).read_position && final(self).write_position == old(self).write_position,
        forall|p: int| #[trigger] final(self).stored.has(p) ==> old(self).stored.has(p) && !(old(self).write_position <= p < old(self).write_position + len), // #C01,C05 the positions about to be written are withdrawn
        forall|p: int| #[trigger] final(self).stored.has(p) ==> old(self).write_position + len - old(self).size <= p < old(self).write_position + old(self).size, // #C01,C05 and so are all that share a slot with them
        forall|p: int| old(self).stored.has(p) && old(self).write_position + len - old(self).size <= p < old(self).write_position + old(self).size && !(old(self).write_position <= p < old(self).write_position + len) ==> #[trigger] final(self).stored.has(p), // #C02 nothing else is given up
//@end
}

impl<T: StorageReader> BoundedStorageReader<T> {
    pub open spec fn inv(&self) -> bool {
        self.shared_info.inv() && self.inner.cap() == self.shared_info.size && self.inner.data().len() >= self.shared_info.size
    }
//@fn file=storage/bounded.rs impl="Read for BoundedStorageReader" fn=read props=C01,C02,C05
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(buf)@.len() == old(buf)@.len(),
        final(self).inner.data() == old(self).inner.data(), // #C01 reading changes no stored byte
        match r {
            Ok(n) => {
                &&& n <= old(buf)@.len()
                &&& forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == old(self).inner.data()[(old(self).shared_info.read_position + i) % (old(self).shared_info.size as int)]
                &&& final(self).shared_info.read_position == old(self).shared_info.read_position + n
            },
            Err(_) => final(self).shared_info == old(self).shared_info,
        }, // #C01 bytes come from the slots of the reader's positions and the position advances by n
        final(self).shared_info.write_position == old(self).shared_info.write_position && final(self).shared_info.stored == old(self).shared_info.stored && final(self).shared_info.same_cfg(old(self).shared_info), // #C01,C02 the writer's side is untouched
        r is Ok ==> forall|p: int| old(self).shared_info.read_position <= p < old(self).shared_info.read_position + r->Ok_0 ==> #[trigger] old(self).shared_info.stored.has(p), // #C01,C05 only positions that are held by the buffer are read
        old(buf)@.len() > 0 && old(self).shared_info.read_position < old(self).shared_info.write_position && !old(self).shared_info.stored.has(old(self).shared_info.read_position as int) ==> r is Err && r->Err_0.k == io::ErrorKind::InvalidInput, // #C01,C05 lost or skipped data is reported, not read as the end
        old(self).inner.reliable() && 0 < old(buf)@.len() <= old(self).shared_info.max_capacity && old(self).shared_info.stored.has(old(self).shared_info.read_position as int) ==>
            r is Ok && r->Ok_0 > 0 && (r->Ok_0 == old(buf)@.len() || !old(self).shared_info.stored.has(old(self).shared_info.read_position + r->Ok_0)), // #C02 delivers everything available up to the buffer length
        old(self).inner.reliable() && old(buf)@.len() <= old(self).shared_info.max_capacity && (old(buf)@.len() == 0 || old(self).shared_info.read_position >= old(self).shared_info.write_position && !old(self).shared_info.stored.has(old(self).shared_info.read_position as int)) ==> r is Ok && r->Ok_0 == 0, // #C02 nothing there yet
        old(buf)@.len() > old(self).shared_info.max_capacity ==> r is Err, // #C02
//@entry
    proof {
        if self.shared_info.size > 0 { lemma_ring(self.shared_info.read_position as int, self.shared_info.size as int); }
        assert(self.shared_info.stored.has(self.shared_info.read_position as int) ==> !self.shared_info.stored.has(self.shared_info.read_position + self.shared_info.size));
    }
//@end
//@fn file=storage/bounded.rs impl="Seek for BoundedStorageReader" fn=seek props=C01,C02
//@sig fn seek(&mut self, position: SeekFrom) -> (r: io::Result<u64>)
    requires old(self).inv(), position is Start ==> position->Start_0 < LIM(),
        position is Current ==> position->Current_0 < LIM() - old(self).shared_info.read_position,
    ensures
        final(self).inner == old(self).inner,
        r is Err ==> final(self).shared_info == old(self).shared_info, // #C01 a rejected seek moves nothing
        r is Ok ==> final(self).inv(),
        r is Ok <==> match position {
            SeekFrom::Start(p) => true,
            SeekFrom::Current(d) => old(self).shared_info.read_position + d >= 0,
            SeekFrom::End(_) => false,
        }, // #C01 exactly the targets at or after the start are accepted
        r is Ok ==> r->Ok_0 == final(self).shared_info.read_position && r->Ok_0 == (match position {
            SeekFrom::Start(p) => p as int,
            SeekFrom::Current(d) => old(self).shared_info.read_position + d,
            SeekFrom::End(_) => -1,
        }), // #C01 the seek lands exactly on the requested position
        final(self).shared_info.write_position == old(self).shared_info.write_position && final(self).shared_info.stored == old(self).shared_info.stored && final(self).shared_info.same_cfg(old(self).shared_info), // #C01,C02 the writer does not move and nothing is lost
//@end
}

//@fn file=storage/bounded.rs fn=handle_seek props=C01
//@sig fn handle_seek(position: SeekFrom, current_position: usize) -> (r: io::Result<usize>)
    requires current_position < LIM(),
    ensures
        match position {
            SeekFrom::Start(p) => r == Ok::<usize, io::Error>(p as usize),
            SeekFrom::Current(d) => (current_position + d >= 0 ==> r is Ok && r->Ok_0 == current_position + d) && (current_position + d < 0 ==> r is Err),
            SeekFrom::End(_) => r is Err,
        }, // #C01
//@end

//@fn file=lib.rs fn=checked_seek props=C01,C03,C04
//@sig fn checked_seek(base: u64, offset: i64) -> (r: io::Result<u64>)
    ensures
        0 <= base + offset <= u64::MAX ==> r is Ok && r->Ok_0 == base + offset,
        !(0 <= base + offset <= u64::MAX) ==> r is Err && r->Err_0.k == io::ErrorKind::InvalidInput,
//@end

impl<T: StorageWriter> BoundedStorageWriter<T> {
    pub open spec fn inv(&self) -> bool {
        self.shared_info.inv() && self.inner.cap() == self.shared_info.size && self.inner.data().len() >= self.shared_info.size
    }
//@fn file=storage/bounded.rs impl="Write for BoundedStorageWriter" fn=write props=C01,C02,C05
//@sig fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
    requires old(self).inv(), old(self).shared_info.write_position + buf@.len() < LIM(),
    ensures
        final(self).inv(),
        final(self).inner.data().len() == old(self).inner.data().len(),
        r is Ok ==> r->Ok_0 == min(buf@.len() as int, if old(self).shared_info.avail() >= old(self).shared_info.size { 0 } else { old(self).shared_info.size - old(self).shared_info.avail() }), // #C02 accepts exactly the free space
        r is Ok ==> final(self).shared_info.write_position == old(self).shared_info.write_position + r->Ok_0, // #C01
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(self).inner.data()[(old(self).shared_info.write_position + i) % (old(self).shared_info.size as int)] == buf@[i], // #C01 byte i goes to the slot of its position
        r is Ok ==> forall|p: int| old(self).shared_info.write_position <= p < old(self).shared_info.write_position + r->Ok_0 ==> #[trigger] final(self).shared_info.stored.has(p), // #C02 and can be read
        r is Ok ==> forall|p: int| #[trigger] final(self).shared_info.stored.has(p) && !(old(self).shared_info.write_position <= p < old(self).shared_info.write_position + r->Ok_0) ==> kept(old(self).shared_info, old(self).inner.data(), final(self).inner.data(), p), // #C01,C05 what else is held still has its old content
        r is Err ==> final(self).shared_info.write_position >= old(self).shared_info.write_position && forall|p: int| #[trigger] final(self).shared_info.stored.has(p) ==> kept(old(self).shared_info, old(self).inner.data(), final(self).inner.data(), p) || old(self).shared_info.write_position <= p < final(self).shared_info.write_position, // #C01,C05 a failed write leaves nothing readable whose slot it may have changed
        r is Err ==> forall|p: int| old(self).shared_info.write_position <= p < final(self).shared_info.write_position ==> #[trigger] final(self).inner.data()[p % (old(self).shared_info.size as int)] == buf@[p - old(self).shared_info.write_position], // #C01
        r is Ok ==> forall|p: int| old(self).shared_info.stored.has(p) && old(self).shared_info.write_position + r->Ok_0 - old(self).shared_info.size <= p < old(self).shared_info.write_position + old(self).shared_info.size ==> #[trigger] final(self).shared_info.stored.has(p), // #C02 nothing within a buffer length of the written range is given up
        forall|p: int| old(self).shared_info.size > 0 && old(self).shared_info.stored.has(p) && old(self).shared_info.read_position <= p < old(self).shared_info.write_position && old(self).shared_info.avail() <= old(self).shared_info.size ==> #[trigger] final(self).shared_info.stored.has(p), // #C01,C02 unread data stays
        r is Ok ==> forall|k: int| 0 <= k < old(self).inner.data().len() && (k >= old(self).shared_info.size || ring_dist(k, old(self).shared_info.write_position as int, old(self).shared_info.size as int) >= r->Ok_0) ==> #[trigger] final(self).inner.data()[k] == old(self).inner.data()[k], // #C01 no other slot changes
        final(self).shared_info.read_position == old(self).shared_info.read_position && final(self).shared_info.same_cfg(old(self).shared_info), // #C01,C02 the reader's side is untouched
        r is Ok && r->Ok_0 > 0 ==> final(self).inner.flushed(), // #C01,C05 what is reported as written can be read
        old(self).inner.reliable() ==> r is Ok, // #C02 a full buffer accepts nothing instead of failing
//@entry
    proof {
        if self.shared_info.size > 0 {
            lemma_ring(self.shared_info.write_position as int, self.shared_info.size as int);
            lemma_slots_back(self.shared_info.write_position as int, self.shared_info.size as int);
            lemma_slots_fwd(self.shared_info.write_position as int, self.shared_info.size as int);
        }
    }
//@end
//@fn file=storage/bounded.rs impl="Write for BoundedStorageWriter" fn=flush props=C01
//@sig fn flush(&mut self) -> (r: io::Result<()>)
    ensures r is Ok, *final(self) == *old(self),
//@end
//@fn file=storage/bounded.rs impl="Seek for BoundedStorageWriter" fn=seek props=C01,C02
//@sig fn seek(&mut self, position: SeekFrom) -> (r: io::Result<u64>)
    requires old(self).inv(), position is Start ==> position->Start_0 < LIM(),
        position is Current ==> position->Current_0 < LIM() - old(self).shared_info.write_position,
    ensures
        final(self).inner == old(self).inner,
        r is Err ==> final(self).shared_info == old(self).shared_info, // #C01
        r is Ok ==> final(self).inv(),
        r is Ok <==> match position {
            SeekFrom::Start(p) => true,
            SeekFrom::Current(d) => old(self).shared_info.write_position + d >= 0,
            SeekFrom::End(_) => false,
        }, // #C01
        r is Ok ==> r->Ok_0 == final(self).shared_info.write_position && r->Ok_0 == (match position {
            SeekFrom::Start(p) => p as int,
            SeekFrom::Current(d) => old(self).shared_info.write_position + d,
            SeekFrom::End(_) => -1,
        }), // #C01 the seek lands exactly on the requested position
        final(self).shared_info.read_position == old(self).shared_info.read_position && final(self).shared_info.stored == old(self).shared_info.stored && final(self).shared_info.same_cfg(old(self).shared_info), // #C01,C02 the reader does not move and nothing is lost
//@end
}

/// the last `size` positions and the next `n <= free` ones use different slots
pub proof fn lemma_slots_back(w: int, size: int)
    requires size > 0, w >= 0,
    ensures forall|p: int| w - size <= p < w && 0 <= p ==> #[trigger] (p % size) == (if w % size - (w - p) >= 0 { w % size - (w - p) } else { w % size - (w - p) + size }),
{
    lemma_mod_bound(w, size);
    assert forall|p: int| w - size <= p < w && 0 <= p implies #[trigger] (p % size) == (if w % size - (w - p) >= 0 { w % size - (w - p) } else { w % size - (w - p) + size }) by {
        lemma_fundamental_div_mod(w, size);
        let q = w / size;
        assert(size * q == q * size) by (nonlinear_arith);
        assert((q - 1) * size == q * size - size) by (nonlinear_arith);
        let m = w % size;
        let d = w - p;
        if m - d >= 0 {
            lemma_fundamental_div_mod_converse(p, size, q, m - d);
        } else {
            lemma_fundamental_div_mod_converse(p, size, q - 1, m - d + size);
        }
    }
}

pub proof fn lemma_slots_fwd(w: int, size: int)
    requires size > 0, w >= 0,
    ensures forall|p: int| w <= p < w + size ==> #[trigger] (p % size) == (if w % size + (p - w) < size { w % size + (p - w) } else { w % size + (p - w) - size }),
{
    lemma_ring(w, size);
    assert forall|p: int| w <= p < w + size implies #[trigger] (p % size) == (if w % size + (p - w) < size { w % size + (p - w) } else { w % size + (p - w) - size }) by {
        let i = p - w;
        assert((w + i) % size == p % size);
    }
}

/// position p was held before and its slot is unchanged
pub open spec fn kept(o: SharedInfo, before: Seq<u8>, after: Seq<u8>, p: int) -> bool {
    o.stored.has(p) && after[p % (o.size as int)] == before[p % (o.size as int)]
}
/// C01: the round trip as a lemma over the contracts above. `hist[p]` is the byte most recently
/// written at position p.
pub open spec fn ring_inv(data: Seq<u8>, s: SharedInfo, hist: spec_fn(int) -> u8) -> bool {
    forall|p: int| #[trigger] s.stored.has(p) ==> data[p % (s.size as int)] == hist(p)
}
pub open spec fn upd(hist: spec_fn(int) -> u8, wp: int, n: int, buf: Seq<u8>) -> spec_fn(int) -> u8 { |p: int| if wp <= p < wp + n { buf[p - wp] } else { hist(p) } }
pub proof fn lemma_roundtrip_write(data: Seq<u8>, data2: Seq<u8>, o: SharedInfo, s: SharedInfo, hist: spec_fn(int) -> u8, buf: Seq<u8>, n: int)
    requires
        ring_inv(data, o, hist), s.size == o.size,
        // the postcondition of BoundedStorageWriter::write
        forall|i: int| 0 <= i < n ==> #[trigger] data2[(o.write_position + i) % (o.size as int)] == buf[i],
        forall|p: int| #[trigger] s.stored.has(p) && !(o.write_position <= p < o.write_position + n) ==> kept(o, data, data2, p),
    ensures
        ring_inv(data2, s, upd(hist, o.write_position as int, n, buf)), // #C01 what was written is what is stored
{
    let h2 = upd(hist, o.write_position as int, n, buf);
    assert forall|p: int| #[trigger] s.stored.has(p) implies data2[p % (s.size as int)] == h2(p) by {
        if o.write_position <= p < o.write_position + n {
            let i = p - o.write_position;
            assert(data2[(o.write_position + i) % (o.size as int)] == buf[i]);
        } else {
            assert(kept(o, data, data2, p));
        }
    }
}
pub proof fn lemma_roundtrip_read(data: Seq<u8>, s: SharedInfo, hist: spec_fn(int) -> u8, out: Seq<u8>, n: int)
    requires
        ring_inv(data, s, hist),
        // the postcondition of BoundedStorageReader::read
        forall|p: int| s.read_position <= p < s.read_position + n ==> #[trigger] s.stored.has(p),
        forall|i: int| 0 <= i < n ==> #[trigger] out[i] == data[(s.read_position + i) % (s.size as int)],
    ensures forall|i: int| 0 <= i < n ==> #[trigger] out[i] == hist(s.read_position + i), // #C01 what is read is what was written
{
    assert forall|i: int| 0 <= i < n implies #[trigger] out[i] == hist(s.read_position + i) by {
        assert(s.stored.has(s.read_position + i));
    }
}
} // verus!

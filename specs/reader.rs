//@include prelude.rs
// The user-facing reader: StreamDownload's Read, Seek and their helpers.
// The download task runs concurrently; what the reader may conclude from each call on its handle is
// the handle's contract (its own functions are verified in unit `handle`):
//   * positions are only ever added to the downloaded set, so a position seen once stays downloaded;
//   * `over` (the task announced its end) is final, and from then on neither the downloaded set
//     (`fin`) nor the failure flag (`fails`) changes any more.
verus! {
//@known get_downloaded_at_position wait_for_position seek read stream_position notify_read is_failed content_length max_capacity cancel clone checked_seek get_absolute_seek_position handle_read normalize_requested_position check_for_failure check_for_excessive_read check_for_excessive_seek
//@subst "DropGuard" "VxGuard"
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }

pub enum Op { Wait(u64), Seek(u64) }
pub struct SourceHandle { pub content_length: Option<u64>, pub st: Ghost<HandleState> }
pub struct HandleState { pub seen: vstd::iset::ISet<int>, pub over: bool, pub log: Seq<Op>, pub reads: nat, pub id: int }
/// the positions that are in the downloaded set when the download task has ended
pub uninterp spec fn fin(id: int, p: int) -> bool;
/// did the download of this stream end unsuccessfully
pub uninterp spec fn fails(id: int) -> bool;
impl SourceHandle {
    pub open spec fn seen(&self, p: int) -> bool { self.st@.seen.contains(p) }
    pub open spec fn over(&self) -> bool { self.st@.over }
    pub open spec fn fails(&self) -> bool { fails(self.st@.id) }
    pub open spec fn fin(&self, p: int) -> bool { fin(self.st@.id, p) }
    pub open spec fn grown(&self, o: SourceHandle) -> bool {
        self.content_length == o.content_length && self.st@.id == o.st@.id && (forall|p: int| o.seen(p) ==> #[trigger] self.seen(p)) && (o.over() ==> self.over())
    }
    #[verifier::external_body]
    pub fn get_downloaded_at_position(&mut self, position: u64) -> (r: Option<Range<u64>>)
        ensures final(self).grown(*old(self)), final(self).over() == old(self).over(), final(self).st@.log == old(self).st@.log, final(self).st@.reads == old(self).st@.reads,
            match r {
                Some(r) => r.start <= position < r.end && (forall|q: int| r.start <= q < r.end ==> #[trigger] final(self).seen(q)) && (old(self).over() ==> !old(self).fin(r.end as int)),
                None => old(self).over() ==> !old(self).fin(position as int),
            } { unimplemented!() }
    #[verifier::external_body]
    pub fn wait_for_position(&mut self, requested_position: u64) -> (r: bool)
        ensures final(self).grown(*old(self)), final(self).st@.log == old(self).st@.log.push(Op::Wait(requested_position)), final(self).st@.reads == old(self).st@.reads,
            final(self).over() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, seek_position: u64)
        requires old(self).content_length is Some ==> seek_position <= old(self).content_length->Some_0, // #C07,C04 the download is never asked to seek past the content
        ensures final(self).grown(*old(self)), final(self).st@.log == old(self).st@.log.push(Op::Seek(seek_position)), final(self).st@.reads == old(self).st@.reads,
            final(self).over() == old(self).over() { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_read(&mut self)
        ensures final(self).grown(*old(self)), final(self).over() == old(self).over(), final(self).st@.seen == old(self).st@.seen, final(self).st@.log == old(self).st@.log, final(self).st@.reads == old(self).st@.reads + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_failed(&self) -> (r: bool)
        ensures r ==> self.fails(), self.over() && self.fails() ==> r { unimplemented!() }
    #[verifier::external_body]
    pub fn content_length(&self) -> (r: Option<u64>) ensures r == self.content_length { unimplemented!() }
}
/// The storage's read half.
pub trait StorageReader: Sized {
    spec fn pos(&self) -> int;
    spec fn at(&self, p: int) -> u8;
    /// reads and seeks so far that failed, or returned nothing although something was asked for
    spec fn errs(&self) -> nat;
    /// reads so far: (position, buffer length)
    spec fn asked(&self) -> Seq<(int, int)>;
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).asked() == old(self).asked().push((old(self).pos(), old(buf)@.len() as int)),
            forall|p: int| #[trigger] final(self).at(p) == old(self).at(p),
            match r {
                Ok(n) => n <= old(buf)@.len() && final(self).pos() == old(self).pos() + n && (n > 0 || old(buf)@.len() == 0 ==> final(self).errs() == old(self).errs())
                    && (n == 0 && old(buf)@.len() > 0 ==> final(self).errs() > old(self).errs())
                    && (forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == old(self).at(old(self).pos() + i))
                    && (forall|i: int| n <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i]),
                Err(_) => final(self).errs() > old(self).errs(),
            };
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures final(self).asked() == old(self).asked(), forall|p: int| #[trigger] final(self).at(p) == old(self).at(p),
            r is Ok ==> final(self).errs() == old(self).errs(), r is Err ==> final(self).errs() > old(self).errs(),
            p is Start && r is Ok ==> r->Ok_0 == p->Start_0 && final(self).pos() == p->Start_0;
    fn stream_position(&mut self) -> (r: io::Result<u64>)
        ensures final(self).asked() == old(self).asked(), forall|p: int| #[trigger] final(self).at(p) == old(self).at(p), final(self).pos() == old(self).pos(),
            r is Ok ==> r->Ok_0 == old(self).pos() && final(self).errs() == old(self).errs(), r is Err ==> final(self).errs() > old(self).errs();
}
pub trait StorageProvider: Sized { type Reader: StorageReader; }
pub struct CancellationToken { pub n: Ghost<nat> }
impl CancellationToken {
    #[verifier::external_body]
    pub fn is_cancelled(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn cancel(&mut self) ensures final(self).n@ == old(self).n@ + 1 { unimplemented!() }
}
//@struct file=lib.rs name=StreamDownload generics="<P: StorageProvider>"
impl<P: StorageProvider> StreamDownload<P> {
    pub open spec fn inv(&self) -> bool { self.handle.content_length == self.content_length }
    pub open spec fn pos(&self) -> int { self.output_reader.pos() }
    pub open spec fn errs(&self) -> nat { self.output_reader.errs() }
    pub open spec fn same_cfg(&self, o: Self) -> bool { self.content_length == o.content_length && self.storage_capacity == o.storage_capacity && self.cancel_on_drop == o.cancel_on_drop && self.download_task_cancellation_token == o.download_task_cancellation_token }
    pub open spec fn same_at(&self, o: Self) -> bool { forall|p: int| #[trigger] self.output_reader.at(p) == o.output_reader.at(p) }
    /// a position limited to the content length
    pub open spec fn norm(&self, p: int) -> int { match self.content_length { Some(l) => min(p, l as int), None => p } }
    /// where a read of n bytes wants to end
    pub open spec fn goal(&self, n: int) -> int { self.norm(min(self.pos() + n, u64::MAX as int)) }
    pub open spec fn target(&self, f: SeekFrom) -> int { match f { SeekFrom::Start(p) => p as int, SeekFrom::Current(d) => self.pos() + d, SeekFrom::End(d) => self.content_length->Some_0 + d } }
    pub open spec fn target_ok(&self, f: SeekFrom) -> bool { (f is End ==> self.content_length is Some) && 0 <= self.target(f) <= u64::MAX }
    pub open spec fn excessive(&self, p: int) -> bool { self.storage_capacity is Some && p > min(self.pos() + self.storage_capacity->Some_0, u64::MAX as int) }
    pub open spec fn too_long(&self, n: int) -> bool { self.storage_capacity is Some && n > self.storage_capacity->Some_0 }
}

//@fn file=lib.rs fn=checked_seek props=C04
//@sig fn checked_seek(base: u64, offset: i64) -> (r: io::Result<u64>)
    ensures
        0 <= base + offset <= u64::MAX ==> r is Ok && r->Ok_0 == base + offset, // #C04
        !(0 <= base + offset <= u64::MAX) ==> r is Err && r->Err_0.k == io::ErrorKind::InvalidInput, // #C04 a target before the start is an error, nothing wraps
//@end

impl<P: StorageProvider> StreamDownload<P> {
//@fn file=lib.rs impl=StreamDownload fn=get_absolute_seek_position props=C04
//@sig fn get_absolute_seek_position(&mut self, relative_position: SeekFrom) -> (r: io::Result<u64>)
    requires old(self).inv(),
    ensures
        r is Ok ==> old(self).target_ok(relative_position) && r->Ok_0 == old(self).target(relative_position), // #C04 the exact target
        r is Err ==> !old(self).target_ok(relative_position) || final(self).errs() > old(self).errs(), // #C04 rejected only for a target that does not exist
        relative_position is End && old(self).content_length is None ==> r is Err && r->Err_0.k == io::ErrorKind::Unsupported, // #C04 no seek from the end of unknown length
        final(self).inv() && final(self).same_cfg(*old(self)) && final(self).same_at(*old(self)) && final(self).handle == old(self).handle,
        final(self).pos() == old(self).pos(), // #C04 nothing moves
        final(self).output_reader.asked() == old(self).output_reader.asked(),
        final(self).errs() >= old(self).errs(), r is Ok ==> final(self).errs() == old(self).errs(),
//@end

//@fn file=lib.rs impl=StreamDownload fn=handle_read props=C05
//@sig fn handle_read(&mut self, buf: &mut [u8], available: u64) -> (r: io::Result<usize>)
    requires old(self).inv(),
        forall|q: int| old(self).pos() <= q < old(self).pos() + available ==> #[trigger] old(self).handle.seen(q), // #C05 only called with what is really downloaded
    ensures
        final(self).inv() && final(self).same_cfg(*old(self)) && final(self).same_at(*old(self)) && final(self).handle.grown(old(self).handle) && final(self).handle.over() == old(self).handle.over() && final(self).handle.st@.log == old(self).handle.st@.log,
        final(buf)@.len() == old(buf)@.len(),
        final(self).output_reader.asked() == old(self).output_reader.asked().push((old(self).pos(), min(available as int, old(buf)@.len() as int))), // #C05 reads the available bytes, no more and no less
        r is Ok ==> final(self).errs() == old(self).errs(), // #C05,C09 a storage that fails, or no longer has what was downloaded, is reported and not read as the end
        r is Err ==> final(self).errs() > old(self).errs(),
        r is Ok && r->Ok_0 == 0 ==> available == 0 || old(buf)@.len() == 0, // #C05 the end is reported only when nothing is available
        r is Ok ==> r->Ok_0 <= min(available as int, old(buf)@.len() as int) && final(self).pos() == old(self).pos() + r->Ok_0, // #C05,C04 the position advances by what was returned
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == old(self).output_reader.at(old(self).pos() + i), // #C05 exactly the stored bytes
        final(self).handle.st@.reads == old(self).handle.st@.reads + 1, // #C02 the download is told that room was made
//@end

//@fn file=lib.rs impl=StreamDownload fn=normalize_requested_position props=C04,C05
//@sig fn normalize_requested_position(&self, requested_position: u64) -> (r: u64)
    ensures r == self.norm(requested_position as int), // #C04,C05 limited to the content length, otherwise unchanged
//@end

//@fn file=lib.rs impl=StreamDownload fn=check_for_failure props=C09
//@sig fn check_for_failure(&self) -> (r: io::Result<()>)
    ensures
        self.handle.over() && self.handle.fails() ==> r is Err, // #C09 a recorded failure is reported
        r is Err ==> self.handle.fails(), // #C09 success is never reported as failure
//@end

//@fn file=lib.rs impl=StreamDownload fn=check_for_excessive_read props=C08
//@sig fn check_for_excessive_read(&self, buf_len: usize) -> (r: io::Result<()>)
    ensures
        self.too_long(buf_len as int) <==> r is Err, // #C08 refused exactly when larger than the capacity
        r is Err ==> r->Err_0.k == io::ErrorKind::InvalidInput, // #C08
//@end

//@fn file=lib.rs impl=StreamDownload fn=check_for_excessive_seek props=C08
//@sig fn check_for_excessive_seek(&mut self, absolute_seek_position: u64) -> (r: io::Result<()>)
    requires old(self).inv(),
    ensures
        old(self).excessive(absolute_seek_position as int) ==> r is Err, // #C08 refused when further than the capacity ahead
        r is Err ==> old(self).excessive(absolute_seek_position as int) && r->Err_0.k == io::ErrorKind::InvalidInput || final(self).errs() > old(self).errs(), // #C08 and only then
        final(self).inv() && final(self).same_cfg(*old(self)) && final(self).same_at(*old(self)) && final(self).handle == old(self).handle,
        final(self).pos() == old(self).pos(), // #C08 nothing moves
        final(self).output_reader.asked() == old(self).output_reader.asked(),
        final(self).errs() >= old(self).errs(), r is Ok ==> final(self).errs() == old(self).errs(),
//@end

//@fn file=lib.rs impl="Read for StreamDownload" fn=read props=C05,C08,C09
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
    requires old(self).inv(),
    ensures
        final(self).inv() && final(self).same_cfg(*old(self)) && final(self).same_at(*old(self)) && final(self).handle.grown(old(self).handle),
        final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> final(self).output_reader.asked().len() == old(self).output_reader.asked().len() + 1 && ({
            let (p, n) = final(self).output_reader.asked().last();
            &&& p == old(self).pos()
            &&& r->Ok_0 <= n <= old(buf)@.len()
            &&& forall|q: int| p <= q < p + n ==> #[trigger] final(self).handle.seen(q)
        }), // #C05 only positions that really were downloaded are read from the storage
        r is Ok ==> ({
            let (p, n) = final(self).output_reader.asked().last();
            p + n >= old(self).goal(old(buf)@.len() as int) || n == old(buf)@.len() || final(self).handle.over() && !final(self).handle.fin(p + n)
        }), // #C05 blocks until everything requested is there or the download is over and has nothing more at this position
        r is Ok ==> final(self).pos() == old(self).pos() + r->Ok_0, // #C04,C05 the position advances by what was returned
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == old(self).output_reader.at(old(self).pos() + i), // #C05 exactly the stored bytes
        r is Ok ==> !final(self).handle.over() || !final(self).handle.fails(), // #C09 partial content of a failed download is never returned after its end is known
        r is Ok ==> final(self).errs() == old(self).errs(), // #C05,C09 a failing storage read is reported
        r is Ok && r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).goal(old(buf)@.len() as int) <= old(self).pos() || final(self).handle.over() && !final(self).handle.fin(old(self).pos()), // #C05 the end is reported only when nothing is available at the position
        r is Err ==> final(self).handle.fails() || old(self).too_long(old(buf)@.len() as int) || final(self).errs() > old(self).errs(), // #C09,C08 no other reason for an error
        old(self).too_long(old(buf)@.len() as int) ==> r is Err && (r->Err_0.k == io::ErrorKind::InvalidInput || final(self).handle.fails()) && final(self).output_reader == old(self).output_reader && final(self).handle.st@.log == old(self).handle.st@.log, // #C08 refused, nothing consumed or requested
        r is Ok ==> final(self).handle.st@.reads == old(self).handle.st@.reads + 1, // #C02 the download is told that room was made
        forall|i: int| old(self).handle.st@.log.len() <= i < final(self).handle.st@.log.len() ==> (match #[trigger] final(self).handle.st@.log[i] {
            Op::Wait(w) => w == old(self).goal(old(buf)@.len() as int),
            Op::Seek(s) => old(self).pos() <= s < old(self).goal(old(buf)@.len() as int),
        }), // #C05 waits for exactly the wanted position, asks only for missing parts of it
//@loop 0
        invariant
            self.inv() && self.same_cfg(*old(self)) && self.same_at(*old(self)) && self.handle.grown(old(self).handle),
            buf@ == old(buf)@,
            self.pos() == old(self).pos() && stream_position == self.pos() && self.output_reader.asked() == old(self).output_reader.asked() && self.errs() == old(self).errs(),
            requested_position == self.goal(buf@.len() as int),
            self.handle.st@.reads == old(self).handle.st@.reads,
            !old(self).too_long(buf@.len() as int), // #C08
            self.handle.st@.log.len() >= old(self).handle.st@.log.len(),
            forall|i: int| old(self).handle.st@.log.len() <= i < self.handle.st@.log.len() ==> (match #[trigger] self.handle.st@.log[i] {
                Op::Wait(w) => w == old(self).goal(old(buf)@.len() as int),
                Op::Seek(s) => old(self).pos() <= s < old(self).goal(old(buf)@.len() as int),
            }),
//@locals stream_position requested_position closest_set stream_done available_end
//@end

//@fn file=lib.rs impl="Seek for StreamDownload" fn=seek props=C04,C08,C09
//@sig fn seek(&mut self, relative_position: SeekFrom) -> (r: io::Result<u64>)
    requires old(self).inv(),
    ensures
        final(self).same_cfg(*old(self)) && final(self).same_at(*old(self)) && final(self).handle.grown(old(self).handle),
        r is Ok ==> old(self).target_ok(relative_position) && r->Ok_0 == old(self).norm(old(self).target(relative_position)) && final(self).pos() == r->Ok_0, // #C04 the exact target, limited to the content length only
        !old(self).target_ok(relative_position) ==> r is Err, // #C04 a target before the start, or from an unknown end, is an error
        relative_position is End && old(self).content_length is None ==> r is Err && (r->Err_0.k == io::ErrorKind::Unsupported || final(self).handle.fails()), // #C04
        r is Err && final(self).errs() == old(self).errs() ==> final(self).pos() == old(self).pos(), // #C04,C08 a rejected seek does not move
        r is Ok ==> !old(self).excessive(r->Ok_0 as int), // #C08 a seek past the capacity is refused
        old(self).target_ok(relative_position) && old(self).excessive(old(self).norm(old(self).target(relative_position))) ==> r is Err && final(self).handle.st@.log == old(self).handle.st@.log, // #C08 ... and not attempted
        r is Ok ==> final(self).errs() == old(self).errs(), // #C04,C09 a failing storage seek is reported
        r is Err ==> final(self).handle.fails() || final(self).errs() > old(self).errs() || !old(self).target_ok(relative_position) || old(self).excessive(old(self).norm(old(self).target(relative_position))), // #C04,C08,C09 no other reason for an error
        r is Ok ==> final(self).handle.st@.log == old(self).handle.st@.log && final(self).handle.seen(r->Ok_0 as int) || final(self).handle.st@.log == old(self).handle.st@.log.push(Op::Seek(r->Ok_0)), // #C04 asks the download for that position unless it is there already
        r is Ok ==> !old(self).handle.over() || !old(self).handle.fails(), // #C09
        final(self).output_reader.asked() == old(self).output_reader.asked(), // #C08 consumes nothing
//@end

//@fn file=lib.rs impl=StreamDownload fn=cancel_download props=C09
//@sig fn cancel_download(&mut self)
    ensures final(self).download_task_cancellation_token.n@ == old(self).download_task_cancellation_token.n@ + 1, // #C09 cancels
        final(self).output_reader == old(self).output_reader && final(self).handle == old(self).handle && final(self).cancel_on_drop == old(self).cancel_on_drop,
//@end
//@fn file=lib.rs impl="Drop for StreamDownload" fn=drop props=C17
//@sig fn drop(&mut self)
    ensures final(self).download_task_cancellation_token.n@ == old(self).download_task_cancellation_token.n@ + (if old(self).cancel_on_drop { 1int } else { 0 }), // #C17 cancels exactly when configured
//@end
//@fn file=lib.rs impl=StreamDownload fn=content_length props=C04
//@sig fn content_length(&self) -> (r: Option<u64>)
    ensures r == self.content_length, // #C04
//@end
}
} // verus!

//@include prelude.rs
//@include model.rs
verus! {
//@subst "ProgressFn<S>" "ProgressCb<S>"
//@subst "ReconnectFn<S>" "ReconnectCb<S>"
//@subst "Arc<AssertUnwindSafe<RwLock<RangeSet<u64>>>>" "RangeSet"
//@subst "std::time::Instant" "Instant"
//@subst "std::time::Duration" "Duration"
//@subst "tokio::time::timeout" "timeout"
//@known reconnect content_length supports_seek seek_range on_finish stream_position set_failed
//@comb map_err Result
//@ghostarg timeout "Ghost(self.retry_timeout)"
//@ghostarg notify_position_reached "Ghost(self.requested_position)"
//@ghostarg request "Ghost(self.writer.tries())"
//@ghostarg wait_for_read "Ghost(self.writer.tries())"
//@subst "self.requested_position.get()" "self.requested_position.vx_poll(Ghost(self.writer.pos()), Ghost(self.downloaded))"

#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@enum file=source/mod.rs name=StreamOutcome
#[derive(PartialEq, Eq, Structural)]
//@enum file=source/mod.rs name=DownloadAction
//@enum file=settings.rs name=StreamPhase
//@struct file=settings.rs name=StreamState

/// A source: delivers res[spos..] in order; requests are recorded.
pub trait SourceStream: Sized {
    type Error;
    spec fn spos(&self) -> int;
    /// range requests made so far
    spec fn reqs(&self) -> Seq<(u64, Option<u64>)>;
    /// reconnect attempts made so far: (position, succeeded)
    spec fn rlog(&self) -> Seq<(u64, bool)>;
    spec fn seekable(&self) -> bool;
    /// range requests that failed
    spec fn errs(&self) -> nat;
    /// the next item; a chunk consists of the resource's bytes at the stream's position.
    /// An error item or the end of the stream does not move it.
    fn next(&mut self) -> (r: Option<core::result::Result<Bytes, Self::Error>>)
        ensures final(self).reqs() == old(self).reqs(), final(self).rlog() == old(self).rlog(), final(self).seekable() == old(self).seekable(), final(self).errs() == old(self).errs(),
            match r {
                Some(Ok(b)) => final(self).spos() == old(self).spos() + b@.len() && forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == res(old(self).spos() + i),
                _ => final(self).spos() == old(self).spos(),
            };
    fn supports_seek(&self) -> (r: bool) ensures r == self.seekable();
    fn seek_range(&mut self, start: u64, end: Option<u64>) -> (r: io::Result<()>)
        requires old(self).seekable(), // #C07 a stream that cannot seek is never asked to
        ensures final(self).reqs() == old(self).reqs().push((start, end)), final(self).rlog() == old(self).rlog(), final(self).seekable() == old(self).seekable(),
            final(self).errs() == old(self).errs() + (if r is Err { 1nat } else { 0nat }),
            r is Ok ==> final(self).spos() == start;
    /// a failed reconnect leaves the stream where it was
    fn reconnect(&mut self, current_position: u64) -> (r: io::Result<()>)
        ensures final(self).reqs() == old(self).reqs(), final(self).seekable() == old(self).seekable(), final(self).errs() == old(self).errs(),
            final(self).rlog() == old(self).rlog().push((current_position, r is Ok)),
            r is Ok ==> final(self).spos() == current_position,
            r is Err ==> final(self).spos() == old(self).spos();
}
/// The storage's write half; `at(p)` is the byte stored at position p, `vis(p)` says that a
/// concurrent reader of p sees it. Writing makes it visible only once flushed (rewriting a visible
/// byte with the same value keeps it visible); nothing else hides what is visible.
pub trait StorageWriter: Sized {
    spec fn pos(&self) -> int;
    spec fn at(&self, p: int) -> u8;
    spec fn vis(&self, p: int) -> bool;
    /// operations that failed
    spec fn errs(&self) -> nat;
    /// write attempts made
    spec fn tries(&self) -> nat;
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures final(self).tries() == old(self).tries() + 1, final(self).errs() == old(self).errs() + (if r is Err { 1nat } else { 0nat }),
            forall|p: int| (p < old(self).pos() || p >= old(self).pos() + buf@.len()) ==> #[trigger] final(self).at(p) == old(self).at(p),
            forall|p: int| old(self).vis(p) && (old(self).pos() <= p < old(self).pos() + buf@.len() ==> old(self).at(p) == buf@[p - old(self).pos()]) ==> #[trigger] final(self).vis(p),
            match r {
                Ok(n) => n <= buf@.len() && final(self).pos() == old(self).pos() + n
                    && (forall|p: int| old(self).pos() <= p < old(self).pos() + n ==> #[trigger] final(self).at(p) == buf@[p - old(self).pos()])
                    && (forall|p: int| p >= old(self).pos() + n ==> #[trigger] final(self).at(p) == old(self).at(p)),
                Err(_) => forall|p: int| old(self).pos() <= p < old(self).pos() + buf@.len() ==> #[trigger] final(self).at(p) == old(self).at(p) || final(self).at(p) == buf@[p - old(self).pos()],
            };
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).tries() == old(self).tries(), final(self).errs() == old(self).errs() + (if r is Err { 1nat } else { 0nat }), final(self).pos() == old(self).pos(), forall|p: int| #[trigger] final(self).at(p) == old(self).at(p),
            forall|p: int| (r is Ok || old(self).vis(p)) ==> #[trigger] final(self).vis(p);
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures final(self).tries() == old(self).tries(), final(self).errs() == old(self).errs() + (if r is Err { 1nat } else { 0nat }), forall|p: int| #[trigger] final(self).at(p) == old(self).at(p),
            forall|p: int| old(self).vis(p) ==> #[trigger] final(self).vis(p),
            p is Start && r is Ok ==> final(self).pos() == p->Start_0;
    fn stream_position(&mut self) -> (r: io::Result<u64>)
        ensures final(self).tries() == old(self).tries(), final(self).errs() == old(self).errs() + (if r is Err { 1nat } else { 0nat }), final(self).pos() == old(self).pos(), forall|p: int| #[trigger] final(self).at(p) == old(self).at(p),
            forall|p: int| old(self).vis(p) ==> #[trigger] final(self).vis(p),
            r is Ok ==> r->Ok_0 == old(self).pos();
}
/// visible bytes stay visible unless a different value is written over them
pub open spec fn kept_vis<W: StorageWriter>(a: W, b: W, at: int, buf: Seq<u8>) -> bool {
    forall|p: int| a.vis(p) && (at <= p < at + buf.len() ==> a.at(p) == buf[p - at]) ==> #[trigger] b.vis(p)
}
pub struct ProgressCb<S> { pub log: Ghost<Seq<StreamState>>, pub s: Option<S> }
impl<S> ProgressCb<S> {
    #[verifier::external_body]
    pub fn vx_call3(&mut self, stream: &S, info: StreamState, t: &CancellationToken)
        ensures final(self).log@ == old(self).log@.push(info) { unimplemented!() }
}
pub struct ReconnectCb<S> { pub calls: Ghost<nat>, pub s: Option<S> }
impl<S: SourceStream> ReconnectCb<S> {
    /// assumption: the user's callback does not reposition the stream
    #[verifier::external_body]
    pub fn vx_call2(&mut self, stream: &S, t: &CancellationToken)
        ensures final(self).calls@ == old(self).calls@ + 1 { unimplemented!() }
}
/// what the reader waits for, set by the reader at any time. `hits` counts the polls that found a
/// request the writer has reached, `clears` the requests withdrawn; `at`/`seen`: where the writer
/// was at the last poll, and what was readable then.
pub struct RequestedPosition { pub hits: Ghost<nat>, pub clears: Ghost<nat>, pub at: Ghost<int>, pub seen: Ghost<Downloaded> }
impl RequestedPosition {
    #[verifier::external_body]
    pub fn vx_poll(&mut self, at: Ghost<int>, d: Ghost<Downloaded>) -> (r: Option<u64>)
        ensures final(self).at == at, final(self).seen == d, final(self).clears == old(self).clears,
            final(self).hits@ == old(self).hits@ + (if r is Some && r->Some_0 <= at@ { 1nat } else { 0nat }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).clears@ == old(self).clears@ + 1, final(self).hits == old(self).hits, final(self).at == old(self).at, final(self).seen == old(self).seen { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.hits@ == 0 && r.clears@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `notes`: how often the reader was told that its position was reached
pub struct PositionReached { pub done: bool, pub notes: Ghost<nat> }
impl PositionReached {
    #[verifier::external_body]
    pub fn notify_position_reached(&mut self, rp: Ghost<RequestedPosition>)
        requires rp@.clears@ == rp@.hits@, // #C05,C16 a request is withdrawn before the reader is woken: what it asks for next must not be wiped
        ensures final(self).notes@ == old(self).notes@ + 1, final(self).done == old(self).done { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_stream_done(&mut self) ensures final(self).done, final(self).notes == old(self).notes { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures !r.done && r.notes@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `armed`: how many writes had been attempted when the reader was last asked to tell when it has read
pub struct NotifyRead { pub armed: Ghost<Option<nat>> }
impl NotifyRead {
    #[verifier::external_body]
    pub fn request(&mut self, tries: Ghost<nat>) ensures final(self).armed@ == Some(tries@) { unimplemented!() }
    #[verifier::external_body]
    pub fn wait_for_read(&mut self, tries: Ghost<nat>)
        requires old(self).armed@ is Some && old(self).armed@->Some_0 < tries@, // #C02,C06 the reader was asked before the write that found the storage full: a read in between is not missed
        ensures final(self).armed@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct DownloadStatus { pub failed: bool }
impl DownloadStatus {
    #[verifier::external_body]
    pub fn set_failed(&mut self) ensures final(self).failed { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures !r.failed { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub mod mpsc {
    use vstd::prelude::*;
    verus! {
    pub struct Sender<T> { pub cap: usize, pub t: Option<T> }
    pub struct Receiver<T> { pub cap: usize, pub t: Option<T> }
    #[verifier::external_body]
    pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
        requires n > 0,
        ensures r.0.cap == n && r.1.cap == n { unimplemented!() }
    impl<T> Sender<T> {
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl<T> Receiver<T> {
        /// the engine keeps a sender itself, so the channel never closes
        #[verifier::external_body]
        pub fn recv(&mut self) -> (r: Option<T>) ensures r is Some, *final(self) == *old(self) { unimplemented!() }
    }
    } // verus!
}
//@struct file=source/handle.rs name=Downloaded
impl Downloaded {
    pub open spec fn has(&self, p: int) -> bool { self.0.has(p) }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures forall|p: int| !#[trigger] r.has(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@fn file=source/handle.rs impl=Downloaded fn=add props=C05,C06
//@sig fn add(&mut self, range: core::ops::Range<u64>)
    ensures forall|p: int| #[trigger] final(self).has(p) == (old(self).has(p) || range.start <= p < range.end), // #C05,C06,C15 exactly the given range becomes readable; empty ranges are harmless
//@end
//@fn file=source/handle.rs impl=Downloaded fn=get props=C05,C07,C15
//@sig fn get(&self, position: u64) -> (r: Option<core::ops::Range<u64>>)
    ensures match r {
        Some(r) => r.start <= position < r.end && (forall|q: int| r.start <= q < r.end ==> #[trigger] self.has(q)) && !self.has(r.end as int) && !self.has(r.start - 1),
        None => !self.has(position as int),
    }, // #C05,C07,C15 the range around the position, if it is stored
//@end
//@fn file=source/handle.rs impl=Downloaded fn=next_gap props=C07
//@sig fn next_gap(&self, range: core::ops::Range<u64>) -> (r: Option<core::ops::Range<u64>>)
    ensures is_first_gap(self.0, range.start as int, range.end as int, r), // #C07 the first missing range
//@end
}
//@struct file=source/mod.rs name=Source generics="<S: SourceStream, W: StorageWriter>"
//@struct file=settings.rs name=Settings generics="<S: SourceStream>"
//@struct file=source/handle.rs name=SourceHandle

/// the last reconnect attempt was made in between and succeeded
pub open spec fn reconnected(a: Seq<(u64, bool)>, b: Seq<(u64, bool)>) -> bool { b.len() > a.len() && b.last().1 }
pub open spec fn no_complete(log: Seq<StreamState>) -> bool { forall|i: int| 0 <= i < log.len() ==> !((#[trigger] log[i]).phase is Complete) }

impl<S: SourceStream, W: StorageWriter> Source<S, W> {
    pub open spec fn rem(&self) -> Seq<u8> { match self.remaining_bytes { Some(b) => b@, None => Seq::empty() } }
    pub open spec fn log(&self) -> Seq<StreamState> { match self.on_progress { Some(c) => c.log@, None => Seq::empty() } }
    pub open spec fn rcalls(&self) -> nat { match self.on_reconnect { Some(c) => c.calls@, None => 0 } }
    /// every position marked as downloaded holds the resource's byte, visible to the reader
    pub open spec fn stored_ok(&self) -> bool {
        (forall|p: int| #![trigger self.downloaded.has(p)] #![trigger self.writer.at(p)] self.downloaded.has(p) ==> self.writer.at(p) == res(p))
            && (forall|p: int| #![trigger self.downloaded.has(p)] #![trigger self.writer.vis(p)] self.downloaded.has(p) ==> self.writer.vis(p))
            && self.answered()
    }
    /// every request found to be reached was withdrawn, and the reader told, once
    pub open spec fn answered(&self) -> bool { self.requested_position.clears@ == self.requested_position.hits@ && self.position_reached.notes@ == self.requested_position.hits@ }
    /// nothing about the signals changed
    pub open spec fn same_sig(&self, o: Self) -> bool { self.requested_position == o.requested_position && self.position_reached.notes == o.position_reached.notes }
    /// the reader's request was looked at with the writer here and everything stored marked
    pub open spec fn polled(&self, at: int) -> bool { self.requested_position.at@ == at && forall|p: int| #[trigger] self.requested_position.seen@.has(p) == self.downloaded.has(p) }
    /// leftover bytes continue at the writer's position
    pub open spec fn rem_ok(&self) -> bool { forall|i: int| 0 <= i < self.rem().len() ==> #[trigger] self.rem()[i] == res(self.writer.pos() + i) }
    /// the region being prefetched is stored although not readable yet
    pub open spec fn prefetch_ok(&self) -> bool {
        !self.prefetch_complete ==> self.remaining_bytes is None && self.prefetch_start_position <= self.writer.pos()
            && (forall|p: int| self.prefetch_start_position <= p < self.writer.pos() ==> #[trigger] self.writer.at(p) == res(p))
            && (forall|p: int| self.prefetch_start_position <= p < self.writer.pos() ==> #[trigger] self.writer.vis(p))
    }
    pub open spec fn inv(&self) -> bool { self.stored_ok() && self.rem_ok() && self.prefetch_ok() }
    /// the stream continues right after what was received: `extra` bytes are in flight
    pub open spec fn sync(&self, s: S, extra: int) -> bool { s.spos() == self.writer.pos() + self.rem().len() + extra }
    pub open spec fn same_cfg(&self, o: Self) -> bool {
        self.content_length == o.content_length && self.prefetch_bytes == o.prefetch_bytes && self.batch_write_size == o.batch_write_size && self.retry_timeout == o.retry_timeout
            && self.download_status == o.download_status && (self.on_progress is Some) == (o.on_progress is Some) && (self.on_reconnect is Some) == (o.on_reconnect is Some)
    }
    pub open spec fn same_prefetch(&self, o: Self) -> bool { self.prefetch_complete == o.prefetch_complete && self.prefetch_start_position == o.prefetch_start_position }
    pub open spec fn same_cb(&self, o: Self) -> bool { self.log() == o.log() && self.rcalls() == o.rcalls() }
    pub open spec fn same_at(&self, o: Self) -> bool { (forall|p: int| #[trigger] self.writer.at(p) == o.writer.at(p)) && (forall|p: int| o.writer.vis(p) ==> #[trigger] self.writer.vis(p)) }
    pub open spec fn same_dl(&self, o: Self) -> bool { forall|p: int| #[trigger] self.downloaded.has(p) == o.downloaded.has(p) }
    pub open spec fn grown(&self, o: Self) -> bool { forall|p: int| #![trigger o.downloaded.has(p)] #![trigger self.downloaded.has(p)] o.downloaded.has(p) ==> self.downloaded.has(p) }
    /// storage operations and range requests that failed so far
    pub open spec fn errs(&self, s: S) -> nat { self.writer.errs() + s.errs() }
    pub open spec fn done(&self) -> bool { self.position_reached.done }
    /// everything of a seekable source of known length is there
    pub open spec fn complete(&self, s: S) -> bool { s.seekable() && self.content_length is Some ==> forall|p: int| 0 <= p < self.content_length->Some_0 ==> #[trigger] self.downloaded.has(p) }

//@fn file=source/mod.rs impl=Source fn=new props=C16,C17,C06
//@sig fn new(writer: W, content_length: Option<u64>, settings: Settings<S>, cancellation_token: CancellationToken) -> (r: Self)
    ensures
        r.writer == writer, r.content_length == content_length, r.cancellation_token == cancellation_token,
        r.prefetch_bytes == settings.prefetch_bytes && r.batch_write_size == settings.batch_write_size && r.retry_timeout == settings.retry_timeout && r.on_progress == settings.on_progress && r.on_reconnect == settings.on_reconnect, // #C17 the download uses exactly the configured values
        r.prefetch_complete == (settings.prefetch_bytes == 0) && r.prefetch_start_position == 0, // #C16 gating at the start exactly if a prefetch size is configured
        r.remaining_bytes is None, !r.done(), !r.download_status.failed, r.answered(), // #C06,C09,C16
        forall|p: int| !#[trigger] r.downloaded.has(p), // #C05,C06 nothing is readable before it is stored
//@end

//@fn file=source/mod.rs impl=Source fn=source_handle props=C05,C07,C09
//@sig fn source_handle(&self) -> (r: SourceHandle)
    ensures
        r.downloaded == self.downloaded && r.content_length == self.content_length, // #C05,C07 the reader consults the download's own set of stored positions
        r.download_status == self.download_status && r.position_reached == self.position_reached && r.requested_position == self.requested_position && r.notify_read == self.notify_read && r.seek_tx == self.seek_tx, // #C09,C05 and shares its signals
//@end

//@fn file=source/mod.rs impl=Source fn=write_batched props=C06,C09
//@sig fn write_batched(&mut self, bytes: &[u8]) -> (r: io::Result<usize>)
    ensures
        (r is Ok) == (final(self).writer.errs() == old(self).writer.errs()) && final(self).writer.errs() >= old(self).writer.errs(), // #C09 a failing storage operation is reported, nothing else is
        forall|p: int| (p < old(self).writer.pos() || p >= old(self).writer.pos() + bytes@.len()) ==> #[trigger] final(self).writer.at(p) == old(self).writer.at(p), // #C06 nothing outside the offered range is touched
        kept_vis(old(self).writer, final(self).writer, old(self).writer.pos(), bytes@), // #C06 nothing readable disappears
        r is Ok ==> r->Ok_0 <= bytes@.len() && final(self).writer.pos() == old(self).writer.pos() + r->Ok_0, // #C06 advances by exactly what was stored
        r is Ok ==> forall|p: int| old(self).writer.pos() <= p < old(self).writer.pos() + r->Ok_0 ==> #[trigger] final(self).writer.at(p) == bytes@[p - old(self).writer.pos()], // #C06 byte i is stored at position + i
        r is Ok ==> forall|p: int| p >= old(self).writer.pos() + r->Ok_0 ==> #[trigger] final(self).writer.at(p) == old(self).writer.at(p),
        r is Err ==> forall|p: int| old(self).writer.pos() <= p < old(self).writer.pos() + bytes@.len() ==> #[trigger] final(self).writer.at(p) == old(self).writer.at(p) || final(self).writer.at(p) == bytes@[p - old(self).writer.pos()],
        final(self).downloaded == old(self).downloaded && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).same_cb(*old(self)) && final(self).remaining_bytes == old(self).remaining_bytes && final(self).done() == old(self).done(), // #C06,C16 only the writer is affected
        final(self).same_sig(*old(self)) && final(self).notify_read == old(self).notify_read,
        final(self).writer.tries() > old(self).writer.tries(), // #C02 at least one write is attempted
//@locals written write_size batch_written
//@entry
    let vx_len = bytes.len();
//@loop 0
        invariant
            written <= bytes@.len(),
            self.writer.errs() == old(self).writer.errs(), // #C09
            self.writer.pos() == old(self).writer.pos() + written, // #C06 position advances with the stored bytes
            kept_vis(old(self).writer, self.writer, old(self).writer.pos(), bytes@), // #C06
            forall|p: int| old(self).writer.pos() <= p < old(self).writer.pos() + written ==> #[trigger] self.writer.at(p) == bytes@[p - old(self).writer.pos()], // #C06
            forall|p: int| (p < old(self).writer.pos() || p >= old(self).writer.pos() + written) ==> #[trigger] self.writer.at(p) == old(self).writer.at(p), // #C06
            self.downloaded == old(self).downloaded && self.same_cfg(*old(self)) && self.same_prefetch(*old(self)) && self.same_cb(*old(self)) && self.remaining_bytes == old(self).remaining_bytes && self.done() == old(self).done(),
            self.same_sig(*old(self)) && self.notify_read == old(self).notify_read && self.writer.tries() >= old(self).writer.tries() && (written > 0 ==> self.writer.tries() > old(self).writer.tries()),
//@end

//@fn file=source/mod.rs impl=Source fn=notify_if_reached props=C05,C16
//@sig fn notify_if_reached(&mut self, new_position: u64)
    requires old(self).answered(), new_position == old(self).writer.pos(),
    ensures
        final(self).answered() && final(self).polled(old(self).writer.pos()), // #C05,C16 a reader waiting for this position is told, once
        final(self).downloaded == old(self).downloaded && final(self).writer == old(self).writer && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).same_cb(*old(self)) && final(self).remaining_bytes == old(self).remaining_bytes && final(self).done() == old(self).done() && final(self).notify_read == old(self).notify_read,
//@end

//@fn file=source/mod.rs impl=Source fn=write props=C05,C06,C09
//@sig fn write(&mut self, bytes: Bytes) -> (r: io::Result<u64>)
    requires
        old(self).stored_ok(),
        forall|i: int| 0 <= i < bytes@.len() ==> #[trigger] bytes@[i] == res(old(self).writer.pos() + i),
    ensures
        (r is Ok) == (final(self).writer.errs() == old(self).writer.errs()) && final(self).writer.errs() >= old(self).writer.errs(), // #C09 a failing storage operation is reported, nothing else is
        final(self).stored_ok(), // #C05,C06 positions are marked only after their bytes were stored
        r is Ok ==> final(self).writer.pos() == old(self).writer.pos() + bytes@.len() && r->Ok_0 == final(self).writer.pos(), // #C06 every byte is stored, none twice
        r is Ok ==> forall|p: int| old(self).writer.pos() <= p < final(self).writer.pos() ==> #[trigger] final(self).writer.at(p) == res(p), // #C06 at its own position
        r is Ok ==> forall|p: int| (p < old(self).writer.pos() || p >= final(self).writer.pos()) ==> #[trigger] final(self).writer.at(p) == old(self).writer.at(p), // #C06 and nowhere else
        r is Ok ==> forall|p: int| #[trigger] final(self).downloaded.has(p) == (old(self).downloaded.has(p) || old(self).writer.pos() <= p < final(self).writer.pos()), // #C05,C06,C07 and becomes readable, nothing else does
        r is Ok && bytes@.len() > 0 ==> final(self).polled(final(self).writer.pos()), // #C05,C16 a reader waiting for what is stored now is told
        final(self).grown(*old(self)), // #C05,C07
        final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).same_cb(*old(self)) && final(self).remaining_bytes == old(self).remaining_bytes && final(self).done() == old(self).done(),
//@locals written position new_position new_written requested
//@loop 0
        invariant
            written <= bytes@.len(),
            position == old(self).writer.pos(),
            self.writer.errs() == old(self).writer.errs(), // #C09
            self.writer.pos() == position + written && new_position == self.writer.pos(), // #C06 position advances with the stored bytes
            forall|p: int| position <= p < position + written ==> #[trigger] self.writer.at(p) == res(p), // #C06
            forall|p: int| position <= p < position + written ==> #[trigger] self.writer.vis(p), // #C06,C05 and is visible
            forall|p: int| (p < position || p >= position + written) ==> #[trigger] self.writer.at(p) == old(self).writer.at(p), // #C06
            forall|p: int| #[trigger] self.downloaded.has(p) == (old(self).downloaded.has(p) || position <= p < position + written), // #C05,C06 marked only after storing
            self.stored_ok(),
            written > 0 ==> self.polled(self.writer.pos()), // #C05
            self.same_cfg(*old(self)) && self.same_prefetch(*old(self)) && self.same_cb(*old(self)) && self.remaining_bytes == old(self).remaining_bytes && self.done() == old(self).done(),
//@end

//@fn file=source/mod.rs impl=Source fn=seek props=C06,C07,C09
//@sig fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> (r: io::Result<()>)
    requires old(stream).seekable(),
    ensures final(self).same_sig(*old(self)),
        (r is Ok) == (final(self).errs(*final(stream)) == old(self).errs(*old(stream))) && final(self).errs(*final(stream)) >= old(self).errs(*old(stream)), // #C09 a failing storage operation or range request is reported, nothing else is
        final(self).same_at(*old(self)), // #C06
        final(stream).reqs() == old(stream).reqs().push((start, end)), // #C07 exactly one request, for exactly this range
        final(stream).rlog() == old(stream).rlog() && final(stream).seekable() == old(stream).seekable(),
        r is Ok ==> final(stream).spos() == start && final(self).writer.pos() == start, // #C06 stream and writer continue at the same position
        r is Ok ==> final(self).remaining_bytes is None, // #C06 leftover bytes of the old position are discarded
        final(self).downloaded == old(self).downloaded && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).same_cb(*old(self)) && final(self).done() == old(self).done(),
//@end

//@fn file=source/mod.rs impl=Source fn=should_seek props=C07,C09
//@sig fn should_seek(&mut self, stream: &S, position: u64) -> (r: io::Result<bool>)
    ensures final(self).same_sig(*old(self)),
        (r is Ok) == (final(self).writer.errs() == old(self).writer.errs()) && final(self).writer.errs() >= old(self).writer.errs(), // #C09 a failing storage operation is reported, nothing else is
        final(self).writer.pos() == old(self).writer.pos() && final(self).same_at(*old(self)),
        final(self).downloaded == old(self).downloaded && final(self).remaining_bytes == old(self).remaining_bytes && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).same_cb(*old(self)) && final(self).done() == old(self).done(),
        r == Ok::<bool, io::Error>(true) ==> stream.seekable(), // #C07 a stream that cannot seek is never asked to
        r == Ok::<bool, io::Error>(false) ==> !stream.seekable() || final(self).downloaded.has(position as int), // #C07 a missing position is always requested
//@end

//@fn file=source/mod.rs impl=Source fn=handle_seek props=C05,C06,C07,C16,C09
//@sig fn handle_seek(&mut self, stream: &mut S, position: u64) -> (r: io::Result<()>)
    requires old(self).inv(), old(self).sync(*old(stream), 0),
    ensures final(self).same_sig(*old(self)),
        (r is Ok) == (final(self).errs(*final(stream)) == old(self).errs(*old(stream))) && final(self).errs(*final(stream)) >= old(self).errs(*old(stream)), // #C09 a failing storage operation or range request is reported, nothing else is
        final(self).stored_ok(), // #C05,C06
        r is Ok ==> final(self).inv() && final(self).sync(*final(stream), 0), // #C05,C06,C16 stream, leftover bytes and writer stay aligned
        final(self).same_at(*old(self)) && final(self).same_cfg(*old(self)) && final(self).same_cb(*old(self)) && final(self).done() == old(self).done() && final(self).grown(*old(self)), // #C06,C15
        final(stream).rlog() == old(stream).rlog() && final(stream).seekable() == old(stream).seekable(),
        !final(stream).seekable() ==> final(stream).reqs() == old(stream).reqs() && final(self).same_prefetch(*old(self)) && final(self).same_dl(*old(self)), // #C07,C16
        r is Ok ==> final(stream).reqs() == old(stream).reqs() || (final(stream).reqs().len() == old(stream).reqs().len() + 1 && final(stream).reqs().drop_last() == old(stream).reqs()), // #C07 at most one request
        r is Ok && final(stream).reqs() == old(stream).reqs() ==> !final(stream).seekable() || final(self).downloaded.has(position as int), // #C07 a missing position is requested
        r is Ok && final(stream).reqs() != old(stream).reqs() && (old(self).content_length is Some ==> position <= old(self).content_length->Some_0) ==> ({
            let (start, end) = final(stream).reqs().last();
            &&& final(self).writer.pos() == start && position <= start
            &&& forall|q: int| position <= q < start ==> #[trigger] final(self).downloaded.has(q)
            &&& match (old(self).content_length, end) {
                (Some(l), Some(e)) => start <= e <= l
                    && (start < l ==> start < e && (forall|q: int| start <= q < e ==> !#[trigger] final(self).downloaded.has(q)) && (e == l || final(self).downloaded.has(e as int)))
                    && (start == l ==> position == l),
                (None, None) => start == position,
                _ => false,
            }
        }), // #C07,C05 the request is the first missing range at or after the position (the empty range at the end)
        old(self).prefetch_complete && r is Ok && final(stream).reqs() != old(stream).reqs() ==> !final(self).prefetch_complete && final(self).prefetch_start_position == position, // #C16 a seek after a finished prefetch starts a new one there
        old(self).prefetch_complete && r is Ok && final(stream).reqs() == old(stream).reqs() ==> final(self).same_prefetch(*old(self)), // #C16 nothing changes if the stream is not moved
        old(self).prefetch_complete ==> final(self).same_dl(*old(self)), // #C05,C16
        !old(self).prefetch_complete && r is Ok && final(stream).reqs() != old(stream).reqs() ==> final(self).prefetch_complete, // #C16 a seek during a prefetch ends it
        !old(self).prefetch_complete && final(self).prefetch_complete ==> forall|p: int| #[trigger] final(self).downloaded.has(p) == (old(self).downloaded.has(p) || old(self).prefetch_start_position <= p < old(self).writer.pos()), // #C16,C05 everything prefetched so far becomes readable
        !old(self).prefetch_complete && !final(self).prefetch_complete && r is Ok ==> final(self).same_dl(*old(self)) && final(self).prefetch_start_position == old(self).prefetch_start_position, // #C16 an unaffected prefetch keeps gating
//@end

//@fn file=source/mod.rs impl=Source fn=handle_reconnect props=C18,C06,C09
//@sig fn handle_reconnect(&mut self, stream: &mut S) -> (r: io::Result<()>)
    requires old(self).inv(), old(self).sync(*old(stream), 0),
    ensures final(self).same_sig(*old(self)),
        (r is Ok) == (final(self).errs(*final(stream)) == old(self).errs(*old(stream))) && final(self).errs(*final(stream)) >= old(self).errs(*old(stream)), // #C09 a failing storage operation or range request is reported, nothing else is
        final(self).inv() && final(self).sync(*final(stream), 0), // #C18,C06 the content continues without loss or duplication
        final(self).writer.pos() == old(self).writer.pos() && final(self).same_at(*old(self)) && final(self).same_dl(*old(self)) && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).log() == old(self).log() && final(self).done() == old(self).done(),
        final(stream).reqs() == old(stream).reqs() && final(stream).seekable() == old(stream).seekable(),
        final(stream).rlog() == old(stream).rlog() || (final(stream).rlog().len() == old(stream).rlog().len() + 1 && final(stream).rlog().drop_last() =~= old(stream).rlog() && final(stream).rlog().last().0 == old(self).writer.pos()), // #C18 asked to reconnect at exactly the position of the next byte to be stored
        old(self).on_reconnect is Some ==> final(self).rcalls() == old(self).rcalls() + (if reconnected(old(stream).rlog(), final(stream).rlog()) { 1nat } else { 0nat }), // #C18 the callback runs exactly once per successful reconnect
        !reconnected(old(stream).rlog(), final(stream).rlog()) ==> final(self).remaining_bytes == old(self).remaining_bytes && final(stream).spos() == old(stream).spos(), // #C18 a failed reconnect changes nothing
        r is Err ==> final(stream).rlog() == old(stream).rlog(), // #C18 a failed attempt does not end the download
//@end

//@fn file=source/mod.rs impl=Source fn=finish_or_find_next_gap props=C07,C09
//@sig fn finish_or_find_next_gap(&mut self, stream: &mut S) -> (r: io::Result<DownloadAction>)
    requires old(self).inv(), old(self).sync(*old(stream), 0), old(self).prefetch_complete, old(self).remaining_bytes is None,
    ensures final(self).same_sig(*old(self)),
        (r is Ok) == (final(self).errs(*final(stream)) == old(self).errs(*old(stream))) && final(self).errs(*final(stream)) >= old(self).errs(*old(stream)), // #C09 a failing storage operation or range request is reported, nothing else is
        final(self).stored_ok() && final(self).same_dl(*old(self)) && final(self).same_at(*old(self)),
        r is Ok ==> final(self).inv() && final(self).sync(*final(stream), 0), // #C06
        final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).same_cb(*old(self)),
        final(stream).rlog() == old(stream).rlog() && final(stream).seekable() == old(stream).seekable(),
        r is Ok && r->Ok_0 is Complete ==> final(self).complete(*final(stream)), // #C07 never complete while something is missing
        r is Ok && r->Ok_0 is Complete ==> final(stream).reqs() == old(stream).reqs() && final(self).done() && final(self).writer.pos() == old(self).writer.pos(), // #C09 the end is announced
        r is Ok && r->Ok_0 is Continue ==> ({
            &&& final(stream).seekable() && old(self).content_length is Some
            &&& final(stream).reqs().len() == old(stream).reqs().len() + 1
            &&& final(stream).reqs().last().1 is Some
            &&& is_first_gap(old(self).downloaded.0, 0, old(self).content_length->Some_0 as int, Some(final(stream).reqs().last().0..final(stream).reqs().last().1->Some_0))
        }), // #C07 the source is asked for exactly the next missing range
        r is Ok ==> final(self).remaining_bytes is None,
        final(self).errs(*final(stream)) == old(self).errs(*old(stream)) && !final(stream).seekable() ==> r is Ok && r->Ok_0 is Complete, // #C07 a stream that cannot seek finishes when the source ends
        !(r is Ok && r->Ok_0 is Complete) ==> final(self).done() == old(self).done(), // #C09 not announced early
//@end

//@fn file=source/mod.rs impl=Source fn=handle_prefetch props=C06,C16,C05,C09
//@sig fn handle_prefetch(&mut self, stream: &mut S, bytes: Option<Bytes>, start_position: u64, download_start: Instant) -> (r: io::Result<DownloadAction>)
    requires
        old(self).inv(), !old(self).prefetch_complete, start_position == old(self).prefetch_start_position,
        match bytes {
            Some(b) => old(self).sync(*old(stream), b@.len() as int) && forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == res(old(self).writer.pos() + i),
            None => old(self).sync(*old(stream), 0),
        },
        no_complete(old(self).log()),
    ensures
        (r is Ok) == (final(self).errs(*final(stream)) == old(self).errs(*old(stream))) && final(self).errs(*final(stream)) >= old(self).errs(*old(stream)), // #C09 a failing storage operation or range request is reported, nothing else is
        final(self).stored_ok(), // #C05,C06
        r is Ok ==> final(self).inv() && final(self).sync(*final(stream), 0), // #C06 leftover bytes of a partial write are kept, exactly once
        final(self).grown(*old(self)) && final(self).same_cfg(*old(self)) && final(self).rcalls() == old(self).rcalls(),
        final(stream).rlog() == old(stream).rlog() && final(stream).seekable() == old(stream).seekable(),
        no_complete(final(self).log()), // #C15
        bytes is Some ==> final(stream).reqs() == old(stream).reqs() && (r is Ok ==> r->Ok_0 is Continue) && final(self).done() == old(self).done(), // #C07
        bytes is Some && r is Ok && final(self).writer.pos() >= start_position + old(self).prefetch_bytes ==> final(self).prefetch_complete, // #C16 the prefetch ends at the target
        bytes is Some && r is Ok && final(self).rem().len() > 0 ==> final(self).prefetch_complete, // #C16 ... or when the storage cannot take more
        bytes is Some && r is Ok && final(self).rem().len() == 0 && final(self).writer.pos() < start_position + old(self).prefetch_bytes && final(self).writer.pos() < u64::MAX ==> !final(self).prefetch_complete && final(self).prefetch_start_position == start_position, // #C16 ... and not earlier
        !final(self).prefetch_complete ==> final(self).same_dl(*old(self)) && final(self).same_prefetch(*old(self)), // #C16,C05 nothing of the region becomes readable before that
        r is Ok && final(self).prefetch_complete && bytes is Some ==> forall|p: int| #[trigger] final(self).downloaded.has(p) == (old(self).downloaded.has(p) || start_position <= p < final(self).writer.pos()), // #C16,C05 then everything stored so far does
        r is Ok && bytes is None ==> final(self).prefetch_complete && forall|p: int| #[trigger] final(self).downloaded.has(p) == (old(self).downloaded.has(p) || start_position <= p < old(self).writer.pos()), // #C16,C05 the end of the source ends the prefetch
        r is Ok && final(self).prefetch_complete && (bytes is Some || old(self).writer.pos() > start_position) ==> final(self).polled(if bytes is Some { final(self).writer.pos() } else { old(self).writer.pos() }), // #C16,C05 and a reader waiting for it is told
        r is Ok && r->Ok_0 is Complete ==> final(self).complete(*final(stream)) && final(self).done() && bytes is None, // #C07,C09
        r is Ok && r->Ok_0 is Continue ==> final(self).done() == old(self).done(), // #C09
        final(self).errs(*final(stream)) == old(self).errs(*old(stream)) && bytes is None && !final(stream).seekable() ==> r is Ok && r->Ok_0 is Complete, // #C07
        r is Err ==> final(self).done() == old(self).done(), // #C09
        bytes is Some && r is Ok && old(self).on_progress is Some ==> ({
            let info = final(self).log().last();
            &&& final(self).log() == old(self).log().push(info)
            &&& info.current_position == final(self).writer.pos()
            &&& info.phase == StreamPhase::Prefetching { target: old(self).prefetch_bytes, chunk_size: (final(self).writer.pos() - old(self).writer.pos()) as usize }
            &&& forall|p: int| info.current_chunk.start <= p < info.current_chunk.end ==> #[trigger] final(self).writer.at(p) == res(p)
            &&& info.current_chunk.end <= final(self).writer.pos()
            &&& info.current_chunk.start == start_position
        }), // #C15 one truthful report per chunk
        bytes is None ==> final(self).log() == old(self).log() && (r is Ok ==> final(self).remaining_bytes is None), // #C15
//@end

//@fn file=source/mod.rs impl=Source fn=handle_bytes props=C06,C05,C09
//@sig fn handle_bytes(&mut self, stream: &mut S, bytes: Option<core::result::Result<Bytes, S::Error>>, download_start: Instant) -> (r: io::Result<DownloadAction>)
    requires
        old(self).inv(),
        match bytes {
            Some(Ok(b)) => old(self).sync(*old(stream), b@.len() as int) && forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == res(old(self).writer.pos() + old(self).rem().len() + i),
            _ => old(self).sync(*old(stream), 0),
        },
        no_complete(old(self).log()),
    ensures
        (r is Ok) == (final(self).errs(*final(stream)) == old(self).errs(*old(stream))) && final(self).errs(*final(stream)) >= old(self).errs(*old(stream)), // #C09 a failing storage operation or range request is reported, nothing else is
        final(self).stored_ok(), // #C05,C06
        r is Ok ==> final(self).inv() && final(self).sync(*final(stream), 0), // #C06 no byte is lost, duplicated or shifted
        final(self).grown(*old(self)),
    final(self).same_cfg(*old(self)), final(self).rcalls() == old(self).rcalls(),
        final(stream).rlog() == old(stream).rlog() && final(stream).seekable() == old(stream).seekable(),
        no_complete(final(self).log()), // #C15
        bytes is Some && bytes->Some_0 is Err ==> r is Ok && r->Ok_0 is Continue && final(self).same_dl(*old(self)) && final(self).writer.pos() == old(self).writer.pos() && final(self).log() == old(self).log(), // #C06 an error item changes nothing
        bytes is Some && bytes->Some_0 is Err ==> final(self).same_prefetch(*old(self)), // #C16 and does not end a prefetch
        bytes is Some && bytes->Some_0 is Err ==> final(self).remaining_bytes == old(self).remaining_bytes && final(self).same_at(*old(self)), // #C06 leftover bytes are kept
        r is Ok && r->Ok_0 is Complete ==> final(self).complete(*final(stream)) && final(self).done() && bytes is None && final(self).remaining_bytes is None, // #C07,C09,C06 complete only when the source ended, nothing is missing and nothing is left over
        r is Ok && r->Ok_0 is Continue ==> final(self).done() == old(self).done(), // #C09
        final(self).errs(*final(stream)) == old(self).errs(*old(stream)) && bytes is None && old(self).remaining_bytes is None && !final(stream).seekable() ==> r is Ok && r->Ok_0 is Complete, // #C07
        bytes is Some ==> final(stream).reqs() == old(stream).reqs(), // #C07 nothing is requested while the source delivers
        r is Err ==> final(self).done() == old(self).done(), // #C09
        !final(self).prefetch_complete ==> final(self).same_dl(*old(self)) && final(self).same_prefetch(*old(self)), // #C16
        r is Ok && old(self).prefetch_complete ==> final(self).prefetch_complete, // #C16 only a seek starts a prefetch
        r is Ok && old(self).prefetch_complete && (bytes is Some && bytes->Some_0 is Ok || bytes is None && old(self).remaining_bytes is Some) ==> final(self).remaining_bytes is None && (forall|p: int| old(self).writer.pos() <= p < final(self).writer.pos() ==> #[trigger] final(self).downloaded.has(p))
            && final(self).writer.pos() == old(self).writer.pos() + old(self).rem().len() + (match bytes { Some(Ok(b)) => b@.len() as int, _ => 0 }), // #C06 all of it is stored
        old(self).on_progress is Some && old(self).prefetch_complete && r is Ok && final(self).log() != old(self).log() ==> ({
            let info = final(self).log().last();
            &&& final(self).log() == old(self).log().push(info)
            &&& info.current_position == final(self).writer.pos()
            &&& info.phase == StreamPhase::Downloading { chunk_size: (final(self).writer.pos() - old(self).writer.pos()) as usize }
            &&& forall|p: int| info.current_chunk.start <= p < info.current_chunk.end ==> #[trigger] final(self).downloaded.has(p)
        }), // #C15 one truthful report per chunk
        old(self).on_progress is Some && r is Ok && bytes is Some && bytes->Some_0 is Ok ==> final(self).log().len() == old(self).log().len() + 1, // #C15 every chunk is reported
//@entry
//@subst "bytes.transpose()" "vx_transpose(bytes)"
//@end

//@fn file=source/mod.rs impl=Source fn=signal_download_complete props=C09
//@sig fn signal_download_complete(&mut self)
    ensures final(self).same_sig(*old(self)), final(self).done(), // #C09 the end is announced
        final(self).writer == old(self).writer && final(self).downloaded == old(self).downloaded && final(self).remaining_bytes == old(self).remaining_bytes && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).same_cb(*old(self)),
//@end

//@fn file=source/mod.rs impl=Source fn=report_progress props=C15
//@sig fn report_progress(&mut self, stream: &S, info: StreamState)
    ensures final(self).same_sig(*old(self)),
        final(self).log() == (if old(self).on_progress is Some { old(self).log().push(info) } else { old(self).log() }), // #C15,C17 the callback is called exactly once with the report
        final(self).rcalls() == old(self).rcalls(),
        final(self).writer == old(self).writer && final(self).downloaded == old(self).downloaded && final(self).remaining_bytes == old(self).remaining_bytes && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).done() == old(self).done(),
//@end

//@fn file=source/mod.rs impl=Source fn=report_prefetch_progress props=C15
//@sig fn report_prefetch_progress(&mut self, stream: &S, stream_position: u64, download_start: Instant, chunk_size: usize)
    ensures final(self).same_sig(*old(self)),
        old(self).on_progress is Some ==> ({
            let info = final(self).log().last();
            &&& final(self).log() == old(self).log().push(info)
            &&& info.current_position == stream_position
            &&& info.phase == StreamPhase::Prefetching { target: old(self).prefetch_bytes, chunk_size }
            &&& info.current_chunk.start == old(self).prefetch_start_position && info.current_chunk.end == stream_position
        }), // #C15 position, prefetched range, target and chunk size
        old(self).on_progress is None ==> final(self).log() == old(self).log(),
        final(self).rcalls() == old(self).rcalls(),
        final(self).writer == old(self).writer && final(self).downloaded == old(self).downloaded && final(self).remaining_bytes == old(self).remaining_bytes && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).done() == old(self).done(),
//@end

//@fn file=source/mod.rs impl=Source fn=report_downloading_progress props=C15,C09
//@sig fn report_downloading_progress(&mut self, stream: &S, new_position: u64, download_start: Instant, chunk_size: usize) -> (r: io::Result<()>)
    ensures final(self).same_sig(*old(self)),
        (r is Ok) == (final(self).writer.errs() == old(self).writer.errs()) && final(self).writer.errs() >= old(self).writer.errs(), // #C09,C15 a failing storage operation is reported, nothing else is
        r is Ok && old(self).on_progress is Some ==> ({
            let info = final(self).log().last();
            &&& final(self).log() == old(self).log().push(info)
            &&& info.current_position == old(self).writer.pos()
            &&& info.phase == StreamPhase::Downloading { chunk_size }
            &&& forall|p: int| info.current_chunk.start <= p < info.current_chunk.end ==> #[trigger] old(self).downloaded.has(p)
            &&& (new_position > 0 && old(self).downloaded.has(new_position - 1) ==> info.current_chunk.start <= new_position - 1 < info.current_chunk.end)
        }), // #C15 position, stored range around the new bytes and chunk size
        r is Err || old(self).on_progress is None ==> final(self).log() == old(self).log(),
        final(self).rcalls() == old(self).rcalls(),
        final(self).writer.pos() == old(self).writer.pos() && final(self).same_at(*old(self)) && final(self).downloaded == old(self).downloaded && final(self).remaining_bytes == old(self).remaining_bytes && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).done() == old(self).done(),
//@end

//@fn file=source/mod.rs impl=Source fn=report_download_complete props=C15,C09
//@sig fn report_download_complete(&mut self, stream: &S, download_start: Instant) -> (r: io::Result<()>)
    ensures final(self).same_sig(*old(self)),
        (r is Ok) == (final(self).writer.errs() == old(self).writer.errs()) && final(self).writer.errs() >= old(self).writer.errs(), // #C09,C15 a failing storage operation is reported, nothing else is
        r is Ok && old(self).on_progress is Some ==> ({
            let info = final(self).log().last();
            &&& final(self).log() == old(self).log().push(info)
            &&& info.current_position == old(self).writer.pos()
            &&& info.phase is Complete
            &&& forall|p: int| info.current_chunk.start <= p < info.current_chunk.end ==> #[trigger] old(self).downloaded.has(p)
        }), // #C15 position, stored range and the complete phase
        r is Err || old(self).on_progress is None ==> final(self).log() == old(self).log(),
        final(self).rcalls() == old(self).rcalls(),
        final(self).writer.pos() == old(self).writer.pos() && final(self).same_at(*old(self)) && final(self).downloaded == old(self).downloaded && final(self).remaining_bytes == old(self).remaining_bytes && final(self).same_cfg(*old(self)) && final(self).same_prefetch(*old(self)) && final(self).done() == old(self).done(),
//@end

//@fn file=source/mod.rs impl=Source fn=download_inner props=C06,C07,C09,C15,C18
//@sig fn download_inner(&mut self, stream: &mut S) -> (r: io::Result<StreamOutcome>)
    requires
        old(self).inv(), old(self).sync(*old(stream), 0), !old(self).done(), no_complete(old(self).log()),
    ensures
        (r is Ok) == (final(self).errs(*final(stream)) == old(self).errs(*old(stream))) && final(self).errs(*final(stream)) >= old(self).errs(*old(stream)), // #C09 a failing storage operation or range request is reported, nothing else is
        final(self).stored_ok(), // #C05,C06
        final(self).same_cfg(*old(self)),
        r == Ok::<StreamOutcome, io::Error>(StreamOutcome::Completed) ==> final(self).done() && final(self).complete(*final(stream)) && final(self).remaining_bytes is None, // #C07,C06,C09 completes only when nothing is missing
        final(self).done() ==> final(self).complete(*final(stream)), // #C07,C09 the end is never announced early
        r == Ok::<StreamOutcome, io::Error>(StreamOutcome::Completed) ==> final(self).done(), // #C18 waiting in vain for a chunk does not end the download
        r == Ok::<StreamOutcome, io::Error>(StreamOutcome::CancelledByUser) ==> !final(self).done(), // #C09
        r == Ok::<StreamOutcome, io::Error>(StreamOutcome::Completed) && old(self).on_progress is Some ==> final(self).log().len() > 0 && final(self).log().last().phase is Complete && no_complete(final(self).log().drop_last()), // #C15 the complete report is the last one and the only one
        r != Ok::<StreamOutcome, io::Error>(StreamOutcome::Completed) ==> no_complete(final(self).log()), // #C15 and only sent on success
//@loop 0
        invariant
            self.inv() && self.sync(*stream, 0), // #C05,C06,C18 stream, leftover bytes, writer and downloaded set stay aligned
            !self.done(), // #C09
            self.errs(*stream) == old(self).errs(*old(stream)), // #C09 no failure is passed over
            no_complete(self.log()), // #C15
            self.same_cfg(*old(self)),
            stream.seekable() == old(stream).seekable(),
//@end
}
pub fn vx_transpose<T, E>(o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures match o { Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e), None => r == Ok::<Option<T>, E>(None) }
{ match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
} // verus!

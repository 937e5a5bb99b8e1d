//@include prelude.rs
// The handle shared between the reader and the download task.
// Shared cells are owned values here; what another thread may do in between is stated where it can
// matter (waiting on the condition variable).
verus! {
//@known load store swap compare_exchange lock notify_all vx_wait notify_one notified try_send as_ref add get next_gap default read write insert gaps next is_failed set_failed elapsed now request_position request_seek notify_read notify_waiting wait_for_position_reached wait_for_position notify_position_reached notify_stream_done set clear request
//@subst "Arc<AtomicI64>" "AtomicI64"
//@subst "Arc<AtomicBool>" "AtomicBool"
//@subst "Arc<Notify>" "Notify"
//@subst "Arc<(AssertUnwindSafe<Mutex<Waiter>>, Condvar)>" "WaitPair"
//@subst "mpsc::Sender<u64>" "Sender"
//@subst "self.0.as_ref()" "self.0.vx_both()"
//@comb map Result
//@method wait vx_wait
//@subst "Arc::new" "vx_same"
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
pub struct AtomicI64 { pub v: i64, pub log: Ghost<Seq<i64>> }
impl AtomicI64 {
    #[verifier::external_body]
    pub fn new(x: i64) -> (r: AtomicI64) ensures r.v == x, r.log@.len() == 0 { unimplemented!() }
    pub fn load(&self, o: Ordering) -> (r: i64) ensures r == self.v { self.v }
    #[verifier::external_body]
    pub fn store(&mut self, x: i64, o: Ordering) ensures final(self).v == x, final(self).log@ == old(self).log@.push(x) { unimplemented!() }
}
pub struct AtomicBool { pub v: bool }
impl AtomicBool {
    pub fn load(&self, o: Ordering) -> (r: bool) ensures r == self.v { self.v }
    pub fn store(&mut self, x: bool, o: Ordering) ensures final(self).v == x { self.v = x; }
    pub fn swap(&mut self, x: bool, o: Ordering) -> (r: bool) ensures final(self).v == x, r == old(self).v { let r = self.v; self.v = x; r }
}
/// `n`: wake-ups sent, `heard`: wake-ups waited for
pub struct Notify { pub n: Ghost<nat>, pub heard: Ghost<nat> }
impl Notify {
    #[verifier::external_body]
    pub fn notified(&mut self) ensures final(self).n@ >= old(self).n@, final(self).heard@ == old(self).heard@ + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_one(&mut self) ensures final(self).n@ == old(self).n@ + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_waiters(&mut self) ensures final(self).n@ == old(self).n@ { unimplemented!() }
}
pub struct Instant { pub x: u8 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> (r: Instant) { unimplemented!() }
}
pub enum TrySendError { Full(u64), Closed(u64) }
/// tokio mpsc sender of capacity one; `sent` are the requests that went in
pub struct Sender { pub sent: Ghost<Seq<u64>>, pub full: bool }
impl Sender {
    #[verifier::external_body]
    pub fn try_send(&mut self, v: u64) -> (r: core::result::Result<(), TrySendError>)
        ensures r is Ok == !old(self).full, final(self).sent@ == (if r is Ok { old(self).sent@.push(v) } else { old(self).sent@ }) { unimplemented!() }
}
/// `signals`: notifications of the condition variable; `heard`: the reader was told its position was reached
pub struct Waiter { pub position_reached: bool, pub stream_done: bool, pub heard: Ghost<bool> }
pub struct VxMutex { pub w: Waiter }
impl VxMutex {
    pub fn lock(&mut self) -> (r: &mut Waiter) ensures *r == old(self).w, final(self).w == *final(r) { &mut self.w }
}
pub struct Condvar { pub n: Ghost<nat> }
impl Condvar {
    #[verifier::external_body]
    pub fn notify_all(&mut self) ensures final(self).n@ == old(self).n@ + 1 { unimplemented!() }
    /// the lock is released: the download task may signal, and its end is final
    #[verifier::external_body]
    pub fn vx_wait(&mut self, w: &mut Waiter)
        ensures old(w).stream_done ==> final(w).stream_done, final(w).position_reached ==> final(w).heard@, old(w).heard@ ==> final(w).heard@, final(self).n@ == old(self).n@ { unimplemented!() }
}
pub struct WaitPair { pub m: VxMutex, pub c: Condvar }
impl WaitPair {
    #[verifier::external_body]
    pub fn vx_both(&mut self) -> (r: (&mut VxMutex, &mut Condvar))
        ensures *r.0 == old(self).m, *r.1 == old(self).c, final(self).m == *final(r.0), final(self).c == *final(r.1) { unimplemented!() }
}
pub struct RangeSet { pub x: u8 }
//@struct file=source/handle.rs name=RequestedPosition
//@struct file=source/handle.rs name=PositionReached
//@struct file=source/handle.rs name=NotifyRead
//@struct file=source/handle.rs name=DownloadStatus
pub struct Downloaded { pub g: Ghost<vstd::iset::ISet<int>> }
impl Downloaded {
    /// verified in unit `source`
    #[verifier::external_body]
    pub fn get(&self, position: u64) -> (r: Option<Range<u64>>)
        ensures match r {
            Some(r) => r.start <= position < r.end && (forall|q: int| r.start <= q < r.end ==> #[trigger] self.g@.contains(q)) && !self.g@.contains(r.end as int),
            None => !self.g@.contains(position as int),
        } { unimplemented!() }
}
//@struct file=source/handle.rs name=SourceHandle
impl RequestedPosition {
//@fn file=source/handle.rs impl="Default for RequestedPosition" fn=default id=RequestedPosition::default props=C05
//@sig fn vx_default() -> (r: RequestedPosition)
    ensures r.0.v == -1, // #C05 nothing is requested before the reader asks
//@end
//@fn file=source/handle.rs impl=RequestedPosition fn=set props=C05
//@sig fn set(&mut self, position: u64)
    ensures position < 0x8000_0000_0000_0000 ==> final(self).0.v == position, // #C05 the position the reader waits for is the one recorded
//@end
//@fn file=source/handle.rs impl=RequestedPosition fn=get props=C05
//@sig fn get(&self) -> (r: Option<u64>)
    ensures self.0.v >= 0 ==> r == Some(self.0.v as u64), self.0.v == -1 ==> r is None, // #C05 the download task sees exactly the recorded position
//@end
//@fn file=source/handle.rs impl=RequestedPosition fn=clear props=C05
//@sig fn clear(&mut self)
    ensures final(self).0.v == -1, // #C05
//@end
}
impl PositionReached {
    pub open spec fn w(&self) -> Waiter { self.0.m.w }
//@fn file=source/handle.rs impl=PositionReached fn=notify_position_reached props=C05
//@sig fn notify_position_reached(&mut self)
    ensures final(self).w().position_reached && final(self).w().stream_done == old(self).w().stream_done, // #C05
        final(self).0.c.n@ > old(self).0.c.n@, // #C05 a waiting reader is notified
//@end
//@fn file=source/handle.rs impl=PositionReached fn=notify_stream_done props=C09
//@sig fn notify_stream_done(&mut self)
    ensures final(self).w().stream_done && final(self).w().position_reached == old(self).w().position_reached, // #C09 the end is recorded
        final(self).0.c.n@ > old(self).0.c.n@, // #C09 and a waiting reader notified
//@end
//@fn file=source/handle.rs impl=PositionReached fn=wait_for_position_reached props=C05,C09
//@sig fn wait_for_position_reached(&mut self) -> (r: bool)
    requires old(self).w().position_reached ==> old(self).w().heard@,
    ensures
        r == final(self).w().stream_done, // #C05,C09 reports the end exactly when it was announced
        old(self).w().stream_done ==> r, // #C09 never waits after the end
        !r ==> final(self).w().heard@, // #C05 otherwise returns only after being told that the position was reached
        final(self).w().position_reached ==> final(self).w().heard@,
        !r ==> !final(self).w().position_reached, // #C05 and every notification ends only one wait
//@loop 0
        invariant
            waiter.position_reached ==> waiter.heard@,
            old(self).w().stream_done ==> waiter.stream_done,
//@locals mutex cvar waiter
//@end
}
impl NotifyRead {
//@fn file=source/handle.rs impl=NotifyRead fn=request props=C02
//@sig fn request(&mut self)
    ensures final(self).write_requested.v, final(self).notify.n@ == old(self).notify.n@,
//@end
//@fn file=source/handle.rs impl=NotifyRead fn=notify_read props=C02
//@sig fn notify_read(&mut self)
    ensures final(self).notify.n@ == old(self).notify.n@ + (if old(self).write_requested.v { 1int } else { 0 }), !final(self).write_requested.v, // #C02 a download waiting for room is told once
//@end
//@fn file=source/handle.rs impl=NotifyRead fn=wait_for_read props=C02
//@sig fn wait_for_read(&mut self)
    ensures final(self).notify.heard@ > old(self).notify.heard@, // #C02 returns only after a wake-up
//@end
//@fn file=source/handle.rs impl=NotifyRead fn=notify_waiting props=C02
//@sig fn notify_waiting(&mut self)
    ensures final(self).notify.n@ == old(self).notify.n@ + (if old(self).write_requested.v { 1int } else { 0 }),
//@end
}
impl DownloadStatus {
//@fn file=source/handle.rs impl=DownloadStatus fn=set_failed props=C09
//@sig fn set_failed(&mut self)
    ensures final(self).0.v, // #C09
//@end
//@fn file=source/handle.rs impl=DownloadStatus fn=is_failed props=C09
//@sig fn is_failed(&self) -> (r: bool)
    ensures r == self.0.v, // #C09
//@end
}
impl SourceHandle {
    pub open spec fn ok(&self) -> bool { self.position_reached.w().position_reached ==> self.position_reached.w().heard@ }
    pub open spec fn same_end(&self, o: Self) -> bool { self.download_status == o.download_status && self.downloaded == o.downloaded && self.content_length == o.content_length }
//@fn file=source/handle.rs impl=SourceHandle fn=get_downloaded_at_position props=C05
//@sig fn get_downloaded_at_position(&self, position: u64) -> (r: Option<Range<u64>>)
    ensures match r {
            Some(r) => r.start <= position < r.end && (forall|q: int| r.start <= q < r.end ==> #[trigger] self.downloaded.g@.contains(q)) && !self.downloaded.g@.contains(r.end as int),
            None => !self.downloaded.g@.contains(position as int),
        }, // #C05 the stored range around the position, if any
//@end
//@fn file=source/handle.rs impl=SourceHandle fn=wait_for_position props=C05,C09
//@sig fn wait_for_position(&mut self, requested_position: u64) -> (r: bool)
    requires old(self).ok(),
    ensures
        requested_position < 0x8000_0000_0000_0000 ==> final(self).requested_position.0.v == requested_position, // #C05 waits for exactly this position
        r == final(self).position_reached.w().stream_done, // #C05,C09 true exactly if the download is over
        old(self).position_reached.w().stream_done ==> r, // #C09
        !r ==> final(self).position_reached.w().heard@, // #C05
        final(self).ok(), final(self).same_end(*old(self)), final(self).seek_tx == old(self).seek_tx,
        final(self).notify_read.notify.n@ >= old(self).notify_read.notify.n@ + (if old(self).notify_read.write_requested.v { 1int } else { 0 }), // #C02 a download waiting for room is told
//@end
//@fn file=source/handle.rs impl=SourceHandle fn=seek props=C05,C07
//@sig fn seek(&mut self, seek_position: u64)
    requires old(self).ok(),
    ensures
        seek_position < 0x8000_0000_0000_0000 ==> final(self).requested_position.0.v == seek_position, // #C05
        final(self).seek_tx.sent@ == (if old(self).seek_tx.full { old(self).seek_tx.sent@ } else { old(self).seek_tx.sent@.push(seek_position) }), // #C05,C07 exactly this position is requested
        final(self).position_reached.w().stream_done || final(self).position_reached.w().heard@, // #C05 returns only when the download got there or ended
        final(self).ok(), final(self).same_end(*old(self)),
//@end
//@fn file=source/handle.rs impl=SourceHandle fn=notify_read props=C02
//@sig fn notify_read(&mut self)
    ensures final(self).notify_read.notify.n@ == old(self).notify_read.notify.n@ + (if old(self).notify_read.write_requested.v { 1int } else { 0 }), // #C02
        final(self).same_end(*old(self)), final(self).position_reached == old(self).position_reached && final(self).requested_position == old(self).requested_position && final(self).seek_tx == old(self).seek_tx,
//@end
//@fn file=source/handle.rs impl=SourceHandle fn=content_length props=C04
//@sig fn content_length(&self) -> (r: Option<u64>)
    ensures r == self.content_length, // #C04
//@end
//@fn file=source/handle.rs impl=SourceHandle fn=is_failed props=C09
//@sig fn is_failed(&self) -> (r: bool)
    ensures r == self.download_status.0.v, // #C09
//@end
//@fn file=source/handle.rs impl=SourceHandle fn=request_position props=C05
//@sig fn request_position(&mut self, position: u64)
    ensures position < 0x8000_0000_0000_0000 ==> final(self).requested_position.0.v == position, // #C05
        final(self).same_end(*old(self)), final(self).position_reached == old(self).position_reached && final(self).notify_read == old(self).notify_read && final(self).seek_tx == old(self).seek_tx,
//@end
//@fn file=source/handle.rs impl=SourceHandle fn=request_seek props=C07
//@sig fn request_seek(&mut self, position: u64)
    ensures final(self).seek_tx.sent@ == (if old(self).seek_tx.full { old(self).seek_tx.sent@ } else { old(self).seek_tx.sent@.push(position) }), // #C07
        final(self).same_end(*old(self)), final(self).position_reached == old(self).position_reached && final(self).notify_read == old(self).notify_read && final(self).requested_position == old(self).requested_position,
//@end
}
} // verus!

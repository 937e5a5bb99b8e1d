//@include prelude.rs
// Source::download: the end of a download. download_inner is verified in unit `source`; here it is an
// arbitrary outcome, remembered in `out`.
verus! {
//@known download_inner on_finish set_failed notify_stream_done
//@ghostarg notify_stream_done "Ghost(self.download_status.failed)"
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@enum file=source/mod.rs name=StreamOutcome
pub trait SourceStream: Sized {
    /// finish hook calls: (result was Ok, outcome, verdict was Ok)
    spec fn flog(&self) -> Seq<(bool, StreamOutcome, bool)>;
    fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> (r: io::Result<()>)
        ensures final(self).flog() == old(self).flog().push((result is Ok, outcome, r is Ok));
}
pub trait StorageWriter: Sized { }
pub struct DownloadStatus { pub failed: bool }
impl DownloadStatus {
    #[verifier::external_body]
    pub fn set_failed(&mut self) ensures final(self).failed { unimplemented!() }
}
/// `anns`: for every announcement of the end, whether a failure was recorded by then
pub struct PositionReached { pub anns: Ghost<Seq<bool>> }
impl PositionReached {
    #[verifier::external_body]
    pub fn notify_stream_done(&mut self, Ghost(failed): Ghost<bool>) ensures final(self).anns@ == old(self).anns@.push(failed) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_position_reached(&mut self) ensures final(self).anns@ == old(self).anns@ { unimplemented!() }
}
//@fn file=source/mod.rs impl="default for SourceStream" fn=on_finish id=default_on_finish props=C09
//@sig fn default_on_finish(result: io::Result<()>, outcome: StreamOutcome) -> (r: io::Result<()>)
    ensures r == result, // #C09 without a hook of its own a source's real outcome is the verdict
//@end
pub struct Source<S, W> { pub position_reached: PositionReached, pub download_status: DownloadStatus, pub out: Ghost<Option<io::Result<StreamOutcome>>>, pub s: Option<S>, pub w: Option<W> }
impl<S: SourceStream, W: StorageWriter> Source<S, W> {
    #[verifier::external_body]
    pub fn download_inner(&mut self, stream: &mut S) -> (r: io::Result<StreamOutcome>)
        ensures final(self).out@ == Some(r), final(stream).flog() == old(stream).flog(),
            final(self).download_status == old(self).download_status,
            final(self).position_reached.anns@ == (if r == Ok::<StreamOutcome, io::Error>(StreamOutcome::Completed) { old(self).position_reached.anns@.push(old(self).download_status.failed) } else { old(self).position_reached.anns@ }),
            { unimplemented!() }
//@fn file=source/mod.rs impl=Source fn=signal_download_complete props=C09
//@sig fn signal_download_complete(&mut self)
    ensures final(self).position_reached.anns@ == old(self).position_reached.anns@.push(old(self).download_status.failed), // #C09 announces the end
        final(self).download_status == old(self).download_status && final(self).out == old(self).out,
//@end
//@fn file=source/mod.rs impl=Source fn=download props=C09
//@sig fn download(&mut self, stream: &mut S)
    requires !old(self).download_status.failed, old(self).position_reached.anns@.len() == 0,
    ensures
        final(stream).flog().len() == old(stream).flog().len() + 1, // #C09 the finish hook runs exactly once
        ({
            let (ok, outcome, verdict) = final(stream).flog().last();
            let out = final(self).out@;
            &&& out is Some
            &&& ok == (out->Some_0 == Ok::<StreamOutcome, io::Error>(StreamOutcome::Completed))
            &&& (outcome == StreamOutcome::CancelledByUser) == (out->Some_0 == Ok::<StreamOutcome, io::Error>(StreamOutcome::CancelledByUser))
            &&& final(self).download_status.failed == !verdict
        }), // #C09 it gets the real outcome and its verdict decides whether the download failed
        final(self).position_reached.anns@.len() > 0, // #C09 the end is always announced
        final(self).position_reached.anns@.last() == final(self).download_status.failed, // #C09 with the failure on record
        final(self).out@->Some_0 != Ok::<StreamOutcome, io::Error>(StreamOutcome::Completed) ==> final(self).position_reached.anns@ =~= seq![final(self).download_status.failed], // #C09 a download that did not complete is never announced before its failure is recorded
//@end
}
} // verus!

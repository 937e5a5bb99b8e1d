//! Downloads under a virtual clock: retry timeouts from milliseconds to days, measured exactly.
use crate::util::*;
use bytes::Bytes;
use std::future::Future;
use std::io::{self, Read};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::{Settings, StreamDownload};
use tokio::time::{Instant, Sleep, sleep};

#[derive(Clone, Copy, Debug)]
enum Step {
    /// the next chunk comes after so many ms
    Item(u64, u64),
    /// an error comes after so many ms
    Error(u64, io::ErrorKind),
    /// nothing comes before a reconnect succeeds
    Stall,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Outcome {
    Ok(u64),
    Fail(u64, io::ErrorKind),
    Hang,
}
#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Reconnect(u64),
    Callback,
    Finish(bool),
}
struct VSrc {
    total: u64,
    len: Option<u64>,
    steps: Vec<Step>,
    at: usize,
    pos: u64,
    wait: Option<Pin<Box<Sleep>>>,
    outcomes: Vec<Outcome>,
    n: usize,
    log: Log,
}
#[derive(Clone)]
struct Log(Instant, Arc<Mutex<Vec<(Duration, Ev)>>>);
impl Log {
    fn add(&self, e: Ev) {
        self.1.lock().unwrap().push((self.0.elapsed(), e));
    }
}
impl futures_util::Stream for VSrc {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<io::Result<Bytes>>> {
        let this = &mut *self;
        if this.pos >= this.total {
            return Poll::Ready(None);
        }
        let step = this.steps[this.at % this.steps.len()];
        let d = match step {
            Step::Item(d, _) | Step::Error(d, _) => d,
            Step::Stall => return Poll::Pending,
        };
        if d > 0 {
            let w = this.wait.get_or_insert_with(|| Box::pin(sleep(Duration::from_millis(d))));
            if w.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
        }
        this.wait = None;
        this.at += 1;
        match step {
            Step::Item(_, n) => {
                let e = (this.pos + n).min(this.total);
                let b = res_vec(this.pos, e);
                this.pos = e;
                Poll::Ready(Some(Ok(b.into())))
            }
            Step::Error(_, k) => Poll::Ready(Some(Err(io::Error::new(k, "scripted")))),
            Step::Stall => unreachable!(),
        }
    }
}
impl SourceStream for VSrc {
    type Params = ();
    type StreamCreationError = std::convert::Infallible;
    async fn create((): ()) -> Result<Self, std::convert::Infallible> {
        unimplemented!()
    }
    fn content_length(&self) -> Option<u64> {
        self.len
    }
    async fn seek_range(&mut self, _: u64, _: Option<u64>) -> io::Result<()> {
        Ok(())
    }
    async fn reconnect(&mut self, pos: u64) -> io::Result<()> {
        self.log.add(Ev::Reconnect(pos));
        let o = self.outcomes.get(self.n).copied().unwrap_or(Outcome::Ok(0));
        self.n += 1;
        match o {
            Outcome::Ok(d) => {
                sleep(Duration::from_millis(d)).await;
                self.pos = pos;
                self.wait = None;
                if let Step::Stall = self.steps[self.at % self.steps.len()] {
                    self.at += 1;
                }
                Ok(())
            }
            Outcome::Fail(d, k) => {
                sleep(Duration::from_millis(d)).await;
                Err(io::Error::new(k, "scripted"))
            }
            Outcome::Hang => std::future::pending().await,
        }
    }
    fn supports_seek(&self) -> bool {
        false
    }
    async fn on_finish(&mut self, r: io::Result<()>, o: StreamOutcome) -> io::Result<()> {
        self.log.add(Ev::Finish(o == StreamOutcome::CancelledByUser));
        r
    }
}

pub fn virtual_time(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let ret = r.pick(&[10u64, 137, 900, 5000, 7000, 61_000, 3_600_000, 90_000_000]);
    let chunk = r.pick(&[7u64, 50, 300]);
    let total = chunk * r.range(1, 12) - r.below(2);
    let known = r.chance(50);
    let short = |r: &mut Rng| match r.below(5) {
        0 | 1 => 0,
        2 => ret * 9 / 10 - 2,
        _ => r.below(ret * 9 / 10 - 1),
    };
    let mut steps = vec![];
    let mut errors = 0;
    for _ in 0..r.range(1, 16) {
        steps.push(match r.below(10) {
            0..=1 => Step::Stall,
            2 => {
                errors += 1;
                Step::Error(short(&mut r), r.pick(KINDS))
            }
            _ => Step::Item(short(&mut r), chunk),
        });
    }
    steps.push(Step::Item(short(&mut r), chunk));
    let outcomes: Vec<Outcome> = (0..r.below(8))
        .map(|_| match r.below(4) {
            0 => Outcome::Hang,
            1 => Outcome::Fail(short(&mut r), r.pick(KINDS)),
            _ => Outcome::Ok(short(&mut r)),
        })
        .collect();
    let prefetch = r.pick(&[0, 1, chunk + 1, 256 * 1024]);
    // a cancellation takes effect at the latest when the running attempt is over
    let cancel = if r.chance(25) { Some(r.below(ret * 8)) } else { None };
    t.add(format!("virtual clock: retry_timeout={ret} ms total={total} known={known} prefetch={prefetch} steps={steps:?} reconnect outcomes={outcomes:?} cancel after {cancel:?} ms"));

    // what is to happen, in ms
    let mut want: Vec<(u64, Ev)> = vec![];
    let (mut now, mut pos, mut at, mut n) = (0, 0, 0, 0);
    while pos < total {
        match steps[at % steps.len()] {
            Step::Item(d, c) => {
                now += d;
                pos = (pos + c).min(total);
                at += 1;
            }
            Step::Error(d, _) => {
                now += d;
                at += 1;
            }
            Step::Stall => {
                now += ret;
                want.push((now, Ev::Reconnect(pos)));
                match outcomes.get(n).copied().unwrap_or(Outcome::Ok(0)) {
                    Outcome::Ok(d) => {
                        now += d;
                        at += 1;
                        want.push((now, Ev::Callback));
                    }
                    Outcome::Fail(d, _) => now += d,
                    Outcome::Hang => now += ret,
                }
                n += 1;
            }
        }
    }
    want.push((now, Ev::Finish(false)));
    let whole = cancel.is_none_or(|c| c > now + 2);

    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async move {
        let log = Log(Instant::now(), Default::default());
        let src = VSrc { total, len: known.then_some(total), steps, at: 0, pos: 0, wait: None, outcomes, n: 0, log: log.clone() };
        let l2 = log.clone();
        let set = Settings::<VSrc>::default().prefetch_bytes(prefetch).retry_timeout(Duration::from_millis(ret)).on_reconnect(move |_, _| l2.add(Ev::Callback));
        let mut rd = StreamDownload::from_stream(src, MemoryStorageProvider, set).await.or_else(|e| t.fail(&["C09"], e.to_string()))?;
        if let Some(c) = cancel {
            sleep(Duration::from_millis(c)).await;
            rd.cancel_download();
        }
        sleep(Duration::from_millis(now.saturating_sub(cancel.unwrap_or(0)) + 3 * ret + 100)).await;
        let got = log.1.lock().unwrap().clone();
        let show = |e: &[(Duration, Ev)]| e.iter().map(|(d, e)| format!("{e:?} at {} ms", d.as_millis())).collect::<Vec<_>>().join(", ");
        let wshow = want.iter().map(|(d, e)| format!("{e:?} at {d} ms")).collect::<Vec<_>>().join(", ");
        let bad = |t: &Trace, p: &[&'static str], m: &str| t.fail(p, format!("{m}: expected [{wshow}], got [{}]", show(&got)));
        for (i, (d, e)) in got.iter().enumerate() {
            let ms = d.as_millis() as u64;
            if let (Some(c), Ev::Finish(true)) = (cancel, e) {
                if ms + 1 < c || ms > c + ret + 2 {
                    return bad(&t, &["C09"], &format!("cancelled at {c} ms, the download ended at {ms} ms"));
                }
                continue;
            }
            let Some((wms, we)) = want.get(i) else {
                return bad(&t, &["C18"], "more happened than the script explains");
            };
            if e != we {
                return bad(&t, &["C18"], "not what the script calls for");
            }
            // each timer may fire a millisecond late
            if ms + 1 < *wms || ms > wms + 2 * (i as u64 + 1) + at as u64 {
                return bad(&t, &["C17", "C18"], &format!("{e:?} at the wrong time"));
            }
        }
        if whole && got.len() != want.len() {
            return bad(&t, &["C18"], "not everything happened");
        }
        if !got.iter().any(|(_, e)| matches!(e, Ev::Finish(_))) {
            return bad(&t, &["C09"], "the download never ended");
        }
        if got.last().unwrap().1 == Ev::Finish(false) {
            let mut v = vec![];
            rd.read_to_end(&mut v).or_else(|e| t.fail(&["C18", "C09"], format!("reading the finished download failed: {e}")))?;
            if v != res_vec(0, total) {
                return t.fail(&["C18", "C06"], format!("{} wrong bytes of {total}", v.len()));
            }
        } else if rd.read(&mut [0; 10]).is_ok_and(|n| n == 0) {
            return t.fail(&["C09"], "end of the stream reported for a cancelled download");
        }
        Ok(Case { desc: t.0, nontrivial: want.len() > 1 || errors > 0 })
    })
}

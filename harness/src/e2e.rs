//! The whole download engine driven through the public API: scripted sources, observed storage,
//! random readers.
use crate::util::*;
use bytes::Bytes;
use std::convert::Infallible;
use std::future::Future;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload, StreamPhase, StreamState};

// ------------------------------------------------------------------ shared observation
#[derive(Default)]
pub struct Sh {
    pub stored: Vec<bool>,
    pub wpos: u64,
    pub max_write: usize,
    pub since_report: u64,
    pub reqs: Vec<(u64, Option<u64>)>,
    /// (position asked for, writer position then, outcome)
    pub reconnects: Vec<(u64, u64, u8)>,
    pub reconnect_cb: usize,
    pub finishes: Vec<(Option<io::ErrorKind>, StreamOutcome)>,
    pub ended: usize,
    pub progress: Vec<StreamState>,
    pub delivered: u64,
    pub bad: Vec<(Vec<&'static str>, String)>,
    pub writes: u64,
    pub events: Vec<String>,
    /// an injected storage failure happened
    pub fired: bool,
    /// the storage was full once
    pub was_full: bool,
    /// the next question for the writer's position fails
    pub fail_tell: bool,
    /// the source stalls and was not asked for anything since
    pub stalled: bool,
}
pub type Shared = Arc<(Mutex<Sh>, Condvar)>;
impl Sh {
    pub fn has(&self, p: u64) -> bool {
        self.stored.get(p as usize).copied().unwrap_or(false)
    }
    pub fn all(&self, a: u64, b: u64) -> bool {
        (a..b).all(|p| self.has(p))
    }
    fn flag(&mut self, props: &[&'static str], m: String) {
        if self.bad.len() < 5 {
            self.bad.push((props.to_vec(), m));
        }
    }
    fn failed(&mut self, s: &str) {
        self.fired = true;
        self.ev(s.into());
    }
    fn ev(&mut self, s: String) {
        if self.events.len() < 400 {
            self.events.push(s);
        }
    }
}
pub fn shared() -> Shared {
    Arc::new((Mutex::new(Sh::default()), Condvar::new()))
}
/// wait until the observation satisfies f
pub fn wait_for(sh: &Shared, d: Duration, f: impl Fn(&Sh) -> bool) -> bool {
    let g = sh.0.lock().unwrap();
    let (g, _) = sh.1.wait_timeout_while(g, d, |s| !f(s)).unwrap();
    f(&g)
}

// ------------------------------------------------------------------ source
#[derive(Clone, Debug)]
pub struct SrcCfg {
    pub total: u64,
    /// announced length
    pub len: Option<u64>,
    pub seekable: bool,
    /// sizes are drawn from here
    pub chunks: Vec<u64>,
    pub err_pct: u64,
    /// error items right after this many delivered chunks
    pub errs: Vec<u64>,
    /// after this many delivered chunks, stall (until reconnected or sought)
    pub stalls: Vec<u64>,
    /// outcome of each reconnect: 0 ok, 1 error, 2 never returns
    pub reconnects: Vec<u8>,
    /// kind of the error a failing reconnect returns
    pub reconnect_kind: Option<io::ErrorKind>,
    /// the source goes on by itself after a reconnect that failed or did not return
    pub heals: bool,
    pub delay_pct: u64,
    pub delay_us: u64,
    /// the n-th seek fails
    pub seek_fail: Option<u64>,
    /// kind of the error a failing seek returns
    pub fail_kind: Option<io::ErrorKind>,
    /// what on_finish makes of the result: 0 as is, 1 always error, 2 always ok
    pub finish: u8,
    pub seed: u64,
    /// chunks are only delivered while permits remain
    pub gated: bool,
}
impl Default for SrcCfg {
    fn default() -> Self {
        SrcCfg { total: 100, len: Some(100), seekable: true, chunks: vec![10], err_pct: 0, errs: vec![], stalls: vec![], reconnects: vec![], reconnect_kind: None, heals: false, delay_pct: 0, delay_us: 0, seek_fail: None, fail_kind: None, finish: 0, seed: 0, gated: false }
    }
}
pub struct Src {
    pub cfg: SrcCfg,
    sh: Shared,
    gate: Arc<Gate>,
    pos: u64,
    end: u64,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    rng: Rng,
    n: u64,
    seeks: u64,
    stalled: bool,
    slept: bool,
}
#[derive(Default)]
pub struct Gate {
    st: Mutex<(u64, Option<std::task::Waker>)>,
}
impl Gate {
    pub fn add(&self, n: u64) {
        let mut g = self.st.lock().unwrap();
        g.0 += n;
        if let Some(w) = g.1.take() {
            w.wake();
        }
    }
    pub fn left(&self) -> u64 {
        self.st.lock().unwrap().0
    }
}
unsafe impl Sync for Src {}
impl Src {
    pub fn new(cfg: SrcCfg, sh: Shared, gate: Arc<Gate>) -> Self {
        let rng = Rng::new(cfg.seed ^ 77);
        let end = cfg.total;
        Src { cfg, sh, gate, pos: 0, end, sleep: None, rng, n: 0, seeks: 0, stalled: false, slept: false }
    }
}
impl futures_util::Stream for Src {
    type Item = Result<Bytes, io::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let this = &mut *self;
        if this.stalled {
            return Poll::Pending; // woken by a new poll after the timeout
        }
        if this.sleep.is_none() && !this.slept && this.cfg.delay_pct > 0 && this.rng.chance(this.cfg.delay_pct) {
            this.sleep = Some(Box::pin(tokio::time::sleep(Duration::from_micros(this.rng.below(this.cfg.delay_us + 1)))));
        }
        if let Some(s) = &mut this.sleep {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            this.sleep = None;
            this.slept = true;
        }
        if this.cfg.errs.first() == Some(&this.n) {
            this.cfg.errs.remove(0);
            this.sh.0.lock().unwrap().ev("source yields an error".into());
            return Poll::Ready(Some(Err(io::Error::new(KINDS[(this.pos + this.cfg.seed) as usize % KINDS.len()], "flaky"))));
        }
        if this.cfg.gated {
            let mut g = this.gate.st.lock().unwrap();
            if g.0 == 0 {
                g.1 = Some(cx.waker().clone());
                return Poll::Pending;
            }
            g.0 -= 1;
        }
        this.slept = false;
        if this.cfg.stalls.first().is_some_and(|s| *s <= this.n) {
            this.cfg.stalls.remove(0);
            this.stalled = true;
            let mut s = this.sh.0.lock().unwrap();
            s.stalled = true;
            s.ev(format!("source stalls at {}", this.pos));
            return Poll::Pending;
        }
        if this.cfg.err_pct > 0 && this.rng.chance(this.cfg.err_pct) {
            this.sh.0.lock().unwrap().ev("source yields an error".into());
            return Poll::Ready(Some(Err(io::Error::new(KINDS[(this.pos + this.cfg.seed) as usize % KINDS.len()], "flaky"))));
        }
        if this.pos >= this.end {
            let mut s = this.sh.0.lock().unwrap();
            s.ended += 1;
            s.ev("source ends".into());
            drop(s);
            this.sh.1.notify_all();
            return Poll::Ready(None);
        }
        let k = this.rng.pick(&this.cfg.chunks).min(this.end - this.pos);
        let v = res_vec(this.pos, this.pos + k);
        this.sh.0.lock().unwrap().ev(format!("chunk {}..{}", this.pos, this.pos + k));
        this.pos += k;
        this.n += 1;
        this.sh.0.lock().unwrap().delivered += k;
        Poll::Ready(Some(Ok(v.into())))
    }
}
impl SourceStream for Src {
    type Params = ();
    type StreamCreationError = Infallible;
    async fn create((): ()) -> Result<Self, Infallible> {
        unimplemented!()
    }
    fn content_length(&self) -> Option<u64> {
        self.cfg.len
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        {
            let mut s = self.sh.0.lock().unwrap();
            s.ev(format!("seek_range({start}, {end:?})"));
            s.reqs.push((start, end));
            s.stalled = false;
            s.since_report = 0;
            if !self.cfg.seekable {
                s.flag(&["C07"], format!("seek_range({start}, {end:?}) on a stream that cannot seek"));
            }
            match (self.cfg.len, end) {
                (Some(l), Some(e)) => {
                    if start > e || e > l {
                        s.flag(&["C07"], format!("malformed range {start}..{e} of {l}"));
                    } else if start < l && start == e {
                        s.flag(&["C07"], format!("empty range {start}..{e} requested before the end {l}"));
                    } else if let Some(p) = (start..e).find(|p| s.has(*p)) {
                        s.flag(&["C07"], format!("range {start}..{e} contains position {p} that is already stored"));
                    } else if e < l && !s.has(e) {
                        s.flag(&["C07"], format!("range {start}..{e} is not the whole missing range, {e} is missing too"));
                    }
                }
                (Some(l), None) => s.flag(&["C07"], format!("open-ended range {start}.. of {l} known bytes")),
                (None, Some(e)) => s.flag(&["C07"], format!("range end {e} requested for unknown length")),
                (None, None) => {}
            }
        }
        self.sh.1.notify_all();
        self.seeks += 1;
        if self.cfg.seek_fail == Some(self.seeks) {
            return Err(io::Error::new(self.cfg.fail_kind.unwrap_or(io::ErrorKind::ConnectionReset), "seek failed"));
        }
        if self.cfg.delay_pct > 0 && self.rng.chance(self.cfg.delay_pct) {
            tokio::time::sleep(Duration::from_micros(self.rng.below(self.cfg.delay_us + 1))).await;
        }
        self.pos = start;
        self.end = end.unwrap_or(self.cfg.total).min(self.cfg.total);
        self.stalled = false;
        self.sleep = None;
        Ok(())
    }
    async fn reconnect(&mut self, p: u64) -> io::Result<()> {
        let how = if self.cfg.reconnects.is_empty() { 0 } else { self.cfg.reconnects.remove(0) };
        {
            let mut s = self.sh.0.lock().unwrap();
            s.ev(format!("reconnect({p}) -> {}", ["ok", "error", "hangs"][how as usize]));
            let w = s.wpos;
            s.reconnects.push((p, w, how));
            s.stalled = false;
            if p != w {
                s.flag(&["C18"], format!("reconnect at {p}, the next byte to be stored is {w}"));
            }
            if how == 0 {
                s.since_report = 0;
            }
        }
        self.sh.1.notify_all();
        if how != 0 && self.cfg.heals {
            self.stalled = false;
        }
        match how {
            0 => {
                self.pos = p;
                self.end = self.cfg.total;
                self.stalled = false;
                Ok(())
            }
            1 => Err(io::Error::new(self.cfg.reconnect_kind.unwrap_or(io::ErrorKind::ConnectionRefused), "reconnect failed")),
            _ => {
                std::future::pending::<()>().await;
                Ok(())
            }
        }
    }
    fn supports_seek(&self) -> bool {
        self.cfg.seekable
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        {
            let mut s = self.sh.0.lock().unwrap();
            s.ev(format!("on_finish({result:?}, {outcome:?})"));
            if s.stalled && result.is_ok() && outcome == StreamOutcome::Completed {
                s.flag(&["C18"], "the source stalled and the download completed without asking it to reconnect".into());
            }
            s.finishes.push((result.as_ref().err().map(|e| e.kind()), outcome));
        }
        self.sh.1.notify_all();
        match self.cfg.finish {
            1 => Err(io::Error::new(KINDS[self.cfg.seed as usize % KINDS.len()], "verdict")),
            2 => Ok(()),
            _ => result,
        }
    }
}

// ------------------------------------------------------------------ storage
/// observes the writes to an inner storage and can fail on demand
pub struct LogProvider<P> {
    pub inner: P,
    pub sh: Shared,
    pub cfg: StoreCfg,
}
#[derive(Clone, Debug, Default)]
pub struct StoreCfg {
    /// writes accept only part of what is offered
    pub partial: bool,
    pub seed: u64,
    /// the n-th write / flush / seek fails
    pub fail_write: Option<u64>,
    pub fail_flush: Option<u64>,
    pub fail_seek: Option<u64>,
    pub capacity: Option<Option<usize>>,
    /// written bytes reach the inner storage only when flushed (or when the writer seeks), and slowly
    pub lazy: bool,
    /// writes take a while before anything is stored
    pub slow: bool,
    /// the storage is full once when its writer first gets to this position
    pub full_at: Option<u64>,
    pub fail_kind: Option<io::ErrorKind>,
}
struct Lazy<W> {
    inner: W,
    on: bool,
    pend: Vec<u8>,
    rng: Rng,
}
impl<W: Write> Lazy<W> {
    fn publish(&mut self) -> io::Result<()> {
        if !self.pend.is_empty() {
            if self.rng.chance(50) {
                std::thread::sleep(Duration::from_micros(self.rng.below(1500)));
            }
            self.inner.write_all(&self.pend)?;
            self.pend.clear();
        }
        Ok(())
    }
}
impl<W: Write> Write for Lazy<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if !self.on {
            return self.inner.write(buf);
        }
        self.pend.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.publish()?;
        self.inner.flush()
    }
}
impl<W: Write + Seek> Seek for Lazy<W> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if p == SeekFrom::Current(0) {
            return Ok(self.inner.stream_position()? + self.pend.len() as u64);
        }
        self.publish()?;
        self.inner.seek(p)
    }
}
pub struct LogWriter<W> {
    inner: Lazy<W>,
    sh: Shared,
    cfg: StoreCfg,
    rng: Rng,
    writes: u64,
    flushes: u64,
    seeks: u64,
}
impl<P: StorageProvider> StorageProvider for LogProvider<P> {
    type Reader = P::Reader;
    type Writer = LogWriter<P::Writer>;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        let (r, w) = self.inner.into_reader_writer(l)?;
        let rng = Rng::new(self.cfg.seed);
        let w = Lazy { inner: w, on: self.cfg.lazy, pend: vec![], rng: Rng::new(self.cfg.seed ^ 5) };
        Ok((r, LogWriter { inner: w, sh: self.sh, cfg: self.cfg, rng, writes: 0, flushes: 0, seeks: 0 }))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.cfg.capacity.unwrap_or(self.inner.max_capacity())
    }
}
impl<W: Write + Seek> Write for LogWriter<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.cfg.fail_write == Some(self.writes) {
            self.sh.0.lock().unwrap().failed("storage write fails");
            std::thread::sleep(Duration::from_micros(self.rng.below(4) * 700));
            return Err(io::Error::new(self.cfg.fail_kind.unwrap_or(io::ErrorKind::WriteZero), "disk full"));
        }
        let k = if self.cfg.partial && buf.len() > 1 { 1 + self.rng.below(buf.len() as u64) as usize } else { buf.len() };
        let p = self.inner.stream_position()?;
        let mut k = k;
        if let Some(f) = self.cfg.full_at
            && p <= f
            && f < p + buf.len() as u64
        {
            if p == f {
                self.cfg.full_at = None;
                let mut s = self.sh.0.lock().unwrap();
                s.was_full = true;
                s.ev(format!("storage full at {f}"));
                drop(s);
                self.sh.1.notify_all();
                return Ok(0);
            }
            k = k.min((f - p) as usize);
        }
        if self.cfg.slow && self.rng.chance(40) {
            std::thread::sleep(Duration::from_micros(self.rng.below(1200)));
        }
        let n = self.inner.write(&buf[..k])?;
        let mut s = self.sh.0.lock().unwrap();
        s.max_write = s.max_write.max(buf.len());
        s.writes += 1;
        for (i, b) in buf[..n].iter().enumerate() {
            let q = p + i as u64;
            if *b != res(q) {
                s.flag(&["C06", "C05", "C18"], format!("byte stored at position {q} is {b}, the source has {} there", res(q)));
            }
            if s.stored.len() <= q as usize {
                s.stored.resize(q as usize + 1, false);
            }
            s.stored[q as usize] = true;
        }
        s.wpos = p + n as u64;
        s.since_report += n as u64;
        drop(s);
        self.sh.1.notify_all();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.cfg.fail_flush == Some(self.flushes) {
            self.sh.0.lock().unwrap().failed("storage flush fails");
            // long enough for a reader that was told too early
            std::thread::sleep(Duration::from_micros(self.rng.below(4) * 700));
            return Err(io::Error::new(self.cfg.fail_kind.unwrap_or(io::ErrorKind::BrokenPipe), "flush failed"));
        }
        self.inner.flush()
    }
}
impl<W: Write + Seek> Seek for LogWriter<W> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        // stream_position() is a relative seek by zero
        if p == SeekFrom::Current(0) {
            let mut s = self.sh.0.lock().unwrap();
            if std::mem::take(&mut s.fail_tell) {
                s.failed("asking for the writer's position fails");
                return Err(io::Error::new(self.cfg.fail_kind.unwrap_or(io::ErrorKind::NotFound), "seek failed"));
            }
        } else {
            self.seeks += 1;
            self.cfg.full_at = None;
            if self.cfg.fail_seek == Some(self.seeks) {
                self.sh.0.lock().unwrap().failed("storage seek fails");
                return Err(io::Error::new(self.cfg.fail_kind.unwrap_or(io::ErrorKind::NotFound), "seek failed"));
            }
        }
        let r = self.inner.seek(p)?;
        self.sh.0.lock().unwrap().wpos = r;
        self.sh.1.notify_all();
        Ok(r)
    }
}

// ------------------------------------------------------------------ runtime
pub fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap())
}

pub struct Hang;
/// run a blocking closure on its own thread; None if it does not come back
pub fn with_deadline<T: Send + 'static>(d: Duration, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Hang> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(f());
    });
    rx.recv_timeout(d).map_err(|_| Hang)
}

// ------------------------------------------------------------------ scenario
#[derive(Clone, Debug)]
pub enum Store {
    Memory,
    Temp,
    Bounded(usize),
    Adaptive(usize),
}
#[derive(Clone, Debug)]
pub struct Scenario {
    pub src: SrcCfg,
    pub store: Store,
    pub scfg: StoreCfg,
    pub prefetch: u64,
    pub batch: usize,
    pub retry_ms: u64,
    pub progress: bool,
    pub ops: Vec<Op>,
    /// wait for the end of the download and read everything at the end
    pub drain: bool,
}
#[derive(Clone, Debug)]
pub enum Op {
    Read(u64),
    Start(u64),
    Current(i64),
    End(i64),
    Pause(u64),
    /// wait until the storage was full
    Full,
}

pub fn settings(sc: &Scenario, sh: &Shared) -> Settings<Src> {
    let mut s = Settings::<Src>::default()
        .prefetch_bytes(sc.prefetch)
        .batch_write_size(NonZeroUsize::new(sc.batch).unwrap())
        .retry_timeout(Duration::from_millis(sc.retry_ms));
    let h = sh.clone();
    s = s.on_reconnect(move |_, _| {
        h.0.lock().unwrap().reconnect_cb += 1;
        h.1.notify_all();
    });
    if sc.progress {
        let h = sh.clone();
        let prefetch = sc.prefetch;
        s = s.on_progress(move |_, st, _| {
            let mut s = h.0.lock().unwrap();
            s.ev(format!("progress {:?} at {} chunk {:?}", st.phase, st.current_position, st.current_chunk));
            if st.current_position != s.wpos {
                let w = s.wpos;
                s.flag(&["C15"], format!("reported position {}, stored up to {w}", st.current_position));
            }
            if let Some(p) = st.current_chunk.clone().find(|p| !s.has(*p)) {
                s.flag(&["C15"], format!("reported chunk {:?} contains position {p} that is not stored", st.current_chunk));
            }
            if s.progress.iter().any(|p| matches!(p.phase, StreamPhase::Complete)) {
                s.flag(&["C15"], "report after the complete report".into());
            }
            let since = s.since_report;
            match st.phase {
                StreamPhase::Prefetching { target, chunk_size, .. } => {
                    if target != prefetch {
                        s.flag(&["C15", "C17"], format!("reported prefetch target {target}, configured {prefetch}"));
                    }
                    if chunk_size as u64 != since {
                        s.flag(&["C15"], format!("reported chunk size {chunk_size}, {since} bytes were stored"));
                    }
                }
                StreamPhase::Downloading { chunk_size, .. } => {
                    if chunk_size as u64 != since {
                        s.flag(&["C15"], format!("reported chunk size {chunk_size}, {since} bytes were stored"));
                    }
                    if chunk_size > 0 && !st.current_chunk.contains(&(st.current_position - 1)) {
                        s.flag(&["C15"], format!("reported chunk {:?} does not contain the bytes just stored before {}", st.current_chunk, st.current_position));
                    }
                }
                _ => {}
            }
            s.since_report = 0;
            s.progress.push(st);
            drop(s);
            h.1.notify_all();
        });
    }
    s
}

pub fn run(sc: &Scenario, props_on_hang: &[&'static str]) -> Result<(Shared, u64), Violation> {
    match sc.store.clone() {
        Store::Memory => run_with(sc, MemoryStorageProvider, props_on_hang, "C03"),
        Store::Temp => run_with(sc, TempStorageProvider::new(), props_on_hang, "C20"),
        Store::Bounded(n) => run_with(sc, BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(n).unwrap()), props_on_hang, "C01"),
        Store::Adaptive(n) => run_with(sc, AdaptiveStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(n).unwrap()), props_on_hang, "C13"),
    }
}

pub fn start<P: StorageProvider + Send + 'static>(sc: &Scenario, p: P, sh: &Shared, gate: &Arc<Gate>) -> Result<StreamDownload<LogProvider<P>>, String>
where
    P::Reader: Sync,
{
    let src = Src::new(sc.src.clone(), sh.clone(), gate.clone());
    let set = settings(sc, sh);
    let prov = LogProvider { inner: p, sh: sh.clone(), cfg: sc.scfg.clone() };
    rt().block_on(async move { StreamDownload::from_stream(src, prov, set).await }).map_err(|e| e.to_string())
}

fn run_with<P: StorageProvider + Send + 'static>(sc: &Scenario, p: P, hang: &[&'static str], sprop: &'static str) -> Result<(Shared, u64), Violation>
where
    P::Reader: Sync,
{
    let sh = shared();
    let gate = Arc::new(Gate::default());
    let viol = |sh: &Shared, props: &[&'static str], m: String| {
        let ev = sh.0.lock().unwrap().events.join("; ");
        Violation { props: props.to_vec(), msg: m, input: format!("{sc:?} HISTORY {ev}") }
    };
    let mut rd = match start(sc, p, &sh, &gate) {
        Ok(r) => r,
        Err(e) => return Err(viol(&sh, &["C06"], format!("creation failed: {e}"))),
    };
    let (sc2, sh2) = (sc.clone(), sh.clone());
    let token = rd.cancellation_token();
    let out = with_deadline(Duration::from_secs(12), move || reader(&sc2, &sh2, &mut rd, sprop));
    let r = match out {
        Ok(r) => r,
        Err(Hang) => {
            token.cancel();
            return Err(viol(&sh, hang, "hang: a reader operation did not return although the source kept delivering or ended".into()));
        }
    };
    let bad = sh.0.lock().unwrap().bad.first().cloned();
    if let Some((props, m)) = bad {
        return Err(viol(&sh, &props, m));
    }
    match r {
        Ok(n) => Ok((sh, n)),
        Err((props, m)) => Err(viol(&sh, &props, m)),
    }
}

type Bad = (Vec<&'static str>, String);
fn bad<T>(props: &[&'static str], m: String) -> Result<T, Bad> {
    Err((props.to_vec(), m))
}

fn check_bytes(sh: &Shared, pos: u64, b: &[u8], sprop: &'static str) -> Result<(), Bad> {
    let s = sh.0.lock().unwrap();
    for (i, x) in b.iter().enumerate() {
        let q = pos + i as u64;
        if !s.has(q) {
            return bad(&["C05"], format!("read returned position {q} which was never stored"));
        }
        if *x != res(q) {
            return bad(&["C05", "C06", sprop], format!("read returned {x} for position {q}, the source has {}", res(q)));
        }
    }
    Ok(())
}

fn reader<P: StorageProvider>(sc: &Scenario, sh: &Shared, rd: &mut StreamDownload<P>, sprop: &'static str) -> Result<u64, Bad> {
    let total = sc.src.total;
    let len = sc.src.len;
    let mut pos = 0u64;
    let mut reads = 0;
    if rd.content_length() != len {
        return bad(&["C04", "C05"], format!("content length {:?}, announced {len:?}", rd.content_length()));
    }
    let do_read = |rd: &mut StreamDownload<P>, pos: &mut u64, k: u64| -> Result<usize, Bad> {
        sh.0.lock().unwrap().ev(format!("reader: read {k} at {pos}"));
        let mut b = vec![0u8; k as usize];
        let n = match rd.read(&mut b) {
            Ok(n) => n,
            // nothing was made to fail
            Err(e) => return bad(if sc.src.seekable { &["C09", "C05"] } else { &["C09", "C05", "C07"] }, format!("read of {k} at {pos} failed: {e}")),
        };
        if n as u64 > k {
            return bad(&["C05"], format!("read returned {n} of {k}"));
        }
        check_bytes(sh, *pos, &b[..n], sprop)?;
        let e = *pos + n as u64;
        let lim = len.unwrap_or(u64::MAX).min(total);
        if (n as u64) < k && e < lim {
            let s = sh.0.lock().unwrap();
            if s.ended == 0 {
                return bad(&["C05", "C16", "C06"], format!("read of {k} at {pos} returned {n} before the source ended"));
            }
            if s.has(e) || (len.is_some() && sc.src.seekable) {
                return bad(&["C05", "C07", "C06"], format!("read of {k} at {pos} returned only {n} of {lim} bytes"));
            }
        }
        *pos = e;
        Ok(n)
    };
    for op in &sc.ops {
        match op {
            Op::Full => {
                wait_for(sh, Duration::from_millis(400), |s| s.was_full || s.ended > 0);
            }
            Op::Pause(us) => std::thread::sleep(Duration::from_micros(*us)),
            Op::Read(k) => {
                do_read(rd, &mut pos, *k)?;
                reads += 1;
            }
            o => {
                let (arg, want) = match o {
                    Op::Start(p) => (SeekFrom::Start(*p), Some(*p)),
                    Op::Current(d) => (SeekFrom::Current(*d), pos.checked_add_signed(*d)),
                    Op::End(d) => (SeekFrom::End(*d), len.and_then(|l| l.checked_add_signed(*d))),
                    _ => unreachable!(),
                };
                let want = want.map(|w| len.map_or(w, |l| w.min(l)));
                sh.0.lock().unwrap().ev(format!("reader: seek {arg:?} at {pos}"));
                match (rd.seek(arg), want) {
                    (Ok(p), Some(w)) if p == w => pos = w,
                    (Err(_), None) => {}
                    (Err(e), Some(_)) => return bad(&["C04", "C09"], format!("seek {arg:?} from {pos} failed: {e}")),
                    (g, w) => return bad(&["C04"], format!("seek {arg:?} from {pos} returned {g:?}, expected {w:?}")),
                }
            }
        }
    }
    if sc.drain {
        // read the rest in order, then wait for the end
        let from = pos;
        loop {
            let k = if total > 100_000 { 1 + (pos * 7 + 13) % 300_007 } else { 1 + (pos * 7 + 13) % 97 };
            let n = do_read(rd, &mut pos, k)?;
            if n == 0 {
                break;
            }
            reads += 1;
        }
        let _ = from;
        if !wait_for(sh, Duration::from_secs(8), |s| !s.finishes.is_empty()) {
            return bad(&["C07", "C09"], "the download did not finish although the source ended".into());
        }
        // the task announces its end after the finish hook
        let t = Instant::now();
        let tok = rd.cancellation_token();
        while !tok.is_cancelled() && t.elapsed() < Duration::from_secs(5) {
            std::thread::sleep(Duration::from_micros(200));
        }
        let s = sh.0.lock().unwrap();
        if s.finishes.len() != 1 {
            return bad(&["C09"], format!("finish hook ran {} times", s.finishes.len()));
        }
        if s.finishes[0] != (None, StreamOutcome::Completed) {
            let props: &[&'static str] = if sc.src.seekable { &["C09", "C18", "C06"] } else { &["C09", "C18", "C06", "C07"] };
            return bad(props, format!("the download ended with {:?}", s.finishes[0]));
        }
        if let (Some(l), true) = (len, sc.src.seekable) {
            if let Some(p) = (0..l).find(|p| !s.has(*p)) {
                return bad(&["C07", "C06"], format!("completed although position {p} is missing"));
            }
        }
        if !sc.src.seekable && !s.all(0, total) {
            return bad(&["C06", "C07"], "completed although not everything the source delivered is stored".into());
        }
        let ok = s.reconnects.iter().filter(|r| r.2 == 0).count();
        if s.reconnect_cb != ok {
            return bad(&["C18"], format!("{ok} successful reconnects, the callback ran {} times", s.reconnect_cb));
        }
        if sc.progress {
            let c = s.progress.iter().filter(|p| matches!(p.phase, StreamPhase::Complete)).count();
            if c != 1 || !matches!(s.progress.last().unwrap().phase, StreamPhase::Complete) {
                return bad(&["C15"], format!("{c} complete reports, last report {:?}", s.progress.last().map(|p| p.phase)));
            }
        }
        if s.max_write > sc.batch {
            return bad(&["C17", "C06"], format!("a write of {} bytes with a batch size of {}", s.max_write, sc.batch));
        }
        drop(s);
        // after a successful end nothing fails and everything stored is readable
        if rd.seek(SeekFrom::Start(0)).is_err() {
            return bad(&["C09"], "seek fails after a successful download".into());
        }
        let mut p0 = 0;
        if sh.0.lock().unwrap().has(0) && (!matches!(sc.store, Store::Bounded(_)) || sc.src.seekable) && !(matches!(sc.store, Store::Adaptive(_)) && len.is_none()) {
            do_read(rd, &mut p0, 50)?;
        }
    }
    Ok(reads)
}

fn chunk_mode(r: &mut Rng) -> Vec<u64> {
    match r.below(6) {
        0 => vec![1],
        1 => vec![0, 1, 2, 3, 5],
        2 => vec![10],
        3 => vec![50, 64, 100, 7],
        4 => vec![1000],
        _ => vec![1, 0, 30, 500, 4096],
    }
}

pub fn random(seed: u64, stalls: bool) -> Scenario {
    let mut r = Rng::new(seed);
    let total = r.pick(&[0, 1, 2, 30, 100, 333, 1000, 2500]);
    let known = r.chance(65);
    let seekable = r.chance(70);
    let store = match r.below(6) {
        0 => Store::Temp,
        1 if !seekable => Store::Bounded(r.range(1, 300) as usize),
        // large enough to hold everything, so nothing may ever be lost
        1 => Store::Bounded((if known { total.max(1) + r.pick(&[0, 0, 7]) } else { total + 300 }) as usize),
        2 if !seekable => Store::Adaptive(r.range(1, 300) as usize),
        2 if known => Store::Adaptive(r.pick(&[1, 50, total + 1, total.max(1)]) as usize),
        _ => Store::Memory,
    };
    let cap = match (&store, known) {
        (Store::Bounded(n), _) if seekable && *n as u64 >= total.max(200) => None,
        (Store::Bounded(n), _) => Some(*n as u64),
        (Store::Adaptive(n), false) => Some(*n as u64),
        _ => None,
    };
    let short = known && !seekable && r.chance(15);
    // the source delivers more than it announced
    let over = known && !seekable && total > 1 && !short && matches!(store, Store::Memory | Store::Temp) && seed % 9 == 4;
    let mut chunks = chunk_mode(&mut r);
    if total > 500 && chunks == [1] {
        chunks = vec![3, 20];
    }
    let mut src = SrcCfg {
        total,
        len: known.then_some(if short { total + r.range(1, 50) } else if over { total - 1 - seed / 9 % total.min(60) } else { total }),
        seekable,
        chunks,
        err_pct: if r.chance(20) { 15 } else { 0 },
        stalls: if stalls { (0..r.range(1, 3)).map(|_| r.below(8)).collect() } else { vec![] },
        reconnects: if stalls { (0..r.below(4)).map(|_| r.pick(&[0, 0, 1, 2])).collect() } else { vec![] },
        delay_pct: r.pick(&[0, 0, 5, 30, 80]),
        delay_us: r.pick(&[1, 50, 400]),
        seed: r.next(),
        ..Default::default()
    };
    if stalls {
        src.heals = seed % 2 == 0;
        src.reconnect_kind = KINDS.get((seed / 2) as usize % (KINDS.len() + 1)).copied();
    }
    let mut ops = vec![];
    let small = |r: &mut Rng| match cap {
        Some(c) => r.range(1, c.min(80)),
        None => r.pick(&[1, 5, 20, 64, 200]),
    };
    for _ in 0..r.below(14) {
        match r.below(10) {
            0..5 => ops.push(Op::Read(small(&mut r))),
            5 => ops.push(Op::Pause(r.below(600))),
            _ if cap.is_some() => ops.push(Op::Read(small(&mut r))),
            6 | 7 => ops.push(Op::Start(r.below(total + 10))),
            8 => ops.push(Op::Current(r.range(0, 200) as i64 - 60)),
            _ => ops.push(Op::End(-(r.below(total + 4) as i64) + if r.chance(10) { 5 } else { 0 })),
        }
    }
    // a read of the drain loop is at most 97 bytes
    let drain = cap.is_none_or(|c| c >= 97);
    let plain = matches!(store, Store::Memory | Store::Temp);
    let lazy = plain && seed % 3 == 0;
    let slow = seed % 7 == 1;
    let prefetch = r.pick(&[0, 0, 1, 10, 64, 300, 5000, 256 * 1024, u64::MAX]);
    // full once in the middle of the first prefetch, and the reader goes to exactly that position
    let mut full_at = None;
    if plain && seekable && total > 20 && prefetch >= 64 && seed % 11 == 2 {
        let f = r.range(1, prefetch.min(total) - 1);
        full_at = Some(f);
        if r.chance(70) {
            src.delay_pct = 80;
            src.delay_us = 800;
            if src.chunks == [1] {
                src.chunks = vec![4, 20];
            }
            ops.insert(0, Op::Full);
            ops.insert(1, Op::Start(f));
        }
    }
    Scenario {
        src,
        store,
        scfg: StoreCfg { partial: r.chance(25), seed: r.next(), lazy, slow, full_at, ..Default::default() },
        prefetch,
        batch: r.pick(&[1, 3, 16, 100, 4096]) as usize,
        retry_ms: if stalls { 15 } else { 5000 },
        progress: r.chance(60),
        ops,
        drain,
    }
}

pub fn e2e(seed: u64) -> CaseResult {
    let sc = random(seed, false);
    let (sh, reads) = run(&sc, &["C05", "C06", "C07", "C09"])?;
    let s = sh.0.lock().unwrap();
    Ok(Case { desc: format!("{sc:?}"), nontrivial: reads > 0 && s.writes > 1 && (s.reqs.len() > 0 || s.progress.len() > 2 || s.writes > 4) })
}
/// contents of a few megabytes in large chunks
pub fn e2e_large(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let total = r.range(400_000, 3_500_000);
    let mut sc = Scenario {
        src: SrcCfg { total, len: r.chance(75).then_some(total), seekable: r.chance(75), chunks: r.pick(&[&[65_536u64][..], &[16_384, 300_000], &[1_000_000, 1, 70_000], &[8192, 8193]]).to_vec(), delay_pct: r.pick(&[0, 20]), delay_us: 100, seed: r.next(), ..Default::default() },
        store: if r.chance(60) { Store::Memory } else { Store::Temp },
        scfg: StoreCfg { partial: r.chance(20), seed: r.next(), ..Default::default() },
        prefetch: r.pick(&[0, 1, 70_000, 256 * 1024, 1 << 20, u64::MAX]),
        batch: r.pick(&[4096, 65_536, 1 << 20]) as usize,
        retry_ms: 5000,
        progress: false, // that oracle looks at every position
        ops: vec![],
        drain: true,
    };
    for _ in 0..r.below(6) {
        sc.ops.push(match r.below(6) {
            0..3 => Op::Read(r.range(1, 200_000)),
            3 | 4 => Op::Start(r.below(total)),
            _ => Op::Current(r.below(600_000) as i64 - 200_000),
        });
    }
    let (sh, reads) = run(&sc, &["C05", "C06", "C07", "C09"])?;
    let s = sh.0.lock().unwrap();
    Ok(Case { desc: format!("{sc:?}"), nontrivial: reads > 0 && s.writes > 1 })
}
/// A ring that is smaller than the content, over a source that can seek: the reader jumps around and
/// the download fills the gaps, so data is lost. What is returned is right nevertheless, and what is
/// gone is an error and not the end. (Whether every wait ends is not looked at here.)
pub fn e2e_ring(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let total = r.range(20, 600);
    let cap = r.range(10, total);
    let known = seed % 4 != 3;
    let mut sc = Scenario {
        src: SrcCfg { total, len: known.then_some(total), seekable: true, chunks: chunk_mode(&mut r), delay_pct: r.pick(&[0, 0, 30]), delay_us: 200, seed: r.next(), ..Default::default() },
        store: Store::Bounded(cap as usize),
        scfg: StoreCfg::default(),
        prefetch: r.pick(&[0, 0, 1, 10]),
        batch: r.pick(&[1, 16, 4096]) as usize,
        retry_ms: 5000,
        progress: false,
        ops: vec![],
        drain: false,
    };
    if total > 200 && sc.src.chunks == [1] {
        sc.src.chunks = vec![3, 20];
    }
    for _ in 0..r.range(4, 30) {
        sc.ops.push(match r.below(8) {
            0..4 => Op::Read(r.range(1, cap)),
            4 => Op::Pause(r.below(800)),
            5 => Op::Start(r.below(total)),
            6 => Op::Current(r.below(cap) as i64),
            _ => Op::Current(r.below(cap * 2) as i64 - cap as i64),
        });
    }
    let sh = shared();
    let gate = Arc::new(Gate::default());
    let viol = |sh: &Shared, props: &[&'static str], m: String| {
        let ev = sh.0.lock().unwrap().events.join("; ");
        Violation { props: props.to_vec(), msg: m, input: format!("{sc:?} HISTORY {ev}") }
    };
    let p = BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cap as usize).unwrap());
    let mut rd = start(&sc, p, &sh, &gate).map_err(|e| viol(&sh, &["C06"], format!("creation failed: {e}")))?;
    let token = rd.cancellation_token();
    let (ops, sh2) = (sc.ops.clone(), sh.clone());
    let out = with_deadline(Duration::from_millis(1500), move || -> Result<u64, Bad> {
        let mut pos = 0u64;
        let mut jumps = 0;
        for op in ops {
            match op {
                Op::Pause(us) => std::thread::sleep(Duration::from_micros(us)),
                Op::Read(k) => {
                    sh2.0.lock().unwrap().ev(format!("reader: read {k} at {pos}"));
                    let mut b = vec![0u8; k as usize];
                    match rd.read(&mut b) {
                        Ok(n) => {
                            check_bytes(&sh2, pos, &b[..n], "C01")?;
                            // without a known length nothing is fetched again, so there may be holes
                            if n == 0 && pos < total && (known || sh2.0.lock().unwrap().has(pos)) {
                                return bad(&["C05"], format!("read of {k} at {pos} reports the end of {total} bytes"));
                            }
                            pos += n as u64;
                        }
                        Err(e) if e.kind() == io::ErrorKind::InvalidInput => sh2.0.lock().unwrap().ev(format!("-> {e}")),
                        Err(e) => return bad(&["C05", "C09"], format!("read of {k} at {pos} failed: {e}")),
                    }
                }
                o => {
                    let (arg, want) = match o {
                        Op::Start(p) => (SeekFrom::Start(p), Some(p)),
                        Op::Current(d) => (SeekFrom::Current(d), pos.checked_add_signed(d)),
                        _ => unreachable!(),
                    };
                    sh2.0.lock().unwrap().ev(format!("reader: seek {arg:?} at {pos}"));
                    match (rd.seek(arg), want.map(|w| if known { w.min(total) } else { w }).filter(|w| *w <= pos + cap)) {
                        (Ok(p), Some(w)) if p == w => pos = w,
                        (Err(e), None) if e.kind() == io::ErrorKind::InvalidInput => {}
                        (g, w) => return bad(&["C04", "C08"], format!("seek {arg:?} from {pos} returned {g:?}, expected {w:?}")),
                    }
                    jumps += 1;
                }
            }
        }
        Ok(jumps)
    });
    let jumps = match out {
        Ok(Ok(n)) => n,
        Ok(Err((props, m))) => return Err(viol(&sh, &props, m)),
        Err(Hang) => {
            token.cancel();
            0
        }
    };
    Ok(Case { desc: format!("{sc:?}"), nontrivial: jumps > 0 })
}
pub fn e2e_stall(seed: u64) -> CaseResult {
    let mut sc = random(seed, true);
    if seed % 5 == 3 && sc.src.total > 60 {
        // the storage is full once while prefetching, and the source stalls after that chunk
        let mut r = Rng::new(seed ^ 91);
        let c = r.range(4, 20);
        let f = r.range(2, sc.src.total - 20);
        sc.store = if r.chance(50) { Store::Memory } else { Store::Temp };
        sc.prefetch = r.pick(&[1 << 20, u64::MAX]);
        sc.scfg.full_at = Some(f);
        (sc.scfg.lazy, sc.scfg.partial) = (false, false);
        (sc.src.chunks, sc.src.err_pct) = (vec![c], 0);
        sc.src.stalls = vec![f / c + 1];
        sc.src.heals = true;
        sc.ops.retain(|o| matches!(o, Op::Read(_)));
        sc.drain = true;
    } else if seed % 5 == 1 {
        // the source stalls after everything was delivered
        sc.src.stalls.push(sc.src.total.div_ceil(*sc.src.chunks.iter().max().unwrap()));
    }
    let (sh, _) = run(&sc, &["C18", "C06", "C05"])?;
    let s = sh.0.lock().unwrap();
    Ok(Case { desc: format!("{sc:?}"), nontrivial: !s.reconnects.is_empty() })
}

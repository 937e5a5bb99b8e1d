//! Directed end-to-end checks: prefetch gating, seek targets, capacities, failures, settings.
use crate::e2e::*;
use crate::util::*;
use std::io::{self, Read, Seek, SeekFrom};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex, mpsc};
use std::time::{Duration, Instant};
use stream_download::source::StreamOutcome;
use stream_download::storage::StorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::{Settings, StreamDownload, StreamPhase};
use tokio_util::sync::CancellationToken;

const LONG: Duration = Duration::from_secs(6);
type Fail<T> = Result<T, (Vec<&'static str>, String)>;
fn no<T>(props: &[&'static str], m: impl Into<String>) -> Fail<T> {
    Err((props.to_vec(), m.into()))
}

/// a reader living on its own thread
enum Cmd {
    Read(usize),
    Seek(SeekFrom),
}
#[derive(Debug)]
enum Resp {
    Read(io::Result<Vec<u8>>),
    Seek(io::Result<u64>),
}
struct Actor {
    tx: Option<mpsc::Sender<Cmd>>,
    rx: mpsc::Receiver<Resp>,
    token: CancellationToken,
    len: Option<u64>,
    gate: Arc<Gate>,
    sh: Shared,
    dropped: mpsc::Receiver<()>,
}
impl Drop for Actor {
    fn drop(&mut self) {
        self.token.cancel();
        self.gate.add(1 << 40);
    }
}
impl Actor {
    fn new<P: StorageProvider + Send + 'static>(sc: &Scenario, p: P, set: Option<Settings<Src>>) -> Result<Actor, String>
    where
        P::Reader: Sync + Send,
    {
        let (sh, gate) = (shared(), Arc::new(Gate::default()));
        let src = Src::new(sc.src.clone(), sh.clone(), gate.clone());
        let set = set.unwrap_or_else(|| settings(sc, &sh));
        let prov = LogProvider { inner: p, sh: sh.clone(), cfg: sc.scfg.clone() };
        let mut rd = rt().block_on(async move { StreamDownload::from_stream(src, prov, set).await }).map_err(|e| e.to_string())?;
        let (tx, crx) = mpsc::channel::<Cmd>();
        let (rtx, rx) = mpsc::channel();
        let (dtx, dropped) = mpsc::channel();
        let (token, len) = (rd.cancellation_token(), rd.content_length());
        std::thread::spawn(move || {
            while let Ok(c) = crx.recv() {
                let x = match c {
                    Cmd::Read(k) => {
                        let mut b = vec![0; k];
                        Resp::Read(rd.read(&mut b).map(|n| {
                            b.truncate(n);
                            b
                        }))
                    }
                    Cmd::Seek(p) => Resp::Seek(rd.seek(p)),
                };
                let _ = rtx.send(x);
            }
            drop(rd);
            let _ = dtx.send(());
        });
        Ok(Actor { tx: Some(tx), rx, token, len, gate, sh, dropped })
    }
    fn send(&self, c: Cmd) {
        let _ = self.tx.as_ref().unwrap().send(c);
    }
    fn resp(&self, d: Duration) -> Option<Resp> {
        self.rx.recv_timeout(d).ok()
    }
    fn read(&self, k: usize) -> Option<io::Result<Vec<u8>>> {
        self.send(Cmd::Read(k));
        match self.resp(LONG) {
            Some(Resp::Read(r)) => Some(r),
            _ => None,
        }
    }
    fn seek(&self, p: SeekFrom) -> Option<io::Result<u64>> {
        self.send(Cmd::Seek(p));
        match self.resp(LONG) {
            Some(Resp::Seek(r)) => Some(r),
            _ => None,
        }
    }
    /// wait until every permit was used
    fn settle(&self) -> bool {
        let t = Instant::now();
        while self.gate.left() > 0 {
            if t.elapsed() > LONG {
                return false;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
        true
    }
    fn ended(&self) -> bool {
        let t = Instant::now();
        if !wait_for(&self.sh, LONG, |s| !s.finishes.is_empty()) {
            return false;
        }
        while !self.token.is_cancelled() {
            if t.elapsed() > LONG {
                return false;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
        true
    }
    /// drop the reader
    fn drop_reader(&mut self) -> bool {
        self.tx = None;
        self.dropped.recv_timeout(LONG).is_ok()
    }
}
fn base(src: SrcCfg) -> Scenario {
    Scenario { src, store: Store::Memory, scfg: StoreCfg::default(), prefetch: 0, batch: 4096, retry_ms: 60_000, progress: false, ops: vec![], drain: false }
}
/// run a scripted scenario and turn its complaint into a violation with the history
fn scripted(sc: &Scenario, t: &Trace, a: Result<Actor, String>, f: impl FnOnce(&mut Actor) -> Fail<bool>) -> CaseResult {
    let mut a = match a {
        Ok(a) => a,
        Err(e) => return t.fail(&["C06"], format!("creation failed: {e}")),
    };
    let out = f(&mut a);
    let (flag, ev) = {
        let s = a.sh.0.lock().unwrap();
        (s.bad.first().cloned(), s.events.join("; "))
    };
    let out = match (out, flag) {
        (Ok(_), Some((p, m))) => Err((p, m)),
        (o, _) => o,
    };
    match out {
        Ok(n) => Ok(Case { desc: format!("{sc:?} {}", t.0), nontrivial: n }),
        Err((props, msg)) => Err(Violation { props, msg, input: format!("{sc:?} {} HISTORY {ev}", t.0) }),
    }
}

// ------------------------------------------------------------------ prefetch
pub fn prefetch(seed: u64) -> CaseResult {
    let mut out = prefetch_once(seed);
    for _ in 0..2 {
        // a reader that starts to wait at the very moment the prefetch ends is only woken by the
        // next chunk: blocked once is not enough
        if !matches!(&out, Err(v) if v.msg.contains("still blocked")) {
            break;
        }
        out = prefetch_once(seed);
    }
    out
}
fn prefetch_once(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let t = Trace::default();
    let chunk = r.pick(&[1u64, 4, 10, 16]);
    let target = r.pick(&[0u64, 1, 5, 20, 33, 40, 64, u64::MAX]);
    let known = r.chance(60);
    let total = r.pick(&[30u64, 100, 400]);
    let seekable = known && total >= 400 && chunk >= 4;
    let len = known.then_some(total);
    let cap = if !seekable && r.chance(35) { Some(r.range(1, 50)) } else { None };
    // error items don't matter
    let errs = if seed % 3 == 1 { vec![seed / 3 % 4] } else { vec![] };
    let mut sc = base(SrcCfg { total, len, seekable, chunks: vec![chunk], gated: true, errs, seed, ..Default::default() });
    sc.prefetch = target;
    sc.progress = r.chance(50);
    sc.batch = r.pick(&[1usize, 3, 4096]);
    let during = seekable && target > 2 * chunk && r.chance(40);
    let cap2 = cap.map(|c| len.map_or(c, |l| l.min(c)));
    let a = match cap {
        Some(c) => {
            sc.store = Store::Bounded(c as usize);
            Actor::new(&sc, BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(c as usize).unwrap()), None)
        }
        None => Actor::new(&sc, MemoryStorageProvider, None),
    };
    let sc2 = sc.clone();
    scripted(&sc, &t, a, |a| if during { prefetch_seek(r, a, &sc2) } else { prefetch_run(r, a, &sc2, cap2) })
}

fn stored_up_to(a: &Actor, want: u64) -> Fail<()> {
    if wait_for(&a.sh, LONG, |s| s.wpos >= want) {
        // let the source code run past the write
        std::thread::sleep(Duration::from_micros(100));
        Ok(())
    } else {
        no(&["C06", "C16"], format!("the source delivered a chunk but it was only stored up to {}, expected {want}", a.sh.0.lock().unwrap().wpos))
    }
}

fn prefetch_run(mut r: Rng, a: &mut Actor, sc: &Scenario, cap: Option<u64>) -> Fail<bool> {
    let chunk = sc.src.chunks[0];
    let total = sc.src.total;
    let lim = total.min(cap.unwrap_or(u64::MAX));
    let goal = sc.prefetch.min(lim);
    if let Some(c) = cap
        && c < total
        && !c.is_multiple_of(chunk)
        && sc.prefetch > c
        && sc.progress
        && r.chance(60)
    {
        // a chunk that does not fit ends the prefetch: what was stored is readable although the
        // source delivers nothing more
        let n = c.div_ceil(chunk);
        a.gate.add(n);
        // the progress report comes after the chunk was recorded
        if !wait_for(&a.sh, LONG, |s| s.progress.len() as u64 >= n && s.wpos >= c) {
            return no(&["C16", "C15"], format!("{n} chunks of {chunk} bytes were delivered to a storage of capacity {c}, but not reported as stored"));
        }
        return match a.read(1) {
            Some(Ok(b)) if b == [res(0)] => Ok(true),
            Some(x) => no(&["C16", "C05"], format!("the first read returned {x:?}")),
            None => no(&["C16"], format!("the storage is full ({c} bytes, prefetch target {}), but a read of the first byte is blocked", sc.prefetch)),
        };
    }
    // one byte is asked for while the prefetch is running
    a.send(Cmd::Read(1));
    std::thread::sleep(Duration::from_micros(500));
    let mut given = 0;
    let mut first = None;
    while given < goal {
        a.gate.add(1);
        given += chunk;
        let want = given.min(lim);
        stored_up_to(a, want)?;
        if want < goal
            && let Some(x) = a.resp(Duration::from_micros(r.pick(&[300, 2500])))
        {
            return no(&["C16"], format!("a read returned {x:?} with {want} bytes stored, the prefetch target is {goal} (configured {})", sc.prefetch));
        }
        first = a.resp(Duration::ZERO);
    }
    // everything was delivered, but the source has not ended yet
    if lim == total && total < sc.prefetch {
        first = first.or_else(|| a.resp(Duration::from_micros(r.pick(&[300, 2500]))));
        if let Some(x) = &first {
            return no(&["C16"], format!("a read returned {x:?} with all {total} bytes stored, before the source ended and the prefetch target {} was reached", sc.prefetch));
        }
    }
    // the storage is only known to be full, and the source to have ended, once more is asked for
    let more = u64::from(goal == 0 || goal < sc.prefetch && !(given > lim && lim < total));
    a.gate.add(more);
    let first = match first.or_else(|| a.resp(LONG)) {
        Some(x) => x,
        None => return no(&["C16"], format!("a read of the first byte is still blocked after the prefetch target {goal} was reached")),
    };
    if !matches!(&first, Resp::Read(Ok(b)) if *b == [res(0)]) {
        return no(&["C16", "C05"], format!("the first read returned {first:?}"));
    }
    // everything stored so far is readable
    if cap.is_none() && goal > 1 {
        let k = goal as usize - 1;
        match a.read(k) {
            Some(Ok(b)) if b == res_vec(1, goal) => {}
            Some(x) => return no(&["C16", "C05"], format!("a read of the {k} prefetched bytes returned {x:?}")),
            None => return no(&["C16"], format!("a read of {k} prefetched bytes is blocked")),
        }
    }
    if !sc.src.seekable || sc.prefetch == 0 || sc.prefetch > 100 {
        return Ok(sc.prefetch > chunk);
    }
    let x0 = if r.chance(60) { 200 + r.below(20) } else { total - r.range(1, 70) };
    prefetch_again(&mut r, a, sc, x0, total)?;
    if r.chance(50) {
        // and once more, before that region
        let x1 = 110 + r.below(20);
        prefetch_again(&mut r, a, sc, x1, x0)?;
    }
    Ok(true)
}

/// a seek after the finished prefetch starts a new one at the new position; the missing region there ends at `end`
fn prefetch_again(r: &mut Rng, a: &mut Actor, sc: &Scenario, x0: u64, end: u64) -> Fail<()> {
    let chunk = sc.src.chunks[0];
    a.settle();
    std::thread::sleep(Duration::from_millis(1));
    let goal = sc.prefetch.min(end - x0);
    let n_req = a.sh.0.lock().unwrap().reqs.len();
    a.send(Cmd::Seek(SeekFrom::Start(x0)));
    if !wait_for(&a.sh, LONG, |s| s.reqs.len() > n_req && s.wpos == x0) {
        return no(&["C16", "C07"], format!("a seek to {x0} did not reach the source"));
    }
    let mut got = 0;
    while got < goal {
        a.gate.add(1);
        got = (got + chunk).min(end - x0);
        stored_up_to(a, x0 + got)?;
        if got < goal
            && let Some(x) = a.resp(Duration::from_micros(r.pick(&[300, 2500])))
        {
            return no(&["C16"], format!("the seek to {x0} returned {x:?} with {got} bytes stored there, the prefetch target is {}", sc.prefetch));
        }
    }
    // the end of the source is only known once more is asked for
    a.gate.add(u64::from(goal < sc.prefetch));
    match a.resp(LONG) {
        Some(Resp::Seek(Ok(p))) if p == x0 => {}
        Some(x) => return no(&["C04", "C16"], format!("seek to {x0} returned {x:?}")),
        None => return no(&["C16"], format!("the seek to {x0} is still blocked after {got} bytes were stored there")),
    }
    match a.read(got as usize) {
        Some(Ok(b)) if b == res_vec(x0, x0 + got) => {}
        Some(x) => return no(&["C16", "C05"], format!("read of {got} bytes at {x0} returned {x:?}")),
        None => return no(&["C16"], "a read of prefetched bytes is blocked"),
    }
    Ok(())
}

/// a seek during a prefetch ends it: no gating at the new position, the rest becomes readable
fn prefetch_seek(mut r: Rng, a: &mut Actor, sc: &Scenario) -> Fail<bool> {
    let chunk = sc.src.chunks[0];
    let n = r.range(1, (sc.prefetch / chunk).min(4) - 1);
    let have = n * chunk;
    a.gate.add(n);
    stored_up_to(a, have)?;
    let x0 = 200 + r.below(20);
    a.send(Cmd::Seek(SeekFrom::Start(x0)));
    if !wait_for(&a.sh, LONG, |s| !s.reqs.is_empty() && s.wpos == x0) {
        return no(&["C16", "C07"], format!("a seek to {x0} did not reach the source"));
    }
    a.gate.add(1);
    match a.resp(LONG) {
        Some(Resp::Seek(Ok(p))) if p == x0 => {}
        Some(x) => return no(&["C04", "C16"], format!("seek to {x0} returned {x:?}")),
        None => return no(&["C16"], format!("a seek to {x0} during the prefetch is blocked although data was stored there")),
    }
    match a.read(chunk as usize) {
        Some(Ok(b)) if b == res_vec(x0, x0 + chunk) => {}
        Some(x) => return no(&["C16", "C05"], format!("read at {x0} returned {x:?}")),
        None => return no(&["C16"], format!("a read of the bytes stored at {x0} is blocked after a seek ended the prefetch")),
    }
    // what had been prefetched before is readable
    match a.seek(SeekFrom::Start(0)) {
        Some(Ok(0)) => {}
        Some(x) => return no(&["C04", "C16"], format!("seek to 0 returned {x:?}")),
        None => return no(&["C16"], "a seek back to the data prefetched before is blocked"),
    }
    match a.read(have as usize) {
        Some(Ok(b)) if b == res_vec(0, have) => Ok(true),
        Some(x) => no(&["C16", "C05"], format!("read of the {have} bytes stored before the seek returned {x:?}")),
        None => no(&["C16"], "a read of the data prefetched before the seek is blocked"),
    }
}

// ------------------------------------------------------------------ seek targets and capacities
pub fn seeks(seed: u64) -> CaseResult {
    seeks_cap(seed, false)
}
pub fn capacity(seed: u64) -> CaseResult {
    seeks_cap(seed, true)
}
fn seeks_cap(seed: u64, capped: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let total = r.pick(&[0u64, 1, 50, 300]);
    let len = if r.chance(60) { Some(total) } else { None };
    let mut sc = base(SrcCfg { total, len, seekable: len.is_some() && r.chance(60), chunks: vec![17, 64], seed, ..Default::default() });
    let cap = if capped && r.chance(85) { Some(r.pick(&[0u64, 1, 2, 10, 49, 50, 51, 299, 300, 301, 10_000, usize::MAX as u64])) } else { None };
    sc.scfg.capacity = Some(cap.map(|c| c as usize));
    sc.prefetch = r.pick(&[0, 10, 1000]);
    let t = Trace::default();
    let a = Actor::new(&sc, MemoryStorageProvider, None);
    let steps = Arc::new(Mutex::new(Trace::default()));
    let st = steps.clone();
    scripted(&sc, &t, a, move |a| {
        if a.len != len {
            return no(&["C04"], format!("content length {:?}, announced {len:?}", a.len));
        }
        let mut pos = 0u64;
        let mut hits = 0;
        let before_end = r.chance(50);
        if !before_end && !a.ended() {
            return no(&["C07", "C09"], "the download did not finish");
        }
        for _ in 0..r.range(3, 14) {
            let steps = || st.lock().unwrap().0.clone();
            if r.chance(35) {
                let c = cap.unwrap_or(60).min(100_000) as i64;
                let k = (c + r.pick(&[-2i64, -1, 0, 1, 2, 5])).max(0) as usize;
                let k = if r.chance(30) { r.below(400) as usize } else { k };
                st.lock().unwrap().add(format!("read {k} at {pos}"));
                let Some(x) = a.read(k) else { return no(&["C05", "C08"], format!("read of {k} at {pos} does not return; {}", steps())) };
                let refused = cap.is_some_and(|c| k as u64 > c);
                hits += usize::from(refused);
                match x {
                    Err(e) if refused && e.kind() == io::ErrorKind::InvalidInput => {}
                    Ok(b) if !refused => {
                        let n = (total.saturating_sub(pos)).min(k as u64);
                        if b != res_vec(pos, pos + n) {
                            return no(&["C05", "C04"], format!("read of {k} at {pos} returned {} bytes {b:?}; {}", b.len(), steps()));
                        }
                        pos += n;
                    }
                    x => return no(&["C08"], format!("read of {k} at {pos} with capacity {cap:?} returned {x:?}; {}", steps())),
                }
            } else {
                let m = |r: &mut Rng| r.pick(&[0i64, 1, -1, 5, -5, 49, -50, 51, 300, -300, 301, -301, i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1]);
                let arg = match r.below(5) {
                    0 => SeekFrom::Start(r.pick(&[0, 1, 49, 50, 51, 299, 300, 301, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 40])),
                    1 | 4 => {
                        let near = cap.map(|c| pos.saturating_add(c).saturating_add_signed(r.range(0, 4) as i64 - 2));
                        match near {
                            Some(n) if r.chance(70) => SeekFrom::Start(n),
                            _ => SeekFrom::Start(r.below(total + 20)),
                        }
                    }
                    2 => SeekFrom::Current(m(&mut r)),
                    _ => SeekFrom::End(m(&mut r)),
                };
                st.lock().unwrap().add(format!("seek {arg:?} at {pos}"));
                let Some(x) = a.seek(arg) else { return no(&["C04"], format!("seek {arg:?} at {pos} does not return; {}", steps())) };
                let target = match arg {
                    SeekFrom::Start(p) => Some(p),
                    SeekFrom::Current(d) => pos.checked_add_signed(d),
                    SeekFrom::End(d) => len.and_then(|l| l.checked_add_signed(d)),
                }
                .map(|p| len.map_or(p, |l| p.min(l)));
                let refused = target.is_some_and(|p| cap.is_some_and(|c| p > pos.saturating_add(c)));
                hits += usize::from(refused || target.is_none());
                match (x, target) {
                    (Ok(p), Some(q)) if p == q && !refused => pos = q,
                    (Err(e), Some(_)) if refused && e.kind() == io::ErrorKind::InvalidInput => {}
                    (Err(_), None) => {}
                    (x, q) => {
                        let p: &[&'static str] = if refused || (cap.is_some() && matches!(&x, Err(e) if e.kind() == io::ErrorKind::InvalidInput)) { &["C08"] } else { &["C04"] };
                        return no(p, format!("seek {arg:?} at {pos} (length {len:?}, capacity {cap:?}) returned {x:?}, expected {q:?} refused={refused}; {}", steps()));
                    }
                }
            }
            // where does the reader think it is; a relative seek by zero is never refused
            match a.seek(SeekFrom::Current(0)) {
                Some(Ok(p)) if p == pos => {}
                x => return no(&["C04", "C08"], format!("the reader is at {x:?}, expected {pos}; {}", steps())),
            }
        }
        Ok(hits > 0)
    })
}

// ------------------------------------------------------------------ failures
pub fn failures(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let t = Trace::default();
    let kind = r.below(9);
    let chunk = r.pick(&[5u64, 16, 50]);
    let total = 400;
    let known = r.chance(60) || matches!(kind, 0 | 3 | 8);
    let seekable = matches!(kind, 0 | 3 | 8) || r.chance(60);
    let mut sc = base(SrcCfg { total, len: known.then_some(total), seekable, chunks: vec![chunk], seed, gated: true, ..Default::default() });
    sc.batch = r.pick(&[3usize, 4096]);
    sc.prefetch = r.pick(&[0u64, 0, 10, 100, 10_000]);
    let n = if r.chance(50) { r.range(1, 5) } else { total / chunk + r.below(4) };
    let k = if r.chance(10) { None } else { Some(r.pick(KINDS)) };
    // an interrupted write may be tried again
    let k = k.filter(|k| !matches!(kind, 1 | 5) || *k != io::ErrorKind::Interrupted);
    (sc.src.fail_kind, sc.scfg.fail_kind) = (k, k);
    match kind {
        0 => sc.src.seek_fail = Some(1),
        1 => sc.scfg.fail_write = Some(n),
        2 => sc.scfg.fail_flush = Some(n),
        3 => sc.scfg.fail_seek = Some(1),
        4 => sc.src.finish = 1,
        5 => {
            sc.src.finish = 2;
            sc.scfg.fail_write = Some(n);
        }
        6 | 8 => {}
        _ => {
            // a normal end
            sc.src.seekable = false;
        }
    }
    // a source of known length that ends early and cannot seek, or a plain end
    sc.progress = r.chance(40);
    // a read past an end that is not known yet waits for the end of the download
    let past = !known && r.chance(60);
    let ask = total as usize + if past { 10 } else { 0 };
    let a = Actor::new(&sc, MemoryStorageProvider, None);
    scripted(&sc, &t, a, |a| {
        let blocked = r.chance(60) && kind < 7;
        let what = ["source seek fails", "storage write fails", "storage flush fails", "storage seek fails", "finish hook reports an error", "finish hook clears the error", "cancelled", "normal end", "the storage cannot tell its position"][kind as usize];
        let (mut pending, mut all) = (false, false);
        match kind {
            0 | 3 | 8 => {
                a.gate.add(2);
                if !wait_for(&a.sh, LONG, |s| s.wpos >= 2 * chunk) {
                    return no(&["C06", "C09"], "nothing stored");
                }
                if kind == 8 {
                    a.settle();
                    a.sh.0.lock().unwrap().fail_tell = true;
                }
                a.send(Cmd::Seek(SeekFrom::Start(300)));
                pending = true;
            }
            6 => {
                let n = total / chunk;
                let k = if r.chance(50) { r.below(4) } else { n - r.below(3).min(n) };
                all = k >= n;
                a.gate.add(k);
                a.settle();
                if blocked {
                    a.send(Cmd::Read(total as usize));
                    std::thread::sleep(Duration::from_micros(r.pick(&[0, 200, 2000])));
                    pending = true;
                }
                a.token.cancel();
            }
            _ => {
                if blocked {
                    a.send(Cmd::Read(ask));
                    pending = true;
                }
                a.gate.add(10_000);
            }
        }
        if pending {
            let resp = a.resp(LONG);
            let fired = a.sh.0.lock().unwrap().fired;
            match (resp, kind) {
                (Some(Resp::Read(Ok(b))), 1 | 2) if past && fired => return no(&["C09"], format!("{what}: a read that waits for the end of the download returned {} bytes instead of the failure", b.len())),
                (None, _) => return no(&["C09"], format!("{what}: a waiting reader was not told that the download ended")),
                (Some(Resp::Read(Err(_)) | Resp::Seek(Err(_))), 0..4 | 6 | 8) => {}
                // everything was there before the failure or the cancellation
                (Some(Resp::Read(Ok(b))), 6) if all && b.len() as u64 == total => {}
                (Some(Resp::Read(Ok(b))), 1 | 2) if n > 5 && b.len() as u64 == total => {}
                // data that was complete before the verdict may be returned
                (Some(Resp::Read(x)), 4 | 5) => {
                    if kind == 5 && x.is_err() {
                        return no(&["C09"], format!("{what}: read returned {x:?}"));
                    }
                    if let Ok(b) = x
                        && b.len() as u64 != total
                        && kind == 4
                    {
                        return no(&["C09", "C05"], format!("{what}: read returned {} of {total} bytes", b.len()));
                    }
                }
                (Some(x), _) => return no(&["C09"], format!("{what}: the waiting operation returned {x:?}")),
            }
        }
        if !wait_for(&a.sh, LONG, |s| !s.finishes.is_empty()) {
            return no(&["C09"], format!("{what}: the finish hook was not called"));
        }
        if kind != 6 && !a.ended() {
            return no(&["C09"], format!("{what}: the download task did not end"));
        }
        let fired = a.sh.0.lock().unwrap().fired;
        let late = matches!(kind, 1 | 2 | 5) && n > 5;
        let failed = kind != 5 && kind != 7 && (fired || !late);
        if kind == 6 {
            // the failure is recorded after the finish hook's verdict
            let t0 = Instant::now();
            while t0.elapsed() < LONG && matches!(a.seek(SeekFrom::Start(0)), Some(Ok(_))) {
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        for k in 0..4 {
            let (res, op) = match k {
                0 => (a.read(7).map(|x| x.map(|_| ())), "read"),
                1 => (a.seek(SeekFrom::Start(r.below(350))).map(|x| x.map(|_| ())), "seek"),
                2 => (a.seek(SeekFrom::Start(0)).map(|x| x.map(|_| ())), "seek to 0"),
                _ => (a.read(1).map(|x| x.map(|_| ())), "read"),
            };
            match res {
                None => return no(&["C09"], format!("{what}: a later {op} does not return")),
                Some(x) if x.is_err() == failed => {}
                Some(x) => return no(&["C09"], format!("{what}: a later {op} returned {x:?}")),
            }
        }
        let s = a.sh.0.lock().unwrap();
        let want_err = match kind {
            _ if late && !fired => None,
            0 => Some(k.unwrap_or(io::ErrorKind::ConnectionReset)),
            1 | 5 => Some(k.unwrap_or(io::ErrorKind::WriteZero)),
            2 => Some(k.unwrap_or(io::ErrorKind::BrokenPipe)),
            3 | 8 => Some(k.unwrap_or(io::ErrorKind::NotFound)),
            6 => Some(io::ErrorKind::Interrupted),
            _ => None,
        };
        let want = (want_err, if kind == 6 { StreamOutcome::CancelledByUser } else { StreamOutcome::Completed });
        if s.finishes != vec![want] {
            return no(&["C09"], format!("{what}: finish hook calls {:?}, expected one with {want:?}", s.finishes));
        }
        if failed && kind != 4 && s.finishes[0].0.is_some() && s.progress.iter().any(|p| matches!(p.phase, StreamPhase::Complete)) {
            return no(&["C15"], format!("{what}: a complete report was sent"));
        }
        Ok(true)
    })
}

/// a write that is interrupted may end the download or be tried again, but nothing may be lost unnoticed
pub fn interrupted_write(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let t = Trace::default();
    let total = 400;
    let mut sc = base(SrcCfg { total, len: r.chance(60).then_some(total), seekable: r.chance(60), chunks: vec![r.pick(&[5u64, 16, 50])], seed, gated: true, ..Default::default() });
    sc.batch = r.pick(&[3usize, 10, 4096]);
    sc.prefetch = r.pick(&[0u64, 0, 10, 100, 10_000]);
    sc.scfg.fail_write = Some(r.range(1, 40));
    sc.scfg.fail_kind = Some(r.pick(KINDS));
    sc.scfg.partial = r.chance(40);
    let a = Actor::new(&sc, MemoryStorageProvider, None);
    scripted(&sc, &t, a, |a| {
        a.gate.add(10_000);
        if !a.ended() {
            return no(&["C06", "C09"], "the download did not end");
        }
        let s = a.sh.0.lock().unwrap();
        if s.finishes.iter().any(|f| f.0.is_none()) && s.stored.iter().filter(|s| **s).count() as u64 != total {
            return no(&["C06", "C09"], format!("the download succeeded but only {} of {total} bytes were stored", s.stored.iter().filter(|s| **s).count()));
        }
        Ok(true)
    })
}

// ------------------------------------------------------------------ settings
pub fn settings_suite(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    match r.below(9) {
        0..3 => settings_pure(r),
        3 => settings_timeout(r),
        8 => settings_tight(r),
        4 => settings_drop(r),
        _ => settings_effect(r),
    }
}
fn settings_pure(mut r: Rng) -> CaseResult {
    let mut t = Trace::default();
    let mut s = Settings::<Src>::default();
    let d = Settings::<Src>::default();
    if d.get_prefetch_bytes() != 256 * 1024 || d.get_write_batch_size() != 4096 {
        return t.fail(&["C17"], format!("defaults {d:?}"));
    }
    // explicit defaults equal the implicit ones
    let e = Settings::<Src>::default().prefetch_bytes(256 * 1024).batch_write_size(NonZeroUsize::new(4096).unwrap()).retry_timeout(Duration::from_secs(5)).cancel_on_drop(true);
    if e != d {
        return t.fail(&["C17"], format!("documented defaults {e:?} differ from {d:?}"));
    }
    let (mut p, mut b, mut ret, mut c) = (256 * 1024u64, 4096usize, Duration::from_secs(5), true);
    for _ in 0..r.range(1, 7) {
        match r.below(6) {
            0 => {
                p = r.pick(&[0, 1, 100, u64::MAX]);
                t.add(format!("prefetch_bytes {p}"));
                s = s.prefetch_bytes(p);
            }
            1 => {
                b = r.pick(&[1, 7, 4096, usize::MAX]);
                t.add(format!("batch_write_size {b}"));
                s = s.batch_write_size(NonZeroUsize::new(b).unwrap());
            }
            2 => {
                ret = Duration::from_millis(r.pick(&[0, 1, 5000, 70_000]));
                t.add(format!("retry_timeout {ret:?}"));
                s = s.retry_timeout(ret);
            }
            3 => {
                c = r.chance(50);
                t.add(format!("cancel_on_drop {c}"));
                s = s.cancel_on_drop(c);
            }
            4 => {
                t.add("on_progress");
                s = s.on_progress(|_, _, _| {});
            }
            _ => {
                t.add("on_reconnect");
                s = s.on_reconnect(|_, _| {});
            }
        }
        let e = Settings::<Src>::default().cancel_on_drop(c).retry_timeout(ret).batch_write_size(NonZeroUsize::new(b).unwrap()).prefetch_bytes(p);
        if s.get_prefetch_bytes() != p || s.get_write_batch_size() != b || s != e {
            return t.fail(&["C17"], format!("settings are {s:?}, expected prefetch {p}, batch {b}, retry {ret:?}, cancel_on_drop {c}"));
        }
        let other = match r.below(4) {
            0 => e.prefetch_bytes(p ^ 1),
            1 => e.batch_write_size(NonZeroUsize::new(if b == 1 { 2 } else { b - 1 }).unwrap()),
            2 => e.retry_timeout(ret + Duration::from_millis(1)),
            _ => e.cancel_on_drop(!c),
        };
        if s == other {
            return t.fail(&["C17"], format!("settings {s:?} equal {other:?}"));
        }
    }
    Ok(Case { desc: t.0, nontrivial: true })
}
/// builder calls in a random order around the ones under test
fn shuffled(r: &mut Rng, t: &mut Trace, p: u64, b: usize, ret: Duration, c: bool, prog: Arc<Mutex<Vec<u64>>>, rec: Arc<Mutex<Vec<u8>>>) -> Settings<Src> {
    let mut order: Vec<u8> = (0..6).collect();
    for i in (1..6).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    t.add(format!("builder order {order:?} prefetch {p} batch {b} retry {ret:?} cancel_on_drop {c}"));
    let mut s = Settings::<Src>::default();
    for o in order {
        let (prog, rec) = (prog.clone(), rec.clone());
        s = match o {
            0 => s.prefetch_bytes(p),
            1 => s.batch_write_size(NonZeroUsize::new(b).unwrap()),
            2 => s.retry_timeout(ret),
            3 => s.cancel_on_drop(c),
            4 => {
                let p2 = prog.clone();
                s.on_progress(move |_, _, _| p2.lock().unwrap().push(u64::MAX)).on_progress(move |_, st, _| {
                    if let StreamPhase::Prefetching { target, .. } = st.phase {
                        prog.lock().unwrap().push(target);
                    }
                })
            }
            _ => {
                let r2 = rec.clone();
                s.on_reconnect(move |_, _| r2.lock().unwrap().push(9)).on_reconnect(move |_, _| rec.lock().unwrap().push(1))
            }
        };
    }
    s
}
fn settings_effect(mut r: Rng) -> CaseResult {
    let mut t = Trace::default();
    let unit = if r.chance(25) { r.pick(&[100, 100, 100, 100, 100, 5000]) } else { 1 };
    let (total, chunk) = (2000 * unit, 500 * unit as u32);
    let p = if unit > 1 { r.pick(&[0, 1, 5000, 100_000, 300_000]) } else { r.range(0, 3000) };
    let b = r.range(1, 600 * unit) as usize;
    let sc = base(SrcCfg { total, len: Some(total), seekable: r.chance(50), chunks: vec![chunk as _], ..Default::default() });
    let (prog, rec) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])));
    let set = shuffled(&mut r, &mut t, p, b, Duration::from_secs(60), true, prog.clone(), rec);
    let t2 = t.clone();
    let a = Actor::new(&sc, MemoryStorageProvider, Some(set));
    scripted(&sc, &t2, a, |a| {
        if !a.ended() {
            return no(&["C17", "C07"], "the download did not end");
        }
        let s = a.sh.0.lock().unwrap();
        if s.max_write != b.min(chunk as usize) {
            return no(&["C17"], format!("largest write {} with batch size {b} and chunks of {chunk}", s.max_write));
        }
        let g = prog.lock().unwrap();
        if (p > 0 && g.is_empty()) || g.iter().any(|x| *x != p) {
            return no(&["C17", "C15"], format!("prefetch targets reported {g:?}, configured {p}"));
        }
        if g.len() as u64 != p.min(total).div_ceil(u64::from(chunk)) {
            return no(&["C17", "C16"], format!("{} prefetch reports for a target of {p} and chunks of {chunk}", g.len()));
        }
        Ok(true)
    })
}
fn settings_timeout(mut r: Rng) -> CaseResult {
    let mut t = Trace::default();
    let ms = r.pick(&[30u64, 80, 150]);
    let how = r.pick(&[0u8, 1, 2]);
    let sc = base(SrcCfg { total: 100, len: Some(100), seekable: true, chunks: vec![20], stalls: vec![r.below(4)], reconnects: vec![how], reconnect_kind: Some(r.pick(KINDS)), ..Default::default() });
    let (prog, rec) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])));
    let pre = r.pick(&[0, 10, 1000]);
    let set = shuffled(&mut r, &mut t, pre, 4096, Duration::from_millis(ms), true, prog, rec.clone());
    let t2 = t.clone();
    let start = Instant::now();
    let a = Actor::new(&sc, MemoryStorageProvider, Some(set));
    scripted(&sc, &t2, a, |a| {
        if !wait_for(&a.sh, LONG, |s| !s.reconnects.is_empty()) {
            return no(&["C17", "C18"], format!("no reconnect although the source stalled and the retry timeout is {ms} ms"));
        }
        let e = start.elapsed();
        if e < Duration::from_millis(ms) {
            return no(&["C17", "C18"], format!("reconnect after {e:?}, the retry timeout is {ms} ms"));
        }
        if e > Duration::from_millis(ms + 2500) {
            return no(&["C17", "C18"], format!("reconnect only after {e:?}, the retry timeout is {ms} ms"));
        }
        if how != 0 {
            // an attempt that failed or did not return is repeated, each wait lasts as configured
            if !wait_for(&a.sh, LONG, |s| s.reconnects.len() > 1) {
                return no(&["C18", "C17"], format!("a reconnect that {} was not tried again", if how == 1 { "failed" } else { "did not return" }));
            }
            let e2 = start.elapsed();
            if e2 > e + Duration::from_millis(2 * ms + 2500) {
                return no(&["C17", "C18"], format!("second reconnect only {:?} after the first, the retry timeout is {ms} ms", e2 - e));
            }
        }
        if !wait_for(&a.sh, LONG, |s| !s.finishes.is_empty()) {
            return no(&["C18"], format!("the download did not go on after a reconnect (outcome {how})"));
        }
        let s = a.sh.0.lock().unwrap();
        let ok = s.reconnects.iter().filter(|r| r.2 == 0).count();
        let calls = rec.lock().unwrap().clone();
        if calls != vec![1; ok] {
            return no(&["C17", "C18"], format!("{ok} successful reconnects, callback calls {calls:?}"));
        }
        Ok(true)
    })
}
/// short timeouts are kept as well: the shortest of many waits is about as long as configured
fn settings_tight(mut r: Rng) -> CaseResult {
    let mut t = Trace::default();
    let ms = r.pick(&[1u64, 5, 20]);
    let sc = base(SrcCfg { total: 100, len: r.chance(50).then_some(100), seekable: r.chance(70), chunks: vec![20], stalls: vec![r.below(4)], reconnects: vec![1; 8], ..Default::default() });
    let set = shuffled(&mut r, &mut t, 10, 4096, Duration::from_millis(ms), true, Default::default(), Default::default());
    let t2 = t.clone();
    let a = Actor::new(&sc, MemoryStorageProvider, Some(set));
    scripted(&sc, &t2, a, |a| {
        let (mut best, mut last) = (Duration::MAX, Instant::now());
        for n in 1..8 {
            if !wait_for(&a.sh, LONG, |s| s.reconnects.len() >= n) {
                return no(&["C17", "C18"], format!("only {} reconnect attempts although the source stalled and the retry timeout is {ms} ms", n - 1));
            }
            best = best.min(last.elapsed());
            last = Instant::now();
        }
        if best > Duration::from_millis(ms + 70) {
            return no(&["C17"], format!("the shortest of 7 waits for a reconnect lasted {best:?}, the retry timeout is {ms} ms"));
        }
        Ok(true)
    })
}
fn settings_drop(mut r: Rng) -> CaseResult {
    let mut t = Trace::default();
    let c = r.chance(50);
    let total = r.pick(&[100, 100, 0]);
    let sc = base(SrcCfg { total, len: r.chance(70).then_some(total), seekable: r.chance(70), chunks: vec![20], gated: true, ..Default::default() });
    let (prog, rec) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])));
    let pre = r.pick(&[0, 10, 1000]);
    let set = shuffled(&mut r, &mut t, pre, 4096, Duration::from_secs(60), c, prog, rec);
    let t2 = t.clone();
    let a = Actor::new(&sc, MemoryStorageProvider, Some(set));
    scripted(&sc, &t2, a, |a| {
        a.gate.add(r.below(if total > 0 { 3 } else { 1 }));
        a.settle();
        if !a.drop_reader() {
            return no(&["C17"], "dropping the reader does not return");
        }
        if c {
            if !wait_for(&a.sh, LONG, |s| !s.finishes.is_empty()) {
                return no(&["C17"], "cancel_on_drop is set but the download goes on after the reader was dropped");
            }
            if a.sh.0.lock().unwrap().finishes[0].1 != StreamOutcome::CancelledByUser {
                return no(&["C17", "C09"], "cancelled by dropping the reader, but reported as completed");
            }
        } else {
            std::thread::sleep(Duration::from_millis(3));
            a.gate.add(100);
            if !wait_for(&a.sh, LONG, |s| !s.finishes.is_empty()) {
                return no(&["C17"], "the download did not end after the reader was dropped");
            }
            let s = a.sh.0.lock().unwrap();
            if s.finishes[0] != (None, StreamOutcome::Completed) {
                return no(&["C17"], format!("cancel_on_drop is off but the download ended with {:?} after the reader was dropped", s.finishes[0]));
            }
        }
        Ok(true)
    })
}

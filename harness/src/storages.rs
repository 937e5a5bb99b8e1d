//! Model-based checks of the storage layer through its public API.
use crate::util::*;
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};

fn guard<T>(t: &Trace, props: &[&'static str], what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            t.fail(props, format!("{what} panicked: {m}"))
        }
    }
}

/// a fixed-size inner storage that records accesses outside its bounds and can fail on demand
#[derive(Clone)]
pub struct FixedProvider {
    pub st: Arc<Mutex<FixedState>>,
}
#[derive(Default)]
pub struct FixedState {
    pub data: Vec<u8>,
    pub requested: Option<Option<u64>>,
    pub oob: Option<String>,
    /// fail the n-th operation from now
    pub fail_in: Option<u64>,
    pub short: bool,
    pub short_writes: bool,
    /// written bytes reach the read half only when flushed
    pub lazy: bool,
    pub unflushed: Vec<(usize, Vec<u8>)>,
    pub rng: u64,
    /// let something else happen in the middle of the n-th access from now
    pub hook: Option<(u64, Hook)>,
}
/// tells another thread to go on and waits a moment for it to finish
pub struct Hook {
    go: std::sync::mpsc::Sender<()>,
    done: std::sync::mpsc::Receiver<()>,
}
impl FixedHandle {
    fn interrupt(&self) {
        let hook = {
            let mut s = self.st.lock().unwrap();
            match &mut s.hook {
                Some((0, _)) => s.hook.take().map(|h| h.1),
                Some((n, _)) => {
                    *n -= 1;
                    None
                }
                None => None,
            }
        };
        if let Some(h) = hook {
            let _ = h.go.send(());
            // with the lock held the other thread can't finish before this access
            let _ = h.done.recv_timeout(std::time::Duration::from_micros(700));
        }
    }
}
impl FixedState {
    fn failing(&mut self) -> bool {
        match &mut self.fail_in {
            Some(0) => {
                self.fail_in = None;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }
}
pub struct FixedHandle {
    pos: u64,
    st: Arc<Mutex<FixedState>>,
}
impl StorageProvider for FixedProvider {
    type Reader = FixedHandle;
    type Writer = FixedHandle;
    fn into_reader_writer(self, content_length: Option<u64>) -> std::io::Result<(FixedHandle, FixedHandle)> {
        let mut s = self.st.lock().unwrap();
        s.requested = Some(content_length);
        s.data = vec![0; content_length.unwrap_or(0) as usize];
        drop(s);
        Ok((FixedHandle { pos: 0, st: self.st.clone() }, FixedHandle { pos: 0, st: self.st }))
    }
}
impl Read for FixedHandle {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.interrupt();
        let mut s = self.st.lock().unwrap();
        if s.failing() {
            return Err(std::io::Error::other("injected"));
        }
        let cap = s.data.len() as u64;
        if self.pos + buf.len() as u64 > cap {
            s.oob = Some(format!("read {}..{} of {}", self.pos, self.pos + buf.len() as u64, cap));
        }
        let mut n = (cap.saturating_sub(self.pos) as usize).min(buf.len());
        if s.short && n > 1 {
            let mut r = Rng::new(s.rng);
            s.rng = r.next();
            n = 1 + r.below(n as u64) as usize;
        }
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&s.data[p..p + n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for FixedHandle {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.interrupt();
        let mut s = self.st.lock().unwrap();
        if s.failing() {
            return Err(std::io::Error::other("injected"));
        }
        let cap = s.data.len() as u64;
        if self.pos + buf.len() as u64 > cap {
            s.oob = Some(format!("write {}..{} of {}", self.pos, self.pos + buf.len() as u64, cap));
        }
        let mut n = (cap.saturating_sub(self.pos) as usize).min(buf.len());
        if s.short_writes && n > 1 {
            let mut r = Rng::new(s.rng);
            s.rng = r.next();
            n = 1 + r.below(n as u64) as usize;
        }
        let p = self.pos as usize;
        if n > 0 {
            if s.lazy {
                s.unflushed.push((p, buf[..n].to_vec()));
            } else {
                s.data[p..p + n].copy_from_slice(&buf[..n]);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.st.lock().unwrap();
        for (p, b) in std::mem::take(&mut s.unflushed) {
            s.data[p..p + b.len()].copy_from_slice(&b);
        }
        Ok(())
    }
}
impl Seek for FixedHandle {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.interrupt();
        let mut s = self.st.lock().unwrap();
        if s.failing() {
            return Err(std::io::Error::other("injected"));
        }
        self.pos = match p {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(d) => self.pos.checked_add_signed(d).ok_or(std::io::Error::other("neg"))?,
            SeekFrom::End(d) => (s.data.len() as u64).checked_add_signed(d).ok_or(std::io::Error::other("neg"))?,
        };
        Ok(self.pos)
    }
}

pub fn bounded(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let cfg = r.pick(&[1u64, 2, 3, 4, 5, 7, 8, 10, 16, 33, 64, 100]);
    let known = r.chance(40);
    let clen = if known { Some(r.pick(&[0, 1, cfg.saturating_sub(1), cfg, cfg + 1, cfg * 2, cfg * 5])) } else { None };
    let size = clen.map_or(cfg, |l| l.min(cfg));
    let mut t = Trace::default();
    t.add(format!("bounded size={cfg} content_length={clen:?}"));
    let kind = r.below(4);
    t.add(["inner=memory", "inner=fixed", "inner=fixed(short reads/writes)", "inner=fixed(buffers until flushed)"][kind as usize]);
    if kind == 0 {
        let p = BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cfg as usize).unwrap());
        if p.max_capacity() != Some(cfg as usize) {
            return t.fail(&["C02", "C08"], format!("declared capacity {:?}", p.max_capacity()));
        }
        let (rd, wr) = p.into_reader_writer(clen).or_else(|e| t.fail(&["C02"], format!("creation failed {e}")))?;
        bounded_run(r, t, rd, wr, cfg, size, None)
    } else {
        let f = FixedProvider { st: Arc::new(Mutex::new(FixedState { short: kind == 2, short_writes: kind == 2, lazy: kind == 3, rng: seed, ..Default::default() })) };
        let st = f.st.clone();
        let p = BoundedStorageProvider::new(f, NonZeroUsize::new(cfg as usize).unwrap());
        let (rd, wr) = p.into_reader_writer(clen).or_else(|e| t.fail(&["C02"], format!("creation failed {e}")))?;
        let req = st.lock().unwrap().requested;
        if req != Some(Some(size)) {
            return t.fail(&["C02"], format!("the inner storage was created with length {req:?}, expected {size}"));
        }
        bounded_run(r, t, rd, wr, cfg, size, Some(st))
    }
}

/// What the buffer has to hold: `hist` is the last byte written at each position, `slots` the position
/// each slot really contains, `must` the positions within a buffer length of the last write that were
/// not overwritten.
#[derive(Clone)]
struct Ring {
    size: u64,
    hist: BTreeMap<u64, u8>,
    slots: Vec<Option<u64>>,
    must: std::collections::BTreeSet<u64>,
}
impl Ring {
    fn write(&mut self, wp: u64, bytes: &[u8]) {
        let end = wp + bytes.len() as u64;
        let size = self.size;
        if bytes.is_empty() {
            return;
        }
        self.must.retain(|p| *p + size >= end && *p < wp + size);
        for (p, b) in (wp..).zip(bytes) {
            self.hist.insert(p, *b);
            self.slots[(p % size) as usize] = Some(p);
            self.must.insert(p);
        }
    }
    /// a write of up to n bytes failed somewhere
    fn failed(&mut self, wp: u64, rp: u64, n: u64) {
        for p in wp..wp + n {
            self.slots[(p % self.size) as usize] = None;
        }
        self.must.retain(|p| *p >= rp && *p < wp);
    }
    fn holds(&self, p: u64) -> bool {
        self.size > 0 && self.slots[(p % self.size) as usize] == Some(p)
    }
    fn run(&self, p: u64, max: u64) -> u64 {
        (0..max).take_while(|i| self.must.contains(&(p + i))).count() as u64
    }
}

fn bounded_run<R: StorageReader, W: StorageWriter>(mut r: Rng, mut t: Trace, mut rd: R, mut wr: W, cfg: u64, size: u64, st: Option<Arc<Mutex<FixedState>>>) -> CaseResult {
    let mut ring = Ring { size, hist: BTreeMap::new(), slots: vec![None; size as usize], must: Default::default() };
    let (mut wp, mut rp) = (0u64, 0u64);
    let mut ctr = 0u8;
    let mut wraps = 0;
    let allow_writer_seek = r.chance(50);
    let inject = st.is_some() && r.chance(20);
    let n_ops = r.range(5, 60);
    for _ in 0..n_ops {
        if inject && r.chance(10) {
            let k = r.below(4);
            t.add(format!("inner fails at its op +{k}"));
            st.as_ref().unwrap().lock().unwrap().fail_in = Some(k);
        }
        let injected = |st: &Option<Arc<Mutex<FixedState>>>| st.as_ref().is_some_and(|s| s.lock().unwrap().fail_in.is_some());
        let avail = wp.saturating_sub(rp);
        match r.below(100) {
            0..42 => {
                let len = r.pick(&[0, 1, 2, size / 2, size.saturating_sub(1), size, size + 1, size * 2 + 3]);
                let len = if r.chance(50) { r.range(0, size + 2) } else { len };
                let buf: Vec<u8> = (0..len)
                    .map(|_| {
                        ctr = ctr.wrapping_add(1).max(1);
                        ctr
                    })
                    .collect();
                t.add(format!("write {len} bytes"));
                let pending = injected(&st);
                let res = guard(&t, &["C01", "C02", "C05"], "write", || wr.write(&buf))?;
                let fired = pending && !injected(&st);
                let want = size.saturating_sub(avail).min(len);
                match res {
                    Ok(n) => {
                        if n as u64 != want {
                            return t.fail(&["C02"], format!("write of {len} bytes at {wp} (reader at {rp}, size {size}) accepted {n}, expected {want}"));
                        }
                        ring.write(wp, &buf[..n]);
                        if wp % size.max(1) + n as u64 > size {
                            wraps += 1;
                        }
                        wp += n as u64;
                    }
                    Err(e) if fired => {
                        ring.failed(wp, rp, want);
                        t.add(format!("-> {e}"));
                    }
                    Err(e) => return t.fail(&["C02"], format!("write failed: {e}")),
                }
                let p = guard(&t, &["C01"], "stream_position", || wr.stream_position())?;
                if !matches!(p, Ok(p) if p == wp) {
                    return t.fail(&["C01"], format!("writer at {p:?}, expected {wp}"));
                }
            }
            42..75 => {
                let len = if r.chance(10) { cfg + r.range(1, 3) } else { r.range(0, cfg) };
                t.add(format!("read {len}"));
                let mut buf = vec![0u8; len as usize];
                let pending = injected(&st);
                let res = guard(&t, &["C01", "C02", "C05"], "read", || rd.read(&mut buf))?;
                let fired = pending && !injected(&st);
                let run = ring.run(rp, len);
                match res {
                    Ok(n) => {
                        let n = n as u64;
                        if n > len || len > cfg {
                            return t.fail(&["C02"], format!("read of {len} bytes returned {n} (capacity {cfg})"));
                        }
                        for i in 0..n {
                            let p = rp + i;
                            if !ring.holds(p) || ring.hist.get(&p) != Some(&buf[i as usize]) {
                                return t.fail(&["C01", "C02", "C05"], format!("position {p} was read as {}, written {:?}, its slot holds {:?} (size {size})", buf[i as usize], ring.hist.get(&p), ring.slots.get((p % size.max(1)) as usize)));
                            }
                        }
                        if n < run {
                            return t.fail(&["C02"], format!("read of {len} at {rp} returned {n}, {run} available"));
                        }
                        if n == 0 && len > 0 && rp < wp {
                            return t.fail(&["C01", "C05"], format!("read of {len} at {rp} (writer at {wp}) reports the end although the data there was skipped or lost"));
                        }
                        rp += n;
                    }
                    Err(e) => {
                        t.add(format!("-> {e}"));
                        if !fired && len <= cfg && (run > 0 || len == 0 || rp >= wp) {
                            return t.fail(&["C02"], format!("read of {len} at {rp} failed: {e}"));
                        }
                    }
                }
                let p = guard(&t, &["C01"], "stream_position", || rd.stream_position())?;
                if !matches!(p, Ok(p) if p == rp) {
                    return t.fail(&["C01"], format!("reader at {p:?}, expected {rp}"));
                }
            }
            75..90 => {
                let lo = rp.min(wp).saturating_sub(size + 2);
                let hi = wp.max(rp) + r.pick(&[0, 0, 1, size, 3]);
                let target = r.range(lo.min(hi), hi);
                let target = if r.chance(3) { r.pick(&[1 << 31, (1 << 32) + target, 1 << 40, 1 << 61]) } else { target };
                let how = r.below(3);
                let arg = match how {
                    0 => SeekFrom::Start(target),
                    1 => SeekFrom::Current(target as i64 - rp as i64),
                    _ => {
                        if r.chance(50) {
                            SeekFrom::Current(-(rp as i64) - 1 - r.below(3) as i64)
                        } else {
                            SeekFrom::Start(target)
                        }
                    }
                };
                t.add(format!("reader seek {arg:?}"));
                let res = guard(&t, &["C01"], "seek", || rd.seek(arg))?;
                let want = match arg {
                    SeekFrom::Start(p) => Some(p),
                    SeekFrom::Current(d) => rp.checked_add_signed(d),
                    _ => None,
                };
                match (res, want) {
                    (Ok(p), Some(w)) if p == w => rp = w,
                    (Err(_), None) => {}
                    (x, w) => return t.fail(&["C01"], format!("seek {arg:?} from {rp} returned {x:?}, expected {w:?}")),
                }
                let (p, q) = (rd.stream_position().ok(), wr.stream_position().ok());
                if p != Some(rp) || q != Some(wp) {
                    return t.fail(&["C01"], format!("after the seek the reader is at {p:?} (expected {rp}), the writer at {q:?} (expected {wp})"));
                }
            }
            _ => {
                if !allow_writer_seek {
                    continue;
                }
                let target = if r.chance(50) { r.range(0, wp + size + 2) } else { r.pick(&[0, rp, wp.saturating_sub(size), wp.saturating_sub(1), wp + 1, wp + size]) };
                let arg = if r.chance(30) { SeekFrom::Current(target as i64 - wp as i64) } else { SeekFrom::Start(target) };
                t.add(format!("writer seek {arg:?}"));
                let res = guard(&t, &["C01"], "seek", || wr.seek(arg))?;
                if !matches!(res, Ok(p) if p == target) {
                    return t.fail(&["C01"], format!("writer seek {arg:?} from {wp} returned {res:?}"));
                }
                wp = target;
                let q = rd.stream_position().ok();
                if q != Some(rp) {
                    return t.fail(&["C01"], format!("a writer seek moved the reader from {rp} to {q:?}"));
                }
                if r.chance(50) {
                    t.add(format!("reader seek {target}"));
                    let res = rd.seek(SeekFrom::Start(target));
                    if !matches!(res, Ok(p) if p == target) {
                        return t.fail(&["C01"], format!("reader seek to {target} returned {res:?}"));
                    }
                    rp = target;
                }
            }
        }
        if let Some(s) = &st {
            if let Some(m) = s.lock().unwrap().oob.clone() {
                return t.fail(&["C02", "C01"], format!("access outside the buffer: {m}"));
            }
        }
    }
    Ok(Case { desc: t.0, nontrivial: wraps > 0 })
}

/// bounded storage with the reader and the writer on different threads
pub fn bounded_threads(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let cfg = r.range(1, 64);
    let total = r.range(1, 4000);
    let known = r.chance(40);
    let size = if known { cfg.min(total) } else { cfg };
    let mut t = Trace::default();
    t.add(format!("bounded size={cfg} known={known} total={total}, concurrent writer and reader seed={seed}"));
    let p = BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cfg as usize).unwrap());
    let (mut rd, mut wr) = p.into_reader_writer(known.then_some(total)).or_else(|e| t.fail(&["C02"], format!("{e}")))?;
    let mut r2 = Rng::new(r.next());
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stop2 = stop.clone();
    let h = std::thread::spawn(move || -> Result<(), String> {
        let mut wp = 0;
        while wp < total && !stop2.load(std::sync::atomic::Ordering::Relaxed) {
            let n = r2.range(1, size + 3).min(total - wp);
            let k = wr.write(&res_vec(wp, wp + n)).map_err(|e| format!("write at {wp}: {e}"))? as u64;
            if k > n {
                return Err(format!("write accepted {k} of {n}"));
            }
            if k == 0 {
                std::thread::yield_now();
            }
            wp += k;
        }
        Ok(())
    });
    let mut rp = 0;
    let out = (|| {
        let start = std::time::Instant::now();
        while rp < total {
            let mut b = vec![0; r.range(1, cfg) as usize];
            let n = match catch_unwind(AssertUnwindSafe(|| rd.read(&mut b))) {
                Ok(Ok(n)) => n,
                Ok(Err(e)) => return t.fail(&["C01", "C02"], format!("read at {rp} failed: {e}")),
                Err(_) => return t.fail(&["C01", "C02"], "read panicked"),
            };
            if b[..n] != res_vec(rp, rp + n as u64)[..] {
                return t.fail(&["C01", "C02"], format!("wrong bytes read at {rp}..{}", rp + n as u64));
            }
            rp += n as u64;
            if start.elapsed().as_secs() > 20 {
                return t.fail(&["C02"], format!("no progress at {rp}"));
            }
        }
        Ok(())
    })();
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let w = h.join();
    match w {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return t.fail(&["C02"], e),
        Err(_) => return t.fail(&["C01", "C02"], "write panicked"),
    }
    out?;
    Ok(Case { desc: t.0, nontrivial: total > size })
}

/// an operation of one side in the middle of an operation of the other side: the outcome has to be
/// that of some order of the two
pub fn bounded_interleaved(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let cfg = r.range(1, 12);
    let mut t = Trace::default();
    t.add(format!("bounded size={cfg}, operations in the middle of others"));
    let f = FixedProvider { st: Arc::new(Mutex::new(FixedState { rng: seed, ..Default::default() })) };
    let st = f.st.clone();
    let p = BoundedStorageProvider::new(f, NonZeroUsize::new(cfg as usize).unwrap());
    let (mut rd, mut wr) = p.into_reader_writer(None).or_else(|e| t.fail(&["C02"], format!("creation failed {e}")))?;
    let mut ring = Ring { size: cfg, hist: BTreeMap::new(), slots: vec![None; cfg as usize], must: Default::default() };
    let (mut wp, mut rp) = (0u64, 0u64);
    let mut ctr = 0u8;
    let mut bytes = move |n: u64| -> Vec<u8> {
        (0..n)
            .map(|_| {
                ctr = ctr.wrapping_add(1).max(1);
                ctr
            })
            .collect()
    };
    let mut hooked = 0;
    for _ in 0..r.range(1, 4) {
        // something to read
        let b = bytes(r.range(1, cfg));
        let n = wr.write(&b).or_else(|e| t.fail(&["C02"], format!("write failed: {e}")))?;
        t.add(format!("write {} -> {n}", b.len()));
        ring.write(wp, &b[..n]);
        wp += n as u64;
        let (go, go_rx) = std::sync::mpsc::channel();
        let (done_tx, done) = std::sync::mpsc::channel();
        st.lock().unwrap().hook = Some((r.below(3), Hook { go: go.clone(), done }));
        let before = ring.clone();
        if r.chance(60) {
            // a read, interrupted by the writer going elsewhere and writing
            let to = r.range(wp.saturating_sub(cfg + 2), wp + cfg);
            let b = bytes(r.range(1, cfg));
            let len = r.range(1, cfg);
            t.add(format!("read {len}, meanwhile the writer seeks to {to} and writes {}", b.len()));
            let mut buf = vec![0; len as usize];
            let (wr, b2) = (&mut wr, &b);
            let (res, w) = std::thread::scope(|s| {
                let h = s.spawn(move || {
                    let _ = go_rx.recv();
                    let w = wr.seek(SeekFrom::Start(to)).and_then(|_| wr.write(b2));
                    let _ = done_tx.send(());
                    w
                });
                let res = catch_unwind(AssertUnwindSafe(|| rd.read(&mut buf)));
                let _ = go.send(());
                (res, h.join())
            });
            let Ok(res) = res else { return t.fail(&["C01", "C02"], "read panicked") };
            let n = match w {
                Ok(Ok(n)) => n,
                Ok(Err(e)) => return t.fail(&["C02"], format!("write failed: {e}")),
                Err(_) => return t.fail(&["C01", "C02"], "write panicked"),
            };
            wp = to;
            let got = res.as_ref().map_or(0, |n| *n) as u64;
            let wants = [rp, rp + got].map(|rp| cfg.saturating_sub(wp.saturating_sub(rp)).min(b.len() as u64));
            if !wants.contains(&(n as u64)) {
                return t.fail(&["C02"], format!("the write at {to} accepted {n}, expected one of {wants:?}"));
            }
            ring.write(wp, &b[..n]);
            wp += n as u64;
            if !matches_one(&[&before, &ring], rp, &buf[..got as usize]) {
                return t.fail(&["C01"], format!("read of {len} at {rp} returned {:?}, neither what was stored before the write nor after it", &buf[..got as usize]));
            }
            rp += got;
        } else {
            // a write, interrupted by the reader
            let b = bytes(r.range(1, cfg));
            let from = r.range(wp.saturating_sub(cfg + 1), wp);
            let len = r.range(1, cfg);
            t.add(format!("write {}, meanwhile the reader seeks to {from} and reads {len}", b.len()));
            let mut buf = vec![0; len as usize];
            let rd = &mut rd;
            let buf2 = &mut buf;
            let (res, rr) = std::thread::scope(|s| {
                let h = s.spawn(move || {
                    let _ = go_rx.recv();
                    let w = rd.seek(SeekFrom::Start(from)).map(|_| rd.read(buf2));
                    let _ = done_tx.send(());
                    w
                });
                let res = catch_unwind(AssertUnwindSafe(|| wr.write(&b)));
                let _ = go.send(());
                (res, h.join())
            });
            let n = match res {
                Ok(Ok(n)) => n,
                Ok(Err(e)) => return t.fail(&["C02"], format!("write failed: {e}")),
                Err(_) => return t.fail(&["C01", "C02"], "write panicked"),
            };
            let got = match rr {
                Ok(Ok(x)) => x.unwrap_or(0) as u64,
                Ok(Err(e)) => return t.fail(&["C01"], format!("seek failed: {e}")),
                Err(_) => return t.fail(&["C01", "C02"], "read panicked"),
            };
            ring.write(wp, &b[..n]);
            wp += n as u64;
            if !matches_one(&[&before, &ring], from, &buf[..got as usize]) {
                return t.fail(&["C01"], format!("read of {len} at {from} returned {:?}, neither what was stored before the write nor after it", &buf[..got as usize]));
            }
            rp = from + got;
        }
        hooked += st.lock().unwrap().hook.take().is_none() as u32;
        let (p, q) = (rd.stream_position().ok(), wr.stream_position().ok());
        if p != Some(rp) || q != Some(wp) {
            return t.fail(&["C01"], format!("the reader is at {p:?} (expected {rp}), the writer at {q:?} (expected {wp})"));
        }
        // what is left
        let mut buf = vec![0; cfg as usize];
        rp = r.range(wp.saturating_sub(cfg), wp);
        t.add(format!("reader seek {rp}, read {cfg}"));
        let n = rd.seek(SeekFrom::Start(rp)).and_then(|_| rd.read(&mut buf)).unwrap_or(0);
        if !matches_one(&[&ring], rp, &buf[..n]) {
            return t.fail(&["C01"], format!("read at {rp} returned {:?}", &buf[..n]));
        }
        rp += n as u64;
    }
    Ok(Case { desc: t.0, nontrivial: hooked > 0 })
}
fn matches_one(rings: &[&Ring], p: u64, got: &[u8]) -> bool {
    rings.iter().any(|ring| (p..).zip(got).all(|(p, b)| ring.holds(p) && ring.hist.get(&p) == Some(b)))
}

/// memory storage with the reader and the writer on different threads
pub fn memory_threads(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let total = r.range(1, 20_000);
    let known = r.chance(20);
    let mut t = Trace::default();
    t.add(format!("memory known={known} total={total}, concurrent writer and reader seed={seed}"));
    let (mut rd, mut wr) = MemoryStorageProvider.into_reader_writer(known.then_some(0)).or_else(|e| t.fail(&["C03"], format!("{e}")))?;
    let mut r2 = Rng::new(r.next());
    let max = r.pick(&[1, 16, 200, 4000]);
    let h = std::thread::spawn(move || {
        let mut wp = 0;
        while wp < total {
            let n = r2.range(1, max).min(total - wp);
            match wr.write(&res_vec(wp, wp + n)) {
                Ok(k) if k as u64 == n => wp += n,
                x => return Err(format!("write of {n} at {wp}: {x:?}")),
            }
        }
        Ok(())
    });
    let mut rp = 0;
    let start = std::time::Instant::now();
    let mut out = Ok(());
    while rp < total && out.is_ok() {
        let mut b = vec![0; r.range(1, 300) as usize];
        out = match catch_unwind(AssertUnwindSafe(|| rd.read(&mut b))) {
            Ok(Ok(n)) if b[..n] == res_vec(rp, rp + n as u64)[..] => {
                rp += n as u64;
                Ok(())
            }
            Ok(Ok(n)) => t.fail(&["C03"], format!("wrong bytes read at {rp}..{}", rp + n as u64)),
            Ok(Err(e)) => t.fail(&["C03"], format!("read at {rp} failed: {e}")),
            Err(_) => t.fail(&["C03"], "read panicked"),
        };
        if out.is_ok() && start.elapsed().as_secs() > 20 {
            out = t.fail(&["C03"], format!("no progress at {rp}"));
        }
    }
    match h.join() {
        Ok(Ok(())) => out?,
        Ok(Err(e)) => return t.fail(&["C03"], e),
        Err(_) => return t.fail(&["C03"], "write panicked"),
    }
    Ok(Case { desc: t.0, nontrivial: true })
}

pub fn memory(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let clen = if r.chance(50) { Some(r.range(0, 200)) } else { None };
    t.add(format!("memory content_length={clen:?}"));
    if MemoryStorageProvider.max_capacity().is_some() {
        return t.fail(&["C03", "C08"], "memory storage declares a capacity");
    }
    let (rd, wr) = MemoryStorageProvider.into_reader_writer(clen).or_else(|e| t.fail(&["C03"], format!("{e}")))?;
    flat_run(r, t, rd, wr, &["C03"], clen.unwrap_or(0), true)
}

pub fn temp(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let clen = if r.chance(50) { Some(r.range(0, 200)) } else { None };
    let relative = seed / 7 % 5 == 0;
    let dir = if relative { tempfile::tempdir_in(crate::misc::workdir()) } else { tempfile::tempdir() }.unwrap();
    let how = r.below(3);
    t.add(format!("temp content_length={clen:?} constructor={how}"));
    let long = "p".repeat(1 + (seed % 60) as usize);
    let prefix = if seed % 4 == 0 { long.as_str() } else { r.pick(&["pre", "stream_", "a-b", ".", "-", "é ", ".tmp"]) };
    // any file name may be a prefix, also one that is no text
    #[cfg(unix)]
    let prefix: std::ffi::OsString = match seed / 5 % 4 {
        0 => std::os::unix::ffi::OsStringExt::from_vec(vec![b'p', 0xff, 0xfe, b'-']),
        _ => prefix.into(),
    };
    let built = Arc::new(Mutex::new(0));
    // the same directory, named in another way
    let named: std::path::PathBuf = match seed / 7 % 5 {
        0 => dir.path().file_name().unwrap().into(),
        1 => dir.path().join(".").join("..").join(dir.path().file_name().unwrap()),
        _ => dir.path().into(),
    };
    t.add(format!("directory {named:?}"));
    let p = match how {
        0 => TempStorageProvider::new_in(named),
        1 => TempStorageProvider::with_prefix_in(prefix.clone(), named),
        _ => {
            let d = dir.path().to_path_buf();
            let b = built.clone();
            TempStorageProvider::with_tempfile_builder(move || {
                *b.lock().unwrap() += 1;
                tempfile::Builder::new().prefix("custom").suffix(".x").tempfile_in(&d)
            })
        }
    };
    if p.max_capacity().is_some() {
        return t.fail(&["C20", "C08"], "temp storage declares a capacity");
    }
    let second = if r.chance(40) { Some(p.clone()) } else { None };
    let (rd, wr) = p.into_reader_writer(clen).or_else(|e| t.fail(&["C20"], format!("{e}")))?;
    let names = || -> Vec<std::ffi::OsString> { std::fs::read_dir(dir.path()).unwrap().map(|e| e.unwrap().file_name()).collect() };
    let n = names();
    if n.len() != 1 {
        return t.fail(&["C20"], format!("files in the configured directory: {n:?}"));
    }
    if how == 1 && !n[0].as_encoded_bytes().starts_with(prefix.as_encoded_bytes()) {
        return t.fail(&["C20"], format!("file {n:?} does not have the prefix {prefix:?}"));
    }
    if how == 2 && (*built.lock().unwrap() != 1 || !n[0].as_encoded_bytes().starts_with(b"custom") || !n[0].as_encoded_bytes().ends_with(b".x")) {
        return t.fail(&["C20"], format!("file {n:?} was not created by the builder"));
    }
    if let Some(p) = second {
        // a second stream from the same provider gets its own file
        let (mut rd2, mut wr2) = p.into_reader_writer(clen).or_else(|e| t.fail(&["C20"], format!("{e}")))?;
        if names().len() != 2 {
            return t.fail(&["C20"], format!("a second storage of the provider shares the file: {:?}", names()));
        }
        wr2.write_all(&[9; 50]).unwrap();
        wr2.flush().unwrap();
        let mut b = [0; 50];
        rd2.read_exact(&mut b).or_else(|e| t.fail(&["C20"], format!("{e}")))?;
    }
    let c = flat_run(r, t.clone(), rd, wr, &["C20"], 0, false)?;
    if !names().is_empty() {
        return t.fail(&["C20"], format!("files left behind after the storage was dropped: {:?}", names()));
    }
    Ok(c)
}

pub fn temp_errors(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let dir = tempfile::tempdir().unwrap();
    let missing = dir.path().join("missing").join("dir");
    if seed % 8 == 0 {
        // without a directory the file is in the default one
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let prefix = format!("vx-{}-{}-", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        t.add(format!("default directory, prefix {prefix}"));
        let files = || std::fs::read_dir(std::env::temp_dir()).unwrap().flatten().filter(|e| e.file_name().to_string_lossy().starts_with(&prefix)).count();
        let x = TempStorageProvider::with_prefix(&prefix).into_reader_writer(None).or_else(|e| t.fail(&["C20"], format!("{e}")))?;
        if files() != 1 {
            return t.fail(&["C20"], format!("{} files with the prefix {prefix} in {:?}", files(), std::env::temp_dir()));
        }
        drop(x);
        return Ok(Case { desc: t.0, nontrivial: true });
    }
    let how = r.below(3);
    t.add(format!("temp creation error constructor={how}"));
    let p = match how {
        0 => TempStorageProvider::new_in(missing),
        1 => TempStorageProvider::with_prefix_in("p", missing),
        _ => TempStorageProvider::with_tempfile_builder(|| Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "no"))),
    };
    match guard(&t, &["C20"], "creation", || p.into_reader_writer(Some(10)))? {
        Ok(_) => t.fail(&["C20"], "a creation error was not reported"),
        Err(e) => {
            let want = if how == 2 { std::io::ErrorKind::PermissionDenied } else { std::io::ErrorKind::NotFound };
            if e.kind() != want {
                return t.fail(&["C20"], format!("creation error kind {:?}, expected {want:?}", e.kind()));
            }
            Ok(Case { desc: t.0, nontrivial: true })
        }
    }
}

/// random-access byte array: reader and writer with independent positions
fn flat_run<R: StorageReader, W: StorageWriter>(mut r: Rng, mut t: Trace, mut rd: R, mut wr: W, props: &[&'static str], initial: u64, vec_like: bool) -> CaseResult {
    let mut data = vec![0u8; initial as usize];
    let (mut wp, mut rp) = (0u64, 0u64);
    let mut ctr = 0u8;
    let mut overwrites = 0;
    let mut total_written = 0u64;
    for _ in 0..r.range(5, 50) {
        match r.below(10) {
            0..4 => {
                let len = r.pick(&[0, 1, 7, 40, 300]);
                let len = if r.chance(60) { r.range(0, 40) } else { len };
                if len == 0 && wp > data.len() as u64 {
                    continue;
                }
                let buf: Vec<u8> = (0..len)
                    .map(|_| {
                        ctr = ctr.wrapping_add(1).max(1);
                        ctr
                    })
                    .collect();
                t.add(format!("write {len}"));
                let n = match guard(&t, props, "write", || wr.write(&buf))? {
                    Ok(n) => n,
                    Err(e) => return t.fail(props, format!("write failed: {e}")),
                };
                if n as u64 != len && (vec_like || n == 0) {
                    return t.fail(props, format!("write of {len} bytes accepted {n}"));
                }
                let _ = wr.flush();
                if n > 0 {
                    let end = wp as usize + n;
                    if end > data.len() {
                        data.resize(end, 0);
                    } else {
                        overwrites += 1;
                    }
                    data[wp as usize..end].copy_from_slice(&buf[..n]);
                }
                total_written += n as u64;
                wp += n as u64;
            }
            4..7 => {
                let len = if r.chance(10) { r.pick(&[0, 100, 512, 1024, 4096, 4097, 8192, 8193, 70_000]) } else { r.range(0, 60) };
                t.add(format!("read {len}"));
                let mut b = vec![0; len as usize];
                let n = match guard(&t, props, "read", || rd.read(&mut b))? {
                    Ok(n) => n,
                    Err(e) => return t.fail(props, format!("read failed: {e}")),
                };
                let want = (data.len() as u64).saturating_sub(rp).min(len);
                // memory storage never returns more than was written in total
                let least = if vec_like { want.min(total_written) } else { want };
                if (n as u64) < least || n as u64 > want {
                    return t.fail(props, format!("read of {len} at {rp} of {} returned {n}", data.len()));
                }
                if n > 0 && b[..n] != data[rp as usize..rp as usize + n] {
                    return t.fail(props, format!("read at {rp} returned {:?}, stored {:?}", &b[..n], &data[rp as usize..rp as usize + n]));
                }
                rp += n as u64;
            }
            x => {
                let writer = x == 9;
                let cur = if writer { wp } else { rp };
                let len = data.len() as u64;
                let target = r.pick(&[0, len, len + 1, len + 30, len / 2]);
                let target = if r.chance(50) { r.range(0, len + 5) } else { target };
                // far behind the end, where there is nothing to read
                let far = if vec_like { r.pick(&[(1 << 32) + target, 1 << 40, 1 << 61]) } else { (1 << 32) + target };
                let target = if !writer && r.chance(4) { far } else { target };
                let arg = match r.below(4) {
                    0 | 1 => SeekFrom::Start(target),
                    2 => SeekFrom::Current(if r.chance(20) { -(cur as i64) - 1 - r.below(4) as i64 } else { target as i64 - cur as i64 }),
                    _ => SeekFrom::End(if r.chance(20) { -(len as i64) - 1 - r.below(4) as i64 } else { target as i64 - len as i64 }),
                };
                t.add(format!("{} seek {arg:?}", if writer { "writer" } else { "reader" }));
                let want = match arg {
                    SeekFrom::Start(p) => Some(p),
                    SeekFrom::Current(d) => cur.checked_add_signed(d),
                    SeekFrom::End(d) => len.checked_add_signed(d),
                };
                let got = guard(&t, props, "seek", || if writer { wr.seek(arg) } else { rd.seek(arg) })?;
                match (got, want) {
                    (Ok(p), Some(w)) if p == w => {
                        if writer {
                            wp = w
                        } else {
                            rp = w
                        }
                    }
                    (Err(_), None) => {}
                    // seeking a writer from the end is not used by the library
                    (Err(_), _) if matches!(arg, SeekFrom::End(_)) && !vec_like => {}
                    (g, w) => return t.fail(props, format!("seek {arg:?} at {cur} (length {len}) returned {g:?}, expected {w:?}")),
                }
            }
        }
        let (p, q) = (rd.stream_position().ok(), wr.stream_position().ok());
        if p != Some(rp) || q != Some(wp) {
            return t.fail(props, format!("reader at {p:?} (expected {rp}), writer at {q:?} (expected {wp})"));
        }
    }
    Ok(Case { desc: t.0, nontrivial: overwrites > 0 })
}

// ------------------------------------------------------------------ adaptive
/// records every call with its arguments; results are scripted
fn kind_of(n: u64) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    [TimedOut, Interrupted, WouldBlock, BrokenPipe, InvalidInput, UnexpectedEof, StorageFull][(n / 3 % 7) as usize]
}
#[derive(Clone)]
pub struct RecProvider {
    name: &'static str,
    log: Arc<Mutex<Vec<String>>>,
}
pub struct RecHandle {
    name: String,
    log: Arc<Mutex<Vec<String>>>,
    n: u64,
}
impl StorageProvider for RecProvider {
    type Reader = RecHandle;
    type Writer = RecHandle;
    fn into_reader_writer(self, content_length: Option<u64>) -> std::io::Result<(RecHandle, RecHandle)> {
        self.log.lock().unwrap().push(format!("create {} {content_length:?}", self.name));
        Ok((RecHandle { name: format!("{} reader", self.name), log: self.log.clone(), n: 0 }, RecHandle { name: format!("{} writer", self.name), log: self.log, n: 0 }))
    }
}
impl RecHandle {
    fn rec(&mut self, s: String) -> u64 {
        self.n += 1;
        self.log.lock().unwrap().push(format!("{} {s}", self.name));
        self.n
    }
}
impl Read for RecHandle {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.rec(format!("read {}", buf.len()));
        if n % 5 == 4 {
            return Err(std::io::Error::new(kind_of(n), "r"));
        }
        let k = buf.len().min((n % 7) as usize);
        for (i, b) in buf[..k].iter_mut().enumerate() {
            *b = res(n * 100 + i as u64);
        }
        Ok(k)
    }
}
impl Write for RecHandle {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.rec(format!("write {buf:?}"));
        if n % 5 == 4 { Err(std::io::Error::new(kind_of(n), "w")) } else { Ok(buf.len().min((n % 7) as usize)) }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let n = self.rec("flush".into());
        if n % 3 == 2 { Err(std::io::Error::new(kind_of(n), "f")) } else { Ok(()) }
    }
}
impl Seek for RecHandle {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = self.rec(format!("seek {p:?}"));
        if n % 5 == 4 { Err(std::io::Error::new(kind_of(n), "s")) } else { Ok(n * 1000) }
    }
}

pub fn adaptive(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let cfg = r.range(1, 40);
    let clen = r.pick(&[None, Some(0), Some(1), Some(cfg.saturating_sub(1)), Some(cfg), Some(cfg + 1), Some(cfg * 10), Some(u64::from(u32::MAX) + cfg)]);
    t.add(format!("adaptive size={cfg} content_length={clen:?}"));
    let log = Arc::new(Mutex::new(vec![]));
    let rlog = Arc::new(Mutex::new(vec![]));
    let p = AdaptiveStorageProvider::with_fixed_and_variable(RecProvider { name: "fixed", log: log.clone() }, RecProvider { name: "variable", log: log.clone() }, NonZeroUsize::new(cfg as usize).unwrap());
    let (mut rd, mut wr) = match guard(&t, &["C13"], "creation", || p.into_reader_writer(clen))? {
        Ok(x) => x,
        Err(e) => return t.fail(&["C13"], format!("{e}")),
    };
    let (name, len) = match clen {
        None => ("fixed", Some(cfg)),
        Some(l) if l <= cfg => ("fixed", Some(l)),
        Some(l) => ("variable", Some(l)),
    };
    let created = log.lock().unwrap().clone();
    if created != vec![format!("create {name} {len:?}")] {
        return t.fail(&["C13"], format!("created {created:?}, expected {name} {len:?}"));
    }
    if clen.is_none() {
        // ring buffer of the configured size: a full buffer accepts nothing more
        let b = vec![7u8; cfg as usize * 2];
        let mut got = 0;
        for _ in 0..cfg * 4 + 10 {
            if let Ok(n) = wr.write(&b) {
                got += n;
                if n == 0 {
                    break;
                }
            }
        }
        let _ = got;
        return Ok(Case { desc: t.0, nontrivial: true });
    }
    // the same calls on a bare storage must give the same results
    let (mut rd2, mut wr2) = RecProvider { name, log: rlog.clone() }.into_reader_writer(len).unwrap();
    for _ in 0..r.range(3, 25) {
        let f = |x: &std::io::Result<u64>| match x {
            Ok(n) => format!("Ok({n})"),
            Err(e) => format!("Err({:?},{e})", e.kind()),
        };
        let (a, b, what) = match r.below(5) {
            0 => {
                let n = r.below(10) as usize;
                let (mut x, mut y) = (vec![0; n], vec![0; n]);
                let a = rd.read(&mut x).map(|n| n as u64);
                let b = rd2.read(&mut y).map(|n| n as u64);
                if x != y {
                    return t.fail(&["C13"], format!("read returned {x:?}, the storage gave {y:?}"));
                }
                (a, b, format!("read {n}"))
            }
            1 => {
                let x: Vec<u8> = (0..r.below(10)).map(|_| r.next() as u8).collect();
                (wr.write(&x).map(|n| n as u64), wr2.write(&x).map(|n| n as u64), format!("write {x:?}"))
            }
            2 => (wr.flush().map(|()| 0), wr2.flush().map(|()| 0), "flush".into()),
            k => {
                let p = match r.below(3) {
                    0 => SeekFrom::Start(r.next()),
                    1 => SeekFrom::Current(r.next() as i64),
                    _ => SeekFrom::End(r.next() as i64),
                };
                if k == 3 { (rd.seek(p), rd2.seek(p), format!("reader seek {p:?}")) } else { (wr.seek(p), wr2.seek(p), format!("writer seek {p:?}")) }
            }
        };
        t.add(&what);
        if f(&a) != f(&b) {
            return t.fail(&["C13"], format!("{what} returned {}, the storage gave {}", f(&a), f(&b)));
        }
        let (x, y) = (log.lock().unwrap().clone(), rlog.lock().unwrap().clone());
        if x != y {
            return t.fail(&["C13"], format!("calls on the storage {:?}, expected {:?}", x.last(), y.last()));
        }
    }
    Ok(Case { desc: t.0, nontrivial: true })
}

/// adaptive with an unknown length behaves like a bounded buffer over the fixed storage
pub fn adaptive_bounded(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let cfg = r.range(1, 40);
    let mut t = Trace::default();
    t.add(format!("adaptive over fixed storage, unknown length, size={cfg}"));
    let f = FixedProvider { st: Arc::new(Mutex::new(FixedState::default())) };
    let v = FixedProvider { st: Arc::new(Mutex::new(FixedState::default())) };
    let (st, sv) = (f.st.clone(), v.st.clone());
    let p = AdaptiveStorageProvider::with_fixed_and_variable(f, v, NonZeroUsize::new(cfg as usize).unwrap());
    let (rd, wr) = p.into_reader_writer(None).or_else(|e| t.fail(&["C13"], format!("{e}")))?;
    if st.lock().unwrap().requested != Some(Some(cfg)) || sv.lock().unwrap().requested.is_some() {
        return t.fail(&["C13"], format!("fixed created with {:?}, variable with {:?}", st.lock().unwrap().requested, sv.lock().unwrap().requested));
    }
    bounded_run(r, t, rd, wr, cfg, cfg, Some(st)).map_err(|mut v| {
        v.props = vec!["C13", "C01", "C02"];
        v
    })
}

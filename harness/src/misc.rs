//! Registry, process and async-read checks through the public API.
use crate::e2e::rt;
use crate::util::*;
use futures_util::StreamExt;
use std::io;
use std::os::unix::ffi::OsStrExt;
use std::sync::{Arc, Mutex};
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::process::{Command, CommandBuilder, FfmpegConvertAudioCommand, ProcessStream, ProcessStreamParams, SpawnCommand, YtDlpCommand};
use stream_download::registry::{Input, Matcher, Registry, RegistryEntry, Rule, Source};
use stream_download::source::SourceStream;

// ------------------------------------------------------------------ registry
#[derive(Clone, Debug)]
enum M {
    Any,
    S(String),
    R(String),
}
impl M {
    fn is(&self, x: Option<&str>) -> bool {
        match (self, x) {
            (M::Any, _) => true,
            (_, None) => false,
            (M::S(s), Some(x)) => s == x,
            (M::R(r), Some(x)) => regex::Regex::new(r).unwrap().is_match(x),
        }
    }
    fn m(&self) -> Matcher {
        match self {
            M::S(s) => Matcher::from(s.as_str()),
            M::R(r) => Matcher::from(regex::Regex::new(r).unwrap()),
            M::Any => unreachable!(),
        }
    }
}
#[derive(Clone, Debug)]
enum R {
    Prefix(String),
    Str(M),
    Url(M, M, bool),
}
impl R {
    fn rule(&self) -> Rule {
        match self {
            R::Prefix(p) => Rule::prefix(p.clone()),
            R::Str(M::Any) => Rule::any_string(),
            R::Str(m) => Rule::string(m.m()),
            R::Url(_, M::Any, true) => Rule::any_http(),
            R::Url(_, d, true) => Rule::http_domain(d.m()),
            R::Url(M::Any, M::Any, _) => Rule::any_url(),
            R::Url(s, M::Any, _) => Rule::url_scheme(s.m()),
            R::Url(M::Any, d, _) => Rule::url_domain(d.m()),
            R::Url(s, d, _) => Rule::url(s.m(), d.m()),
        }
    }
}
struct Entry {
    id: usize,
    prio: u32,
    rules: Vec<Rule>,
    log: Arc<Mutex<Vec<(usize, Input)>>>,
}
#[async_trait::async_trait]
impl RegistryEntry<usize> for Entry {
    fn priority(&self) -> u32 {
        self.prio
    }
    fn rules(&self) -> &[Rule] {
        &self.rules
    }
    async fn handler(&mut self, input: Input) -> usize {
        self.log.lock().unwrap().push((self.id, input));
        self.id
    }
}

/// the string, or one that differs from it only slightly
fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if !r.chance(30) {
        return s.to_string();
    }
    let k = r.below(c.len() as u64 + 1) as usize;
    match r.below(8) {
        0 => c.insert(k, r.pick(&[':', ' ', '.', 'a', 'A', '/', '\u{e9}', '%'])),
        1 if k < c.len() => {
            c.remove(k);
        }
        2 => {
            c.pop();
        }
        3 => c.extend(c.last().copied()),
        4 => return s.to_uppercase(),
        5 => c.push(r.pick(&[':', ' ', '\n', '.', '/'])),
        6 => c.insert(0, r.pick(&[' ', '\t', '.', 'w'])),
        _ => c.push(r.pick(&['x', '0'])),
    }
    c.into_iter().collect()
}
pub fn registry(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let strs = ["abc", "abcabc", "x", "", "some id", "ab", "https", "yt:", "yt:yt:foo"];
    let pres = ["yt:", "y", "", "ab", "ab.", "http", "yt:yt:", "file://"];
    let schemes = ["http", "https", "file", "yt", "ftp"];
    let domains = ["a.com", "b.org", "www.a.com"];
    let res_ = ["^a", "b", "^https?$", "com$", ".*", "^$", "a.c"];
    let raws = ["abc", "abcabc", "yt:foo", "yt:yt:foo", "http://a.com/x", "https://www.a.com", "https://b.org/?q=1#f", "ftp://a.com/", "file:///tmp/x", "some id", "", "x yt:", "ythttp://a.com/", "yt:http://b.org/z", "ab.c", "http://127.0.0.1/x", "http://[::1]/", "HTTP://A.com", "data:text/plain,hi", "ab", "aab", "httpabc", "http:", "\u{a0}http://a.com/x", "http://a.com/x\u{3000}", " http://a.com/x ", "\u{a0}abc", "abc\n", "\tyt:foo", "yt: foo", "HTTPS://A.com", "Yt:foo"];
    let m = |r: &mut Rng, v: &[&str]| match r.below(3) {
        0 => M::Any,
        1 => M::S({
            let s = r.pick(v);
            near(r, s)
        }),
        _ => M::R(r.pick(&res_).to_string()),
    };
    let n = if r.chance(15) { 20 + r.below(60) as usize } else { r.below(6) as usize };
    let log = Arc::new(Mutex::new(vec![]));
    let mut reg = Registry::new();
    let mut model: Vec<(u32, usize, Vec<R>)> = vec![];
    for id in 0..n {
        let prio = r.pick(&[0, 1, 1, 2, 5, u32::MAX]);
        let rules: Vec<R> = (0..r.below(4))
            .map(|_| match r.below(4) {
                0 => R::Prefix({
                    let p = r.pick(&pres);
                    near(&mut r, p)
                }),
                1 => R::Str(m(&mut r, &strs)),
                2 => R::Url(M::R("^https?$".into()), m(&mut r, &domains), true),
                _ => R::Url(m(&mut r, &schemes), m(&mut r, &domains), false),
            })
            .collect();
        reg = reg.entry(Entry { id, prio, rules: rules.iter().map(R::rule).collect(), log: log.clone() });
        model.push((prio, id, rules));
    }
    t.add(format!("entries (priority, id, rules) {model:?}"));
    model.sort_by_key(|e| e.0);
    let mut hits = 0;
    for _ in 0..8 {
        let raw = r.pick(&raws);
        let raw = near(&mut r, raw);
        let used: Vec<String> = model.iter().flat_map(|m| &m.2).filter_map(|x| if let R::Prefix(p) = x { Some(p.clone()) } else { None }).collect();
        let some_prefix = |r: &mut Rng| {
            let p = if used.is_empty() || r.chance(40) { r.pick(&pres).to_string() } else { used[r.below(used.len() as u64) as usize].clone() };
            near(r, &p)
        };
        let raw = if r.chance(30) { format!("{}{raw}", some_prefix(&mut r)) } else { raw };
        let parse = |s: &str| match url::Url::parse(s) {
            Ok(u) => Source::Url(u),
            Err(_) => Source::String(s.to_string()),
        };
        let src = Source::from(raw.clone());
        if src != parse(&raw) {
            return t.fail(&["C12"], format!("{raw:?} was parsed as {src:?}"));
        }
        if matches!(src, Source::String(_)) && (String::from(src.clone()) != raw || src.to_string() != raw) {
            return t.fail(&["C12"], format!("{raw:?} became {:?}", String::from(src)));
        }
        let parsed = if r.chance(50) { Some(Input { prefix: if r.chance(60) { Some(some_prefix(&mut r)) } else { None }, source: src.clone() }) } else { None };
        if let Some(i) = &parsed {
            let want = format!("{}{}", i.prefix.clone().unwrap_or_default(), String::from(i.source.clone()));
            if i.clone().into_raw() != want {
                return t.fail(&["C12"], format!("raw form of {i:?} is {:?}", i.clone().into_raw()));
            }
        }
        let mut want = None;
        'o: for (_, id, rules) in &model {
            for rule in rules {
                if let R::Prefix(p) = rule {
                    match &parsed {
                        None => {
                            if let Some(rest) = raw.strip_prefix(p.as_str()) {
                                want = Some((*id, Input { prefix: Some(p.clone()), source: parse(rest) }));
                                break 'o;
                            }
                        }
                        Some(i) => {
                            if i.prefix.as_ref() == Some(p) {
                                want = Some((*id, i.clone()));
                                break 'o;
                            }
                        }
                    }
                }
            }
            for rule in rules {
                let hit = match (rule, &src) {
                    (R::Url(s, d, _), Source::Url(u)) => s.is(Some(u.scheme())) && d.is(u.domain()),
                    (R::Str(m), Source::String(x)) => m.is(Some(x)),
                    _ => false,
                };
                if hit {
                    want = Some((*id, parsed.clone().unwrap_or(Input { prefix: None, source: src.clone() })));
                    break 'o;
                }
            }
        }
        t.add(format!("lookup {raw:?} parsed={parsed:?}"));
        log.lock().unwrap().clear();
        let got = match parsed {
            Some(i) => rt().block_on(reg.find_match(i)),
            None => rt().block_on(reg.find_match(raw.clone())),
        };
        let calls = log.lock().unwrap().clone();
        let want_calls: Vec<_> = want.iter().cloned().collect();
        if got != want.as_ref().map(|w| w.0) || calls != want_calls {
            return t.fail(&["C12"], format!("lookup of {raw:?} returned {got:?} with calls {calls:?}, expected {want:?}"));
        }
        hits += usize::from(want.is_some());
    }
    Ok(Case { desc: t.0, nontrivial: hits > 0 })
}

// ------------------------------------------------------------------ process
struct Scripts {
    dir: tempfile::TempDir,
}
/// The commands of a pipeline but the last are never waited for; their remains are collected here
/// once they have been dead for a while, so that long runs do not exhaust the process table.
fn reaper() {
    unsafe extern "C" {
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    }
    let me = std::process::id().to_string();
    let mut before = std::collections::HashSet::new();
    loop {
        std::thread::sleep(std::time::Duration::from_secs(3));
        let mut now = std::collections::HashSet::new();
        for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
            let Some(pid) = e.file_name().to_str().and_then(|n| n.parse::<i32>().ok()) else { continue };
            let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
            let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
            if f.first() == Some(&"Z") && f.get(1) == Some(&me.as_str()) {
                if before.contains(&pid) {
                    unsafe { waitpid(pid, std::ptr::null_mut(), 1) };
                } else {
                    now.insert(pid);
                }
            }
        }
        before = now;
    }
}
fn scripts() -> &'static Scripts {
    static S: std::sync::OnceLock<Scripts> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        std::thread::spawn(reaper);
        use std::os::unix::fs::PermissionsExt;
        let dir = tempfile::tempdir().unwrap();
        for (n, body) in [
            ("show", "for a in \"$0\" \"$@\"; do printf '%s\\0' \"$a\"; done\n"),
            ("wrap", "printf '%s(' \"$*\"; cat; printf ')'\n"),
            ("other", "printf 'other\\0'; for a in \"$0\" \"$@\"; do printf '%s\\0' \"$a\"; done\n"),
        ] {
            let p = dir.path().join(n);
            std::fs::write(&p, format!("#!/bin/sh\n{body}")).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Scripts { dir }
    })
}
/// a scratch directory that is the current directory of this process from here on
pub fn workdir() -> &'static std::path::Path {
    static W: std::sync::OnceLock<()> = std::sync::OnceLock::new();
    let d = scripts().dir.path();
    W.get_or_init(|| std::env::set_current_dir(d).unwrap());
    d
}
pub fn cleanup_scripts() {
    let _ = std::fs::remove_dir_all(scripts().dir.path());
}
fn run_cmd<C: SpawnCommand>(c: C, len: Option<u64>) -> io::Result<(Vec<u8>, Option<u64>, Vec<String>)> {
    run_cmd_with(c, len, None)
}
/// an earlier configured length is replaced
fn run_cmd_with<C: SpawnCommand>(c: C, len: Option<u64>, before: Option<u64>) -> io::Result<(Vec<u8>, Option<u64>, Vec<String>)> {
    let _g = rt().enter();
    rt().block_on(async {
        let p = ProcessStreamParams::new(c)?;
        let p = if before.is_some() { p.content_length(before) } else { p };
        let p = if len.is_some() || before.is_some() { p.content_length(len) } else { p };
        let mut s = ProcessStream::create(p).await.unwrap();
        let l = s.content_length();
        let mut bad = vec![];
        if s.supports_seek() {
            bad.push("a process source claims to support seeking".to_string());
        }
        for e in [s.seek_range(0, None).await, s.seek_range(1, Some(2)).await, s.reconnect(0).await] {
            if !matches!(&e, Err(e) if e.kind() == io::ErrorKind::Unsupported) {
                bad.push(format!("seek/reconnect on a process source returned {e:?}"));
            }
        }
        let mut out = vec![];
        while let Some(b) = s.next().await {
            out.extend_from_slice(&b?);
        }
        let _ = s.on_finish(Ok(()), stream_download::source::StreamOutcome::Completed).await;
        Ok((out, l, bad))
    })
}

fn null_args(out: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = out.split(|b| *b == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect();
    v.pop();
    v
}

fn fail<T>(t: &Trace, m: String) -> Result<T, Violation> {
    t.fail(&["C14"], m)
}
pub fn process(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let show = scripts().dir.path().join("show");
    let wrap = scripts().dir.path().join("wrap");
    let prog = show.to_string_lossy().into_owned();
    let words = ["a", "-x", "", "two words", "-", "--flag=1", "é", "*", "$HOME", "last", "-f", "b", "c", "d", "~", "~x", "~/y", "a;b", "|", "&", "\\", "`x`", "\"q\"", "it's", "l1\nl2", "tab\there", "%s", "%%", "#c", "{}", "{a,b}", "@file", "--", " ", " lead", "trail ", "A", "a=b", "=", ":", "?", "[x]", "!", "(", "<", ">", ".", "..", "/abs", "-0", "-i", "pipe:0", "\u{feff}", "\u{202e}"];
    let kind = r.below(5);
    let w = |r: &mut Rng| r.pick(&words).to_string();
    match kind {
        0 => {
            let mut c = Command::new(&show);
            let mut want: Vec<String> = vec![];
            for _ in 0..r.below(8) {
                match r.below(3) {
                    0 => {
                        let a = w(&mut r);
                        t.add(format!("arg {a:?}"));
                        c = c.arg(&a);
                        want.push(a);
                    }
                    1 => {
                        let a: Vec<String> = (0..r.below(4)).map(|_| w(&mut r)).collect();
                        t.add(format!("args {a:?}"));
                        c = c.args(&a);
                        want.extend(a);
                    }
                    _ => {
                        let i = r.below(want.len() as u64 + 1) as usize;
                        let a = w(&mut r);
                        t.add(format!("insert_arg {i} {a:?}"));
                        c = c.insert_arg(i, &a);
                        want.insert(i, a);
                    }
                }
            }
            let len = r.pick(&[None, Some(0), Some(7)]);
            let before = if seed % 3 == 0 { Some(seed % 11) } else { None };
            let (out, l, bad) = run_cmd_with(c, len, before).or_else(|e| fail(&t, format!("spawn failed: {e}")))?;
            want.insert(0, prog);
            if null_args(&out) != want {
                return fail(&t, format!("program saw {:?}, expected {want:?}", null_args(&out)));
            }
            if l != len {
                return t.fail(&["C19"], format!("process source reports length {l:?}, configured {len:?}"));
            }
            if let Some(b) = bad.first() {
                return t.fail(&["C19"], b.clone());
            }
        }
        1 => {
            let f = r.pick(&["mp3", "adts", "x y"]);
            let mut c = FfmpegConvertAudioCommand::new(f);
            let first = r.chance(50);
            if first {
                c = c.ffmpeg_path(&show);
            }
            let mut user: Vec<String> = vec![];
            for _ in 0..r.below(5) {
                if r.chance(50) {
                    let a = w(&mut r);
                    t.add(format!("arg {a:?}"));
                    c = c.arg(&a);
                    user.push(a);
                } else {
                    let a: Vec<String> = (0..r.below(4)).map(|_| w(&mut r)).collect();
                    t.add(format!("args {a:?}"));
                    c = c.args(&a);
                    user.extend(a);
                }
            }
            if !first {
                c = c.ffmpeg_path(&show);
            }
            t.add(format!("ffmpeg {f:?} path_first={first}"));
            let (out, ..) = run_cmd(Command::from(c), None).or_else(|e| fail(&t, format!("spawn failed: {e}")))?;
            let got = null_args(&out);
            let n = got.len();
            let ok = got[0] == prog && got[n - 1] == "-" && got[n - 1 - user.len()..n - 1] == user[..];
            let base = &got[1..(n - 1).saturating_sub(user.len()).max(1)];
            let pair = |a: &str, b: &str| base.windows(2).any(|w| w[0] == a && w[1] == b);
            if !ok || !pair("-f", f) || !pair("-i", "pipe:") {
                return fail(&t, format!("ffmpeg saw {got:?}, user arguments {user:?}"));
            }
        }
        2 => {
            let url = r.pick(&["https://a.b/c?d=1", "id", "ytsearch:some song", "http://a.b/", "-id", "https://a.b/c?x=y&list=z#t", " id"]);
            let mut c = YtDlpCommand::new(url);
            let (mut audio, mut fmt, mut path) = (false, None, false);
            for _ in 0..r.below(5) {
                match r.below(3) {
                    0 => {
                        audio = r.chance(60);
                        t.add(format!("extract_audio {audio}"));
                        c = c.extract_audio(audio);
                    }
                    1 => {
                        let f = r.pick(&["m4a", "best", "bestaudio/best", "bestaudio", "mp3", "worst", "ba*", "bestvideo+bestaudio", "", "22"]);
                        t.add(format!("format {f}"));
                        fmt = Some(f);
                        c = c.format(f);
                    }
                    _ => {
                        path = true;
                        c = c.yt_dlp_path(&show);
                    }
                }
            }
            if !path {
                c = c.yt_dlp_path(&show);
            }
            let direct = r.chance(50);
            t.add(format!("yt-dlp {url} direct={direct}"));
            let res = if direct { run_cmd(c, None) } else { run_cmd(Command::from(c), None) };
            let (out, ..) = res.or_else(|e| fail(&t, format!("spawn failed: {e}")))?;
            let got = null_args(&out);
            let count = |x: &str| got[1..].iter().filter(|a| *a == x).count();
            let pair = |a: &str, b: &str| got[1..].windows(2).any(|w| w[0] == a && w[1] == b);
            let ok = got[0] == prog && count(url) == 1 && pair("-o", "-") && (count("-x") == 1) == audio && count("-x") <= 1 && match fmt {
                Some(f) => pair("-f", f) && count("-f") == 1,
                None => count("-f") == 0,
            };
            if !ok {
                return fail(&t, format!("yt-dlp saw {got:?}, url {url} audio {audio} format {fmt:?}"));
            }
        }
        3 => {
            let n = r.range(1, 4);
            let first = Command::new(&show).args(["s1", "s2"]);
            let mut want = format!("{prog}\0s1\0s2\0");
            let mut b = CommandBuilder::new(first);
            let (mut i, mut a) = (0, w(&mut r));
            for k in 0..n {
                // now and then the same stage twice
                if r.chance(70) {
                    i = k;
                    a = w(&mut r);
                }
                t.add(format!("pipe wrap {i} {a:?}"));
                b = b.pipe(Command::new(&wrap).arg(format!("{i}")).arg(&a));
                want = format!("{i} {a}({want})");
            }
            let (out, ..) = run_cmd(b, None).or_else(|e| fail(&t, format!("spawn failed: {e}")))?;
            if out != want.as_bytes() {
                return fail(&t, format!("pipeline produced {:?}, expected {want:?}", String::from_utf8_lossy(&out)));
            }
        }
        _ => {
            let at = r.below(2);
            let bad = Command::new(std::ffi::OsStr::from_bytes(b"/nonexistent/program"));
            t.add(format!("missing program at {at}"));
            let b = if at == 0 { CommandBuilder::new(bad).pipe(Command::new(&wrap)) } else { CommandBuilder::new(Command::new(&show)).pipe(bad) };
            if run_cmd(b, None).is_ok() {
                return fail(&t, "a program that does not exist was reported as started".into());
            }
        }
    }
    Ok(Case { desc: format!("kind {kind}; {}", t.0), nontrivial: kind != 4 })
}

// ------------------------------------------------------------------ async read
struct Dribble {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    fail_at: Option<usize>,
}
impl tokio::io::AsyncRead for Dribble {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<io::Result<()>> {
        let this = &mut *self;
        if this.rng.chance(20) {
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        if this.fail_at.is_some_and(|f| this.pos >= f) {
            this.fail_at = None;
            return std::task::Poll::Ready(Err(io::Error::new(io::ErrorKind::TimedOut, "injected")));
        }
        let left = this.data.len() - this.pos;
        let n = (1 + this.rng.below(9000) as usize).min(left).min(buf.remaining());
        buf.put_slice(&this.data[this.pos..this.pos + n]);
        this.pos += n;
        std::task::Poll::Ready(Ok(()))
    }
}
/// the finish hooks of the sources that come with the library keep a failure
pub fn finish_hooks(seed: u64) -> CaseResult {
    use stream_download::source::StreamOutcome;
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let k = if r.chance(10) { None } else { Some(r.pick(KINDS)) };
    let outcome = if k.is_some() && r.chance(50) { StreamOutcome::CancelledByUser } else { StreamOutcome::Completed };
    let script = r.pick(&["exit 0", "printf abc", "printf abc; exit 3", "echo oops >&2; exit 1", "printf abc; exec sleep 20"]);
    let read = r.below(3);
    t.add(format!("finish hook given {k:?} and {outcome:?}; {script:?}, {read} chunks read before"));
    let res = |k: Option<io::ErrorKind>| k.map_or(Ok(()), |k| Err(io::Error::new(k, "failed")));
    rt().block_on(async move {
        if k.is_none() && script.contains("sleep") {
            return Ok(Case { desc: t.0, nontrivial: false });
        }
        let mut a = AsyncReadStream::new(Dribble { data: res_vec(0, 10), pos: 0, rng: Rng::new(seed), fail_at: None }, None);
        let g = a.on_finish(res(k), outcome).await;
        if g.as_ref().err().map(|e| e.kind()) != k {
            return t.fail(&["C09"], format!("the finish hook of an async reader returned {g:?}"));
        }
        let p = match ProcessStreamParams::new(Command::new("sh").args(["-c", script])) {
            Ok(p) => p,
            Err(e) => return t.fail(&["C14"], format!("spawn failed: {e}")),
        };
        let mut p = ProcessStream::create(p).await.unwrap();
        if script.contains("printf") {
            for _ in 0..read.min(1) {
                let _ = p.next().await;
            }
        }
        match tokio::time::timeout(std::time::Duration::from_secs(60), p.on_finish(res(k), outcome)).await {
            Err(_) => t.fail(&["C09"], "the finish hook of a process does not return"),
            Ok(Err(e)) if k.is_none() => t.fail(&["C09"], format!("the finish hook of a process failed: {e}")),
            Ok(Ok(())) if k.is_some() => t.fail(&["C09"], "the finish hook of a process cleared a failure"),
            _ => Ok(Case { desc: t.0, nontrivial: k.is_some() }),
        }
    })
}
pub fn async_read(seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut t = Trace::default();
    let total = r.pick(&[0, 1, 100, 5000, 20000]);
    let len = r.pick(&[None, Some(0), Some(total), Some(total + 5), Some(u64::MAX)]);
    let how = r.below(3);
    t.add(format!("async read total={total} content_length={len:?} constructor={how}"));
    let d = Dribble { data: res_vec(0, total), pos: 0, rng: Rng::new(r.next()), fail_at: None };
    rt().block_on(async move {
        let mut s = match how {
            0 => AsyncReadStream::new(d, len),
            1 => {
                let p = AsyncReadStreamParams::new(d);
                // the last setting counts
                let p = if r.chance(50) { p.content_length(r.pick(&[None, Some(7), Some(total + 1)])) } else { p };
                AsyncReadStream::create(p.content_length(len)).await.unwrap()
            }
            _ => AsyncReadStream::create(AsyncReadStreamParams::new(d)).await.unwrap(),
        };
        let want = if how == 2 { None } else { len };
        if s.content_length() != want {
            return t.fail(&["C19"], format!("reported length {:?}, configured {want:?}", s.content_length()));
        }
        if s.supports_seek() {
            return t.fail(&["C19"], "claims to support seeking");
        }
        let mut out = vec![];
        let mut n = 0;
        loop {
            if r.chance(20) {
                let e = if r.chance(50) { s.seek_range(r.below(50), r.pick(&[None, Some(60)])).await } else { s.reconnect(r.below(50)).await };
                if !matches!(&e, Err(e) if e.kind() == io::ErrorKind::Unsupported) {
                    return t.fail(&["C19"], format!("seek/reconnect returned {e:?}"));
                }
            }
            match s.next().await {
                Some(Ok(b)) => out.extend_from_slice(&b),
                Some(Err(e)) => return t.fail(&["C19"], format!("read error {e}")),
                None => break,
            }
            n += 1;
        }
        if out != res_vec(0, total) {
            return t.fail(&["C19"], format!("delivered {} bytes that differ from the {total} of the source", out.len()));
        }
        Ok(Case { desc: t.0, nontrivial: n > 1 })
    })
}

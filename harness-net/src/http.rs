//! HttpStream over a scripted client, and over reqwest with a scripted server.
use crate::server::{Answer, SERVER, Site};
use crate::util::*;
use bytes::Bytes;
use futures_util::{Stream, StreamExt};
use std::fmt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use stream_download::http::{Client, ClientResponse, ContentType, HttpStream, HttpStreamError, ResponseHeaders};
use stream_download::source::{DecodeError, SourceStream};

const PC: &[&str] = &["C10", "C11"];

#[derive(Clone, Debug, PartialEq)]
enum Req {
    Get,
    Range(u64, Option<u64>),
}
#[derive(Clone, Debug)]
struct Script {
    /// request number of the answer
    fail: bool,
    good: bool,
    len: Option<u64>,
    ctype: Option<String>,
    ranges: Option<String>,
    items: Vec<Result<Vec<u8>, ()>>,
}
#[derive(Default)]
struct World {
    log: Vec<Req>,
    scripts: Vec<Script>,
}
#[derive(Debug)]
struct E(&'static str);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for E {}
impl DecodeError for E {
    async fn decode_error(self) -> String {
        self.0.to_string()
    }
}
struct Mock(Arc<Mutex<World>>);
#[derive(Clone)]
struct Hdrs(Option<String>);
impl ResponseHeaders for Hdrs {
    fn header(&self, name: &str) -> Option<&str> {
        if name.eq_ignore_ascii_case("accept-ranges") { self.0.as_deref() } else { None }
    }
}
struct Resp(Script);
impl ClientResponse for Resp {
    type ResponseError = E;
    type StreamError = E;
    type Headers = Hdrs;
    fn content_length(&self) -> Option<u64> {
        self.0.len
    }
    fn content_type(&self) -> Option<&str> {
        self.0.ctype.as_deref()
    }
    fn headers(&self) -> Hdrs {
        Hdrs(self.0.ranges.clone())
    }
    fn into_result(self) -> Result<Self, E> {
        if self.0.good { Ok(self) } else { Err(E("bad status")) }
    }
    fn stream(self) -> Box<dyn Stream<Item = Result<Bytes, E>> + Unpin + Send + Sync> {
        Box::new(futures_util::stream::iter(self.0.items.into_iter().map(|i| i.map(Bytes::from).map_err(|_| E("item")))))
    }
}
impl Mock {
    fn answer(&self, r: Req) -> Result<Resp, E> {
        let mut w = self.0.lock().unwrap();
        w.log.push(r);
        let s = w.scripts.remove(0);
        if s.fail { Err(E("refused")) } else { Ok(Resp(s)) }
    }
}
impl Client for Mock {
    type Url = String;
    type Headers = Hdrs;
    type Response = Resp;
    type Error = E;
    fn create() -> Self {
        unimplemented!()
    }
    async fn get(&self, url: &String) -> Result<Resp, E> {
        assert_eq!(url, "the-url");
        self.answer(Req::Get)
    }
    async fn get_range(&self, url: &String, start: u64, end: Option<u64>) -> Result<Resp, E> {
        assert_eq!(url, "the-url");
        self.answer(Req::Range(start, end))
    }
}

const TYPES: &[(&str, Option<(&str, &str)>)] = &[
    ("audio/mpeg", Some(("audio", "mpeg"))),
    ("text/html; charset=utf-8", Some(("text", "html"))),
    ("application/vnd.apple.mpegurl", Some(("application", "vnd.apple.mpegurl"))),
    ("image/svg+xml", None),
    ("audio", None),
    ("", None),
    ("/mpeg", None),
    ("audio/", None),
    ("a b/c d", None),
    ("Audio/MPEG", Some(("Audio", "MPEG"))),
    ("APPLICATION/x-Foo.Bar; q=1", Some(("APPLICATION", "x-Foo.Bar"))),
    ("text/*", Some(("text", "*"))),
    ("audio/mpeg/x", None),
    ("audio mpeg", None),
    ("audio/mpeg, text/html", None),
    ("text/html; title=\"a,b\"", Some(("text", "html"))),
    ("text/html;charset=utf-8", Some(("text", "html"))),
    ("audio/mpeg\u{e9}", None),
];
/// headers that say nothing about the content
const NOISE: &[(&str, &str)] = &[
    ("Retry-After", "120"),
    ("Retry-After", "0"),
    ("ETag", "\"abc\""),
    ("Content-Range", "bytes 3-9/10"),
    ("Content-Range", "bytes */10"),
    ("Cache-Control", "no-store"),
    ("Icy-MetaInt", "16000"),
    ("Location", "/elsewhere"),
    ("Server", "x"),
    ("X-Accept-Ranges", "bytes"),
    ("Content-Disposition", "attachment; filename=\"x.mp3\""),
    ("WWW-Authenticate", "Basic"),
    ("Warning", "199 - \"x\""),
    ("Age", "7"),
    ("Last-Modified", "Fri, 20 Nov 2026 00:00:00 GMT"),
];
fn noise(g: &mut Rng) -> Vec<(&'static str, &'static str)> {
    let mut v: Vec<(&str, &str)> = vec![];
    for _ in 0..g.below(4) {
        let n = g.pick(NOISE);
        if !v.iter().any(|x| x.0 == n.0) {
            v.push(n);
        }
    }
    v
}
/// the image/svg+xml entry has its suffix split off by the parser; only the top-level type is compared there
fn check_type(got: &Option<ContentType>, hdr: Option<&str>) -> bool {
    match hdr {
        None => got.is_none(),
        Some("image/svg+xml") => got.as_ref().is_some_and(|c| c.r#type == "image" && c.subtype.starts_with("svg")),
        Some(h) => {
            let want = TYPES.iter().find(|t| t.0 == h).unwrap().1;
            got.as_ref().map(|c| (c.r#type.as_str(), c.subtype.as_str())) == want
        }
    }
}
fn items(g: &mut Rng) -> Vec<Result<Vec<u8>, ()>> {
    (0..g.below(5)).map(|_| if g.chance(15) { Err(()) } else { Ok((0..g.below(6)).map(|_| g.next() as u8).collect()) }).collect()
}
fn script(g: &mut Rng, len: Option<u64>) -> Script {
    Script {
        fail: g.chance(20),
        good: g.chance(75),
        len,
        ctype: g.chance(80).then(|| g.pick(TYPES).0.to_string()),
        ranges: g.chance(80).then(|| g.pick(&["bytes", "none", "", "None", "bytes, none"]).to_string()),
        items: items(g),
    }
}
fn a_len(g: &mut Rng) -> Option<u64> {
    g.chance(75).then(|| match g.below(5) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - 1,
        3 => g.below(20),
        _ => g.next(),
    })
}
/// the items still expected from the current stream
type Want = std::collections::VecDeque<Result<Vec<u8>, ()>>;

pub fn mock(seed: u64) -> CaseResult {
    let mut g = Rng::new(seed);
    let g = &mut g;
    let mut t = Trace::default();
    let w = Arc::new(Mutex::new(World::default()));
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let l = a_len(g);
    let first = Script { fail: g.chance(10), good: g.chance(85), ..script(g, l) };
    t.add(format!("first answer {first:?}"));
    w.lock().unwrap().scripts.push(first.clone());
    let r = rt.block_on(HttpStream::new(Mock(w.clone()), "the-url".to_string()));
    if w.lock().unwrap().log != [Req::Get] {
        return t.fail(PC, format!("creating the stream sent {:?}", w.lock().unwrap().log));
    }
    let ranges = first.ranges.as_deref().is_some_and(|v| v != "none");
    let mut s = match r {
        Err(e) => {
            let ok = match &e {
                HttpStreamError::FetchFailure(_) => first.fail,
                HttpStreamError::ResponseFailure(_) => !first.fail && !first.good,
            };
            if !ok {
                return t.fail(&["C11"], format!("creation failed with {e}"));
            }
            let d = rt.block_on(e.decode_error());
            if d.is_empty() {
                return t.fail(&["C11"], "the error has no description");
            }
            return Ok(Case { desc: t.0, nontrivial: false });
        }
        Ok(s) => s,
    };
    if first.fail || !first.good {
        return t.fail(&["C11"], "a failed request or an error response became a stream");
    }
    if s.content_length() != l {
        return t.fail(&["C11"], format!("content length {:?} reported for a response with {l:?}", s.content_length()));
    }
    if !check_type(s.content_type(), first.ctype.as_deref()) {
        return t.fail(&["C11"], format!("content type {:?} reported for {:?}", s.content_type(), first.ctype));
    }
    if s.header("Accept-Ranges") != first.ranges.as_deref() {
        return t.fail(&["C11"], "header() differs from the response's header");
    }
    let mut want: Want = first.items.into();
    let mut nontrivial = false;
    for _ in 0..g.range(1, 8) {
        let k = g.below(10);
        if k < 4 {
            // read some items
            for _ in 0..g.below(3) {
                let a = rt.block_on(s.next()).map(|i| i.map(|b| b.to_vec()).map_err(|_| ()));
                let b = want.pop_front();
                t.add("next");
                if a != b {
                    return t.fail(&["C11"], format!("the stream yields {a:?} instead of {b:?}"));
                }
            }
            continue;
        }
        nontrivial = true;
        let sc = Script { fail: g.chance(20), good: g.chance(75), ..{ let l = a_len(g); script(g, l) } };
        let before = w.lock().unwrap().log.len();
        w.lock().unwrap().scripts = vec![sc.clone(), sc.clone(), sc.clone()];
        let start = match g.below(4) {
            0 => l.unwrap_or(7),
            1 => l.unwrap_or(7).wrapping_sub(1),
            2 => g.below(30),
            _ => g.next(),
        };
        let seek = k < 8;
        let (end, r);
        if seek {
            end = (start < u64::MAX && g.chance(50)).then(|| match g.below(3) {
                0 => start + 1,
                1 => start.saturating_add(1 + g.below(20)),
                _ => l.filter(|l| *l > start).unwrap_or(u64::MAX),
            });
            t.add(format!("seek_range({start}, {end:?}) answered {sc:?}"));
            r = rt.block_on(s.seek_range(start, end));
        } else {
            end = None;
            t.add(format!("reconnect({start}) answered {sc:?}"));
            r = rt.block_on(s.reconnect(start));
        }
        let sent = w.lock().unwrap().log[before..].to_vec();
        let expect = if !seek && !ranges {
            vec![Req::Get]
        } else if Some(start) == l {
            vec![]
        } else {
            vec![Req::Range(start, end.map(|e| e - 1))]
        };
        if sent != expect {
            return t.fail(&["C10"], format!("sent {sent:?} instead of {expect:?}"));
        }
        let ok = expect.is_empty() || !sc.fail && sc.good;
        if r.is_ok() != ok {
            return t.fail(&["C11"], format!("returned {r:?}"));
        }
        if ok {
            want = if expect.is_empty() { Want::new() } else { sc.items.into() };
        }
        if s.content_length() != l {
            return t.fail(&["C11"], "the content length changed");
        }
    }
    loop {
        let a = rt.block_on(s.next()).map(|i| i.map(|b| b.to_vec()).map_err(|_| ()));
        let b = want.pop_front();
        if a != b {
            return t.fail(PC, format!("in the end the stream yields {a:?} instead of {b:?}"));
        }
        if a.is_none() {
            break;
        }
    }
    Ok(Case { desc: t.0, nontrivial })
}

static CASE: AtomicU64 = AtomicU64::new(0);
fn body(tag: u64, g: &mut Rng) -> Vec<u8> {
    let n = g.below(40);
    (0..n).map(|i| (tag * 41 + i) as u8).collect()
}
fn answer(g: &mut Rng, tag: u64) -> Answer {
    let mut headers = vec![];
    if g.chance(70) {
        headers.push(("Accept-Ranges".to_string(), g.pick(&["bytes", "none", "bytes"]).as_bytes().to_vec()));
    }
    if g.chance(80) {
        let v = if g.chance(10) { b"audio/\xff\xfe".to_vec() } else { g.pick(TYPES).0.as_bytes().to_vec() };
        headers.push(("content-TYPE".to_string(), v));
    }
    for (k, v) in noise(g) {
        headers.push((k.to_string(), v.as_bytes().to_vec()));
    }
    Answer { status: g.pick(&[200, 206, 200, 206, 200, 404, 416, 500, 503, 400, 599, 403]), headers, body: body(tag, g), length: g.chance(80), drop: g.chance(6) }
}
pub fn real(seed: u64) -> CaseResult {
    let n = CASE.fetch_add(1, Ordering::Relaxed);
    if n > 4000 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        return Ok(Case::default());
    }
    let mut g = Rng::new(seed);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let path = format!("p{n}");
    let url: reqwest::Url = format!("http://127.0.0.1:{}/{path}", SERVER.port).parse().unwrap();
    let r = match g.below(3) {
        0 => rt.block_on(real_with(&mut g, &path, <reqwest::Client as Client>::create(), url)),
        1 => rt.block_on(real_with(&mut g, &path, reqwest_middleware::ClientBuilder::new(<reqwest::Client as Client>::create()).build(), url)),
        _ => rt.block_on(real_with(&mut g, &path, <reqwest_middleware::ClientWithMiddleware as Client>::create(), url)),
    };
    SERVER.sites.lock().unwrap().remove(&path);
    r
}
async fn drain<C: Client>(s: &mut HttpStream<C>) -> Option<Vec<u8>> {
    let mut v = vec![];
    while let Some(i) = s.next().await {
        v.extend_from_slice(&i.ok()?);
    }
    Some(v)
}
async fn real_with<C: Client<Url = reqwest::Url>>(g: &mut Rng, path: &str, client: C, url: reqwest::Url) -> CaseResult {
    let mut t = Trace::default();
    let set = |a: Vec<Answer>| {
        let mut s = SERVER.sites.lock().unwrap();
        let site = s.entry(path.to_string()).or_insert_with(Site::default);
        site.answers = a;
        site.seen.clear();
    };
    let seen = || SERVER.sites.lock().unwrap()[path].seen.clone();
    let mut first = answer(g, 1);
    if g.chance(60) {
        first.status = 200;
        first.drop = false;
    }
    let hdr = |a: &Answer, k: &str| a.headers.iter().find(|h| h.0.eq_ignore_ascii_case(k)).and_then(|h| String::from_utf8(h.1.clone()).ok());
    let good = |a: &Answer| !a.drop && a.status < 400;
    let show = |a: &Answer| format!("status {} headers {:?} body {} bytes length announced {} dropped {}", a.status, a.headers.iter().map(|h| (h.0.clone(), String::from_utf8_lossy(&h.1).to_string())).collect::<Vec<_>>(), a.body.len(), a.length, a.drop);
    t.add(format!("client {}; first: {}", std::any::type_name::<C>(), show(&first)));
    // a dropped connection may be retried by the client; every try gets the same answer
    set(vec![first.clone()]);
    let s = HttpStream::new(client, url).await;
    let sn = seen();
    if sn.is_empty() || sn.iter().any(|x| x.method != "GET" || !x.range.is_empty()) || (!first.drop && sn.len() != 1) {
        return t.fail(PC, format!("creating the stream sent {sn:?}"));
    }
    let mut s = match s {
        Err(e) => {
            if good(&first) {
                return t.fail(&["C11"], format!("creation failed with {e}"));
            }
            return Ok(Case { desc: t.0, nontrivial: false });
        }
        Ok(s) => s,
    };
    if !good(&first) {
        return t.fail(&["C11"], "a failed request or an error response became a stream");
    }
    let len = first.length.then_some(first.body.len() as u64);
    if s.content_length() != len {
        return t.fail(&["C11"], format!("content length {:?} instead of {len:?}", s.content_length()));
    }
    let ct = hdr(&first, "content-type");
    if !check_type(s.content_type(), ct.as_deref()) {
        return t.fail(&["C11"], format!("content type {:?} instead of {ct:?}", s.content_type()));
    }
    let ranges = hdr(&first, "accept-ranges").is_some_and(|v| v != "none");
    let mut want = Some(first.body.clone());
    let mut tag = 2;
    for _ in 0..g.range(1, 4) {
        if g.chance(30) {
            t.add("drain");
            let got = drain(&mut s).await;
            if got != want {
                return t.fail(&["C11"], format!("the stream delivers {got:?} instead of {want:?}"));
            }
            want = Some(vec![]);
        }
        let a = answer(g, tag);
        tag += 1;
        set(vec![a.clone()]);
        let start = match g.below(4) {
            0 => len.unwrap_or(9),
            1 => g.below(50),
            2 => u64::MAX - g.below(3),
            _ => g.next(),
        };
        let seek = g.chance(65);
        let end = (seek && start < u64::MAX && g.chance(60)).then(|| start + 1 + g.below((u64::MAX - start).min(100)));
        t.add(format!("{}({start}, {end:?}): {}", if seek { "seek_range" } else { "reconnect" }, show(&a)));
        let r = if seek { s.seek_range(start, end).await } else { s.reconnect(start).await };
        let sn = seen();
        let empty = (seek || ranges) && Some(start) == len;
        let hdrs: Vec<String> = if seek || ranges { vec![format!("bytes={start}-{}", end.map(|e| (e - 1).to_string()).unwrap_or_default())] } else { vec![] };
        if empty != sn.is_empty() || sn.iter().any(|x| x.method != "GET" || x.range != hdrs) || (!a.drop && sn.len() > 1) {
            return t.fail(&["C10"], format!("sent {sn:?}, expected range {hdrs:?}"));
        }
        if r.is_ok() != (empty || good(&a)) {
            return t.fail(&["C11"], format!("returned {r:?}"));
        }
        if r.is_ok() {
            want = Some(if empty { vec![] } else { a.body.clone() });
        }
    }
    let got = drain(&mut s).await;
    if got != want {
        return t.fail(PC, format!("in the end the stream delivers {got:?} instead of {want:?}"));
    }
    Ok(Case { desc: t.0, nontrivial: true })
}

/// metadata of a reqwest response, with headers no server library would send
pub fn headers(seed: u64) -> CaseResult {
    let mut g = Rng::new(seed);
    let mut t = Trace::default();
    let lens: &[(&str, Option<u64>)] = &[
        ("0", Some(0)),
        ("7", Some(7)),
        ("12345678901", Some(12345678901)),
        ("18446744073709551615", Some(u64::MAX)),
        ("18446744073709551616", None),
        ("99999999999999999999999", None),
        ("-1", None),
        ("-0", None),
        ("1.5", None),
        ("12, 34", None),
        ("12 34", None),
        ("12 bytes", None),
        ("0x10", None),
        ("1e3", None),
        ("1_000", None),
        ("abc", None),
        ("", None),
        ("\u{ff}7", None),
    ];
    let (lv, want) = g.pick(lens);
    let lv = g.chance(85).then_some(lv);
    let want = if lv.is_some() { want } else { None };
    let ty = g.chance(85).then(|| g.pick(TYPES).0);
    let ranges = g.chance(85).then(|| g.pick(&["bytes", "none", "x"]));
    let status = g.pick(&[200u16, 206, 204, 301, 304, 399, 400, 404, 416, 499, 500, 599]);
    t.add(format!("response {status}, content-length {lv:?}, content-type {ty:?}, accept-ranges {ranges:?}"));
    let mut b = http::Response::builder().status(status);
    for (k, v) in [("Content-Length", lv), ("content-type", ty), ("accept-ranges", ranges)] {
        if let Some(v) = v {
            b = b.header(k, http::HeaderValue::from_bytes(v.as_bytes()).unwrap());
        }
    }
    let extra = noise(&mut g);
    t.add(format!("other headers {extra:?}"));
    for (k, v) in &extra {
        b = b.header(*k, *v);
    }
    let r = reqwest::Response::from(b.body("body").unwrap());
    if ClientResponse::content_length(&r) != want {
        return t.fail(&["C11"], format!("content length {:?} instead of {want:?}", ClientResponse::content_length(&r)));
    }
    let ty = ty.filter(|t| t.is_ascii());
    if ClientResponse::content_type(&r) != ty {
        return t.fail(&["C11"], format!("content type {:?} instead of {ty:?}", ClientResponse::content_type(&r)));
    }
    let h = ClientResponse::headers(&r);
    for (n, v) in [("Accept-Ranges", ranges), ("Content-Length", lv.filter(|l| l.is_ascii())), ("x-none", None)] {
        if ResponseHeaders::header(&h, n) != v {
            return t.fail(PC, format!("header {n} is {:?} instead of {v:?}", ResponseHeaders::header(&h, n)));
        }
    }
    if r.into_result().is_ok() != (status < 400) {
        return t.fail(&["C11"], format!("status {status} judged wrongly"));
    }
    Ok(Case { desc: t.0, nontrivial: true })
}

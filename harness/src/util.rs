//! Shared helpers: a deterministic generator, the content function, violations.
use std::fmt::Write as _;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
}

/// the resource's byte at a position; never zero, so that unwritten storage is recognisable
pub fn res(p: u64) -> u8 {
    ((p.wrapping_mul(2_654_435_761) >> 7) % 251 + 1) as u8
}
pub fn res_vec(a: u64, b: u64) -> Vec<u8> {
    (a..b).map(res).collect()
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub msg: String,
    /// the failing input
    pub input: String,
}
pub type CaseResult = Result<Case, Violation>;
#[derive(Debug, Clone, Default)]
pub struct Case {
    pub desc: String,
    pub nontrivial: bool,
}

/// a history of what was done, printed as the failing input
#[derive(Default, Clone)]
pub struct Trace(pub String);
impl Trace {
    pub fn add(&mut self, s: impl AsRef<str>) {
        if self.0.len() < 20_000 {
            let _ = write!(self.0, "{}; ", s.as_ref());
        }
    }
    pub fn fail<T>(&self, props: &[&'static str], msg: impl Into<String>) -> Result<T, Violation> {
        Err(Violation { props: props.to_vec(), msg: msg.into(), input: self.0.clone() })
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// how an operation can fail
pub const KINDS: &[std::io::ErrorKind] = {
    use std::io::ErrorKind::*;
    &[
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero,
        Interrupted, Unsupported, UnexpectedEof, OutOfMemory, StorageFull, NotSeekable, HostUnreachable, NetworkUnreachable, NetworkDown, Deadlock, FileTooLarge, ResourceBusy, Other,
    ]
};

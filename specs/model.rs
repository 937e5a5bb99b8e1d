// Models of the external types around the download engine (tokio, rangemap, bytes, user callbacks).
verus! {
//@known insert gaps next read write get cloned slice put freeze len is_empty elapsed now recv request wait_for_read cancelled notify_position_reached notify_stream_done yield_now default clone
/// the byte the resource really has at a position (unknown, fixed)
pub uninterp spec fn res(p: int) -> u8;

pub struct Duration { pub n: u64 }
impl Clone for Duration { fn clone(&self) -> (r: Self) ensures r == *self { Duration { n: self.n } } }
impl Copy for Duration { }
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.secs() == s { unimplemented!() }
    pub uninterp spec fn secs(&self) -> int;
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> (r: Duration) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Duration) -> (r: Duration) ensures r == self || r == o { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Duration) -> (r: Duration) ensures r == self || r == o { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, n: u32) -> (r: Duration) ensures n == 1 ==> r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Duration) -> (r: Duration) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Duration) -> (r: Duration) { unimplemented!() }
}
impl core::ops::Mul<u32> for Duration { type Output = Duration;
    #[verifier::external_body]
    fn mul(self, n: u32) -> (r: Duration) { unimplemented!() } }
impl core::ops::MulAssign<u32> for Duration {
    #[verifier::external_body]
    fn mul_assign(&mut self, n: u32) { unimplemented!() } }
impl core::ops::AddAssign<Duration> for Duration {
    #[verifier::external_body]
    fn add_assign(&mut self, n: Duration) { unimplemented!() } }
impl core::ops::Div<u32> for Duration { type Output = Duration;
    #[verifier::external_body]
    fn div(self, n: u32) -> (r: Duration) { unimplemented!() } }
impl core::ops::Add<Duration> for Duration { type Output = Duration;
    #[verifier::external_body]
    fn add(self, n: Duration) -> (r: Duration) { unimplemented!() } }
pub struct Instant { pub n: u64 }
impl Clone for Instant { fn clone(&self) -> (r: Self) ensures r == *self { Instant { n: self.n } } }
impl Copy for Instant { }
impl Instant {
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) { unimplemented!() }
    #[verifier::external_body]
    pub fn now() -> (r: Instant) { unimplemented!() }
}
/// tokio::select!: any arm may be the one that is ready
#[verifier::external_body]
pub fn vx_select(n: u32) -> (r: u32) { unimplemented!() }
/// tokio::time::timeout: either elapses (the future is dropped) or yields the future's value
#[verifier::external_body]
pub fn vx_timeout_elapsed(d: Duration, want: Ghost<Duration>) -> (r: bool)
    requires d == want@, // #C17,C18 every wait of the download is bounded by the configured retry timeout
{ unimplemented!() }
pub struct Elapsed { }
#[verifier::external_body]
pub fn vx_elapsed() -> (r: Elapsed) { unimplemented!() }
#[verifier::external_body]
pub fn yield_now() { unimplemented!() }

/// std::ops::RangeFrom / Range / RangeTo arguments of Bytes::slice
pub trait VxBounds { spec fn lo(&self) -> int; spec fn hi(&self, len: int) -> int; }
impl VxBounds for core::ops::RangeFrom<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, len: int) -> int { len } }
impl VxBounds for core::ops::Range<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, len: int) -> int { self.end as int } }
pub type Bytes = Vec<u8>;
pub trait VxBytes {
    fn slice<B: VxBounds>(&self, b: B) -> (r: Vec<u8>);
    fn freeze(self) -> (r: Vec<u8>);
    fn put(&mut self, o: Vec<u8>);
}
impl VxBytes for Vec<u8> {
    #[verifier::external_body]
    fn slice<B: VxBounds>(&self, b: B) -> (r: Vec<u8>)
        ensures 0 <= b.lo() <= b.hi(self@.len() as int) <= self@.len() ==> r@ == self@.subrange(b.lo(), b.hi(self@.len() as int)) { unimplemented!() }
    fn freeze(self) -> (r: Vec<u8>) ensures r == self { self }
    #[verifier::external_body]
    fn put(&mut self, o: Vec<u8>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
/// bytes::BytesMut is a growable byte vector too
pub struct BytesMut { }
impl BytesMut {
    pub fn new() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { Vec::new() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}

/// rangemap::RangeSet<u64>: a set of positions; `get` yields the maximal run around a member,
/// `gaps(r).next()` the first maximal run of non-members inside r.
pub struct RangeSet { pub x: u8 }
impl RangeSet {
    pub uninterp spec fn has(&self, p: int) -> bool;
    #[verifier::external_body]
    pub fn insert(&mut self, r: core::ops::Range<u64>)
        requires r.start < r.end, // RangeSet::insert panics on an empty range
        ensures forall|p: int| #[trigger] final(self).has(p) == (old(self).has(p) || r.start <= p < r.end) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, p: &u64) -> (r: Option<&core::ops::Range<u64>>)
        ensures match r {
            Some(r) => r.start <= *p < r.end && (forall|q: int| r.start <= q < r.end ==> #[trigger] self.has(q)) && !self.has(r.end as int) && !self.has(r.start - 1),
            None => !self.has(*p as int),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn gaps(&self, r: &core::ops::Range<u64>) -> (g: Gaps) ensures g.set == *self && g.lo == r.start && g.hi == r.end { unimplemented!() }
    pub fn read(&self) -> (r: &RangeSet) ensures *r == *self { self }
    pub fn write(&mut self) -> (r: &mut RangeSet) ensures *r == *old(self), *final(self) == *final(r) { self }
}
pub struct Gaps { pub set: RangeSet, pub lo: u64, pub hi: u64 }
impl Gaps {
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<core::ops::Range<u64>>)
        ensures is_first_gap(self.set, self.lo as int, self.hi as int, r) { unimplemented!() }
}
pub open spec fn is_first_gap(s: RangeSet, lo: int, hi: int, r: Option<core::ops::Range<u64>>) -> bool {
    match r {
        Some(g) => lo <= g.start < g.end <= hi && (forall|q: int| g.start <= q < g.end ==> !#[trigger] s.has(q))
            && (forall|q: int| lo <= q < g.start ==> #[trigger] s.has(q)) && (g.end == hi || s.has(g.end as int)),
        None => forall|q: int| lo <= q < hi ==> #[trigger] s.has(q),
    }
}
pub trait VxCloned<T> { fn vx_cloned(self) -> (r: Option<T>); }
impl<'a> VxCloned<core::ops::Range<u64>> for Option<&'a core::ops::Range<u64>> {
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Option<core::ops::Range<u64>>)
        ensures match self { Some(x) => r == Some(*x), None => r is None } { unimplemented!() }
}
pub trait VxDefault<T> { fn vx_unwrap_or_default(self) -> (r: T); }
impl VxDefault<core::ops::Range<u64>> for Option<core::ops::Range<u64>> {
    #[verifier::external_body]
    fn vx_unwrap_or_default(self) -> (r: core::ops::Range<u64>)
        ensures match self { Some(x) => r == x, None => r.start == 0 && r.end == 0 } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_range_default() -> (r: core::ops::Range<u64>)
    ensures r.start == 0 && r.end == 0 { unimplemented!() }
//@subst "std::ops::Range::default" "vx_range_default"
//@subst "core::ops::Range::default" "vx_range_default"
//@subst "Range::default" "vx_range_default"
//@method cloned vx_cloned
//@method unwrap_or_default vx_unwrap_or_default
pub struct CancellationToken { pub id: u64 }
impl CancellationToken {
    #[verifier::external_body]
    pub fn cancelled(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_cancelled(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
} // verus!

// Shared prelude: models of std::io and of the small pieces of std the extraction refers to.
// Everything marked external_body here is an assumption about the standard library.
#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, unused_parens, unused_braces, unreachable_code, non_snake_case, non_camel_case_types, unused_must_use, redundant_semicolons, unreachable_patterns)]
use vstd::prelude::*;
use core::ops::Range;
verus! {
// full paths of what this prelude models (written either way, they name the same thing)
//@subst "std::task::Poll" "Poll"
//@subst "std::task::Context" "Context"
//@subst "std::io::Error" "io::Error"
//@subst "std::io::ErrorKind" "io::ErrorKind"
//@subst "std::io::Result" "io::Result"
//@subst "std::io::SeekFrom" "io::SeekFrom"
//@subst "std::sync::Arc::new" "Arc::new"
//@subst "std::pin::Pin::new" "Pin::new"
//@subst "std::num::NonZeroUsize" "NonZeroUsize"
//@subst "std::sync::atomic::Ordering" "Ordering"
//@subst "core::task::Poll" "Poll"
//@subst "task::Poll" "Poll"
//@subst "sync::Arc::new" "Arc::new"
//@subst "atomic::Ordering" "Ordering"
//@known new kind other from
pub mod io {
    use vstd::prelude::*;
    verus! {
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, BrokenPipe, AlreadyExists, WouldBlock, Other }
    pub struct Error { pub k: ErrorKind }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body]
        pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error) ensures r.k == kind { unimplemented!() }
        #[verifier::external_body]
        pub fn other<E>(e: E) -> (r: Error) ensures r.k == ErrorKind::Other { unimplemented!() }
        #[verifier::external_body]
        pub fn from(kind: ErrorKind) -> (r: Error) ensures r.k == kind { unimplemented!() }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
    }
    pub enum SeekFrom { Start(u64), Current(i64), End(i64) }
    } // verus!
}
global size_of usize == 8;
pub use io::SeekFrom;
pub use io::ErrorKind;
/// wrappers that add sharing but no behaviour: Arc::new, AssertUnwindSafe, Mutex::new, RwLock::new
pub fn vx_same<T>(t: T) -> (r: T) ensures r == t { t }
pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize {
    #[verifier::external_body]
    pub fn get(self) -> (r: usize) ensures r == self.v, r > 0 { unimplemented!() }
    pub open spec fn ok(&self) -> bool { self.v > 0 }
}
impl Clone for NonZeroUsize { fn clone(&self) -> (r: Self) ensures r == *self { NonZeroUsize { v: self.v } } }
impl Copy for NonZeroUsize { }
/// mem::take and mem::replace (std)
pub trait VxTakeDefault { spec fn vx_is_default(&self) -> bool; }
impl VxTakeDefault for bool { open spec fn vx_is_default(&self) -> bool { !*self } }
impl VxTakeDefault for u64 { open spec fn vx_is_default(&self) -> bool { *self == 0 } }
impl VxTakeDefault for usize { open spec fn vx_is_default(&self) -> bool { *self == 0 } }
impl<T> VxTakeDefault for Option<T> { open spec fn vx_is_default(&self) -> bool { *self is None } }
impl<T> VxTakeDefault for Vec<T> { open spec fn vx_is_default(&self) -> bool { self@.len() == 0 } }
#[verifier::external_body]
pub fn vx_mem_take<T: VxTakeDefault>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).vx_is_default() { unimplemented!() }
#[verifier::external_body]
pub fn vx_mem_replace<T>(x: &mut T, v: T) -> (r: T) ensures r == *old(x), *final(x) == v { unimplemented!() }
// Functions of std the verifier's library has no specification for; each is assumed to do what its
// documentation says.
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T> [Option::<Option<T>>::flatten] (a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T> [bool::then_some] (b: bool, x: T) -> (r: Option<T>) ensures r == (if b { Some(x) } else { None });
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U> [Result::<T, E>::and] (a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>) ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });
pub assume_specification<T, E, F> [Result::<T, E>::or] (a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>) ensures r == (match a { Ok(x) => Ok::<T, F>(x), Err(_) => b });
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a + b > u64::MAX), r.0 == (if a + b > u64::MAX { a + b - 0x1_0000_0000_0000_0000 } else { a + b });
pub assume_specification [u64::overflowing_sub] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + 0x1_0000_0000_0000_0000 } else { a - b });
pub assume_specification [u64::saturating_add_signed] (a: u64, b: i64) -> (r: u64) ensures r == (if a + b < 0 { 0 } else if a + b > u64::MAX { u64::MAX as int } else { a + b });
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [i64::abs] (a: i64) -> (r: i64) requires a != i64::MIN ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [i64::is_negative] (a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification [i64::is_positive] (a: i64) -> (r: bool) ensures r == (a > 0);
pub assume_specification [i64::checked_neg] (a: i64) -> (r: Option<i64>) ensures r == (if a == i64::MIN { None } else { Some((-a) as i64) });
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64) ensures r == (if a + b < i64::MIN { i64::MIN as int } else if a + b > i64::MAX { i64::MAX as int } else { a + b });
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64) ensures r == (if a - b < i64::MIN { i64::MIN as int } else if a - b > i64::MAX { i64::MAX as int } else { a - b });
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [u64::rem_euclid] (a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == (a as int) % (b as int);
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a as int) % (b as int);
pub assume_specification<I: PartialOrd<I> + PartialOrd> [Range::<I>::is_empty] (r: &Range<I>) -> (b: bool) ensures b == vx_ranges::vx_range_empty(*r);
pub mod vx_ranges {
    use vstd::prelude::*;
    verus! {
    pub uninterp spec fn vx_range_empty<I>(r: core::ops::Range<I>) -> bool;
    pub broadcast axiom fn vx_range_empty_u64(r: core::ops::Range<u64>) ensures #[trigger] vx_range_empty::<u64>(r) == (r.start >= r.end);
    pub broadcast axiom fn vx_range_empty_usize(r: core::ops::Range<usize>) ensures #[trigger] vx_range_empty::<usize>(r) == (r.start >= r.end);
    } // verus!
}
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]);
pub assume_specification<T> [core::mem::drop] (t: T);
/// what these do to a text is left open: code that applies one where a contract speaks of the text
/// itself does not verify
pub mod vx_text {
    use vstd::prelude::*;
    verus! {
    pub uninterp spec fn vx_trim(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn vx_trim_start(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn vx_trim_end(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn vx_lower(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn vx_upper(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn vx_ascii_lower(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn vx_ascii_upper(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn vx_same_fold(a: Seq<char>, b: Seq<char>) -> bool;
    pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == vx_trim(s@);
    pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == vx_trim_start(s@);
    pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == vx_trim_end(s@);
    pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == vx_lower(s@);
    pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == vx_upper(s@);
    pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == vx_ascii_lower(s@);
    pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == vx_ascii_upper(s@);
    pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool) ensures r == vx_same_fold(s@, t@);
    } // verus!
}
pub struct TryFromIntError { }
pub trait VxTryInto { spec fn vx_int(&self) -> int; fn vx_try_usize(self) -> (r: core::result::Result<usize, TryFromIntError>) ensures 0 <= self.vx_int() <= usize::MAX ==> r is Ok && r->Ok_0 == self.vx_int(), !(0 <= self.vx_int() <= usize::MAX) ==> r is Err; }
impl VxTryInto for u64 {
    open spec fn vx_int(&self) -> int { *self as int }
    #[verifier::external_body]
    fn vx_try_usize(self) -> (r: core::result::Result<usize, TryFromIntError>) { unimplemented!() }
}
pub struct VxMsg { }
#[verifier::external_body]
pub fn vx_format() -> VxMsg { unimplemented!() }
/// a panic must be unreachable
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }

/// no allocation is larger than isize::MAX bytes
pub mod vx_fits {
    use vstd::prelude::*;
    verus! {
    pub broadcast axiom fn vx_vec_fits(v: Vec<u8>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn vx_slice_fits(v: &[u8]) ensures #[trigger] v@.len() <= isize::MAX;
    } // verus!
}
broadcast use {vx_fits::vx_vec_fits, vx_fits::vx_slice_fits, vx_ranges::vx_range_empty_u64, vx_ranges::vx_range_empty_usize};
/// `&mut b[lo..hi]` and `b[lo..hi].method()`; bounds are obligations (out of range panics)
pub trait VxSlice {
    spec fn vx_view(&self) -> Seq<u8>;
    fn vx_slice_mut(&mut self, lo: usize, hi: usize) -> (r: &mut [u8])
        requires lo <= hi <= old(self).vx_view().len(),
        ensures r@ == old(self).vx_view().subrange(lo as int, hi as int),
            final(r)@.len() == hi - lo,
            final(self).vx_view() == old(self).vx_view().subrange(0, lo as int) + final(r)@ + old(self).vx_view().subrange(hi as int, old(self).vx_view().len() as int);
    fn vx_len(&self) -> (r: usize) ensures r == self.vx_view().len();
    fn vx_slice(&self, lo: usize, hi: usize) -> (r: &[u8])
        requires lo <= hi <= self.vx_view().len(),
        ensures r@ == self.vx_view().subrange(lo as int, hi as int);
}
impl VxSlice for [u8] {
    open spec fn vx_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_slice_mut(&mut self, lo: usize, hi: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_slice(&self, lo: usize, hi: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VxSlice for Vec<u8> {
    open spec fn vx_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_slice_mut(&mut self, lo: usize, hi: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_slice(&self, lo: usize, hi: usize) -> (r: &[u8]) { unimplemented!() }
}
} // verus!
fn main() {}

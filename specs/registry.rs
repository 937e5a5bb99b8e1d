//@include prelude.rs
// The registry: order of the entries, which handler runs and what it is given; matchers and sources.
verus! {
//@known rules priority handler is_match starts_with replacen strip_prefix scheme domain clone fmt to_string into matches_input match_input matches_parsed as_deref expect find_match handle
//@subst "Box::new" "vx_same"
//@subst "Box<dyn RegistryEntry<T> + Send + Sync>" "VxEntry<T>"
//@method starts_with vx_starts_with
//@method replacen vx_replacen
//@method strip_prefix vx_strip_prefix
//@method clone vx_clone
//@method to_string vx_to_string
//@method into vx_into
//@method as_deref vx_as_deref
//@method fmt vx_fmt
//@method expect vx_expect
//@method sort_by_key vx_sort_by_key
//@method sort_by_cached_key vx_sort_by_key
//@method sort_unstable_by_key vx_sort_unstable_by_key
//@method len len
// ---------------------------------------------------------------- strings
pub trait VxStrOps {
    fn vx_starts_with(&self, p: &str) -> bool;
    fn vx_replacen(&self, from: &str, to: &str, n: usize) -> String;
    fn vx_strip_prefix(&self, p: &str) -> Option<&str>;
    fn vx_to_string(&self) -> String;
}
impl VxStrOps for str {
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replacen(&self, from: &str, to: &str, n: usize) -> (r: String)
        ensures n == 1 && from@.is_prefix_of(self@) ==> r@ == to@ + self@.skip(from@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>)
        ensures match r { Some(x) => p@.is_prefix_of(self@) && x@ == self@.skip(p@.len() as int), None => !p@.is_prefix_of(self@) } { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VxDeref { fn vx_as_deref(&self) -> Option<&str>; }
impl VxDeref for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) ensures match (*self, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } { unimplemented!() }
}
/// the pairs of string types the code compares
pub trait VxEq<B: ?Sized> { spec fn eqs(&self, b: &B) -> bool; fn vx_is(&self, b: &B) -> (r: bool) ensures r == self.eqs(b); }
impl VxEq<String> for String {
    open spec fn eqs(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &String) -> (r: bool) { unimplemented!() }
}
impl VxEq<Option<String>> for Option<String> {
    open spec fn eqs(&self, b: &Option<String>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<String>) -> (r: bool) { unimplemented!() }
}
impl<'b> VxEq<&'b String> for String {
    open spec fn eqs(&self, b: &&'b String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &&'b String) -> (r: bool) { unimplemented!() }
}
impl<'b> VxEq<Option<&'b String>> for Option<String> {
    open spec fn eqs(&self, b: &Option<&'b String>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<&'b String>) -> (r: bool) { unimplemented!() }
}
impl<'b> VxEq<&'b str> for String {
    open spec fn eqs(&self, b: &&'b str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &&'b str) -> (r: bool) { unimplemented!() }
}
impl<'b> VxEq<Option<&'b str>> for Option<String> {
    open spec fn eqs(&self, b: &Option<&'b str>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<&'b str>) -> (r: bool) { unimplemented!() }
}
impl<'a> VxEq<String> for &'a String {
    open spec fn eqs(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &String) -> (r: bool) { unimplemented!() }
}
impl<'a> VxEq<Option<String>> for Option<&'a String> {
    open spec fn eqs(&self, b: &Option<String>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<String>) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<&'b String> for &'a String {
    open spec fn eqs(&self, b: &&'b String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &&'b String) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<Option<&'b String>> for Option<&'a String> {
    open spec fn eqs(&self, b: &Option<&'b String>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<&'b String>) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<&'b str> for &'a String {
    open spec fn eqs(&self, b: &&'b str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &&'b str) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<Option<&'b str>> for Option<&'a String> {
    open spec fn eqs(&self, b: &Option<&'b str>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<&'b str>) -> (r: bool) { unimplemented!() }
}
impl<'a> VxEq<String> for &'a str {
    open spec fn eqs(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &String) -> (r: bool) { unimplemented!() }
}
impl<'a> VxEq<Option<String>> for Option<&'a str> {
    open spec fn eqs(&self, b: &Option<String>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<String>) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<&'b String> for &'a str {
    open spec fn eqs(&self, b: &&'b String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &&'b String) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<Option<&'b String>> for Option<&'a str> {
    open spec fn eqs(&self, b: &Option<&'b String>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<&'b String>) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<&'b str> for &'a str {
    open spec fn eqs(&self, b: &&'b str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn vx_is(&self, b: &&'b str) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<Option<&'b str>> for Option<&'a str> {
    open spec fn eqs(&self, b: &Option<&'b str>) -> bool { match (*self, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn vx_is(&self, b: &Option<&'b str>) -> (r: bool) { unimplemented!() }
}
pub fn vx_eq<A: VxEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.eqs(b) { a.vx_is(b) }

// ---------------------------------------------------------------- external types
/// what the url crate makes of a text
pub uninterp spec fn url_of(s: Seq<char>) -> Option<Url>;
pub struct ParseError { }
pub struct Url { pub x: u64 }
impl Url {
    pub uninterp spec fn sch(&self) -> Seq<char>;
    pub uninterp spec fn dom(&self) -> Option<Seq<char>>;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn parse(s: &String) -> (r: core::result::Result<Url, ParseError>)
        ensures match r { Ok(u) => url_of(s@) == Some(u), Err(_) => url_of(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn scheme(&self) -> (r: &str) ensures r@ == self.sch() { unimplemented!() }
    #[verifier::external_body]
    pub fn domain(&self) -> (r: Option<&str>) ensures match r { Some(d) => self.dom() == Some(d@), None => self.dom() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    pub fn vx_clone(&self) -> (r: Url) ensures r == *self { Url { x: self.x } }
}
#[derive(Debug)]
pub struct ReError { }
pub struct Regex { pub x: u64 }
impl Regex {
    pub uninterp spec fn matches(&self, s: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == self.matches(s@) { unimplemented!() }
    /// what the patterns used here mean
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: core::result::Result<Regex, ReError>)
        ensures p@ == "^https?$"@ ==> r is Ok && (forall|s: Seq<char>| #[trigger] r->Ok_0.matches(s) == (s == "http"@ || s == "https"@)) { unimplemented!() }
}
pub trait VxExpect<T>: Sized { spec fn fine(&self) -> bool; spec fn val(&self) -> T; fn vx_expect(self, m: &str) -> (r: T) requires self.fine() ensures r == self.val(); }
impl<T> VxExpect<T> for Option<T> {
    open spec fn fine(&self) -> bool { self is Some }
    open spec fn val(&self) -> T { self->Some_0 }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Some(r) => r, None => vx_panic() } }
}
impl VxExpect<Regex> for core::result::Result<Regex, ReError> {
    open spec fn fine(&self) -> bool { self is Ok }
    open spec fn val(&self) -> Regex { self->Ok_0 }
    fn vx_expect(self, m: &str) -> (r: Regex) { match self { Ok(r) => r, Err(_) => { assert(false); loop invariant false decreases 0int { } } } }
}
pub mod fmt {
    use vstd::prelude::*;
    verus! {
    pub struct Error { }
    pub type Result = core::result::Result<(), Error>;
    pub struct Formatter { pub out: Ghost<Seq<char>> }
    }
}
pub trait VxFmt {
    spec fn shown(&self) -> Seq<char>;
    fn vx_fmt(&self, f: &mut fmt::Formatter) -> (r: fmt::Result)
        ensures r is Ok ==> final(f).out@ =~= old(f).out@ + self.shown();
}
impl VxFmt for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_fmt(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() }
}
impl VxFmt for Url {
    open spec fn shown(&self) -> Seq<char> { self.text() }
    #[verifier::external_body]
    fn vx_fmt(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() }
}
/// format!("{x}") and x.to_string() produce what Display writes
#[verifier::external_body]
pub fn vx_display<T: VxFmt>(t: &T) -> (r: String) ensures r@ == t.shown() { unimplemented!() }
pub trait VxInto<T> { spec fn gives(&self, t: T) -> bool; fn vx_into(self) -> (r: T) ensures self.gives(r); }
pub trait VxCloneStr { fn vx_clone(&self) -> String; }
impl VxCloneStr for String {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VxStrings { fn vx_to_string(&self) -> String; }
impl VxStrings for String {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
// ---------------------------------------------------------------- collections
pub trait VxIter<T> { spec fn elems(&self) -> Seq<T>; fn vx_iter(&self) -> (r: &[T]) ensures r@ == self.elems(); }
impl<T> VxIter<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: &[T]) { self }
}
pub trait VxTake<E>: Sized { spec fn elem(&self, i: int) -> E; spec fn n(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.n(); fn vx_take(&mut self, i: usize) -> (r: E) requires i < old(self).n() ensures r == old(self).elem(i as int), *final(self) == *old(self); }
impl<'a, T> VxTake<&'a T> for &'a [T] {
    open spec fn elem(&self, i: int) -> &'a T { &self@[i] }
    open spec fn n(&self) -> nat { self@.len() }
    fn vx_len(&self) -> (r: usize) { let s: &'a [T] = *self; s.len() }
    fn vx_take(&mut self, i: usize) -> (r: &'a T) { let s: &'a [T] = *self; &s[i] }
}
pub trait VxGetMut<T> { spec fn items(&self) -> Seq<T>; fn vx_get_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).items().len() ensures *r == old(self).items()[i as int], final(self).items() == old(self).items().update(i as int, *final(r)); }
impl<T> VxGetMut<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_get_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
}
/// put x behind everything whose key is not greater
pub open spec fn insert_by<T>(s: Seq<T>, keys: Seq<int>, x: T, k: int) -> Seq<T> {
    s.insert(slot(keys, k), x)
}
/// the number of leading keys up to and including the last one not greater than k, for sorted keys
pub open spec fn slot(keys: Seq<int>, k: int) -> int decreases keys.len() {
    if keys.len() == 0 { 0 } else if keys.last() <= k { keys.len() as int } else { slot(keys.drop_last(), k) }
}
/// stable sort, as repeated insertion
pub open spec fn stable<T>(s: Seq<(T, int)>) -> Seq<(T, int)> decreases s.len() {
    if s.len() == 0 { s } else {
        let t = stable(s.drop_last());
        t.insert(slot(t.map_values(|p: (T, int)| p.1), s.last().1), s.last())
    }
}
pub open spec fn pairs<T>(s: Seq<T>, keys: Seq<int>) -> Seq<(T, int)> { Seq::new(s.len(), |i: int| (s[i], keys[i])) }
pub open spec fn by_keys<T>(a: Seq<T>, b: Seq<T>, keys: Seq<int>) -> bool { b == stable(pairs(a, keys)).map_values(|p: (T, int)| p.0) }
pub trait VxSort<T> {
    /// slice::sort_by_key is a stable sort
    fn vx_sort_by_key<F: Fn(&T) -> u32>(&mut self, f: F);
    /// slice::sort_unstable_by_key only promises some permutation in ascending order of the keys
    fn vx_sort_unstable_by_key<F: Fn(&T) -> u32>(&mut self, f: F);
}
impl<T> VxSort<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_sort_by_key<F: Fn(&T) -> u32>(&mut self, f: F)
        ensures exists|keys: Seq<int>| #[trigger] by_keys(old(self)@, final(self)@, keys) && keys.len() == old(self)@.len()
            && (forall|i: int| 0 <= i < keys.len() ==> 0 <= #[trigger] keys[i] <= u32::MAX && f.ensures((&old(self)@[i],), keys[i] as u32)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sort_unstable_by_key<F: Fn(&T) -> u32>(&mut self, f: F)
        ensures final(self)@.to_multiset() == old(self)@.to_multiset() { unimplemented!() }
}
// ---------------------------------------------------------------- the registry's own types
//@enum file=registry/matcher.rs name=MatchType
//@enum file=registry/matcher.rs name=Matcher
//@enum file=registry/matcher.rs name=Rule
//@struct file=registry/matcher.rs name=PrefixMatcher
//@struct file=registry/matcher.rs name=StringMatcher
//@struct file=registry/matcher.rs name=UrlMatcher
//@enum file=registry/mod.rs name=Source
//@struct file=registry/mod.rs name=Input
//@enum file=registry/mod.rs name=InputType
//@struct file=registry/mod.rs name=Registry generics="<T>"
pub enum SrcV { Url(Url), Text(Seq<char>) }
pub struct InV { pub prefix: Option<Seq<char>>, pub src: SrcV }
pub enum ItV { Raw(Seq<char>), Parsed(InV) }
pub open spec fn src_text(s: Seq<char>) -> SrcV { match url_of(s) { Some(u) => SrcV::Url(u), None => SrcV::Text(s) } }
impl Source { pub open spec fn v(&self) -> SrcV { match *self { Source::Url(u) => SrcV::Url(u), Source::String(s) => SrcV::Text(s@) } } }
impl Input {
    pub open spec fn v(&self) -> InV { InV { prefix: match self.prefix { Some(p) => Some(p@), None => None }, src: self.source.v() } }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: Input) ensures r.v() == self.v() { unimplemented!() }
}
impl InputType { pub open spec fn v(&self) -> ItV { match *self { InputType::Raw(s) => ItV::Raw(s@), InputType::Parsed(i) => ItV::Parsed(i.v()) } } }
impl Matcher { pub open spec fn hits(&self, s: Seq<char>) -> bool { match *self { Matcher::Regex(r) => r.matches(s), Matcher::String(t) => t@ == s } } }
impl MatchType { pub open spec fn hits(&self, s: Option<Seq<char>>) -> bool { match *self { MatchType::Any => true, MatchType::Value(m) => s is Some && m.hits(s->Some_0) } } }
impl UrlMatcher { pub open spec fn hits(&self, u: Url) -> bool { self.scheme.hits(Some(u.sch())) && self.domain.hits(u.dom()) } }
/// the prefix part of matching: raw text starting with it, or parsed input that carries it
pub open spec fn prefix_hit(r: Rule, it: ItV) -> bool {
    match r {
        Rule::Prefix(p) => match it { ItV::Raw(s) => p.prefix@.is_prefix_of(s), ItV::Parsed(i) => i.prefix == Some(p.prefix@) },
        _ => false,
    }
}
/// the source part
pub open spec fn plain_hit(r: Rule, s: SrcV) -> bool {
    match (r, s) { (Rule::Url(m), SrcV::Url(u)) => m.hits(u), (Rule::String(m), SrcV::Text(t)) => m.match_type.hits(Some(t)), _ => false }
}
pub open spec fn parsed(it: ItV) -> InV { match it { ItV::Raw(s) => InV { prefix: None, src: src_text(s) }, ItV::Parsed(i) => i } }
pub open spec fn hit(rules: Seq<Rule>, it: ItV) -> bool {
    exists|k: int| 0 <= k < rules.len() && (prefix_hit(#[trigger] rules[k], it) || plain_hit(rules[k], parsed(it).src))
}
pub open spec fn any_plain(rules: Seq<Rule>, s: SrcV) -> bool { exists|k: int| 0 <= k < rules.len() && plain_hit(#[trigger] rules[k], s) }
pub open spec fn no_prefix(rules: Seq<Rule>, k: int, it: ItV) -> bool { forall|j: int| 0 <= j < k ==> !prefix_hit(#[trigger] rules[j], it) }
/// what the handler of an entry with these rules is given
pub open spec fn handed(rules: Seq<Rule>, it: ItV, got: InV) -> bool {
    if no_prefix(rules, rules.len() as int, it) { got == parsed(it) } else {
        exists|k: int| 0 <= k < rules.len() && prefix_hit(#[trigger] rules[k], it) && no_prefix(rules, k, it) && got == match it {
            ItV::Raw(s) => InV { prefix: Some(rules[k]->Prefix_0.prefix@), src: src_text(s.skip(rules[k]->Prefix_0.prefix@.len() as int)) },
            ItV::Parsed(i) => i,
        }
    }
}
/// a registered entry (dyn RegistryEntry): its priority and rules do not change, `log` records the
/// inputs its handler was run with
pub struct VxEntry<T> { pub x: u64, pub t: Option<T> }
impl<T> VxEntry<T> {
    pub uninterp spec fn prio(&self) -> u32;
    pub uninterp spec fn rules_v(&self) -> Seq<Rule>;
    pub uninterp spec fn log(&self) -> Seq<(InV, T)>;
    #[verifier::external_body]
    pub fn priority(&self) -> (r: u32) ensures r == self.prio() { unimplemented!() }
    #[verifier::external_body]
    pub fn rules(&self) -> (r: &[Rule]) ensures r@ == self.rules_v() { unimplemented!() }
    #[verifier::external_body]
    pub fn handler(&mut self, input: Input) -> (r: T)
        ensures final(self).prio() == old(self).prio(), final(self).rules_v() == old(self).rules_v(), ran(*old(self), *final(self), input.v(), r) { unimplemented!() }
}
pub open spec fn ran<T>(a: VxEntry<T>, b: VxEntry<T>, got: InV, t: T) -> bool { b.prio() == a.prio() && b.rules_v() == a.rules_v() && b.log() == a.log().push((got, t)) }
/// exactly the handler of the first matching entry was run, with what its rule hands over; nothing else changed
pub open spec fn picked<T>(a: Seq<VxEntry<T>>, b: Seq<VxEntry<T>>, it: ItV, t: T) -> bool {
    exists|n: int, got: InV, e: VxEntry<T>| {
        &&& #[trigger] ran(a[n], e, got, t) && 0 <= n < a.len() && b =~= a.update(n, e)
        &&& handed(a[n].rules_v(), it, got) && hit(a[n].rules_v(), it)
        &&& forall|j: int| 0 <= j < n ==> !hit(#[trigger] a[j].rules_v(), it)
        &&& forall|j: int| 0 <= j < a.len() && hit(#[trigger] a[j].rules_v(), it) ==> a[n].prio() <= a[j].prio()
    }
}
pub open spec fn prios<T>(g: Seq<VxEntry<T>>) -> Seq<int> { g.map_values(|e: VxEntry<T>| e.prio() as int) }
impl<T> Registry<T> {
    /// entries by priority
    pub open spec fn sorted(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self.generators@.len() ==> self.generators@[i].prio() <= self.generators@[j].prio() }
}
pub proof fn slot_at_end(keys: Seq<int>, k: int)
    ensures 0 <= slot(keys, k) <= keys.len(), keys.len() > 0 && keys.last() <= k ==> slot(keys, k) == keys.len()
    decreases keys.len()
{ if keys.len() > 0 && keys.last() > k { slot_at_end(keys.drop_last(), k); } }
pub proof fn slot_splits(keys: Seq<int>, k: int)
    requires forall|i: int, j: int| 0 <= i < j < keys.len() ==> keys[i] <= keys[j]
    ensures 0 <= slot(keys, k) <= keys.len(), forall|i: int| 0 <= i < slot(keys, k) ==> keys[i] <= k, forall|i: int| slot(keys, k) <= i < keys.len() ==> keys[i] > k
    decreases keys.len()
{
    if keys.len() > 0 {
        let l = keys.drop_last();
        if keys.last() > k {
            slot_splits(l, k);
            assert forall|i: int| 0 <= i < slot(keys, k) implies keys[i] <= k by { assert(l[i] <= k); }
            assert forall|i: int| slot(keys, k) <= i < keys.len() implies keys[i] > k by { if i < l.len() { assert(l[i] > k); } }
        } else {
            assert forall|i: int| 0 <= i < keys.len() implies keys[i] <= k by { if i < keys.len() - 1 { assert(keys[i] <= keys[keys.len() - 1]); } }
        }
    }
}
/// a sorted sequence is its own stable sort
pub proof fn stable_sorted<T>(s: Seq<(T, int)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].1 <= s[j].1
    ensures stable(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        stable_sorted(s.drop_last());
        let t = s.drop_last();
        let keys = t.map_values(|p: (T, int)| p.1);
        if keys.len() > 0 { assert(keys.last() == s[s.len() - 2].1); }
        slot_at_end(keys, s.last().1);
        assert(t.insert(t.len() as int, s.last()) =~= s);
    }
}
/// registering into a sorted registry puts the new entry behind all entries of the same or a lower number
pub proof fn entry_lands<T>(old_g: Seq<VxEntry<T>>, e: VxEntry<T>, keys: Seq<int>)
    requires forall|i: int, j: int| 0 <= i < j < old_g.len() ==> old_g[i].prio() <= old_g[j].prio(), keys =~= prios(old_g.push(e))
    ensures stable(pairs(old_g.push(e), keys)).map_values(|p: (VxEntry<T>, int)| p.0) =~= old_g.insert(slot(prios(old_g), e.prio() as int), e)
{
    let s = pairs(old_g.push(e), keys);
    let t = s.drop_last();
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i].1 <= t[j].1 by { assert(t[i].1 == old_g[i].prio() && t[j].1 == old_g[j].prio()); }
    stable_sorted(t);
    assert(t.map_values(|p: (VxEntry<T>, int)| p.1) =~= prios(old_g));
    assert(s.last() == (e, e.prio() as int));
    slot_at_end(prios(old_g), e.prio() as int);
}
// ---------------------------------------------------------------- matchers
impl MatchType {
//@fn file=registry/matcher.rs impl=MatchType fn=matches_input props=C12
//@sig fn matches_input(&self, input: Option<&str>) -> (r: bool)
    ensures r == self.hits(match input { Some(s) => Some(s@), None => None }), // #C12 a missing value only matches "any"
//@end
}
impl Matcher {
//@fn file=registry/matcher.rs impl=Matcher fn=is_match props=C12
//@eq
//@sig fn is_match(&self, search: &str) -> (r: bool)
    ensures r == self.hits(search@), // #C12 a string matches exactly itself
//@end
//@fn file=registry/matcher.rs impl="From<Regex> for Matcher" fn=from id=Matcher::from_regex props=C12
//@sig fn from_regex(value: Regex) -> (r: Matcher)
    ensures r == Matcher::Regex(value), // #C12
//@end
//@fn file=registry/matcher.rs impl="From<String> for Matcher" fn=from id=Matcher::from_string props=C12
//@sig fn from_string(value: String) -> (r: Matcher)
    ensures r == Matcher::String(value), // #C12
//@end
//@fn file=registry/matcher.rs impl="From<&str> for Matcher" fn=from id=Matcher::from_str props=C12
//@sig fn from_str(value: &str) -> (r: Matcher)
    ensures r is String && r->String_0@ == value@, // #C12
//@end
}
impl VxInto<Matcher> for Regex {
    open spec fn gives(&self, t: Matcher) -> bool { t == Matcher::Regex(*self) }
    fn vx_into(self) -> (r: Matcher) { Matcher::from_regex(self) }
}
impl VxInto<String> for String {
    open spec fn gives(&self, t: String) -> bool { t == *self }
    fn vx_into(self) -> (r: String) { self }
}
pub open spec fn value_of<M: VxInto<Matcher>>(m: M, t: MatchType) -> bool { t is Value && m.gives(t->Value_0) }
pub open spec fn is_http(t: MatchType) -> bool { forall|s: Seq<char>| #[trigger] t.hits(Some(s)) == (s == "http"@ || s == "https"@) }
//@fn file=registry/matcher.rs fn=http_regex props=C12
//@sig fn http_regex() -> (r: Regex)
    ensures forall|s: Seq<char>| #[trigger] r.matches(s) == (s == "http"@ || s == "https"@), // #C12 http and https, nothing else
//@end
impl Rule {
//@fn file=registry/matcher.rs impl=Rule fn=prefix props=C12
//@sig fn prefix<S: VxInto<String>>(prefix: S) -> (r: Rule)
    ensures r is Prefix && prefix.gives(r->Prefix_0.prefix), // #C12
//@end
//@fn file=registry/matcher.rs impl=Rule fn=string props=C12
//@sig fn string<M: VxInto<Matcher>>(s: M) -> (r: Rule)
    ensures r is String && value_of(s, r->String_0.match_type), // #C12
//@end
//@fn file=registry/matcher.rs impl=Rule fn=any_string props=C12
//@sig fn any_string() -> (r: Rule)
    ensures r == Rule::String(StringMatcher { match_type: MatchType::Any }), // #C12
//@end
//@fn file=registry/matcher.rs impl=Rule fn=any_url props=C12
//@sig fn any_url() -> (r: Rule)
    ensures r == Rule::Url(UrlMatcher { scheme: MatchType::Any, domain: MatchType::Any }), // #C12
//@end
//@fn file=registry/matcher.rs impl=Rule fn=url_scheme props=C12
//@sig fn url_scheme<M: VxInto<Matcher>>(scheme: M) -> (r: Rule)
    ensures r is Url && value_of(scheme, r->Url_0.scheme) && r->Url_0.domain is Any, // #C12
//@end
//@fn file=registry/matcher.rs impl=Rule fn=any_http props=C12
//@sig fn any_http() -> (r: Rule)
    ensures r is Url && is_http(r->Url_0.scheme) && r->Url_0.domain is Any, // #C12 http and https, any domain
//@end
//@fn file=registry/matcher.rs impl=Rule fn=url_domain props=C12
//@sig fn url_domain<M: VxInto<Matcher>>(domain: M) -> (r: Rule)
    ensures r is Url && r->Url_0.scheme is Any && value_of(domain, r->Url_0.domain), // #C12
//@end
//@fn file=registry/matcher.rs impl=Rule fn=http_domain props=C12
//@sig fn http_domain<M: VxInto<Matcher>>(domain: M) -> (r: Rule)
    ensures r is Url && is_http(r->Url_0.scheme) && value_of(domain, r->Url_0.domain), // #C12
//@end
//@fn file=registry/matcher.rs impl=Rule fn=url props=C12
//@sig fn url<M1: VxInto<Matcher>, M2: VxInto<Matcher>>(scheme: M1, domain: M2) -> (r: Rule)
    ensures r is Url && value_of(scheme, r->Url_0.scheme) && value_of(domain, r->Url_0.domain), // #C12
//@end
}
impl PrefixMatcher {
//@fn file=registry/matcher.rs impl=PrefixMatcher fn=match_input props=C12
//@sig fn match_input(&self, input: &str) -> (r: Option<String>)
    ensures match r {
        Some(x) => self.prefix@.is_prefix_of(input@) && x@ == input@.skip(self.prefix@.len() as int),
        None => !self.prefix@.is_prefix_of(input@),
    }, // #C12 the prefix is removed once
//@entry
proof { reveal_strlit(""); assert(""@ + input@.skip(self.prefix@.len() as int) =~= input@.skip(self.prefix@.len() as int)); }
//@end
//@fn file=registry/matcher.rs impl=PrefixMatcher fn=matches_parsed props=C12
//@eq
//@sig fn matches_parsed(&self, input: &Input) -> (r: bool)
    ensures r == (input.v().prefix == Some(self.prefix@)), // #C12 exactly that prefix
//@end
}
impl StringMatcher {
//@fn file=registry/matcher.rs impl=StringMatcher fn=matches_input props=C12
//@sig fn matches_input(&self, input: &str) -> (r: bool)
    ensures r == self.match_type.hits(Some(input@)), // #C12
//@end
}
impl UrlMatcher {
//@fn file=registry/matcher.rs impl=UrlMatcher fn=matches_input props=C12
//@sig fn matches_input(&self, input: &Url) -> (r: bool)
    ensures r == self.hits(*input), // #C12 scheme and domain must both match
//@end
}
// ---------------------------------------------------------------- sources and inputs
impl Source {
//@fn file=registry/mod.rs impl="From<String> for Source" fn=from id=Source::from_string props=C12
//@sig fn from(value: String) -> (r: Source)
    ensures r.v() == src_text(value@), // #C12 a URL when it parses as one, otherwise the text unchanged
//@end
//@fn file=registry/mod.rs impl="From<Source> for String" fn=from id=Source::into_text props=C12
//@sig fn into_text(value: Source) -> (r: String)
    ensures r@ == value.shown(), // #C12 the text back
//@end
//@fn file=registry/mod.rs impl=Source fn=try_into_url props=C12
//@sig fn try_into_url(self) -> (r: Option<Url>)
    ensures match self { Source::Url(u) => r == Some(u), Source::String(_) => r is None }, // #C12
//@end
//@fn file=registry/mod.rs impl=Source fn=try_into_string props=C12
//@sig fn try_into_string(self) -> (r: Option<String>)
    ensures match self { Source::String(s) => r == Some(s), Source::Url(_) => r is None }, // #C12
//@end
//@fn file=registry/mod.rs impl=Source fn=into_url props=C12
//@sig fn into_url(self) -> (r: Url)
    requires self is Url,
    ensures self == Source::Url(r), // #C12 the URL itself; never panics for a URL
//@end
//@fn file=registry/mod.rs impl=Source fn=into_string props=C12
//@sig fn into_string(self) -> (r: String)
    requires self is String,
    ensures self == Source::String(r), // #C12 the text itself; never panics for a text
//@end
}
impl VxInto<Source> for String {
    open spec fn gives(&self, t: Source) -> bool { t.v() == src_text(self@) }
    fn vx_into(self) -> (r: Source) { Source::from(self) }
}
impl VxFmt for Source {
    open spec fn shown(&self) -> Seq<char> { match *self { Source::Url(u) => u.text(), Source::String(s) => s@ } }
//@fn file=registry/mod.rs impl="Display for Source" fn=fmt props=C12 id=Source::fmt nopub=1
//@sig fn vx_fmt(&self, f: &mut fmt::Formatter) -> (r: fmt::Result)
//@end
}
impl VxFmt for Input {
    open spec fn shown(&self) -> Seq<char> { (match self.prefix { Some(p) => p@, None => Seq::empty() }) + self.source.shown() }
//@fn file=registry/mod.rs impl="Display for Input" fn=fmt props=C12 id=Input::fmt nopub=1
//@sig fn vx_fmt(&self, f: &mut fmt::Formatter) -> (r: fmt::Result)
//@end
}
impl Input {
//@fn file=registry/mod.rs impl=Input fn=into_raw props=C12
//@sig fn into_raw(self) -> (r: String)
    ensures r@ == self.shown(), // #C12 prefix followed by source
//@end
}
impl VxInto<InputType> for InputType {
    open spec fn gives(&self, t: InputType) -> bool { t == *self }
    fn vx_into(self) -> (r: InputType) { self }
}
impl InputType {
//@fn file=registry/mod.rs impl="From<Input> for InputType" fn=from id=InputType::from_input props=C12
//@sig fn from_input(value: Input) -> (r: InputType)
    ensures r == InputType::Parsed(value), // #C12
//@end
//@fn file=registry/mod.rs impl="From<T> for InputType" fn=from id=InputType::from_text props=C12
//@sig fn from_text<T: VxInto<String>>(value: T) -> (r: InputType)
    ensures r is Raw && value.gives(r->Raw_0), // #C12
//@end
}
// ---------------------------------------------------------------- the registry
impl<T> Registry<T> {
//@fn file=registry/mod.rs impl=Registry fn=new props=C12
//@sig fn new() -> (r: Registry<T>)
    ensures r.generators@.len() == 0 && r.sorted(), // #C12 empty
//@end
//@fn file=registry/mod.rs impl="Default for Registry" fn=default id=Registry::default props=C12
//@sig fn vx_default() -> (r: Registry<T>)
    ensures r.generators@.len() == 0 && r.sorted(), // #C12 empty
//@end
//@fn file=registry/mod.rs impl=Registry fn=entry props=C12
//@closure sort_by_key "&VxEntry<T> | u32 | vx_r == k.prio()"
//@closure sort_by_cached_key "&VxEntry<T> | u32 | vx_r == k.prio()"
//@closure sort_unstable_by_key "&VxEntry<T> | u32 | vx_r == k.prio()"
//@sig fn entry(self, entry: VxEntry<T>) -> (r: Registry<T>)
    requires self.sorted(),
    ensures
        r.sorted(), // #C12 lower numbers first
        exists|n: int| 0 <= n <= self.generators@.len() && #[trigger] self.generators@.insert(n, entry) =~= r.generators@
            && (forall|i: int| 0 <= i < n ==> self.generators@[i].prio() <= entry.prio()) && (forall|i: int| n <= i < self.generators@.len() ==> self.generators@[i].prio() > entry.prio()), // #C12 behind all entries of the same number, nothing lost
//@entry
proof {
    slot_splits(prios(self.generators@), entry.prio() as int);
    let old_g = self.generators@;
    assert forall|b: Seq<VxEntry<T>>, keys: Seq<int>| #[trigger] by_keys(old_g.push(entry), b, keys) && keys =~= prios(old_g.push(entry))
        implies b =~= old_g.insert(slot(prios(old_g), entry.prio() as int), entry) by { entry_lands(old_g, entry, keys); }
    assert forall|i: int| 0 <= i < slot(prios(old_g), entry.prio() as int) implies old_g[i].prio() <= entry.prio() by { assert(prios(old_g)[i] <= entry.prio()); }
    assert forall|i: int| slot(prios(old_g), entry.prio() as int) <= i < old_g.len() implies old_g[i].prio() > entry.prio() by { assert(prios(old_g)[i] > entry.prio()); }
}
//@end
//@fn file=registry/mod.rs impl=Registry fn=find_match props=C12
//@sig fn find_match(&mut self, vx_input: InputType) -> (r: Option<T>)
    requires old(self).sorted(),
    ensures
        final(self).sorted() && final(self).generators@.len() == old(self).generators@.len(),
        r is None ==> final(self).generators@ =~= old(self).generators@ && (forall|i: int| 0 <= i < old(self).generators@.len() ==> !hit(#[trigger] old(self).generators@[i].rules_v(), vx_input.v())), // #C12 none only if no entry matches, and then no handler runs
        r is Some ==> picked(old(self).generators@, final(self).generators@, vx_input.v(), r->Some_0), // #C12 exactly the first matching entry's handler runs, with what its rule hands over
//@loop 0
        invariant
            self.generators@ =~= old(self).generators@ && old(self).sorted(),
            parsed_input.v() == parsed(vx_input.v()) && input.v() == vx_input.v(),
            vx_i0 <= self.generators@.len(),
            forall|j: int| 0 <= j < vx_i0 ==> !hit(#[trigger] self.generators@[j].rules_v(), vx_input.v()),
        decreases self.generators@.len() - vx_i0
//@loop 1
        invariant
            vx_i1 <= vx_s1@.len() && vx_s1@ == generator.rules_v() && *generator == old(self).generators@[vx_i0 - 1],
            no_prefix(generator.rules_v(), vx_i1 as int, input.v()),
            input.v() == ItV::Raw(raw_input@),
        decreases vx_s1@.len() - vx_i1
//@loop 2
        invariant
            vx_i2 <= vx_s2@.len() && vx_s2@ == generator.rules_v() && *generator == old(self).generators@[vx_i0 - 1],
            no_prefix(generator.rules_v(), vx_i2 as int, input.v()),
            input.v() == ItV::Parsed(parsed_input.v()),
        decreases vx_s2@.len() - vx_i2
//@end
}
//@fn file=registry/mod.rs fn=handle props=C12
//@sig fn handle<T>(generator: &mut VxEntry<T>, parsed_input: &Input) -> (r: Option<T>)
    ensures
        r is None ==> *final(generator) == *old(generator) && !any_plain(old(generator).rules_v(), parsed_input.v().src), // #C12 none only if no rule matches
        r is Some ==> any_plain(old(generator).rules_v(), parsed_input.v().src) && ran(*old(generator), *final(generator), parsed_input.v(), r->Some_0), // #C12 the handler runs once, with the parsed input
//@loop 0
        invariant
            vx_i0 <= vx_s0@.len() && vx_s0@ == generator.rules_v() && *generator == *old(generator),
            forall|j: int| 0 <= j < vx_i0 ==> !plain_hit(#[trigger] generator.rules_v()[j], parsed_input.v().src),
        decreases vx_s0@.len() - vx_i0
//@loop 1
        invariant
            vx_i1 <= vx_s1@.len() && vx_s1@ == generator.rules_v() && *generator == *old(generator),
            forall|j: int| 0 <= j < vx_i1 ==> !plain_hit(#[trigger] generator.rules_v()[j], parsed_input.v().src),
        decreases vx_s1@.len() - vx_i1
//@end
} // verus!

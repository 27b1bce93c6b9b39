// ---- trusted model of the std items the parser side uses (assumed contracts; no code of /repo here) ----
pub struct VErr { x: u8 }
pub type Result<T> = std::result::Result<T, VErr>;
/// an error value; its text is not modelled
#[verifier::external_body] pub fn vf_err<T>(t: T) -> VErr { unimplemented!() }
/// formatting an argument of a message: its text is not modelled
#[verifier::external_body] pub fn vf_arg<T: ?Sized>(t: &T) { unimplemented!() }
#[verifier::external_body] pub fn vf_arg_as<T: ?Sized>(t: &T, f: &str) { unimplemented!() }
#[verifier::external_body] pub fn vf_format() -> String { unimplemented!() }
/// a place control must not reach: panic!, unreachable!
#[verifier::external_body] pub fn vf_unreachable<T>() -> T requires false { unimplemented!() }
pub trait VUnwrap<T>: Sized {
    spec fn vf_ok(&self) -> bool;
    spec fn vf_val(&self) -> T;
    fn vf_unwrap(self) -> (r: T) requires self.vf_ok() ensures r == self.vf_val();
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn vf_ok(&self) -> bool { *self is Some }
    open spec fn vf_val(&self) -> T { self->Some_0 }
    fn vf_unwrap(self) -> (r: T) { match self { Some(x) => x, None => vf_unreachable() } }
}
impl<T, E> VUnwrap<T> for std::result::Result<T, E> {
    open spec fn vf_ok(&self) -> bool { *self is Ok }
    open spec fn vf_val(&self) -> T { self->Ok_0 }
    fn vf_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vf_unreachable() } }
}
pub fn vf_ok_or<T>(x: Option<T>, e: VErr) -> (r: Result<T>) ensures x is Some ==> r == Result::<T>::Ok(x->Some_0), x is None ==> r is Err { match x { Some(v) => Ok(v), None => Err(e) } }
pub fn vf_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>) ensures i < v@.len() ==> r == Some(&v@[i as int]), i >= v@.len() ==> r is None { if i < v.len() { Some(&v[i]) } else { None } }
#[verifier::external_body] pub fn vf_extend(v: &mut Vec<String>, o: &Vec<String>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
#[verifier::external_body] pub fn vf_extend_own<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }

// iterators over slices, vectors, options, ranges: their elements in order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VIter<T> { x: Vec<T> }
impl<T> VIter<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn more(&self) -> (b: bool) ensures b == (self.pos() < self.all().len()) { unimplemented!() }
    #[verifier::external_body] pub fn take(&mut self) -> (r: T) requires 0 <= old(self).pos() < old(self).all().len()
        ensures r == old(self).all()[old(self).pos()], final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1 { unimplemented!() }
    #[verifier::external_body] pub fn vf_skip(self, n: usize) -> (r: VIter<T>) requires self.pos() == 0
        ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn vf_chain(self, o: VIter<T>) -> (r: VIter<T>) requires self.pos() == 0, o.pos() == 0 ensures r.pos() == 0, r.all() == self.all() + o.all() { unimplemented!() }
}
pub open spec fn refs<T>(a: Seq<&T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < b.len() ==> *a[i] == b[i] }
pub open spec fn refs_to<T>(a: Seq<&T>, b: Seq<T>, n: int) -> bool { a.len() == n && n <= b.len() && forall|i: int| 0 <= i < n ==> *#[trigger] a[i] == b[i] }
pub trait VElems<T> {
    spec fn elems(&self) -> Seq<T>;
    fn vf_iter<'b>(&'b self) -> (r: VIter<&'b T>) ensures r.pos() == 0, refs(r.all(), self.elems());
}
impl<T> VElems<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter<'b>(&'b self) -> (r: VIter<&'b T>) { unimplemented!() } }
impl<T> VElems<T> for Option<T> { open spec fn elems(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn vf_iter<'b>(&'b self) -> (r: VIter<&'b T>) { unimplemented!() } }
pub trait VInto<T>: Sized {
    spec fn ielems(&self) -> Seq<T>;
    fn vf_into_iter(self) -> (r: VIter<T>) ensures r.pos() == 0, r.all() == self.ielems();
}
impl<'a, T> VInto<&'a T> for &'a Vec<T> { open spec fn ielems(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vf_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T> VInto<&'a T> for &'a [T] { open spec fn ielems(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vf_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<T> VInto<T> for Vec<T> { open spec fn ielems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
pub trait VIdx: Sized { spec fn ix(&self) -> int; }
impl VIdx for usize { open spec fn ix(&self) -> int { *self as int } }
impl VIdx for u32 { open spec fn ix(&self) -> int { *self as int } }
#[verifier::external_body] pub fn vf_range<T: VIdx>(a: T, b: T) -> (r: VIter<T>) ensures r.pos() == 0, r.all().len() == (if a.ix() < b.ix() { b.ix() - a.ix() } else { 0 }), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i].ix() == a.ix() + i { unimplemented!() }
#[verifier::external_body] pub fn vf_range_incl<T: VIdx>(a: T, b: T) -> (r: VIter<T>) ensures r.pos() == 0, r.all().len() == (if a.ix() <= b.ix() { b.ix() - a.ix() + 1 } else { 0 }), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i].ix() == a.ix() + i { unimplemented!() }

// strings are the sequences of their characters
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn string_ext(a: String) ensures string_of(#[trigger] a@) == a;
pub trait AsRefStr { spec fn sv(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.sv(); }
impl AsRefStr for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl AsRefStr for str { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T: AsRefStr + ?Sized> AsRefStr for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
pub uninterp spec fn trim_sp(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn is_digit(c: char) -> bool;
pub open spec fn pre(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn suf(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) == p }
/// trim_start_matches
pub open spec fn strip_all(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && pre(s, p) { strip_all(s.skip(p.len() as int), p) } else { s } }
pub open spec fn dig(c: char, base: int) -> Option<int> {
    let d = if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 } else { 99 };
    if d < base { Some(d) } else { None }
}
pub open spec fn digits(s: Seq<char>, base: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else { match (digits(s.drop_last(), base), dig(s.last(), base)) { (Some(a), Some(d)) => Some(a * base + d), _ => None } }
}
/// what parse and from_str_radix accept: an optional sign, at least one digit, a value of the type
pub open spec fn num(s: Seq<char>, base: int, lo: int, hi: int) -> Option<int> {
    let neg = s.len() > 0 && s[0] == '-' && lo < 0;
    let t = if neg || s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    match digits(t, base) { Some(v) if t.len() > 0 => { let w = if neg { -v } else { v }; if lo <= w <= hi { Some(w) } else { None } }, _ => None }
}
pub open spec fn num_u32(s: Seq<char>, base: int) -> Option<int> { num(s, base, 0, 0xFFFF_FFFF) }
pub open spec fn num_i32(s: Seq<char>, base: int) -> Option<int> { num(s, base, -0x8000_0000, 0x7FFF_FFFF) }
pub trait VS {
    spec fn vv(&self) -> Seq<char>;
    fn vf_to_string(&self) -> (r: String) ensures r@ == self.vv();
    fn vf_trim(&self) -> (r: &str) ensures r@ == trim_sp(self.vv());
    fn vf_starts_with(&self, p: &str) -> (b: bool) ensures b == pre(self.vv(), p@);
    fn vf_ends_with(&self, p: &str) -> (b: bool) ensures b == suf(self.vv(), p@);
    fn vf_starts_digit(&self) -> (b: bool) ensures b == (self.vv().len() > 0 && dig(self.vv()[0], 10) is Some);
    fn vf_trim_start(&self, p: &str) -> (r: &str) ensures r@ == strip_all(self.vv(), p@);
    fn vf_strip_prefix(&self, p: &str) -> (r: Option<&str>) ensures pre(self.vv(), p@) ==> r is Some && r->Some_0@ == self.vv().skip(p@.len() as int), !pre(self.vv(), p@) ==> r is None;
    fn vf_parse_u32(&self) -> (r: Result<u32>) ensures r is Ok == num_u32(self.vv(), 10) is Some, r is Ok ==> r->Ok_0 == num_u32(self.vv(), 10)->Some_0;
    fn vf_parse_i32(&self) -> (r: Result<i32>) ensures r is Ok == num_i32(self.vv(), 10) is Some, r is Ok ==> r->Ok_0 == num_i32(self.vv(), 10)->Some_0;
    fn vf_parse<R: VParse>(&self) -> (r: Result<R>) ensures r is Ok == R::pv(self.vv()) is Some, r is Ok ==> r->Ok_0 == R::pv(self.vv())->Some_0;
    fn vf_is_empty(&self) -> (b: bool) ensures b == (self.vv().len() == 0), b == (self.vv() == ""@);
    fn vf_is(&self, l: &str) -> (b: bool) ensures b == (self.vv() == l@);
}
pub trait VParse: Sized { spec fn pv(s: Seq<char>) -> Option<Self>; }
impl VParse for u32 { open spec fn pv(s: Seq<char>) -> Option<u32> { match num_u32(s, 10) { Some(n) => Some(n as u32), None => None } } }
impl VParse for i32 { open spec fn pv(s: Seq<char>) -> Option<i32> { match num_i32(s, 10) { Some(n) => Some(n as i32), None => None } } }
pub trait VFrom<A>: Sized { fn vf_from(a: A) -> Self; }
impl VS for str {
    open spec fn vv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vf_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vf_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vf_starts_with(&self, p: &str) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_ends_with(&self, p: &str) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_starts_digit(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_trim_start(&self, p: &str) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vf_strip_prefix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vf_parse_u32(&self) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn vf_parse_i32(&self) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn vf_parse<R: VParse>(&self) -> (r: Result<R>) { unimplemented!() }
    #[verifier::external_body] fn vf_is_empty(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_is(&self, l: &str) -> (b: bool) { unimplemented!() }
}
impl VS for String {
    open spec fn vv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vf_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vf_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vf_starts_with(&self, p: &str) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_ends_with(&self, p: &str) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_starts_digit(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_trim_start(&self, p: &str) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vf_strip_prefix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vf_parse_u32(&self) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn vf_parse_i32(&self) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn vf_parse<R: VParse>(&self) -> (r: Result<R>) { unimplemented!() }
    #[verifier::external_body] fn vf_is_empty(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vf_is(&self, l: &str) -> (b: bool) { unimplemented!() }
}
pub trait VEmpty { spec fn nil(&self) -> bool; fn vf_is_empty(&self) -> (b: bool) ensures b == self.nil(); }
impl<T> VEmpty for Vec<T> { open spec fn nil(&self) -> bool { self@.len() == 0 } fn vf_is_empty(&self) -> (b: bool) { self.len() == 0 } }
#[verifier::external_body] pub fn vf_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn vf_radix_u32(s: &str, base: u32) -> (r: Result<u32>) requires 2 <= base <= 36 ensures r is Ok == num_u32(s@, base as int) is Some, r is Ok ==> r->Ok_0 == num_u32(s@, base as int)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vf_radix_i32(s: &str, base: u32) -> (r: Result<i32>) requires 2 <= base <= 36 ensures r is Ok == num_i32(s@, base as int) is Some, r is Ok ==> r->Ok_0 == num_i32(s@, base as int)->Some_0 { unimplemented!() }

// collections keyed by strings
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct HashSet<K> { x: Vec<K> }
impl View for HashSet<String> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl HashSet<String> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains<S: AsRefStr + ?Sized>(&self, k: &S) -> (b: bool) ensures b == self@.contains(k.sv()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String) -> (b: bool) ensures final(self)@ == old(self)@.insert(k@), b == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (n: usize) ensures n == self@.len(), self@.finite(), n <= isize::MAX { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<K, V> { x: Vec<(K, V)> }
impl<V> View for BTreeMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> BTreeMap<String, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), r is Some == old(self)@.dom().contains(k@), r is Some ==> r->Some_0 == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn get<S: AsRefStr + ?Sized>(&self, k: &S) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.sv()), r is Some ==> *r->Some_0 == self@[k.sv()] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<S: AsRefStr + ?Sized>(&self, k: &S) -> (b: bool) ensures b == self@.dom().contains(k.sv()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (n: usize) ensures n == self@.len(), self@.dom().finite(), n <= isize::MAX { unimplemented!() }
}

// pest: a finite tree of pairs
#[verifier::external_body] pub struct Pair<'i> { x: &'i str }
#[verifier::external_body] pub struct Pairs<'i> { x: &'i str }
impl<'i> Pair<'i> {
    pub uninterp spec fn rule(&self) -> Rule;
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn kids(&self) -> Seq<Pair<'i>>;
    pub uninterp spec fn ht(&self) -> nat;
    #[verifier::external_body] pub fn as_rule(&self) -> (r: Rule) ensures r == self.rule() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'i str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: Pairs<'i>) ensures r.ks() == self.kids() { unimplemented!() }
}
pub broadcast axiom fn pair_ht<'i>(p: Pair<'i>, i: int) requires 0 <= i < p.kids().len() ensures (#[trigger] p.kids()[i]).ht() < p.ht();
/// the text from the start of the first to the end of the last
pub uninterp spec fn span<'i>(ks: Seq<Pair<'i>>) -> Seq<char>;
pub axiom fn span_one<'i>(ks: Seq<Pair<'i>>) ensures ks.len() == 0 ==> span(ks) == Seq::<char>::empty(), ks.len() == 1 ==> span(ks) == ks[0].text();
impl<'i> Pairs<'i> {
    pub uninterp spec fn ks(&self) -> Seq<Pair<'i>>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'i str) ensures r@ == span(self.ks()) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Pair<'i>>) ensures old(self).ks().len() == 0 ==> r is None, old(self).ks().len() > 0 ==> r == Some(old(self).ks()[0]) && final(self).ks() == old(self).ks().skip(1) { unimplemented!() }
}
impl<'i> VInto<Pair<'i>> for Pairs<'i> { open spec fn ielems(&self) -> Seq<Pair<'i>> { self.ks() } #[verifier::external_body] fn vf_into_iter(self) -> (r: VIter<Pair<'i>>) { unimplemented!() } }

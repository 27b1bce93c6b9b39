// ---- trusted model of bytes::Bytes and of the std items the generated code uses (assumed contracts) ----
pub ghost struct Cur { pub data: Seq<u8>, pub alloc: int, pub lo: int, pub hi: int }

#[verifier::external_body]
pub struct Bytes { x: Vec<u8> }
impl View for Bytes { type V = Cur; uninterp spec fn view(&self) -> Cur; }
impl Bytes {
    /// the bytes the view shows
    pub open spec fn content(&self) -> Seq<u8> { self@.data.subrange(self@.lo, self@.hi) }
}
/// every Bytes value is a window of an allocation that is no longer than isize::MAX
pub broadcast axiom fn bytes_wf(b: Bytes)
    ensures 0 <= (#[trigger] b@).lo <= b@.hi <= b@.data.len() <= isize::MAX;

pub open spec fn adv(c: Cur, n: int) -> Cur { Cur { lo: c.lo + n, ..c } }

#[verifier::opaque]
pub open spec fn be32(d: Seq<u8>, p: int) -> u32 {
    (d[p] as int * 0x100_0000 + d[p + 1] as int * 0x1_0000 + d[p + 2] as int * 0x100 + d[p + 3] as int) as u32
}
#[verifier::opaque]
pub open spec fn be64(d: Seq<u8>, p: int) -> u64 { (be32(d, p) as int * 0x1_0000_0000 + be32(d, p + 4) as int) as u64 }
#[verifier::opaque]
pub open spec fn sx32(u: u32) -> i32 { if u < 0x8000_0000 { u as i32 } else { (u as int - 0x1_0000_0000) as i32 } }
#[verifier::opaque]
pub open spec fn sx64(u: u64) -> i64 { if u < 0x8000_0000_0000_0000 { u as i64 } else { (u as int - 0x1_0000_0000_0000_0000) as i64 } }
pub uninterp spec fn bits32(x: f32) -> u32;
pub uninterp spec fn bits64(x: f64) -> u64;

impl Bytes {
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.hi - self@.lo, r == self.content().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.hi - self@.lo, r == self.content().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.hi == self@.lo) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_remaining(&self) -> (r: bool) ensures r == (self@.hi != self@.lo) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u8(&mut self) -> (r: u8) requires old(self)@.lo + 1 <= old(self)@.hi
        ensures r == old(self)@.data[old(self)@.lo], final(self)@ == adv(old(self)@, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u32(&mut self) -> (r: u32) requires old(self)@.lo + 4 <= old(self)@.hi
        ensures r == be32(old(self)@.data, old(self)@.lo), final(self)@ == adv(old(self)@, 4) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i32(&mut self) -> (r: i32) requires old(self)@.lo + 4 <= old(self)@.hi
        ensures r == sx32(be32(old(self)@.data, old(self)@.lo)), final(self)@ == adv(old(self)@, 4) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u64(&mut self) -> (r: u64) requires old(self)@.lo + 8 <= old(self)@.hi
        ensures r == be64(old(self)@.data, old(self)@.lo), final(self)@ == adv(old(self)@, 8) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i64(&mut self) -> (r: i64) requires old(self)@.lo + 8 <= old(self)@.hi
        ensures r == sx64(be64(old(self)@.data, old(self)@.lo)), final(self)@ == adv(old(self)@, 8) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_f32(&mut self) -> (r: f32) requires old(self)@.lo + 4 <= old(self)@.hi
        ensures bits32(r) == be32(old(self)@.data, old(self)@.lo), final(self)@ == adv(old(self)@, 4) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_f64(&mut self) -> (r: f64) requires old(self)@.lo + 8 <= old(self)@.hi
        ensures bits64(r) == be64(old(self)@.data, old(self)@.lo), final(self)@ == adv(old(self)@, 8) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires old(self)@.lo + n <= old(self)@.hi
        ensures final(self)@ == adv(old(self)@, n as int) { unimplemented!() }
    /// Bytes::slice(a..b): shares the allocation (an empty slice is a fresh empty Bytes)
    #[verifier::external_body]
    pub fn vf_slice(&self, a: usize, b: usize) -> (r: Bytes) requires a <= b, self@.lo + b <= self@.hi
        ensures r.content() == self@.data.subrange(self@.lo + a, self@.lo + b),
            a < b ==> r@ == (Cur { lo: self@.lo + a, hi: self@.lo + b, ..self@ }), r@.hi - r@.lo == b - a { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_slice_from(&self, a: usize) -> (r: Bytes) requires self@.lo + a <= self@.hi
        ensures r.content() == self@.data.subrange(self@.lo + a, self@.hi),
            self@.lo + a < self@.hi ==> r@ == (Cur { lo: self@.lo + a, ..self@ }), r@.hi - r@.lo == self@.hi - self@.lo - a { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires old(self)@.lo + n <= old(self)@.hi
        ensures r.content() == old(self)@.data.subrange(old(self)@.lo, old(self)@.lo + n), r@.hi - r@.lo == n,
            n > 0 ==> r@ == (Cur { hi: old(self)@.lo + n, ..old(self)@ }), final(self)@ == adv(old(self)@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) requires old(self)@.lo + n <= old(self)@.hi
        ensures r.content() == old(self)@.data.subrange(old(self)@.lo, old(self)@.lo + n), r@.hi - r@.lo == n,
            n > 0 ==> r@ == (Cur { hi: old(self)@.lo + n, ..old(self)@ }), final(self)@ == adv(old(self)@, n as int) { unimplemented!() }
    /// a copy: same content, nothing known about the allocation it lives in
    #[verifier::external_body]
    pub fn copy_from_slice(s: &[u8]) -> (r: Bytes)
        ensures r.content() == s@, r@.hi - r@.lo == s@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.content() { unimplemented!() }
    /// `.into_iter().collect::<Vec<u8>>()`
    #[verifier::external_body]
    pub fn vf_collect(self) -> (r: Vec<u8>) ensures r@ == self.content() { unimplemented!() }
}
impl Clone for Bytes {
    #[verifier::external_body]
    fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
impl core::convert::From<Vec<u8>> for Bytes {
    #[verifier::external_body]
    fn from(v: Vec<u8>) -> (r: Bytes) ensures r.content() == v@, r@.hi - r@.lo == v@.len() { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<Vec<u8>> for Bytes {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Vec<u8>) -> Self { arbitrary() }
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub uninterp spec fn utf8_ok(s: Seq<u8>) -> bool;
/// the UTF-8 bytes of a String
pub uninterp spec fn sb(s: String) -> Seq<u8>;
pub broadcast axiom fn sb_wf(s: String) ensures (#[trigger] sb(s)).len() <= isize::MAX;
pub assume_specification [String::from_utf8](b: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> utf8_ok(b@), r is Ok ==> sb(r->Ok_0) == b@;
pub assume_specification [String::len](s: &String) -> (r: usize)
    ensures r == sb(*s).len();
pub assume_specification [usize::wrapping_neg] (x: usize) -> (r: usize) ensures r == (if x == 0 { 0 } else { usize::MAX - x + 1 });
pub assume_specification [usize::next_multiple_of] (x: usize, m: usize) -> (r: usize) requires m > 0, x + m <= usize::MAX + 1 ensures r == x + (m - x % m) % (m as int);
// bit masks of the padding arithmetic
pub broadcast proof fn bit_and3(x: usize) ensures #[trigger] (x & 3) == x % 4 { assert(x & 3 == x % 4) by (bit_vector); }
pub broadcast proof fn bit_mask3(x: usize) ensures #[trigger] (x & !3) == x - x % 4 { assert(x & !3 == sub(x, x % 4) && x % 4 <= x) by (bit_vector); }
pub broadcast proof fn bit_shr2(x: usize) ensures #[trigger] (x >> 2) == x / 4 { assert(x >> 2 == x / 4) by (bit_vector); }
pub broadcast proof fn bit_shl2(x: usize) requires x <= usize::MAX / 4 ensures #[trigger] (x << 2) == x * 4
{ assert(x <= 0x3fff_ffff_ffff_ffffusize ==> x << 2 == mul(x, 4)) by (bit_vector); }
pub broadcast proof fn bit_not(x: usize) ensures #[trigger] (!x) == usize::MAX - x { assert(!x == sub(usize::MAX, x)) by (bit_vector); }
#[verifier::external_body]
pub fn vf_err_from(e: std::string::FromUtf8Error) -> (r: Error) ensures kind(r) == K::Utf8 { unimplemented!() }

// ---- explicit reservations: what is asked for must be backed by the bytes at hand or by a declared maximum ----
#[verifier::external_body]
pub fn vf_with_capacity<T>(n: usize, Ghost(budget): Ghost<int>) -> (r: Vec<T>)
    requires n <= budget,
    ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vf_reserve<T>(v: &mut Vec<T>, n: usize, Ghost(budget): Ghost<int>)
    requires n <= budget,
    ensures final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body]
pub fn vf_vec<T>(e: T, n: usize, Ghost(budget): Ghost<int>) -> (r: Vec<T>)
    requires n <= budget,
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == e { unimplemented!() }

// ---- error kinds and parse results ----
pub ghost enum K { Len, Utf8, Bool, Var(int), Opt(int), Other }
pub ghost enum R { Ok(int), Err(K) }
pub open spec fn kind(e: Error) -> K {
    match e {
        Error::InvalidLength => K::Len,
        Error::NonUtf8String(_) => K::Utf8,
        Error::InvalidBoolean => K::Bool,
        Error::UnknownVariant(v) => K::Var(v as int),
        Error::UnknownOptionVariant(v) => K::Opt(v as int),
        Error::Unknown(_) => K::Other,
    }
}

// ---- the wire format (RFC 4506), written from the RFC ----
#[verifier::opaque]
pub open spec fn padn(n: int) -> nat { if n % 4 == 0 { 0 } else { (4 - n % 4) as nat } }
pub open spec fn e_w(hi: int, p: int, n: int) -> R { if p + n <= hi { R::Ok(p + n) } else { R::Err(K::Len) } }
pub open spec fn v_u32(x: u32, d: Seq<u8>, p: int) -> bool { x == be32(d, p) }
pub open spec fn v_i32(x: i32, d: Seq<u8>, p: int) -> bool { x == sx32(be32(d, p)) }
pub open spec fn v_u64(x: u64, d: Seq<u8>, p: int) -> bool { x == be64(d, p) }
pub open spec fn v_i64(x: i64, d: Seq<u8>, p: int) -> bool { x == sx64(be64(d, p)) }
pub open spec fn v_f32(x: f32, d: Seq<u8>, p: int) -> bool { bits32(x) == be32(d, p) }
pub open spec fn v_f64(x: f64, d: Seq<u8>, p: int) -> bool { bits64(x) == be64(d, p) }
pub open spec fn e_bool(d: Seq<u8>, hi: int, p: int) -> R {
    if p + 4 > hi { R::Err(K::Len) } else if be32(d, p) <= 1 { R::Ok(p + 4) } else { R::Err(K::Bool) }
}
pub open spec fn v_bool(x: bool, d: Seq<u8>, p: int) -> bool { x == (be32(d, p) == 1) }
/// n payload bytes and their padding
pub open spec fn e_fix(hi: int, p: int, n: int) -> R { if p + n + padn(n) <= hi { R::Ok(p + n + padn(n)) } else { R::Err(K::Len) } }
pub open spec fn v_fix(x: Bytes, d: Seq<u8>, p: int, n: int) -> bool { x.content() == d.subrange(p, p + n) && x@.hi - x@.lo == n }
/// the payload is a window of the input at its wire offset
pub open spec fn a_fix(x: Bytes, al: int, p: int, n: int) -> bool { n > 0 ==> x@.alloc == al && x@.lo == p && x@.hi == p + n }
/// a counted payload; mx < 0: no declared maximum
pub open spec fn e_cnt(d: Seq<u8>, hi: int, p: int, mx: int) -> R {
    if p + 4 > hi { R::Err(K::Len) }
    else if mx >= 0 && be32(d, p) > mx { R::Err(K::Len) }
    else { e_fix(hi, p + 4, be32(d, p) as int) }
}
pub open spec fn v_cnt(x: Bytes, d: Seq<u8>, p: int) -> bool { v_fix(x, d, p + 4, be32(d, p) as int) }
pub open spec fn a_cnt(x: Bytes, al: int, d: Seq<u8>, p: int) -> bool { a_fix(x, al, p + 4, be32(d, p) as int) }
pub open spec fn s_op(x: Bytes) -> nat { (x@.hi - x@.lo) as nat + padn(x@.hi - x@.lo) }
pub open spec fn e_str(d: Seq<u8>, hi: int, p: int, mx: int) -> R {
    match e_cnt(d, hi, p, mx) {
        R::Ok(q) => if utf8_ok(d.subrange(p + 4, p + 4 + be32(d, p))) { R::Ok(q) } else { R::Err(K::Utf8) },
        R::Err(k) => R::Err(k),
    }
}
pub open spec fn v_str(x: String, d: Seq<u8>, p: int) -> bool { sb(x) == d.subrange(p + 4, p + 4 + be32(d, p)) }
pub open spec fn s_str(x: String) -> nat { 4 + sb(x).len() + padn(sb(x).len() as int) }
pub open spec fn opt_max(m: Option<usize>) -> int { match m { Some(v) => v as int, None => -1 } }
pub proof fn lem_padn(n: int) ensures 0 <= padn(n) < 4, n >= 0 ==> (n + padn(n)) % 4 == 0, n % 4 == 0 ==> padn(n) == 0 { reveal(padn); }
pub proof fn lem_add4(a: nat, b: nat) ensures a % 4 == 0 && b % 4 == 0 ==> (a + b) % 4 == 0 { }
pub proof fn lem_s_op(x: Bytes) ensures s_op(x) % 4 == 0, (4 + s_op(x)) % 4 == 0 { broadcast use bytes_wf; lem_padn(x@.hi - x@.lo); }
pub proof fn lem_s_str(x: String) ensures s_str(x) % 4 == 0 { lem_padn(sb(x).len() as int); }

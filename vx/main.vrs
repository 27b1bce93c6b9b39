// ---- trusted model of the process: arguments, files, what has been printed (assumed contracts) ----
#[verifier::external_body] pub struct World { x: u8 }
#[verifier::external_body] pub struct OsString { x: u8 }
pub struct Fs { pub f: Map<OsString, Seq<char>> }
impl World {
    pub uninterp spec fn args(&self) -> Seq<OsString>;
    pub uninterp spec fn fs(&self) -> Fs;
    pub uninterp spec fn out(&self) -> Seq<char>;
    /// something was printed, on either stream
    pub uninterp spec fn said(&self) -> bool;
    pub open spec fn same(&self, o: &World) -> bool { self.args() == o.args() && self.fs() == o.fs() }
}
#[verifier::external_body] pub fn vf_args(w: &mut World) -> (r: VIter<OsString>) ensures *final(w) == *old(w), r.pos() == 0, r.all() == old(w).args() { unimplemented!() }
/// env::args panics on an argument that is not Unicode
pub uninterp spec fn unicode(s: Seq<OsString>) -> bool;
#[verifier::external_body] pub fn vf_args_str(w: &mut World) -> (r: VIter<OsString>) requires unicode(old(w).args()) ensures *final(w) == *old(w), r.pos() == 0, r.all() == old(w).args() { unimplemented!() }
pub trait VPath { spec fn pv(&self) -> OsString; }
impl VShow for VErr { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut String) -> (r: Result<()>) { unimplemented!() } }
pub open spec fn paths<P: VPath>(s: Seq<P>) -> Seq<OsString> { s.map_values(|x: P| x.pv()) }
impl OsString {
    #[verifier::external_body] pub fn vf_from<P: VPath>(p: P) -> (r: OsString) ensures r == p.pv() { unimplemented!() }
    #[verifier::external_body] pub fn new<P: VPath>(p: &P) -> (r: &OsString) ensures *r == p.pv() { unimplemented!() }
}
impl Clone for OsString { #[verifier::external_body] fn clone(&self) -> (r: OsString) ensures r == *self { unimplemented!() } }
/// v[n..]
#[verifier::external_body] pub fn vf_tail<T>(v: &Vec<T>, n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }
impl VPath for OsString { open spec fn pv(&self) -> OsString { *self } }
impl<T: VPath> VPath for &T { open spec fn pv(&self) -> OsString { (**self).pv() } }
/// a file holds the same text every time it is read; one that is not UTF-8 text cannot be read
#[verifier::external_body] pub fn vf_read<P: VPath>(w: &mut World, p: P) -> (r: Result<String>) ensures *final(w) == *old(w), r is Ok == old(w).fs().f.dom().contains(p.pv()), r is Ok ==> r->Ok_0@ == old(w).fs().f[p.pv()] { unimplemented!() }
/// standard output takes everything that is written to it
#[verifier::external_body] pub fn vf_print(w: &mut World, t: &str) ensures final(w).same(old(w)), final(w).out() == old(w).out() + t@, final(w).said() == (old(w).said() || t@.len() > 0) { unimplemented!() }
#[verifier::external_body] pub fn vf_eprint(w: &mut World, t: &str) ensures final(w).same(old(w)), final(w).out() == old(w).out(), final(w).said() == (old(w).said() || t@.len() > 0) { unimplemented!() }
#[verifier::external_body] pub fn vf_exit(w: &mut World, c: i32) -> ! requires may_end(*old(w), c == 0), c != 0 ==> old(w).said() { unimplemented!() }
impl VIter<OsString> {
    #[verifier::external_body] pub fn vf_next(&mut self) -> (r: Option<OsString>) ensures final(self).all() == old(self).all(), r is Some == (old(self).pos() < old(self).all().len()), r is Some ==> r->Some_0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1, r is None ==> final(self).pos() == old(self).pos() { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<OsString>) ensures final(self).all() == old(self).all(), r is Some == (old(self).pos() < old(self).all().len()), r is Some ==> r->Some_0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1, r is None ==> final(self).pos() == old(self).pos() { self.vf_next() }
    pub fn len(&self) -> (r: usize) ensures r == self.all().len() - self.pos() { self.vf_len() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: VIter<OsString>) requires self.pos() + n <= usize::MAX ensures r.all() == self.all(), r.pos() == (if self.pos() + n <= self.all().len() { self.pos() + n } else { self.all().len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn vf_len(&self) -> (r: usize) ensures r == self.all().len() - self.pos() { unimplemented!() }
    #[verifier::external_body] pub fn vf_collect(self) -> (r: Vec<OsString>) ensures r@ == self.ielems() { unimplemented!() }
}
pub trait VOsOpt { fn vf_unwrap_or_default(self) -> OsString; }
impl VOsOpt for Option<OsString> { #[verifier::external_body] fn vf_unwrap_or_default(self) -> OsString { unimplemented!() } }
impl Default for OsString { #[verifier::external_body] fn default() -> OsString { unimplemented!() } }
impl OsString { #[verifier::external_body] pub fn to_string_lossy(&self) -> String { unimplemented!() } #[verifier::external_body] pub fn vf_to_string_lossy(&self) -> String { unimplemented!() } }

// ---- what the program has to do ----
pub struct Generator { pub derive: String }
/// the text a generator returns for a specification text
pub uninterp spec fn generated(derive: Seq<char>, text: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn default_derive() -> Seq<char>;
impl Generator {
    #[verifier::external_body] pub fn default() -> (r: Generator) ensures r.derive@ == default_derive() { unimplemented!() }
    #[verifier::external_body] pub fn with_derive<S: AsRefStr>(self, d: S) -> (r: Generator) ensures r.derive@ == d.sv() { unimplemented!() }
    #[verifier::external_body] pub fn generate<S: AsRefStr>(&self, t: S) -> (r: Result<String>) ensures r is Ok == generated(self.derive@, t.sv()) is Some, r is Ok ==> r->Ok_0@ == generated(self.derive@, t.sv())->Some_0 { unimplemented!() }
}
/// the texts for the first n files, one after the other; None when one cannot be read or is rejected
pub open spec fn text1(a: Seq<OsString>, f: Fs, n: nat) -> Option<Seq<char>> { let p = a[n as int]; if !f.f.dom().contains(p) { None } else { generated(default_derive(), f.f[p]) } }
pub open spec fn texts(a: Seq<OsString>, f: Fs, n: nat) -> Option<Seq<char>> decreases n {
    if n == 0 { Some(Seq::empty()) } else {
        match (texts(a, f, (n - 1) as nat), text1(a, f, n)) { (Some(t), Some(g)) => Some(t + g), _ => None }
    }
}
pub open spec fn files(w: World) -> int { w.args().len() - 1 }
pub open spec fn may_end(w: World, ok: bool) -> bool { ok == (files(w) >= 1 && texts(w.args(), w.fs(), files(w) as nat) is Some) && (ok ==> w.out() == texts(w.args(), w.fs(), files(w) as nat)->Some_0) }
pub proof fn texts_none(a: Seq<OsString>, f: Fs, n: nat, m: nat) requires n <= m, texts(a, f, n) is None ensures texts(a, f, m) is None decreases m { if n < m { texts_none(a, f, n, (m - 1) as nat); } }
/// what the loop has to know about its next file
pub proof fn texts_step(a: Seq<OsString>, f: Fs, n: nat) requires n + 1 < a.len(), texts(a, f, n) is Some
    ensures text1(a, f, n + 1) is None ==> texts(a, f, (a.len() - 1) as nat) is None, text1(a, f, n + 1) is Some ==> texts(a, f, n + 1) == Some(texts(a, f, n)->Some_0 + text1(a, f, n + 1)->Some_0)
{ if text1(a, f, n + 1) is None { texts_none(a, f, n + 1, (a.len() - 1) as nat); } }

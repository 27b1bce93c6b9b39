// ---- trusted model of text output (assumed contracts; no code of /repo here) ----
/// a Display implementation ends in Ok (a String writer never fails); where the text matters, `text` relates what was written before to what is written after
pub trait VShow {
    spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool;
    fn fmt(&self, f: &mut String) -> (r: Result<()>) ensures r is Ok,
        self.text(old(f)@, final(f)@);  // @TEXT@
}
pub trait VOut: Sized {
    spec fn ov(&self) -> Seq<char>;
    // the weaver writes no empty literal
    fn vf_lit(&mut self, s: &str) ensures final(self).ov() == old(self).ov() + s@, final(self).ov().len() > old(self).ov().len();
    fn vf_show<T: VShow + ?Sized>(&mut self, x: &T) ensures x.text(old(self).ov(), final(self).ov());
    fn vf_show_as<T: ?Sized>(&mut self, x: &T, spec: &str);
}
impl VOut for String {
    open spec fn ov(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vf_lit(&mut self, s: &str) { unimplemented!() }
    fn vf_show<T: VShow + ?Sized>(&mut self, x: &T) { let vf_r = x.fmt(self); }
    #[verifier::external_body] fn vf_show_as<T: ?Sized>(&mut self, x: &T, spec: &str) { unimplemented!() }
}
pub fn vf_wrote() -> (r: Result<()>) ensures r is Ok { Ok(()) }
#[verifier::external_body] pub fn vf_text() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// the text of the file named by include_str!
#[verifier::external_body] pub fn vf_include() -> &'static str { unimplemented!() }
impl VShow for str { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + self@ } #[verifier::external_body] fn fmt(&self, f: &mut String) -> (r: Result<()>) { unimplemented!() } }
impl VShow for String { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + self@ } #[verifier::external_body] fn fmt(&self, f: &mut String) -> (r: Result<()>) { unimplemented!() } }
impl VShow for char { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + seq![*self] } #[verifier::external_body] fn fmt(&self, f: &mut String) -> (r: Result<()>) { unimplemented!() } }
/// decimal notation
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VShow for u32 { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + dec(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut String) -> (r: Result<()>) { unimplemented!() } }
impl VShow for i32 { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + dec(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut String) -> (r: Result<()>) { unimplemented!() } }
impl VShow for usize { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + dec(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut String) -> (r: Result<()>) { unimplemented!() } }
impl<T: VShow + ?Sized> VShow for &T { open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { (**self).text(a, b) } fn fmt(&self, f: &mut String) -> (r: Result<()>) { (**self).fmt(f) } }
pub trait VToS { fn vf_to_string(&self) -> (r: String); }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait VLow { spec fn lv(&self) -> Seq<char>; fn vf_lower(&self) -> (r: String) ensures r@ == lower(self.lv()); }
impl VLow for str { open spec fn lv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vf_lower(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn numeric(c: char) -> bool;
#[verifier::external_body] pub fn vf_is_numeric(c: char) -> (r: bool) ensures r == numeric(c) { unimplemented!() }
#[verifier::external_body] pub fn vf_first(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vf_as_deref<'a>(s: &'a Option<String>) -> (r: Option<&'a str>) ensures r is Some == *s is Some, r is Some ==> r->Some_0@ == s->Some_0@ { unimplemented!() }
#[verifier::external_body] pub fn vf_split_nth<'a>(s: &'a str, p: &str, n: usize) -> Option<&'a str> { unimplemented!() }
#[verifier::external_body] pub fn vf_slice<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { unimplemented!() }
pub trait VJoin { fn vf_join(&self, p: &str) -> String; }
impl VJoin for Vec<&str> { #[verifier::external_body] fn vf_join(&self, p: &str) -> String { unimplemented!() } }
impl VJoin for Vec<String> { #[verifier::external_body] fn vf_join(&self, p: &str) -> String { unimplemented!() } }
impl<T> VElems<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter<'b>(&'b self) -> (r: VIter<&'b T>) { unimplemented!() } }
impl<T> VInto<T> for VIter<T> { open spec fn ielems(&self) -> Seq<T> { if self.pos() == 0 { self.all() } else { self.all().skip(self.pos()) } } #[verifier::external_body] fn vf_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
/// the values of a map, by key order
pub uninterp spec fn mvalues<V>(m: Map<Seq<char>, V>) -> Seq<V>;
pub uninterp spec fn mpairs<V>(m: Map<Seq<char>, V>) -> Seq<(String, V)>;
impl<V> BTreeMap<String, V> {
    #[verifier::external_body] pub fn vf_values<'b>(&'b self) -> (r: VIter<&'b V>) ensures r.pos() == 0, refs(r.all(), mvalues(self@)) { unimplemented!() }
    #[verifier::external_body] pub fn vf_iter<'b>(&'b self) -> (r: VIter<(&'b String, &'b V)>) ensures r.pos() == 0, r.all().len() == mpairs(self@).len(), forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]).0 == mpairs(self@)[i].0 && *r.all()[i].1 == mpairs(self@)[i].1 { unimplemented!() }
}
/// Rust's reserved words, and the words Rust keeps for later
pub open spec fn reserved(s: Seq<char>) -> bool { @KW@ }
pub open spec fn true_false(s: Seq<char>) -> bool { s == "TRUE"@ || s == "FALSE"@ }
/// the Rust name of a field
pub open spec fn safe(s: Seq<char>) -> Seq<char> { if reserved(s) { s + "_v"@ } else if true_false(s) { lower(s) } else { s } }
/// the Rust spelling of a type name
pub open spec fn type_name_text(s: Seq<char>) -> Seq<char> { let n = if true_false(s) { lower(s) } else { s }; if reserved(n) { n + "_v"@ } else { n } }
/// the Rust name of an arm
pub open spec fn nondigit(s: Seq<char>) -> Seq<char> { if s.len() > 0 && numeric(s[0]) { "v_"@ + s } else { s } }
pub trait VOptRef { type R; fn vf_as_ref(self) -> Self::R; }
impl<'a, T> VOptRef for &'a Option<T> { type R = Option<&'a T>; fn vf_as_ref(self) -> (r: Option<&'a T>) ensures r is Some == *self is Some, r is Some ==> *r->Some_0 == self->Some_0 { self.as_ref() } }
pub broadcast proof fn cat3(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn cat0(b: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + b) == b { assert(Seq::<char>::empty() + b =~= b); }
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

// ---- RFC 4506 encodings as byte sequences, and what decoding them must give (no code of /repo here) ----
pub broadcast axiom fn string_is_utf8(s: String) ensures utf8_ok(#[trigger] sb(s));
pub open spec fn at(d: Seq<u8>, p: int, s: Seq<u8>) -> bool { 0 <= p && p + s.len() <= d.len() && d.subrange(p, p + s.len()) == s }
pub proof fn at_cat(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    ensures at(d, p, a + b) == (at(d, p, a) && at(d, p + a.len(), b)), (a + b).len() == a.len() + b.len()
{
    if at(d, p, a + b) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] d.subrange(p, p + a.len())[i] == a[i] by { assert((a + b)[i] == d.subrange(p, p + (a + b).len())[i]); }
        assert(d.subrange(p, p + a.len()) =~= a);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] d.subrange(p + a.len(), p + a.len() + b.len())[i] == b[i] by { assert((a + b)[a.len() + i] == d.subrange(p, p + (a + b).len())[a.len() + i]); }
        assert(d.subrange(p + a.len(), p + a.len() + b.len()) =~= b);
    } else if at(d, p, a) && at(d, p + a.len(), b) {
        assert forall|i: int| 0 <= i < a.len() + b.len() implies #[trigger] d.subrange(p, p + (a + b).len())[i] == (a + b)[i] by {
            if i < a.len() { assert(d.subrange(p, p + a.len())[i] == a[i]); } else { assert(d.subrange(p + a.len(), p + a.len() + b.len())[i - a.len()] == b[i - a.len()]); }
        }
        assert(d.subrange(p, p + (a + b).len()) =~= a + b);
    }
}
pub open spec fn enc_u32(x: u32) -> Seq<u8> { seq![(x / 256 / 256 / 256) as u8, (x / 256 / 256 % 256) as u8, (x / 256 % 256) as u8, (x % 256) as u8] }
pub open spec fn enc_u64(x: u64) -> Seq<u8> { enc_u32((x / 0x1_0000_0000) as u32) + enc_u32((x % 0x1_0000_0000) as u32) }
/// two's complement
pub open spec fn enc_i32(x: i32) -> Seq<u8> { enc_u32((if x < 0 { x + 0x1_0000_0000 } else { x as int }) as u32) }
pub open spec fn enc_i64(x: i64) -> Seq<u8> { enc_u64((if x < 0 { x + 0x1_0000_0000_0000_0000 } else { x as int }) as u64) }
pub open spec fn enc_f32(x: f32) -> Seq<u8> { enc_u32(bits32(x)) }
pub open spec fn enc_f64(x: f64) -> Seq<u8> { enc_u64(bits64(x)) }
pub open spec fn enc_bool(x: bool) -> Seq<u8> { enc_u32(if x { 1u32 } else { 0u32 }) }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn enc_raw(c: Seq<u8>) -> Seq<u8> { c + zeros(padn(c.len() as int)) }
pub open spec fn enc_fix(x: Bytes) -> Seq<u8> { enc_raw(x.content()) }
pub open spec fn enc_cnt(x: Bytes) -> Seq<u8> { enc_u32(x.content().len() as u32) + enc_raw(x.content()) }
pub open spec fn enc_str(x: String) -> Seq<u8> { enc_u32(sb(x).len() as u32) + enc_raw(sb(x)) }
pub proof fn le_u32(x: u32, d: Seq<u8>, p: int) requires at(d, p, enc_u32(x)) ensures be32(d, p) == x, enc_u32(x).len() == 4 {
    let s = enc_u32(x);
    assert(d[p] == s[0]) by { assert(d.subrange(p, p + 4)[0] == s[0]); }
    assert(d[p + 1] == s[1]) by { assert(d.subrange(p, p + 4)[1] == s[1]); }
    assert(d[p + 2] == s[2]) by { assert(d.subrange(p, p + 4)[2] == s[2]); }
    assert(d[p + 3] == s[3]) by { assert(d.subrange(p, p + 4)[3] == s[3]); }
    le_digits(x, d[p], d[p + 1], d[p + 2], d[p + 3]);
    reveal(be32);
}
pub proof fn le_digits(x: u32, a: u8, b: u8, c: u8, e: u8)
    requires a == (x / 256 / 256 / 256) as u8, b == (x / 256 / 256 % 256) as u8, c == (x / 256 % 256) as u8, e == (x % 256) as u8
    ensures a as int * 0x100_0000 + b as int * 0x1_0000 + c as int * 0x100 + e as int == x
{
    let h1 = x / 256; let h2 = h1 / 256; let h3 = h2 / 256;
    assert(x == 256 * h1 + e); assert(h1 == 256 * h2 + c); assert(h2 == 256 * h3 + b); assert(h3 == a);
}
pub proof fn le_u64(x: u64, d: Seq<u8>, p: int) requires at(d, p, enc_u64(x)) ensures be64(d, p) == x, enc_u64(x).len() == 8 {
    reveal(be64);
    at_cat(d, p, enc_u32((x / 0x1_0000_0000) as u32), enc_u32((x % 0x1_0000_0000) as u32));
    le_u32((x / 0x1_0000_0000) as u32, d, p);
    le_u32((x % 0x1_0000_0000) as u32, d, p + 4);
}
pub proof fn le_i32(x: i32, d: Seq<u8>, p: int) requires at(d, p, enc_i32(x)) ensures sx32(be32(d, p)) == x, enc_i32(x).len() == 4 {
    reveal(sx32);
    le_u32((if x < 0 { x + 0x1_0000_0000 } else { x as int }) as u32, d, p);
}
pub proof fn le_i64(x: i64, d: Seq<u8>, p: int) requires at(d, p, enc_i64(x)) ensures sx64(be64(d, p)) == x, enc_i64(x).len() == 8 {
    reveal(sx64);
    le_u64((if x < 0 { x + 0x1_0000_0000_0000_0000 } else { x as int }) as u64, d, p);
}
pub proof fn le_f32(x: f32, d: Seq<u8>, p: int) requires at(d, p, enc_f32(x)) ensures be32(d, p) == bits32(x), enc_f32(x).len() == 4 { le_u32(bits32(x), d, p); }
pub proof fn le_f64(x: f64, d: Seq<u8>, p: int) requires at(d, p, enc_f64(x)) ensures be64(d, p) == bits64(x), enc_f64(x).len() == 8 { le_u64(bits64(x), d, p); }
pub proof fn le_bool(x: bool, d: Seq<u8>, p: int) requires at(d, p, enc_bool(x)) ensures be32(d, p) == (if x { 1u32 } else { 0u32 }), enc_bool(x).len() == 4 { le_u32(if x { 1u32 } else { 0u32 }, d, p); }
pub proof fn le_raw(c: Seq<u8>, d: Seq<u8>, p: int)
    requires at(d, p, enc_raw(c))
    ensures d.subrange(p, p + c.len()) == c, enc_raw(c).len() == c.len() + padn(c.len() as int)
{ at_cat(d, p, c, zeros(padn(c.len() as int))); }
pub proof fn le_fix(x: Bytes, n: int, d: Seq<u8>, hi: int, p: int)
    requires x.content().len() == n, at(d, p, enc_fix(x)), p + enc_fix(x).len() <= hi <= d.len()
    ensures e_fix(hi, p, n) == R::Ok(p + enc_fix(x).len()), v_fix(x, d, p, n), s_op(x) == enc_fix(x).len()
{ broadcast use bytes_wf; le_raw(x.content(), d, p); }
pub proof fn le_cnt(x: Bytes, mx: int, d: Seq<u8>, hi: int, p: int)
    requires x.content().len() <= u32::MAX, mx >= 0 ==> x.content().len() <= mx, at(d, p, enc_cnt(x)), p + enc_cnt(x).len() <= hi <= d.len()
    ensures e_cnt(d, hi, p, mx) == R::Ok(p + enc_cnt(x).len()), v_cnt(x, d, p), 4 + s_op(x) == enc_cnt(x).len()
{ broadcast use bytes_wf; at_cat(d, p, enc_u32(x.content().len() as u32), enc_raw(x.content())); le_u32(x.content().len() as u32, d, p); le_raw(x.content(), d, p + 4); }
pub proof fn le_str(x: String, mx: int, d: Seq<u8>, hi: int, p: int)
    requires sb(x).len() <= u32::MAX, mx >= 0 ==> sb(x).len() <= mx, at(d, p, enc_str(x)), p + enc_str(x).len() <= hi <= d.len()
    ensures e_str(d, hi, p, mx) == R::Ok(p + enc_str(x).len()), v_str(x, d, p), s_str(x) == enc_str(x).len()
{ broadcast use string_is_utf8; at_cat(d, p, enc_u32(sb(x).len() as u32), enc_raw(sb(x))); le_u32(sb(x).len() as u32, d, p); le_raw(sb(x), d, p + 4); }

// ---- the same bytes elsewhere ----
pub open spec fn same(d: Seq<u8>, p: int, q: int, d2: Seq<u8>, sh: int) -> bool {
    &&& 0 <= p && 0 <= p + sh && q <= d.len() && q + sh <= d2.len()
    &&& forall|i: int| p <= i < q ==> #[trigger] d[i] == d2[i + sh]
}
pub proof fn lo_32(d: Seq<u8>, p: int, q: int, d2: Seq<u8>, sh: int) requires same(d, p, q, d2, sh), p + 4 <= q ensures be32(d2, p + sh) == be32(d, p) { reveal(be32); }
pub proof fn lo_64(d: Seq<u8>, p: int, q: int, d2: Seq<u8>, sh: int) requires same(d, p, q, d2, sh), p + 8 <= q ensures be64(d2, p + sh) == be64(d, p) {
    reveal(be64); lo_32(d, p, p + 4, d2, sh); lo_32(d, p + 4, p + 8, d2, sh); }
pub proof fn lo_fix(d: Seq<u8>, p: int, q: int, d2: Seq<u8>, sh: int, n: int) requires same(d, p, q, d2, sh), n >= 0, p + n <= q
    ensures d2.subrange(p + sh, p + sh + n) == d.subrange(p, p + n) {
    assert forall|i: int| 0 <= i < n implies #[trigger] d2.subrange(p + sh, p + sh + n)[i] == d.subrange(p, p + n)[i] by { assert(d[p + i] == d2[p + i + sh]); }
    assert(d2.subrange(p + sh, p + sh + n) =~= d.subrange(p, p + n));
}
/// a counted payload that fits
pub proof fn lo_cnt(d: Seq<u8>, p: int, q: int, d2: Seq<u8>, sh: int)
    requires same(d, p, q, d2, sh), p + 4 <= q, p + 4 + be32(d, p) <= q
    ensures be32(d2, p + sh) == be32(d, p), d2.subrange(p + sh + 4, p + sh + 4 + be32(d, p)) == d.subrange(p + 4, p + 4 + be32(d, p))
{ lo_32(d, p, q, d2, sh); lo_fix(d, p + 4, q, d2, sh, be32(d, p) as int); }

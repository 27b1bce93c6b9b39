//! Runs the contracts that vx/*.vrs assume of std, bytes and pest against the real crates, on small inputs
//! taken exhaustively and on boundary values.  Prints one line per group: `group cases` or `group FAILED what`.
use bytes::{Buf, Bytes};
use pest::Parser;
use std::collections::{BTreeMap, HashSet};

struct G { name: &'static str, n: u64, bad: Option<String> }
impl G {
    fn new(name: &'static str) -> G { G { name, n: 0, bad: None } }
    fn ck(&mut self, ok: bool, what: impl FnOnce() -> String) { self.n += 1; if !ok && self.bad.is_none() { self.bad = Some(what()); } }
    fn end(self, fail: &mut bool) {
        match self.bad { None => println!("{} {}", self.name, self.n), Some(w) => { *fail = true; println!("{} FAILED {}", self.name, w.replace('\n', " ")) } }
    }
}

// ---- vx/base.vrs: Bytes as a window [lo, hi) of one allocation ----
fn be(d: &[u8]) -> u64 { d.iter().fold(0, |a, b| a * 256 + *b as u64) }
fn window(b: &Bytes, base: *const u8, lo: usize, hi: usize, d: &[u8]) -> bool {
    b.len() == hi - lo && &b[..] == &d[lo..hi] && (lo == hi || b.as_ptr() as usize - base as usize == lo)
}
fn bytes_ops(g: &mut G) {
    let pats: Vec<Box<dyn Fn(usize) -> u8>> = vec![Box::new(|i| i as u8), Box::new(|i| 0xFF - i as u8), Box::new(|i| if i % 2 == 0 { 0x7F } else { 0x80 }), Box::new(|_| 0), Box::new(|_| 0xFF),
        Box::new(|i| [0x7F, 0x80, 0, 1][i % 4]), Box::new(|i| [0x7F, 0xF8, 0, 0, 0, 0, 0, 1][i % 8])];
    for kind in 0..3 { for p in &pats { for n in 0..=18usize {
        let v: Vec<u8> = (0..n).map(|i| p(i)).collect();
        let whole: Bytes = match kind { 0 => Bytes::from(v.clone()), 1 => Bytes::copy_from_slice(&v), _ => Bytes::from_static(Box::leak(v.clone().into_boxed_slice())) };
        g.ck(&whole[..] == &v[..], || "content".into());
        let base = whole.as_ptr();
        for lo in 0..=n { for hi in lo..=n {
            let w = whole.slice(lo..hi);
            let k = hi - lo;
            g.ck(window(&w, base, lo, hi, &v), || format!("slice {lo}..{hi}"));
            g.ck(w.remaining() == k && w.len() == k && w.is_empty() == (k == 0) && w.has_remaining() == (k != 0) && w.to_vec() == &v[lo..hi], || "len".into());
            g.ck(w.clone().into_iter().collect::<Vec<u8>>() == &v[lo..hi], || "collect".into());
            let c = w.clone();
            g.ck(window(&c, base, lo, hi, &v), || "clone".into());
            if lo == hi || kind != 1 || n < 12 {
                for a in 0..=k {
                    g.ck(window(&w.slice(a..), base, lo + a, hi, &v), || "slice from".into());
                    for b in a..=k { g.ck(window(&w.slice(a..b), base, lo + a, lo + b, &v), || "slice".into()); }
                }
            }
            for m in 0..=k {
                let mut x = w.clone(); x.advance(m);
                g.ck(window(&x, base, lo + m, hi, &v), || "advance".into());
                let mut x = w.clone(); let y = x.split_to(m);
                g.ck(window(&x, base, lo + m, hi, &v) && window(&y, base, lo, lo + m, &v), || "split_to".into());
                let mut x = w.clone(); let y = x.copy_to_bytes(m);
                g.ck(window(&x, base, lo + m, hi, &v) && window(&y, base, lo, lo + m, &v), || "copy_to_bytes".into());
            }
            macro_rules! get { ($f:ident, $w:expr, |$r:ident, $e:ident| $ok:expr) => { if k >= $w {
                let mut x = w.clone(); let $r = x.$f(); let $e = be(&v[lo..lo + $w]);
                g.ck($ok, || stringify!($f).into());
                g.ck(window(&x, base, lo + $w, hi, &v), || concat!(stringify!($f), " moves").into());
            } } }
            get!(get_u8, 1, |r, e| r as u64 == e);
            get!(get_u32, 4, |r, e| r as u64 == e);
            get!(get_i32, 4, |r, e| r as i128 == if e < 0x8000_0000 { e as i128 } else { e as i128 - 0x1_0000_0000 });
            get!(get_u64, 8, |r, e| r == e);
            get!(get_i64, 8, |r, e| r as i128 == if e < 0x8000_0000_0000_0000 { e as i128 } else { e as i128 - 0x1_0000_0000_0000_0000 });
            get!(get_f32, 4, |r, e| r.to_bits() as u64 == e);
            get!(get_f64, 8, |r, e| r.to_bits() == e);
        } }
    } } }
}
fn arith(g: &mut G) {
    let edge: Vec<usize> = (0..64).chain((1..64).flat_map(|s| (0..5).map(move |k| (1usize << s).wrapping_add(k).wrapping_sub(2)))).chain((0..40).map(|k| usize::MAX - k)).collect();
    for &x in &edge {
        g.ck(x.wrapping_neg() == if x == 0 { 0 } else { usize::MAX - x + 1 }, || format!("wrapping_neg {x}"));
        for m in [1usize, 2, 3, 4, 5, 8, 16] { if x as u128 + m as u128 <= usize::MAX as u128 + 1 {
            g.ck(x.next_multiple_of(m) == x + (m - x % m) % m, || format!("next_multiple_of {x} {m}"));
        } }
    }
}
/// RFC 3629, one sequence at a time
fn utf8(mut s: &[u8]) -> bool {
    while let Some(&a) = s.first() {
        let (n, lo, hi) = match a { 0..=0x7F => (0, 0, 0), 0xC2..=0xDF => (1, 0x80, 0xBF), 0xE0 => (2, 0xA0, 0xBF), 0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF), 0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF), 0xF1..=0xF3 => (3, 0x80, 0xBF), 0xF4 => (3, 0x80, 0x8F), _ => return false };
        if s.len() < n + 1 { return false; }
        for i in 1..=n { let b = s[i]; if !(if i == 1 { lo <= b && b <= hi } else { 0x80 <= b && b <= 0xBF }) { return false; } }
        s = &s[n + 1..];
    }
    true
}
fn utf8_cases(g: &mut G) {
    let ck = |g: &mut G, v: &[u8]| {
        let r = String::from_utf8(v.to_vec());
        g.ck(r.is_ok() == utf8(v), || format!("{v:02x?}"));
        if let Ok(s) = r { g.ck(s.as_bytes() == v && s.len() == v.len(), || format!("{v:02x?} bytes")); }
    };
    for a in 0..=255u8 { ck(g, &[a]); for b in 0..=255u8 { ck(g, &[a, b]); } }
    let e = [0u8, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF];
    for a in e { for b in e { for c in e { ck(g, &[a, b, c]); for d in e { ck(g, &[a, b, c, d]); } } } }
    ck(g, &[]);
}

// ---- vx/ast.vrs: strings are the sequences of their characters ----
type C = Vec<char>;
fn pre(s: &[char], p: &[char]) -> bool { s.len() >= p.len() && &s[..p.len()] == p }
fn suf(s: &[char], p: &[char]) -> bool { s.len() >= p.len() && &s[s.len() - p.len()..] == p }
fn dig(c: char, base: u32) -> Option<i128> {
    let d = match c { '0'..='9' => c as u32 - 48, 'a'..='z' => c as u32 - 87, 'A'..='Z' => c as u32 - 55, _ => 99 };
    if d < base { Some(d as i128) } else { None }
}
fn num(s: &[char], base: u32, lo: i128, hi: i128) -> Option<i128> {
    let neg = s.len() > 0 && s[0] == '-' && lo < 0;
    let t = if neg || s.len() > 0 && s[0] == '+' { &s[1..] } else { s };
    if t.is_empty() { return None; }
    let mut v = 0i128;
    for c in t { v = (v * base as i128 + dig(*c, base)?).min(1 << 90); }
    let w = if neg { -v } else { v };
    if lo <= w && w <= hi { Some(w) } else { None }
}
fn words(al: &[char], n: usize) -> Vec<C> {
    let mut all: Vec<C> = vec![vec![]]; let mut last = all.clone();
    for _ in 0..n { last = last.iter().flat_map(|w| al.iter().map(move |c| { let mut x = w.clone(); x.push(*c); x })).collect(); all.extend(last.clone()); }
    all
}
fn st(c: &[char]) -> String { c.iter().collect() }
fn strings(g: &mut G) {
    let all = words(&['a', 'b', '/', ' ', 'é'], 4); let pats = words(&['a', 'b', '/', ' ', 'é'], 2);
    for w in &all {
        let s = st(w);
        g.ck(s.chars().collect::<C>() == *w && s.is_empty() == w.is_empty() && s.to_string() == s && s.as_str() == s && s.chars().next() == w.first().copied(), || "basic".into());
        for p in &pats {
            let q = st(p);
            g.ck((s == q) == (w == p), || "eq".into());
            g.ck(s.starts_with(&q[..]) == pre(w, p) && s.ends_with(&q[..]) == suf(w, p), || format!("{s:?} starts/ends {q:?}"));
            let mut t = &w[..]; while p.len() > 0 && pre(t, p) { t = &t[p.len()..]; }
            g.ck(s.trim_start_matches(&q[..]) == st(t), || format!("{s:?} trim_start_matches {q:?}"));
            let e = if pre(w, p) { Some(st(&w[p.len()..])) } else { None };
            g.ck(s.strip_prefix(&q[..]).map(str::to_string) == e, || format!("{s:?} strip_prefix {q:?}"));
            let mut b = s.clone(); b.push_str(&q);
            g.ck(b.chars().collect::<C>() == [&w[..], &p[..]].concat() && format!("{s}{q}") == b, || "append".into());
        }
    }
    for c in (0..0x3000u32).filter_map(char::from_u32) {
        let s = c.to_string();
        g.ck(s.starts_with(|c: char| c.is_ascii_digit()) == dig(c, 10).is_some(), || format!("digit {c:?}"));
        // what DESIGN says of `numeric`: on ASCII it is the ten digits
        if c.is_ascii() { g.ck(c.is_numeric() == dig(c, 10).is_some(), || format!("numeric {c:?}")); }
    }
    g.ck("TRUE".to_lowercase() == "true" && "FALSE".to_lowercase() == "false", || "lower".into());
}
fn numbers(g: &mut G) {
    let one = |g: &mut G, w: &[char]| {
        let s = st(w);
        g.ck(s.parse::<u32>().ok().map(|v| v as i128) == num(w, 10, 0, 0xFFFF_FFFF), || format!("parse u32 {s:?}"));
        g.ck(s.parse::<i32>().ok().map(|v| v as i128) == num(w, 10, -0x8000_0000, 0x7FFF_FFFF), || format!("parse i32 {s:?}"));
        for b in [2u32, 8, 10, 16, 36] {
            g.ck(u32::from_str_radix(&s, b).ok().map(|v| v as i128) == num(w, b, 0, 0xFFFF_FFFF), || format!("radix u32 {s:?} {b}"));
            g.ck(i32::from_str_radix(&s, b).ok().map(|v| v as i128) == num(w, b, -0x8000_0000, 0x7FFF_FFFF), || format!("radix i32 {s:?} {b}"));
        }
    };
    for w in words(&['0', '1', '7', '8', 'a', 'F', 'z', 'x', '-', '+', ' ', '_', '٣'], 4) { one(g, &w); }
    for e in [0i128, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000, 0x7FFF_FFFF_FFFF_FFFF] { for k in -3..=3i128 {
        for (sg, z) in [("", ""), ("-", ""), ("+", ""), ("", "000"), ("-", "0"), ("+", "00000000")] {
            let v = (e + k).abs();
            for t in [format!("{v}"), format!("{v:x}"), format!("{v:X}"), format!("{v:o}"), format!("{v:b}")] { one(g, &format!("{sg}{z}{t}").chars().collect::<C>()); }
        }
    } }
    for v in (0..70000u32).chain((0..200).map(|k| u32::MAX - k)).chain((0..400).map(|k| 0x8000_0000u32 - 200 + k)) {
        let t = v.to_string();
        g.ck(num(&t.chars().collect::<C>(), 10, 0, 1 << 40) == Some(v as i128) && format!("{v}") == t && format!("{}", v as usize) == t && (t == "0" || !t.starts_with('0')), || format!("dec {v}"));
        let i = v as i32; let t = i.to_string();
        g.ck(num(&t.chars().collect::<C>(), 10, -(1 << 40), 1 << 40) == Some(i as i128) && format!("{i}") == t && (i < 0 || t == format!("{}", i as u32)), || format!("dec {i}"));
    }
}
fn collections(g: &mut G) {
    let keys = ["a", "b", "ab", "", "é"];
    let n = keys.len();
    for code in 0..n.pow(5) {
        let seq: Vec<usize> = (0..5).map(|i| code / n.pow(i) % n).collect();
        let mut h: HashSet<String> = HashSet::new(); let mut m: BTreeMap<String, usize> = BTreeMap::new(); let mut r: Vec<(usize, usize)> = vec![];
        g.ck(h.is_empty() && m.is_empty(), || "new".into());
        for (i, &k) in seq.iter().enumerate() {
            let was = r.iter().position(|x| x.0 == k);
            g.ck(h.insert(keys[k].to_string()) == was.is_none(), || "set insert".into());
            g.ck(m.insert(keys[k].to_string(), i) == was.map(|j| r[j].1), || "map insert".into());
            match was { Some(j) => r[j].1 = i, None => r.push((k, i)) }
            g.ck(h.len() == r.len() && m.len() == r.len(), || "len".into());
            for q in 0..n {
                let e = r.iter().find(|x| x.0 == q);
                g.ck(h.contains(keys[q]) == e.is_some() && m.contains_key(keys[q]) == e.is_some() && m.get(keys[q]).copied() == e.map(|x| x.1), || "get".into());
            }
        }
        let mut s: Vec<(String, usize)> = r.iter().map(|x| (keys[x.0].to_string(), x.1)).collect(); s.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
        g.ck(m.iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>() == s && m.values().copied().collect::<Vec<_>>() == s.iter().map(|x| x.1).collect::<Vec<_>>(), || "order".into());
    }
    for a in 0..6usize { for b in 0..6usize {
        let v: Vec<usize> = (0..a).collect(); let w: Vec<usize> = (10..10 + b).collect();
        let cat: Vec<usize> = [&v[..], &w[..]].concat();
        g.ck(v.iter().chain(w.iter()).copied().collect::<Vec<_>>() == cat, || "chain".into());
        let mut x = v.clone(); x.extend(w.iter().cloned()); let mut y = v.clone(); y.append(&mut w.clone()); let mut z = v.clone(); z.extend(w.clone());
        g.ck(x == cat && y == cat && z == cat, || "extend".into());
        g.ck(v.iter().skip(b).copied().collect::<Vec<_>>() == v[b.min(a)..].to_vec() && v.clone().into_iter().collect::<Vec<_>>() == v, || "skip".into());
        g.ck((a..b).collect::<Vec<_>>() == (0..b.saturating_sub(a)).map(|i| a + i).collect::<Vec<_>>(), || "range".into());
        g.ck((a..=b).count() == if a <= b { b - a + 1 } else { 0 } && (a..=b).enumerate().all(|(i, x)| x == a + i), || "range_incl".into());
        let mut it = v.iter(); let mut k = 0; while let Some(x) = it.next() { g.ck(*x == k && it.len() == a - k - 1, || "next".into()); k += 1; } g.ck(k == a && it.next().is_none(), || "next".into());
    } }
    g.ck(Some(3).iter().count() == 1 && None::<u8>.iter().count() == 0, || "option".into());
}

// ---- vx/ast.vrs, astlem.vrs: pest's pairs are a finite tree over the text ----
#[derive(pest_derive::Parser)]
#[grammar_inline = r#"top = { SOI ~ e* ~ EOI } e = { "(" ~ (e | a)* ~ ")" } a = @{ 'a'..'c'+ } WHITESPACE = _{ " " }"#]
struct P;
fn ht(p: &pest::iterators::Pair<Rule>) -> usize { p.clone().into_inner().map(|k| ht(&k) + 1).max().unwrap_or(0) }
fn tree(g: &mut G, p: &pest::iterators::Pair<Rule>, text: &str) {
    let sp = p.as_span();
    g.ck(p.as_str() == &text[sp.start()..sp.end()], || "as_str".into());
    let ks: Vec<_> = p.clone().into_inner().collect();
    g.ck(ks.iter().all(|k| ht(k) < ht(p) && sp.start() <= k.as_span().start() && k.as_span().end() <= sp.end()), || "height".into());
    g.ck(ks.windows(2).all(|w| w[0].as_span().end() <= w[1].as_span().start()), || "order".into());
    let mut it = p.clone().into_inner();
    let all = it.as_str();
    g.ck(match ks.len() { 0 => all.is_empty(), n => all == &text[ks[0].as_span().start()..ks[n - 1].as_span().end()] }, || "span".into());
    for k in &ks {
        g.ck(it.clone().len() > 0, || "len".into());
        g.ck(it.next().map(|x| x == *k && x.as_rule() == k.as_rule()) == Some(true), || "next".into());
        let rest: Vec<_> = it.clone().collect();
        g.ck(rest[..] == ks[ks.len() - rest.len()..], || "rest".into());
    }
    g.ck(it.next().is_none(), || "end".into());
    for k in ks { tree(g, &k, text); }
}
fn pest_trees(g: &mut G) {
    for w in words(&['(', ')', 'a', ' '], 7) {
        let s = st(&w);
        let a = P::parse(Rule::top, &s); let b = P::parse(Rule::top, &s);
        g.ck(a.is_ok() == b.is_ok(), || "same answer".into());
        if let (Ok(a), Ok(b)) = (a, b) {
            g.ck(a.clone().count() == 1 && a.clone().next().unwrap().as_rule() == Rule::top, || "one pair".into());
            g.ck(a == b || format!("{a:?}") == format!("{b:?}"), || "same tree".into());
            for p in a { tree(g, &p, &s); }
        }
    }
}

fn main() {
    let mut fail = false;
    for (n, f) in [("bytes", bytes_ops as fn(&mut G)), ("arithmetic", arith), ("utf8", utf8_cases), ("strings", strings), ("numbers", numbers), ("collections", collections), ("pest", pest_trees)] {
        let mut g = G::new(n); f(&mut g); g.end(&mut fail);
    }
    std::process::exit(fail as i32);
}

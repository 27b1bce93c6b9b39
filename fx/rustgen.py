"""Rust harness text: accessor/dump code per declared type (names every field and variant), and the runner."""
from model import *

PR = {'u32': 'u32', 'i32': 'i32', 'u64': 'u64', 'i64': 'i64', 'f32': 'f32', 'f64': 'f64', 'bool': 'bool',
      'string': 'String', 'opaque': 'Bytes'}


def rty(sp, ty, gen, par='Bytes'):
    if ty.kind == 'opaque':
        return par
    if ty.kind != 'named':
        return PR[ty.kind]
    if sp.is_self_typedef(sp.byname[ty.name]):
        return PR[sp.byname[ty.name].target.kind]
    return 'xdr::%s%s' % (ty.name, '<%s>' % par if ty.name in gen else '')


def rarr(sp, ty, arr, gen, par='Bytes'):
    t = rty(sp, ty, gen, par)
    if arr is None or ty.kind in ('opaque', 'string'):
        return t
    return '[%s; %d]' % (t, sp.num(arr[1])) if arr[0] == 'fixed' else 'Vec<%s>' % t


def rfield(sp, f, gen, par='Bytes'):
    if f.opt:
        return 'Option<Box<%s>>' % rty(sp, f.ty, gen, par)
    return rarr(sp, f.ty, f.arr, gen, par)


def dty(sp, ty, x):
    k = ty.kind
    if k in ('u32', 'i32', 'u64', 'i64'):
        return 'o.push_str(&(*%s).to_string());' % x
    if k in ('f32', 'f64'):
        return 'o.push_str(&format!("f{:x}", (*%s).to_bits()));' % x
    if k == 'bool':
        return "o.push(if *%s { 'T' } else { 'F' });" % x
    if k == 'string':
        return 'crate::dstr(%s, o);' % x
    if k == 'opaque':
        return 'crate::dbytes(%s, b, o);' % x
    return 'd_%s(%s, b, o);' % (ty.name, x)


def darr(sp, ty, arr, x):
    if arr is None or ty.kind in ('opaque', 'string'):
        return dty(sp, ty, x)
    return "o.push('['); for (i, e) in %s.iter().enumerate() { if i > 0 { o.push(','); } %s } o.push(']');" % (x, dty(sp, ty, 'e'))


def dfield(sp, f, x):
    if f.opt:
        return "match %s { None => o.push('-'), Some(e) => { let e = &**e; o.push('?'); %s } }" % (x, dty(sp, f.ty, 'e'))
    return darr(sp, f.ty, f.arr, x)


def module(sp, mod, path, traits=True):
    """the text of `mod <mod>` for one generated module stored at path"""
    g = sp.generics()
    o = ['#[allow(warnings)]', 'mod %s {' % mod, 'include!("%s");' % path, 'use crate::Bytes;',
         'use std::convert::TryFrom;', 'use xdr::WireSize;']
    o.append('pub fn ek(e: &xdr::Error) -> String { match e { xdr::Error::InvalidLength => "InvalidLength".into(), '
             'xdr::Error::NonUtf8String(_) => "NonUtf8String".into(), xdr::Error::InvalidBoolean => "InvalidBoolean".into(), '
             'xdr::Error::UnknownVariant(v) => format!("UnknownVariant({})", v), '
             'xdr::Error::UnknownOptionVariant(v) => format!("UnknownOptionVariant({})", v), '
             'xdr::Error::Unknown(s) => format!("Unknown({})", s) } }')
    for c in sp.consts.values():
        o.append('const _: () = assert!(xdr::%s == %du32);' % (c.name, sp.num(c.name)))
    arms = []
    for d in sp.types():
        t = 'xdr::%s%s' % (d.name, '<Bytes>' if d.name in g else '')
        o.append('pub fn d_%s(v: &%s, b: usize, o: &mut String) {' % (d.name, t))
        if isinstance(d, Struct):
            o.append('let xdr::%s { %s } = v;' % (d.name, ', '.join('%s: x%d' % (safe(f.name), i) for i, f in enumerate(d.fields))))
            o.append("o.push('{');")
            for i, f in enumerate(d.fields):
                o.append('{ let x: &%s = x%d; o.push_str("%s%s:"); %s }' % (rfield(sp, f, g), i, ',' if i else '', f.name, dfield(sp, f, 'x')))
            o.append("o.push('}');")
        elif isinstance(d, Enum):
            o.append('o.push_str(match v { %s });' % ' '.join('xdr::%s::%s => "#%s",' % (d.name, m, m) for m, _ in d.members))
        elif isinstance(d, Typedef):
            o.append("o.push('~'); let x: &%s = &v.0; %s" % (rarr(sp, d.target, d.arr, g), darr(sp, d.target, d.arr, 'x')))
        else:
            o.append('match v {')
            for labels, f in d.groups:
                for l in labels:
                    vn = variant(l)
                    if f is None:
                        o.append('xdr::%s::%s => o.push_str("@%s()"),' % (d.name, vn, l))
                    else:
                        o.append('xdr::%s::%s(x) => { let x: &%s = x; o.push_str("@%s("); %s o.push(\')\'); }' % (d.name, vn, rfield(sp, f, g), l, dfield(sp, f, 'x')))
            o.append('}')
        o.append('}')
        if d.name in g:
            o.append('#[allow(dead_code)] fn p_%s<T: AsRef<[u8]> + std::fmt::Debug>(_: &xdr::%s<T>) {}' % (d.name, d.name))
        else:
            o.append('#[allow(dead_code)] fn p_%s(_: &xdr::%s) {}' % (d.name, d.name))
        if traits:
            o.append('#[allow(dead_code)] fn t_%s() { fn a<T: TryFrom<Bytes, Error = xdr::Error> + WireSize>() {} a::<%s>(); '
                     'fn b<T: for<\'a> TryFrom<&\'a mut Bytes, Error = xdr::Error>>() {} b::<%s>(); }' % (d.name, t, t))
        arms.append('"%s" => crate::run::<%s, xdr::Error>(view, whole, d_%s, |x| x.wire_size(), ek),' % (d.name, t, d.name))
    o.append('pub fn go(ty: &str, view: Bytes, whole: &Bytes) -> String { match ty { %s _ => "nosuchtype".into() } }' % '\n'.join(arms))
    # field order as the derived Debug shows it
    o.append('}')
    return '\n'.join(o)


MAIN = r'''
#![allow(warnings)]
use fastxdr::bytes::Bytes;
use std::alloc::{GlobalAlloc, Layout, System};
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct A;
static REQ: AtomicUsize = AtomicUsize::new(0);
static BIG: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
fn note(n: usize) { REQ.fetch_add(n, Relaxed); BIG.fetch_max(n, Relaxed); }
#[global_allocator]
static GA: A = A;

fn hex(b: &[u8], o: &mut String) { for x in b { o.push_str(&format!("{:02x}", x)); } }
fn dstr(s: &String, o: &mut String) { o.push('s'); hex(s.as_bytes(), o); }
fn dbytes(s: &Bytes, b: usize, o: &mut String) {
    o.push('o'); hex(s, o);
    if !s.is_empty() { o.push_str(&format!("@{}", (s.as_ptr() as usize).wrapping_sub(b) as isize)); }
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
fn run<T, E>(view: Bytes, whole: &Bytes, dump: fn(&T, usize, &mut String), ws: fn(&T) -> usize, ek: fn(&E) -> String) -> String
where T: TryFrom<Bytes, Error = E> + for<'a> TryFrom<&'a mut Bytes, Error = E>
{
    let base = view.as_ptr() as usize;
    let len = view.len();
    let one = |byref: bool| -> String {
        let v = view.clone();
        let mut w = view.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            REQ.store(0, Relaxed);
            let r = if byref { T::try_from(&mut w) } else { T::try_from(v) };
            let req = REQ.load(Relaxed);
            (r, req)
        }));
        match r {
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic;{}", m.replace(';', ",").replace('\n', " ").replace('|', "/"))
            }
            Ok((Err(e), req)) => format!("err;{};{}", ek(&e), req),
            Ok((Ok(x), req)) => {
                let mut o = String::new();
                dump(&x, base, &mut o);
                let size = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ws(&x))) { Ok(n) => n.to_string(), Err(_) => "panic".into() };
                let rem = if byref {
                    let off = if w.is_empty() { len as isize } else { (w.as_ptr() as usize).wrapping_sub(base) as isize };
                    let same = w.is_empty() || w[..] == view[view.len() - w.len().min(view.len())..];
                    format!("{};{};{}", off, w.len(), same as u8)
                } else { "-;-;-".into() };
                format!("ok;{};{};{};{}", o, req, size, rem)
            }
        }
    };
    let a = one(false);
    let b = one(true);
    format!("{}|{}", a, b)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let stdin = std::io::stdin();
        let out = std::io::stdout();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let p: Vec<&str> = line.split(' ').collect();
            // id module type prefix data suffix
            let (pre, data, suf) = (unhex(p[3]), unhex(p[4]), unhex(p[5]));
            let mut all = pre.clone(); all.extend_from_slice(&data); all.extend_from_slice(&suf);
            let whole = Bytes::from(all);
            let view = whole.slice(pre.len()..);
            let res = go(p[1], p[2], view, &whole);
            let mut o = out.lock();
            writeln!(o, "{}|{}", p[0], res).unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
}
'''


def main_rs(mods):
    arms = ' '.join('"%s" => %s::go(ty, view, whole),' % (m, m) for m, _ in mods)
    return MAIN + '\nfn go(m: &str, ty: &str, view: Bytes, whole: &Bytes) -> String { match m { %s _ => "nosuchmod".into() } }\n' % arms \
        + '\n'.join(t for _, t in mods)

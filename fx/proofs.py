"""Deductive verification: weave the real text, emit Verus files, run the verifier, map failures to properties."""
import json, os, subprocess, sys, time, hashlib, re
import engine
from engine import ROOT, WORK, TGT, env, Broken
import hdr, vspec, vlem
from model import *
from vgen import *

BASE = open(os.path.join(ROOT, 'vx', 'base.vrs')).read()
WIRE = open(os.path.join(ROOT, 'vx', 'wire.vrs')).read()
HEAD = '''#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals, dead_code, unused_mut, unreachable_patterns, unused_imports, unused_parens, unused_braces, unused_variables)]
use vstd::prelude::*;
use std::convert::TryFrom;
verus! {
global size_of usize == 8;
'''


def weaver():
    r = subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', 'fxweave'], cwd=os.path.join(ROOT, 'rs'), env=env(), capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build fxweave: ' + r.stderr[-1500:])
    return os.path.join(TGT, 'debug', 'fxweave')


KNOWN = ','.join(sorted(set(hdr.readers()) | {'read_variable_array', 'wire_size', 'try_from', 'from', 'pad_length', 'fmt', 'source', 'main'}))


def weave(paths):
    r = subprocess.run([weaver(), KNOWN], input='\n'.join(paths) + '\n', capture_output=True, text=True)
    out = []
    for l in r.stdout.splitlines():
        v = json.loads(l)
        if 'error' in v:
            raise Unsupported('does not parse: ' + v['error'])
        out.append(v['items'])
    if len(out) != len(paths):
        raise Broken('fxweave died')
    return out


def expand(path, out):
    """macro expansion by rustc itself"""
    cmd = ['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'g', '-Zunpretty=expanded', '--extern', 'fastxdr=' + engine.RLIB,
           '-L', 'dependency=' + os.path.join(TGT, 'debug', 'deps'), path]
    r = subprocess.run(cmd, env=dict(os.environ, RUSTC_BOOTSTRAP='1'), capture_output=True, text=True)
    if r.returncode:
        raise Unsupported('rustc does not accept the generated file: ' + r.stderr[:400])
    open(out, 'w').write(r.stdout)
    return out


class Result:
    def __init__(self, name):
        self.name, self.failed, self.verified, self.errors, self.time, self.solver = name, [], 0, 0, 0.0, 0.0
        self.unsupported, self.queries, self.notes, self.canary, self.fns, self.clauses = None, [], [], False, [], []


def run_verus(path, o, name, extra=(), timeout=300):
    """a query that ran out of its resource limit is asked again with another seed of the solver (a proof found under
    any seed is a proof); an obligation the solver refused is not"""
    r = run_verus1(path, o, name, extra, timeout)
    for seed in (1, 2):
        if not (r.unsupported and 'Resource limit' in r.unsupported) or r.failed or r.time > 150:
            break
        r2 = run_verus1(path, o, name, tuple(extra) + ('--smt-option', 'smt.random_seed=%d' % seed), timeout)
        r2.notes.append('solver seed %d: %s' % (seed, r.unsupported[:80]))
        r = r2
    return r


def run_verus1(path, o, name, extra=(), timeout=300):
    """runs the verifier on an assembled file; failures carry the clause they belong to"""
    res = Result(name)
    open(path, 'w').write(o.dump())
    t = time.time()
    cmd = ['verus', '--crate-name', 'vf', '--error-format=json', '--multiple-errors', '8', '--output-json', '--time', '--num-threads', '1'] + list(extra) + [path]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        res.unsupported = 'the verifier did not finish in %d s' % timeout
        return res
    res.time = time.time() - t
    try:
        js = json.loads(r.stdout[r.stdout.index('{'):])
        vr = js.get('verification-results', {})
        res.verified, res.errors = vr.get('verified', 0), vr.get('errors', 0)
        res.solver = js.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000.0
        ok = vr.get('success', False)
    except (ValueError, AttributeError):
        vr, ok = {}, False
    for l in r.stderr.splitlines():
        if not l.startswith('{'):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') != 'error' or m.get('message', '').startswith('aborting due'):
            continue
        msg = m['message']
        lines = [s['line_start'] for s in m.get('spans', [])]
        for ch in m.get('children', []):
            lines += [s['line_start'] for s in ch.get('spans', [])]
        vir = any(x in msg for x in ('not satisfied', 'overflow', 'assertion failed', 'decreases', 'failed', 'precondition', 'postcondition', 'invariant', 'unreachable', 'recommendation', 'could not prove', 'out of bounds', 'possible', 'Cannot prove'))
        if 'Resource limit' in msg or 'rlimit' in msg or not vir or vr.get('encountered-vir-error'):
            res.unsupported = res.unsupported or '%s (line %s: %s)' % (msg[:300], lines[:1], o.lines[lines[0] - 1][:200] if lines and lines[0] <= len(o.lines) else '')
            continue
        if o.canary in lines:
            res.canary = True
            continue
        if any(a in o.special for a in lines):
            k = next((o.owner(a)[0] for a in lines if o.owner(a)[0]), '?')
            res.failed.append({'obligation': '%s: %s / %s' % (name, k, getattr(o, 'special_label', 'reservation')), 'properties': [p for a in lines for p in o.special.get(a, ())], 'message': msg,
                               'at': [s['text'][0]['text'].strip()[:300] for s in m.get('spans', []) if s.get('text')], 'fn': k, 'clause': 'reservation'})
            continue
        own = None
        for a in lines:
            k, p = o.owner(a)
            if k:
                own = (k, p)
        cl = None
        for a in lines:
            if a in o.clause and (own is None or o.clause[a][0] == own[0]):
                cl = o.clause[a]
        if cl:
            k, n, p = cl
        elif own:
            k, n, p = own[0], msg, own[1]
        else:
            k, n, p = 'lemma', msg, None      # a lemma about the specification alone
        snippet = [s['text'][0]['text'].strip()[:300] for s in m.get('spans', []) if s.get('text')]
        res.failed.append({'obligation': '%s: %s / %s' % (name, k, n), 'properties': list(p) if p else None, 'message': msg, 'at': snippet, 'fn': k, 'clause': n})
    res.fns = [k for _, _, k, _ in o.fns]
    res.clauses = [p for _, _, p in o.clause.values()]
    if res.canary:
        res.errors -= 1
    else:
        res.failed = []      # nothing was decided
    if res.canary:
        pass
    elif not res.unsupported:
        res.unsupported = 'no refusal of the false assertion: ' + (r.stderr[-300:] or r.stdout[-300:])
    if res.errors and not res.failed and not res.unsupported:
        res.unsupported = 'the verifier gave no answer: ' + (r.stderr[-400:] or r.stdout[-400:])
    return res


ERR = ('Result<Self, Self::Error>',)


def error_type(items):
    e = [i for i in items if i['key'] == 'enum Error']
    if not e:
        raise Unsupported('no type Error')
    want = [['InvalidLength', []], ['NonUtf8String', 1], ['InvalidBoolean', []], ['UnknownVariant', ['i32']], ['UnknownOptionVariant', ['u32']], ['Unknown', ['String']]]
    vs = []
    for v in e[0]['variants']:
        vs.append('%s%s' % (v[0], '(%s)' % ', '.join(t for _, t in v[1]) if v[1] else ''))
    if [v[0] for v in e[0]['variants']] != [w[0] for w in want]:
        raise Unsupported('type Error has other variants')
    return 'pub enum Error { %s }' % ', '.join(vs)


def header_decls(o, items, trusted):
    """Error, readers, size helpers.  trusted: contracts only (they are discharged in the header file)"""
    by = {i['key']: i for i in items}
    o.text(error_type(items))
    o.text(BASE)
    for i, l in enumerate(o.lines):
        if l.strip() == 'requires n <= budget,':
            o.special[i + 1] = ('C09',)
    o.text(hdr.WS)
    known = set()
    # the error conversion
    f = by.get('From < std :: string :: FromUtf8Error >|Error|from')
    if f is None:
        raise Unsupported('no conversion from FromUtf8Error')
    o.add('impl vstd::std_specs::convert::FromSpecImpl<std::string::FromUtf8Error> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: std::string::FromUtf8Error) -> Self { arbitrary() } }')
    o.add('impl From<std::string::FromUtf8Error> for Error {')
    emit_fn(o, 'Error::from', 'from', f, Contract(ensures=[('kind', ('C10', 'C06'), 'kind(ret__) == K::Utf8')], builtin=('C10', 'C04')), vis='', extbody=trusted)
    o.add('}')
    f = by.get('pad_length')
    if f is None:
        raise Unsupported('no function pad_length')
    emit_fn(o, 'pad_length', 'pad_length', f, Contract(ensures=[('pad', ('C10', 'C01', 'C02', 'C03', 'C05'), 'ret__ == padn($0 as int)'), ('small', ('C10', 'C02'), 'ret__ < 4')], builtin=('C10', 'C04'), params=['usize'], ret='usize', pro='reveal(padn); broadcast use bit_and3; broadcast use bit_mask3; broadcast use bit_shr2; broadcast use bit_shl2; broadcast use bit_not;'), extbody=trusted)
    rd = hdr.readers()
    ts = lambda t: re.sub(r'\bSelf :: Sliced\b', 'Bytes', t)
    o.add('impl Bytes {')
    for n in sorted(rd):
        f = by.get('DeserialiserExt|Bytes|' + n) or by.get('trait|DeserialiserExt|' + n)
        if f is None:
            raise Unsupported('no reader ' + n)
        emit_fn(o, n, n, f, rd[n], extbody=trusted, tysub=ts)
    o.add('}')
    for t, n in (('u8', 1), ('u32', 4), ('i32', 4), ('f32', 4), ('bool', 4), ('u64', 8), ('i64', 8), ('f64', 8)):
        f = by.get('WireSize|%s|wire_size' % t)
        if f is None:
            raise Unsupported('no WireSize for ' + t)
        hdr.emit_ws(o, 'WireSize for ' + t, t, str(n), f, trusted=trusted)
    hdr.emit_ws(o, 'WireSize for Bytes', 'Bytes', '(self@.hi - self@.lo) as nat', by['WireSize|Bytes|wire_size'], trusted=trusted, pro='broadcast use bytes_wf;')
    hdr.emit_ws(o, 'WireSize for String', 'String', 's_str(*self)', by['WireSize|String|wire_size'], trusted=trusted, pro='broadcast use sb_wf; lem_padn(sb(*self).len() as int);')
    return by


EL = '''
#[verifier::external_body] pub struct El { x: u8 }
pub uninterp spec fn e_El(d: Seq<u8>, hi: int, p: int) -> R;
pub uninterp spec fn v_El(x: El, d: Seq<u8>, hi: int, p: int) -> bool;
pub uninterp spec fn a_El(x: El, al: int, d: Seq<u8>, hi: int, p: int) -> bool;
pub uninterp spec fn s_El(x: El) -> nat;
pub axiom fn lem_align_El() ensures forall|x: El| #[trigger] s_El(x) % 4 == 0 && s_El(x) >= 4;
impl WireSize for El { open spec fn ws(&self) -> nat { s_El(*self) } #[verifier::external_body] fn wire_size(&self) -> (ret__: usize) { unimplemented!() } }
'''


def decoder_contract(T, ref, self_ty):
    """what every generated decoder promises"""
    c = 'old($0)@' if ref else '$0@'
    e = 'e_%s(%s.data, %s.hi, %s.lo)' % (T, c, c, c)
    x = 'ret__->Ok_0'
    en = [('accepts', ('C01', 'C03', 'C05', 'C06'), '%s is Ok ==> ret__ is Ok' % e), ('rejects', ('C03', 'C05', 'C06'), '%s is Err ==> ret__ is Err' % e),
          ('error', ('C03', 'C05', 'C06'), '%s is Err && ret__ is Err ==> kind(ret__->Err_0) == %s->Err_0' % (e, e)),
          ('value', ('C01', 'C03', 'C06'), 'ret__ is Ok ==> v_%s(%s, %s.data, %s.hi, %s.lo)' % (T, x, c, c, c)),
          ('view', ('C08',), 'ret__ is Ok ==> a_%s(%s, %s.alloc, %s.data, %s.hi, %s.lo)' % (T, x, c, c, c, c)),
          ('size', ('C02',), 'ret__ is Ok ==> %s->Ok_0 == %s.lo + s_%s(%s) && %s->Ok_0 <= %s.hi' % (e, c, T, x, e, c))]
    if ref:
        en.append(('advances', ('C03', 'C01'), 'ret__ is Ok ==> final($0)@ == (Cur { lo: %s->Ok_0, ..old($0)@ })' % e))
    return en


def emit_decoder(o, T, ty, fn, ref, trusted=False, pro='', decreases=None, builtin=('C04',), tysub=None, en=None, decl=0):
    src = '&mut Bytes' if ref else 'Bytes'
    o.add('impl vstd::std_specs::convert::TryFromSpecImpl<%s> for %s { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: %s) -> Result<Self, Self::Error> { arbitrary() } }' % (src, ty, src))
    o.add('impl TryFrom<%s> for %s { type Error = Error;' % (src, ty))
    if fn is None:
        fn = {'params': [{'name': 'v', 'mut': False, 'ty': src}], 'ret': 'Result<Self, Error>', 'body': '', 'loops': [], 'bad': []}
    emit_fn(o, '%s::try_from(%s)' % (T, src), 'try_from', fn, Contract(ensures=en or decoder_contract(T, ref, ty), pro=pro, builtin=builtin, decreases=decreases, params=[src], budget='$0@.hi - $0@.lo + %d' % decl), vis='', extbody=trusted, tysub=tysub)
    o.add('}')


def canary(o, more=''):
    """must NOT verify: the assumed contracts would be inconsistent"""
    o.text('proof fn vf_canary() { broadcast use bytes_wf; broadcast use sb_wf; %s assert(1int == 2int); }' % more)
    o.canary = len(o.lines)


def header_file(items):
    """discharges the runtime's own contracts, for an arbitrary element type"""
    o = Out()
    o.text(HEAD)
    by = header_decls(o, items, False)
    o.text(EL)
    emit_decoder(o, 'El', 'El', None, False, trusted=True)
    o.text(hdr.array_spec('El'))
    o.text(hdr.align_arr('El', 'El', 'lem_align_El()'))
    g = lambda k: by.get(k) or (_ for _ in ()).throw(Unsupported('no ' + k))
    sub = lambda t: re.sub(r'\bT\b', 'El', t)
    o.add('impl Bytes {')
    emit_fn(o, 'read_variable_array', 'read_variable_array', g('DeserialiserExt|Bytes|read_variable_array'), hdr.array_reader('El'), tysub=sub)
    o.add('}')
    hdr.emit_ws(o, 'WireSize for Vec<T>', 'Vec<El>', 's_var_El(*self)', g('WireSize|Vec < T >|wire_size'), pro='al_arr_El(self@); lem_padn(s_arr_El(self@) as int);', loops=hdr.sum_loops('El'))
    hdr.emit_ws(o, 'WireSize for [T]', '[El]', 's_arr_El(self@)', g('WireSize|[T]|wire_size'), pro='al_arr_El(self@); lem_padn(s_arr_El(self@) as int);', loops=hdr.sum_loops('El'))
    hdr.emit_ws(o, 'WireSize for Option<T>', 'Option<El>', '4 + match *self { Some(x) => s_El(x), None => 0 }', g('WireSize|Option < T >|wire_size'))
    hdr.emit_ws(o, 'WireSize for Box<T>', 'Box<El>', 's_El(**self)', g('WireSize|Box < T >|wire_size'))
    canary(o)
    o.text('fn main() {}\n}')
    return o


def const_values(items):
    """the numbers of the generated consts"""
    cs = {i['name']: i['val'] for i in items if i['key'].startswith('const ')}
    out = {}
    for n in cs:
        v, k = cs[n], 0
        while v.strip('() ').split(' as ')[0].strip() in cs and k < 100:
            v, k = cs[v.strip('() ').split(' as ')[0].strip()], k + 1
        try:
            out[n] = int(re.sub(r'(?<=[0-9a-fA-F])[ui](8|16|32|64|size)$', '', v.split(' as ')[0].strip()), 0)
        except ValueError:
            pass
    return out


def type_decl(it, consts):
    n = it['name']
    it = json.loads(re.sub(r'; (\w+) as usize', lambda m: '; %d' % consts[m.group(1)] if m.group(1) in consts else m.group(0), json.dumps(it)))
    g = '<%s>' % ', '.join(it['params']) if it['params'] else ''
    if 'variants' in it:
        plain = all(not v[1] for v in it['variants'])
        vs = []
        for v in it['variants']:
            vs.append(v[0] + ('(%s)' % ', '.join(t for _, t in v[1]) if v[1] else '') + (' = ' + v[2] if v[2] else ''))
        return '%s%spub enum %s%s { %s }' % ('#[derive(PartialEq, Eq, Structural, Clone, Copy)] ' if plain else '', ''.join('#[%s] ' % r for r in it['repr']) if plain else '', n, g, ', '.join(vs))
    if it['tuple']:
        return 'pub struct %s%s(%s);' % (n, g, ', '.join('pub ' + t for _, t in it['fields']))
    return 'pub struct %s%s { %s }' % (n, g, ', '.join('pub %s: %s' % (f, t) for f, t in it['fields']))


def spec_prefix(o, items, vs):
    """types, wire format and its elementary lemmas; contracts of the runtime"""
    o.text(HEAD)
    by = header_decls(o, items, True)
    live = {d.name for d in vs.live}
    consts = const_values(items)
    for it in items:
        if it['key'].split()[0] in ('struct', 'enum') and it.get('name') in live:
            o.add(type_decl(it, consts))
    fns = []
    for d in vs.live:
        fns += vs.spec_fns(d)
    for f in fns:
        o.text(f)
    for n in sorted(vs.unf):
        if vs.unf[n]:
            o.text(vs.unf[n])
    for d in vs.live:
        o.text(vs.align(d))
    elems = {}
    for n, y in vs.arrs.items():
        elems['T_' + n] = (y, True, n in vs.rec)
    for e, y, n in sorted(vs.fixed):
        elems.setdefault(e, (y, False, False))
    for e, (y, full, rec) in sorted(elems.items()):
        if not e.startswith('T_'):
            o.text('pub open spec fn s_%s(x: %s) -> nat { %d }\npub proof fn al_%s(x: %s) ensures s_%s(x) %% 4 == 0, s_%s(x) >= 4 { }' % (e, y, vspec.W[e], e, y, e, e))
        four = not e.startswith('T_') or vs.four(e[2:])
        q = '#[trigger] s_%s(x) %% 4 == 0%s' % (e, ' && s_%s(x) >= 4' % e if four else '')
        o.text('pub proof fn lem_align_%s() ensures forall|x: %s| %s { assert forall|x: %s| %s by { al_%s(x); } }' % (e, y, q, y, q, e))
        o.text(hdr.align_arr(e, y, 'al_%s(s.last())' % e))
        o.text(hdr.array_spec(e, y, rec) if full else hdr.size_spec(e, y))
        hdr.emit_ws(o, '', '[%s]' % y, 's_arr_%s(self@)' % e, None, trusted=True)
        if full:
            hdr.emit_ws(o, '', 'Vec<%s>' % y, 's_var_%s(*self)' % e, None, trusted=True)
    fx = []
    for e, y, n in sorted(vs.fixed):
        calls = ' '.join('lem_mono_%s(x@, %d);' % (e, i) for i in range(n))
        rhs = ' + '.join('s_%s(x@[%d])' % (e, i) for i in range(n)) or '0'
        fx.append('lem_fx_%s_%d()' % (e, n))
        o.text('pub proof fn %s ensures forall|x: [%s; %d]| #[trigger] s_arr_%s(x@) == %s { assert forall|x: [%s; %d]| #[trigger] s_arr_%s(x@) == %s by { %s assert(x@.take(0).len() == 0); assert(x@.take(%d) =~= x@); } }' % (
            fx[-1], y, n, e, rhs, y, n, e, rhs, calls, n))
    for n, b in sorted(vs.opts.items()):
        o.text(vs.opt_fns(n))
        hdr.emit_ws(o, '', 'Option<Box<%s>>' % b.ty, 's_opt_T_%s(*self)' % n, None, trusted=True)
    return by, elems


def lemma_file(items, vs):
    """what the wire format of one specification is: encodings, round trip, uniqueness, locality, prefixes"""
    o = Out()
    spec_prefix(o, items, vs)
    o.text(WIRE)
    for t in vlem.Lem(vs).all(o.dump()):
        o.text(t)
    canary(o, 'broadcast use string_is_utf8;')
    o.text('fn main() {}\n}')
    return o


def spec_file(items, vs):
    """the generated decoders and size functions of one specification, under contract"""
    o = Out()
    by, elems = spec_prefix(o, items, vs)
    o.add('impl Bytes {')
    ra = by.get('DeserialiserExt|Bytes|read_variable_array')
    if ra is None:
        raise Unsupported('no read_variable_array')
    for e, (y, full, rec) in sorted(elems.items()):
        four = not e.startswith('T_') or vs.four(e[2:])
        if full:
            ts = lambda t: re.sub(r'\bT\b', y, t)
            if rec:
                o.add('')
                f = dict(ra, body=re.sub(r'\bT :: try_from', '<%s>::try_from' % y, ra['body']))
                emit_fn(o, 'read_variable_array::<%s>' % y, 'read_variable_array_' + e, f, hdr.array_reader(e, y, dec='old(self)@.hi - old(self)@.lo, 0int', paid=four), tysub=ts)
            else:
                emit_fn(o, '', 'read_variable_array_' + e, ra, hdr.array_reader(e, y), extbody=True, tysub=ts)
    o.add('}')
    def tysub(t):
        return re.sub(r'read_variable_array :: < (\w+)( < Bytes >)? >', lambda m: 'read_variable_array_T_' + m.group(1), t)
    fixed_of = {}
    for d in vs.live:
        n, y = d.name, vs.rty(d.name)
        ky = n + (' < Bytes >' if n in vs.gen else '')
        mine = set()
        for ty, arr in ([(f.ty, f.arr) for f in d.fields] if isinstance(d, Struct) else [(d.target, d.arr)] if isinstance(d, Typedef) else [(f.ty, f.arr) for _, f in d.groups if f] if isinstance(d, Union) else []):
            if arr and arr[0] == 'fixed' and ty.kind != 'opaque':
                mine.add('lem_fx_%s_%d()' % ('T_' + ty.name if ty.kind == 'named' else ty.kind, vs.sp.num(arr[1])))
        pro = 'broadcast use bytes_wf; ' + ''.join('reveal(%s); ' % f for f in vs.reveal[n]) + ' '.join(m + ';' for m in sorted(mine))
        incone = n in vs.cone
        for ref in (False, True):
            f = by.get('TryFrom < %s >|%s|try_from' % ('& mut Bytes' if ref else 'Bytes', ky))
            if f is None:
                raise Unsupported('no decoder for %s' % n)
            en = decoder_contract('T_' + n, ref, y)
            if incone:
                en = [(a, ('C01', 'C02', 'C03') if a == 'size' else p, x) for a, p, x in en]
            dec = None
            if n in vs.rec:
                dec = '%s.hi - %s.lo, %dint' % ((('old($0)@',) * 2 if ref else ('$0@',) * 2) + (vs.level[n] + (0 if ref else 1000),))
            c = 'old($0)@' if ref else '$0@'
            unf = ' unf_T_%s(%s.data, %s.hi, %s.lo);' % (n, c, c, c) if vs.unf.get(n) else ''
            emit_decoder(o, 'T_' + n, y, f, ref, pro=pro + unf, decreases=dec, tysub=tysub, en=en, decl=vs.maxdecl)
            o.text('')
        f = by.get('WireSize|%s|wire_size' % ky)
        if f is None:
            raise Unsupported('no WireSize for %s' % n)
        hdr.emit_ws(o, 'WireSize for ' + n, y, 's_T_%s(*self)' % n, f, pro='broadcast use bytes_wf;' + (' reveal(s_T_%s);' % n if vs.reveal[n] else ''), props=('C02', 'C01', 'C03', 'C04') if incone else ('C02',))
    canary(o)
    o.text('fn main() {}\n}')
    return o


# ---- the layer as a whole -------------------------------------------------------------------------------------------
TRUSTED = ['Verus 0.2026.09.13 and its Z3', 'rustc: macro expansion (-Zunpretty=expanded) and the compilation of the same text',
           'fxweave (rs/src/bin/fxweave.rs): the mechanical rewriting listed in DESIGN.md',
           'vx/base.vrs: contracts of bytes::Bytes, String::from_utf8, String::len, Vec reservation (assumed, not proved)',
           'the contracts are derived from the same declarations the specification text is rendered from (fx/model.py, fx/vspec.py)']
ASSUME = ['usize is 64 bits wide', 'a Bytes value is a window of an allocation of at most isize::MAX bytes', 'a String is at most isize::MAX bytes long',
          'decoders are proved for the specifications of this run (fixed corpus plus random ones by seed), each for all inputs; the runtime (src/header.rs) is proved for all element types',
          'trait dispatch: the methods called on Bytes, Vec, slices, Option and Box are the impls of src/header.rs and of the bytes crate',
          'stack depth and allocator behaviour are not modelled']
DECODE = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10')


LEMMAS = ('C01', 'C02', 'C03', 'C05')


def one_lemmas(items, sp, tmp, timeout):
    """the corollaries of one specification's wire format"""
    res = Result('lemmas of ' + sp.id)
    try:
        res = run_verus(os.path.join(tmp, 'q-%s.v.rs' % sp.id), lemma_file(items, vspec.VSpec(sp)), 'lemmas of ' + sp.id, timeout=timeout)
    except Unsupported as e:
        res.unsupported = str(e)
    return res


def one_spec(fxgen, sp, tmp, timeout):
    """text of a specification -> generated code (real generator) -> expanded -> woven -> verified"""
    res = Result(sp.id)
    g = engine.Proc(fxgen)
    f = lambda e: os.path.join(tmp, 'p-%s%s' % (sp.id, e))
    try:
        open(f('.x'), 'w').write(sp.render())
        a = g.ask('gen %s %s' % (f('.x'), f('.g.rs')))
        if not a.startswith('ok'):
            raise Unsupported('not generated: ' + a[:200])
        expand(f('.g.rs'), f('.e.rs'))
        vs = vspec.VSpec(sp)
        items = weave([f('.e.rs')])[0]
        o = spec_file(items, vs)
        res = run_verus(f('.v.rs'), o, sp.id, timeout=timeout)
        res.notes = ['%s: %s left to the bounded check: %s' % (sp.id, n, w) for n, w in vs.skip.items()]
        res.items = items
        res.notes += ['%s: elements of type %s may be empty on the wire; no bound on their number' % (sp.id, n) for n in vs.arrs if not vs.four(n)]
    except Unsupported as e:
        res.unsupported = str(e)
    finally:
        g.close()
    return res


def header(fxgen, tmp):
    res = Result('runtime')
    g = engine.Proc(fxgen)
    f = lambda e: os.path.join(tmp, 'p-runtime' + e)
    try:
        open(f('.x'), 'w').write('struct s { unsigned int a; };\n')
        a = g.ask('gen %s %s' % (f('.x'), f('.g.rs')))
        if not a.startswith('ok'):
            raise Unsupported('not generated: ' + a[:200])
        expand(f('.g.rs'), f('.e.rs'))
        res = run_verus(f('.v.rs'), header_file(weave([f('.e.rs')])[0]), 'runtime')
    except Unsupported as e:
        res.unsupported = str(e)
    finally:
        g.close()
    return res


PARTIAL = ('C07', 'C11')      # contracts reach part of what the property speaks of
AST = ('C06', 'C11', 'C12', 'C13', 'C14')
GEN = ('C07', 'C14')
MAIN = ('C15',)
TRUSTED_AST = ['fxast (rs/src/bin/fxast.rs): the mechanical rewriting listed in DESIGN.md',
               'vx/ast.vrs: contracts of std iterators, strings, HashSet, BTreeMap, integer parsing (assumed, not proved); derived Clone gives an equal value, derived PartialEq is equality',
               'pest and pest_derive: a text matches src/xdr.pest or not, and a match is a finite tree whose pairs have the children their rules spell out (fx/astproof.py reads those off the grammar and compares them with the trees pest builds for some thousands of texts)']
ASSUME_AST = ['which text is a sentence of the grammar, and the text of each token, is pest\'s business: layout and comments are covered by the bounded check only',
              'the size of a HashSet or BTreeMap is at most isize::MAX', 'stack depth and memory are not modelled']

TRUSTED_GEN = ['vx/gen.vrs: contracts of fmt::Write for String, Display of str / char / integers, char::is_numeric, to_lowercase, split, join, BTreeMap::values / iter (assumed, not proved)']
ASSUME_GEN = ['a Formatter or any other writer is a String: writing to it never fails', 'the contracts of src/ast, which the src/ast file of C06, C12, C13 and C14 discharges', 'stack depth and memory are not modelled']

TRUSTED_MAIN = ['vx/main.vrs: contracts of env::args_os, fs::read_to_string, print!, process::exit (assumed, not proved)']
ASSUME_MAIN = ['the argument list holds the program name (Linux 5.18 and later see to it)', 'Generator::generate is a function of the derive line and the text (C11)', 'a file reads the same whenever it is read, standard output takes what is written to it', 'an Err returned from main is printed and ends the process with a non-zero status (std)']


def ast_layer(tmp):
    import astproof
    res = Result('src/ast')
    try:
        res = astproof.verify(tmp)
    except Unsupported as e:
        res.unsupported = str(e)
    return res


def gen_layer(tmp):
    import genproof
    res = Result('src/impls')
    try:
        res = genproof.verify(tmp)
    except Unsupported as e:
        res.unsupported = str(e)
    return res


TEXT = ('C07', 'C11', 'C13')
TEXT_MEANING = ('what generate writes is module_text(derive line, declarations), a function stated in vx/text.vrs and proved of every emitter for all declarations; hence one text gives one module '
                '(c11_one_text_one_module), the same declarations in any order give the same module when each type name is declared once (c11_any_order), and every item, decoder and size impl carries the parameter '
                'exactly for the names Ast::generics() holds (bound, head_from, head_size)')


def text_layer(tmp):
    """a theorem about the emitters; one that is not proved is not claimed, never an alarm"""
    import textproof
    try:
        a, *rest = textproof.verify(tmp)
    except Unsupported as e:
        a = Result('text')
        a.unsupported = str(e)
        return a
    for b in rest:
        if b.errors == 0 and b.verified and not b.failed and (b.unsupported or '').startswith('no refusal'):
            b.unsupported = None        # the first file has the false assertion
        a.unsupported = a.unsupported or b.unsupported
        a.failed += b.failed
        a.verified += b.verified
        a.errors += b.errors
        a.solver += b.solver
        a.notes += b.notes
    return a


def main_layer(tmp):
    import genproof
    res = Result('src/main')
    try:
        res = genproof.verify_main(tmp)
        # the loop's invariant is of our making (what is written so far, file by file): a main that prints at the end, or
        # counts failures, keeps to the property without it
        lost = [f['obligation'] for f in res.failed if '/ loop' in f['obligation'] or 'overflow' in f['obligation']]
        if lost and not res.unsupported:
            res.unsupported = 'not proved: ' + '; '.join(lost[:4])
            res.failed = []
    except Unsupported as e:
        res.unsupported = str(e)
    return res


def run(prop, cx):
    if prop not in DECODE + AST + GEN + MAIN:
        return None
    import corpus
    from concurrent.futures import ThreadPoolExecutor
    b = cx.bins('fxgen')
    weaver()
    tmp = cx.tmp
    specs = [] if prop == 'C10' or prop not in DECODE else corpus.fixed() + corpus.randoms(cx.seed, 60 if cx.thorough else 6) + cx.guided()
    ls = []
    with ThreadPoolExecutor(engine.NCPU) as ex:
        al = ([ex.submit(ast_layer, tmp)] if prop in AST else []) + ([ex.submit(gen_layer, tmp)] if prop in GEN else []) + ([ex.submit(main_layer, tmp)] if prop in MAIN else [])
        tx = ex.submit(text_layer, tmp) if prop in TEXT else None
        h = ex.submit(header, b['fxgen'], tmp) if prop in DECODE else None
        rs = [h.result()] if h and not specs else []
        if specs:
            fs = [ex.submit(one_spec, b['fxgen'], sp, tmp, 240) for sp in specs]
            rs = [h.result()]
            for sp, f in zip(specs, fs):
                r = f.result()
                rs.append(r)
                if prop in LEMMAS and r.verified and not r.unsupported:
                    ls.append(ex.submit(one_lemmas, r.items, sp, tmp, 120))
            ls = [f.result() for f in ls]
        rs += [f.result() for f in al]
        tx = tx.result() if tx else None
    failed, lemma, unsup, notes = [], [], [], []
    for r in rs:
        for f in r.failed:
            if f['properties'] is None:
                lemma.append(f['obligation'])
            elif prop in f['properties']:
                failed.append(f)
        if r.unsupported:
            unsup.append('%s: %s' % (r.name, r.unsupported[:300]))
        notes += r.notes
    # lemmas say nothing of /repo: one that is not proved is a theorem not claimed, never an alarm
    ok = [r for r in ls if not r.unsupported]
    noth = ['%s: %s' % (r.name, r.unsupported[:200]) for r in ls if r.unsupported] + ['%s: %s' % (r.name, f['obligation']) for r in ok for f in r.failed]
    good = [r for r in rs if not r.unsupported]
    fns = sorted({k for r in good for k in r.fns})
    n = sum(r.verified for r in good)
    text = bool(tx and tx.verified and not tx.unsupported and not tx.failed)
    if text:
        n += tx.verified
    bad = sum(r.errors for r in good)
    complete = not unsup and not lemma
    cov = {'obligations': n + bad, 'discharged': n, 'checker_cmd': 'verus --crate-name vf --num-threads 1 FILE (one file per specification, one for src/header.rs, one for src/ast, one for src/impls and src/lib.rs, one for src/main.rs; assembled from /repo\'s current text)',
           'trusted_base': (TRUSTED if prop in DECODE else TRUSTED[:1]) + (TRUSTED_AST if prop in AST + GEN else []) + (TRUSTED_GEN if prop in GEN + MAIN else []) + (TRUSTED_MAIN if prop in MAIN else []), 'backend': 'Verus / Z3', 'solver_s': round(sum(r.solver for r in rs), 1), 'files_verified': len(good), 'functions_under_contract': len([k for r in good for k in r.fns]),
           'clauses_labelled_with_this_property': sum(1 for r in good for p in r.clauses if prop in (p or ())),
           'runtime_functions': [k for r in good if r.name == 'runtime' for k in r.fns], 'parser_functions': [k for r in good if r.name == 'src/ast' for k in r.fns], 'emitter_functions': [k for r in good if r.name == 'src/impls' for k in r.fns], 'specifications': [r.name for r in good if r.name not in ('runtime', 'src/ast', 'src/impls')],
           'wire_format_theorems': {'meaning': vlem.MEANING, 'obligations': sum(r.verified + r.errors for r in ok), 'discharged': sum(r.verified for r in ok), 'solver_s': round(sum(r.solver for r in ls), 1),
                                    'specifications': [r.name for r in ok if not r.failed], 'not_proved': noth[:20]} if prop in LEMMAS else 'not used for this property',
           'module_text_theorem': {'meaning': TEXT_MEANING, 'proved': text, 'obligations': tx.verified + tx.errors, 'discharged': tx.verified, 'solver_s': round(tx.solver, 1),
                                   'not_proved': ([tx.unsupported[:300]] if tx.unsupported else []) + [f['obligation'] for f in tx.failed][:10]} if tx else 'not used for this property',
           'parse_tree_shapes_run': next(({'texts': r.shapes[0], 'sentences': r.shapes[1], 'distinct_pairs': r.shapes[2], 'agree': r.shapes[3] is None} for r in good if getattr(r, 'shapes', None)), 'not used for this property'),
           'out_of_reach': unsup[:20], 'specification_lemmas_not_proved': lemma[:10], 'left_to_bounded': notes[:30]}
    if tx and not text:
        cx.notes.append('module text: theorem not claimed')
    complete = complete and (text or prop != 'C13')
    cx.notes += ['proof not available for ' + u for u in unsup[:5]]
    return {'failed': failed, 'coverage': cov, 'assumptions': (ASSUME if prop in DECODE else []) + (ASSUME_AST if prop in AST + GEN else []) + (ASSUME_GEN if prop in GEN else []) + (ASSUME_MAIN if prop in MAIN else []), 'level': 'proof' if complete and n and prop not in PARTIAL else 'exploration'}

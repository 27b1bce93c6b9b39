"""Lemmas about the wire format of one specification, generated from its declarations (no code of /repo involved except the
types): encodings decode to themselves and to nothing else, sizes are encoded lengths, results depend on the consumed bytes
only, no strict prefix of an accepted encoding is accepted."""
from vspec import *

MEANING = [
    'le_T: for every value x of T that fits the declarations, decoding RFC 4506 bytes enc_T(x) anywhere in a buffer gives x back, consumes exactly |enc_T(x)|, and wire_size(x) = |enc_T(x)|',
    'un_T: two values the contract allows for the same bytes are equal up to views of equal content', 'mo_T: decoding never moves backwards and consumes at least the minimum size',
    'lo_T: result, value and end depend on the bytes consumed only (not on position, limit or what follows)',
    'pr_T: no strict prefix of an accepted encoding is accepted', 'th_T: the above for the decoder as called: encode then decode is the identity, and size agrees']

EV = {'u32': ('enc_u32', 'v_u32'), 'i32': ('enc_i32', 'v_i32'), 'u64': ('enc_u64', 'v_u64'), 'i64': ('enc_i64', 'v_i64'), 'f32': ('enc_f32', 'v_f32'), 'f64': ('enc_f64', 'v_f64')}
DISC = {(4, True): ('i32', -2**31, 2**31 - 1), (4, False): ('u32', 0, 2**32 - 1), (8, True): ('i64', -2**63, 2**63 - 1), (8, False): ('u64', 0, 2**64 - 1)}
LO = '(d, hi, %s, d2, hi2, sh);'


class Pos:
    """one declared position: enc(x), wf(x), eq(x, y) and the calls le(x, p), mo(p), lo(p), un(p)"""

    def __init__(self, i, enc, wf, eq, le, mo, lo, un):
        self.i, self.enc, self.wf, self.eq, self.le, self.mo, self.lo, self.un = i, enc, wf, eq, le, mo, lo, un


class Lem:
    def __init__(self, vs):
        self.vs, self.sp = vs, vs.sp

    def pos(self, ty, arr, opt=False):
        vs = self.vs
        i = vs.inst(ty, arr, opt)
        k = ty.kind
        no = lambda *a: ''
        yes = lambda *a: 'true'
        end = lambda p: '%s->Ok_0' % i.e(p)
        if opt or (k == 'named' and arr is None) or (arr and arr[0] == 'var' and k == 'named'):
            pre = 'opt_' if opt else 'var_' if arr else ''
            n = pre + 'T_' + ty.name
            mx = -1 if not (arr and arr[1] is not None) else self.sp.num(arr[1])
            m = ', %d' % mx if pre == 'var_' else ''
            wf = lambda x: 'wf_%s(%s)%s' % (n, x, ' && %s@.len() <= %d' % (x, mx) if mx >= 0 else '')
            return Pos(i, lambda x: 'enc_%s(%s)' % (n, x), wf, lambda x, y: 'eq_%s(%s, %s)' % (n, x, y), lambda x, p: 'le_%s(%s, d, hi, %s%s);' % (n, x, p, m),
                       lambda p: 'mo_%s(d, hi, %s%s);' % (n, p, m), lambda p: 'lo_%s(d, hi, %s, d2, hi2, sh%s);' % (n, p, m), lambda p: 'un_%s(d, hi, %s%s);' % (n, p, m))
        if k == 'opaque':
            arr = arr or ('var', None)
            mx = -1 if arr[1] is None else self.sp.num(arr[1])
            eq = lambda x, y: '%s.content() == %s.content()' % (x, y)
            if arr[0] == 'fixed':
                return Pos(i, lambda x: 'enc_fix(%s)' % x, lambda x: '%s.content().len() == %d' % (x, mx), eq, lambda x, p: 'le_fix(%s, %d, d, hi, %s);' % (x, mx, p), no,
                           lambda p: 'lo_fix(d, %s, %s, d2, sh, %d);' % (p, end(p), mx), no)
            return Pos(i, lambda x: 'enc_cnt(%s)' % x, lambda x: '%s.content().len() <= %d' % (x, mx if 0 <= mx < 2**32 else 2**32 - 1), eq, lambda x, p: 'le_cnt(%s, %d, d, hi, %s);' % (x, mx, p), no,
                       lambda p: 'lo_cnt(d, %s, %s, d2, sh);' % (p, end(p)), no)
        if k == 'string':
            mx = -1 if not arr or arr[1] is None else self.sp.num(arr[1])
            return Pos(i, lambda x: 'enc_str(%s)' % x, lambda x: 'sb(%s).len() <= %d' % (x, mx if 0 <= mx < 2**32 else 2**32 - 1), lambda x, y: 'sb(%s) == sb(%s)' % (x, y),
                       lambda x, p: 'le_str(%s, %d, d, hi, %s);' % (x, mx, p), no, lambda p: 'lo_cnt(d, %s, %s, d2, sh);' % (p, end(p)), no)
        if arr is None:
            w = W[k]
            eq = (lambda x, y: 'bits%d(%s) == bits%d(%s)' % (w * 8, x, w * 8, y)) if k[0] == 'f' else (lambda x, y: '%s == %s' % (x, y))
            return Pos(i, lambda x: 'enc_%s(%s)' % (k, x), yes, eq, lambda x, p: 'le_%s(%s, d, %s);' % (k, x, p), no, lambda p: 'lo_%d(d, %s, %s, d2, sh);' % (w * 8, p, end(p)), no)
        raise Unsupported('fixed array outside a field')

    def flat(self, ty, arr, opt, x):
        if arr and arr[0] == 'fixed' and ty.kind != 'opaque':
            return [(self.pos(ty, None), '%s@[%d]' % (x, j)) for j in range(self.sp.num(arr[1]))]
        return [(self.pos(ty, arr, opt), x)]

    def sigs(self, n, y, rec, mx=False):
        """headers of the family for n: the level-dependent measures are filled in by the caller"""
        e = lambda d, hi, p: 'e_%s(%s, %s, %s%s)' % (n, d, hi, p, ', mx' if mx else '')
        m = ', mx: int' if mx else ''
        q = e('d', 'hi', 'p') + '->Ok_0'
        return {
            'enc': 'pub open spec fn enc_%s(x: %s) -> Seq<u8>' % (n, y), 'wf': 'pub open spec fn wf_%s(x: %s) -> bool' % (n, y), 'eq': 'pub open spec fn eq_%s(x: %s, y: %s) -> bool' % (n, y, y),
            'le': 'pub proof fn le_%s(x: %s, d: Seq<u8>, hi: int, p: int%s) requires wf_%s(x), %sat(d, p, enc_%s(x)), p + enc_%s(x).len() <= hi <= d.len() ensures %s == R::Ok(p + enc_%s(x).len()), v_%s(x, d, hi, p), s_%s(x) == enc_%s(x).len()' % (
                n, y, m, n, 'mx >= 0 ==> x@.len() <= mx, ' if mx else '', n, n, e('d', 'hi', 'p'), n, n, n, n),
            'mo': 'pub proof fn mo_%s(d: Seq<u8>, hi: int, p: int%s) requires 0 <= p <= hi <= d.len() ensures %s is Ok ==> p <= %s <= hi' % (n, m, e('d', 'hi', 'p'), q),
            'lo': 'pub proof fn lo_%s(d: Seq<u8>, hi: int, p: int, d2: Seq<u8>, hi2: int, sh: int%s) requires 0 <= p <= hi <= d.len(), hi2 <= d2.len(), %s is Ok, %s + sh <= hi2, same(d, p, %s, d2, sh) ensures %s == R::Ok(%s + sh), forall|x: %s| #[trigger] v_%s(x, d, hi, p) == v_%s(x, d2, hi2, p + sh)' % (
                n, m, e('d', 'hi', 'p'), q, q, e('d2', 'hi2', 'p + sh'), q, y, n, n),
            'un': 'pub proof fn un_%s(d: Seq<u8>, hi: int, p: int%s) requires 0 <= p <= hi <= d.len(), %s is Ok ensures forall|x: %s, y: %s| #[trigger] v_%s(x, d, hi, p) && #[trigger] v_%s(y, d, hi, p) ==> eq_%s(x, y)' % (
                n, m, e('d', 'hi', 'p'), y, y, n, n, n)}

    def unfolds(self, n, k, mx=False):
        """recursive functions are unfolded explicitly, once, at the position at hand"""
        m = ', mx' if mx else ''
        e, v = 'uf_e_%s(d, hi, p%s);' % (n, m), 'uf_v_%s(d, hi, p);' % n
        s2 = lambda t: t.replace('d, hi, p', 'd2, hi2, p + sh')
        return {'le': 'uf_enc_%s(x); uf_wf_%s(x); uf_s_%s(x); %s %s' % (n, n, n, e, v), 'mo': e, 'lo': ' '.join((e, v, s2(e), s2(v))), 'un': '%s %s uf_eq_%s();' % (e, v, n)}[k] + ' '

    def emit(self, n, y, rec, bodies, xm, pm, mx=False):
        """bodies: enc wf eq le mo lo un; xm / pm: measures over the value and over the position"""
        sg = self.sigs(n, y, rec, mx)
        out = []
        for k in ('enc', 'wf', 'eq', 'le', 'mo', 'lo', 'un'):
            m = (xm if k in ('enc', 'wf', 'eq', 'le') else pm) if rec else None
            out.append('%s%s { %s%s }' % (sg[k], ' decreases ' + m if m else '', self.unfolds(n, k, mx) if rec and k in ('le', 'mo', 'lo', 'un') else '', bodies[k]))
        return out

    def decl(self, d):
        vs = self.vs
        n, y, rec = 'T_' + d.name, vs.rty(d.name), d.name in vs.rec
        rv = ''.join('reveal(%s); ' % f for f in vs.reveal[d.name])
        hd = 'broadcast use bytes_wf; broadcast use sb_wf; reveal(padn); ' + rv
        lev = vs.level[d.name]
        unf = ('unf_%s(d, hi, p); ' % n, 'unf_%s(d2, hi2, p + sh); ' % n) if vs.unf.get(d.name) else ('', '')
        if isinstance(d, (Struct, Typedef)):
            fs = [(f.ty, f.arr, f.opt, 'x.' + safe(f.name)) for f in d.fields] if isinstance(d, Struct) else [(d.target, d.arr, False, 'x.0')]
            fl = [t for f in fs for t in self.flat(*f)]
            fx = ' '.join(sorted({'lem_fx_%s_%d();' % ('T_' + f[0].name if f[0].kind == 'named' else f[0].kind, self.sp.num(f[1][1])) for f in fs if f[1] and f[1][0] == 'fixed' and f[0].kind != 'opaque'}))
            ek = lambda k, a='d, hi, p': 'e_%s%s(%s)' % (n, '' if k == len(fl) else '__%d' % k, a)
            at = lambda k: 'p' if k == 0 else '%s->Ok_0' % ek(k)
            split = len(fl) > 4
            steps = []
            if split:
                en = lambda k: 'enc_%s__%d(x)' % (n, k)
                enc = en(len(fl))
                for k, (P, x) in enumerate(fl, 1):
                    steps.append('%spub open spec fn enc_%s__%d(x: %s) -> Seq<u8> %s { %s }' % ('' if rec else '#[verifier::opaque] ', n, k, y, 'decreases x, %dint' % k if rec else '', P.enc(x) if k == 1 else '%s + %s' % (en(k - 1), P.enc(x))))
                for k, (P, x) in enumerate(fl, 1):
                    q = 'p + %s.len()' % en(k - 1) if k > 1 else 'p'
                    steps.append('pub proof fn le_%s__%d(x: %s, d: Seq<u8>, hi: int, p: int) requires wf_%s(x), at(d, p, %s), p + %s.len() <= hi <= d.len() ensures %s == R::Ok(p + %s.len()), %s, (%s) == %s.len(), %s.len() == %s%s.len()%s%s { broadcast use bytes_wf; reveal(wf_%s); reveal(enc_%s__%d); reveal(e_%s%s); %s%s%s%s }' % (
                        n, k, y, n, en(k), en(k), ek(k), en(k), P.i.v(x, q), P.i.s(x), P.enc(x), en(k), en(k - 1) + '.len() + ' if k > 1 else '', P.enc(x), ', at(d, p, %s)' % en(k - 1) if k > 1 else '',
                        ' decreases x, %dint' % k if rec else '', n, n, k, n, '' if k == len(fl) else '__%d' % k, unf[0], 'at_cat(d, p, %s, %s); ' % (en(k - 1), P.enc(x)) if k > 1 else '',
                        'le_%s__%d(x, d, hi, p); ' % (n, k - 1) if k > 1 else '', P.le(x, q)))
                    if rec:
                        steps[-1] = re.sub(r'reveal\((wf|e|enc)_\w+\); ', '', steps[-1]).replace('{ broadcast', '{ uf_wf_%s(x); uf_enc_%s__%d(x); broadcast' % (n, n, k))
            else:
                enc = ' + '.join(P.enc(x) for P, x in fl) or 'Seq::<u8>::empty()'
            b = {'enc': enc, 'wf': ' && '.join(P.wf(x) for P, x in fl) or 'true', 'eq': ' && '.join(P.eq(x, 'y' + x[1:]) for P, x in fl) or 'true'}
            le = unf[0] + fx
            if split:
                le += ' '.join('le_%s__%d(x, d, hi, p);' % (n, k) for k in range(len(fl), 0, -1))
            else:
                for k, (P, x) in enumerate(fl):
                    le += ' let vf_a%d = %s;' % (k + 1, P.enc(x) if k == 0 else 'vf_a%d + %s' % (k, P.enc(x)))
                for k in range(len(fl) - 1, 0, -1):
                    le += ' at_cat(d, p, vf_a%d, %s);' % (k, fl[k][0].enc(fl[k][1]))
                for k, (P, x) in enumerate(fl):
                    le += ' %s assert(%s == R::Ok(p + vf_a%d.len()));' % (P.le(x, 'p + vf_a%d.len()' % k if k else 'p'), ek(k + 1), k + 1)
            mo, lo, un = unf[0], unf[0] + unf[1], unf[0]
            tail = ''
            for k, (P, x) in enumerate(fl):
                mo += ' %s if %s is Ok {' % (P.mo(at(k)), ek(k + 1))
                lo += ' %s assert(%s <= %s <= hi);' % (P.mo(at(k)), at(k), at(k + 1))
                tail += '}'
            for k, (P, x) in enumerate(fl):      # positions first: every prefix of the parts parsed
                lo += ' %s assert(%s == R::Ok(%s + sh));' % (P.lo(at(k)), ek(k + 1, 'd2, hi2, p + sh'), at(k + 1))
                un += ' %s %s' % (P.mo(at(k)), P.un(at(k)))
            b.update(le=le, mo=mo + tail, lo=lo, un=un)
        elif isinstance(d, Enum):
            vals = self.sp.enum_values(d)
            b = {'enc': 'match x { %s }' % ', '.join('%s::%s => enc_i32(%di32)' % (d.name, m, v) for m, v in vals.items()), 'wf': 'true', 'eq': 'x == y',
                 'le': 'match x { %s }' % ', '.join('%s::%s => { le_i32(%di32, d, p); }' % (d.name, m, v) for m, v in vals.items()),
                 'mo': '', 'lo': 'lo_32(d, p, p + 4, d2, sh);', 'un': ''}
        else:
            m, dflt = self.sp.union_map(d)
            pe, dv, w, unk = vs.disc(d)
            sw, s, base = self.sp.union_disc(d)
            q = 'p + %d' % w
            k = 'i32' if isinstance(base, Enum) else 'u32' if base == 'bool' else DISC[(w, bool(s))][0]
            lo_, hi_ = (0, 1) if base == 'bool' else DISC[(w, k[0] == 'i')][1:]
            dec = ('enum', base) if isinstance(base, Enum) else None
            inr = '(%s)' % ' || '.join('%%s == %d' % v for v in self.sp.enum_values(base).values()) if dec else '%d <= %%s <= %d' % (lo_, hi_)
            if dec:
                ok = set(self.sp.enum_values(base).values())
                inrange = lambda v: v in ok
            else:
                inrange = lambda v: lo_ <= v <= hi_
            rng = lambda t: inr.replace('%s', t)
            vsn = {}
            for val, lab, f, var in m:
                vsn.setdefault(vs.vname(var), [f, [], False])[1].append(val)
            if dflt is not None:
                vsn.setdefault('default', [dflt[0], [], False])[2] = True
            dead = [vs.vname(lab) for val, lab, f, var in m if vs.vname(lab) not in vsn and f is not None]
            al = [val for val, _, _, _ in m]
            A = {'enc': [], 'wf': [], 'eq': [], 'le': []}
            pick = 'dv_%s(x)' % n
            sub_mo, sub_lo, sub_un = [], [], []
            for v, (f, vals, isd) in vsn.items():
                P = self.pos(f.ty, f.arr, f.opt) if f else None
                pat = '%s::%s%s' % (d.name, v, '(i)' if f else '')
                if isd:
                    t = pick
                    c = '%s && (%s)' % (rng(t), ' || '.join(['%s == %d' % (t, x) for x in vals] + [' && '.join('%s != %d' % (t, x) for x in al) or 'true']))
                else:
                    t, c = '(%dint)' % vals[0], 'true' if inrange(vals[0]) else 'false'
                cast = '(%s as %s)' % (t, k)
                A['enc'].append('%s => enc_%s(%s)%s' % (pat, k, cast, ' + ' + P.enc('i') if P else ''))
                A['wf'].append('%s => %s%s' % (pat, c, ' && ' + P.wf('i') if P else ''))
                A['eq'].append('%s => match y { %s::%s%s => %s, _ => false }' % (pat, d.name, v, '(j)' if f else '', P.eq('i', 'j') if P else 'true'))
                A['le'].append('%s => { %s le_%s(%s, d, p); %s }' % (pat, 'at_cat(d, p, enc_%s(%s), %s);' % (k, cast, P.enc('i')) if P else '', k, cast, P.le('i', q) if P else ''))
                if P:
                    cond = ' || '.join(['%s == %d' % (dv, x) for x in vals] + (['(%s)' % (' && '.join('%s != %d' % (dv, x) for x in al) or 'true')] if isd else []))
                    for L, g in ((sub_mo, P.mo), (sub_lo, P.lo), (sub_un, P.un)):
                        if g(q):
                            L.append('if %s { %s %s }' % (cond, P.mo(q) if L is sub_un else '', g(q)))
            for v in dead:
                for a, t in (('enc', 'Seq::<u8>::empty()'), ('wf', 'false'), ('eq', 'true'), ('le', '{ }')):
                    A[a].append('%s::%s(_) => %s' % (d.name, v, t))
            if len(vsn) + len(dead) == 1:
                A['eq'] = [t.replace(', _ => false', '') for t in A['eq']]
            b = {a: 'match x { %s }' % ', '.join(t) for a, t in A.items()}
            sx = 'reveal(sx32); reveal(sx64);' if k[0] == 'i' else ''
            head = {'mo': 'if p + %d <= hi { ' % w, 'un': 'if p + %d <= hi { ' % w, 'lo': 'if p + %d <= hi { %s lo_%d(d, p, p + %d, d2, sh); ' % (w, ' '.join(sub_mo), w * 8, w)}
            b['mo'] = head['mo'] + ' '.join(sub_mo) + ' }'
            b['un'] = head['un'] + ' '.join(sub_un) + ' }'
            b['lo'] = head['lo'] + ' '.join(sub_lo) + ' }'
            steps = []
            if len(A['le']) > 2:      # one lemma per arm
                sig = self.sigs(n, y, rec)['le']
                calls = []
                for j, arm in enumerate(A['le']):
                    pat = arm.split(' => ')[0]
                    if pat.endswith('(_)'):
                        calls.append(arm)
                        continue
                    t = sig.replace('le_%s(' % n, 'le_%s__%d(' % (n, j), 1).replace('requires ', 'requires x is %s, ' % pat.split('::')[1].replace('(i)', ''), 1)
                    t += '%s { %s%s match x { %s%s } }' % (' decreases x, 500int' if rec else '', self.unfolds(n, 'le') if rec else '', hd if rec or isinstance(d, Enum) else 'reveal(enc_%s); reveal(wf_%s); ' % (n, n) + hd, arm, ', _ => { }' if len(A['le']) > 1 else '')
                    steps.append(t)
                    calls.append('%s => { le_%s__%d(x, d, hi, p); }' % (pat.replace('(i)', '(_)'), n, j))
                b['le'] = 'match x { %s }' % ', '.join(calls)
            out0 = ['pub uninterp spec fn dv_%s(x: %s) -> int;' % (n, y)]
        for k in ('le', 'mo', 'lo', 'un'):
            b[k] = hd + b[k]
        out = self.emit(n, y, rec, b, 'x, 1000int', 'hi - p, %dint, 0int' % lev)
        if not rec and not isinstance(d, Enum):
            # opaque: only this type's own lemmas look inside
            out = [('#[verifier::opaque] ' + t) if t.startswith('pub open spec') else (t.replace('{ broadcast', '{ reveal(enc_%s); reveal(wf_%s); reveal(eq_%s); broadcast' % (n, n, n), 1) if t.startswith('pub proof') else t) for t in out]
        out = (out0 if isinstance(d, Union) else []) + (steps if not isinstance(d, Enum) else []) + out
        out.append('/// no strict prefix of an accepted encoding is accepted\npub proof fn pr_%s(d: Seq<u8>, hi: int, p: int, hi2: int) requires 0 <= p <= hi2 <= hi <= d.len(), e_%s(d, hi, p) is Ok, hi2 < e_%s(d, hi, p)->Ok_0 ensures e_%s(d, hi2, p) is Err { mo_%s(d, hi2, p); if e_%s(d, hi2, p) is Ok { lo_%s(d, hi2, p, d, hi, 0); } }' % ((n,) * 7))
        out.append('/// what a decoder makes of the encoding of x, wherever it lies and whatever follows, is x; and its size is the encoding\'s length\npub proof fn th_%s(x: %s, y: %s, d: Seq<u8>, hi: int, p: int) requires wf_%s(x), at(d, p, enc_%s(x)), p + enc_%s(x).len() <= hi <= d.len() ensures e_%s(d, hi, p) == R::Ok(p + enc_%s(x).len()), v_%s(y, d, hi, p) ==> eq_%s(x, y), s_%s(x) == enc_%s(x).len() { le_%s(x, d, hi, p); un_%s(d, hi, p); }' % ((n, y, y) + (n,) * 11))
        return out

    def opts(self, name):
        vs = self.vs
        t, rec = 'T_' + name, name in vs.rec
        y = 'Option<Box<%s>>' % vs.rty(name)
        b = {'enc': 'match x { None => enc_u32(0u32), Some(b) => enc_u32(1u32) + enc_%s(*b) }' % t, 'wf': 'match x { None => true, Some(b) => wf_%s(*b) }' % t,
             'eq': 'match x { None => y is None, Some(b) => match y { None => false, Some(c) => eq_%s(*b, *c) } }' % t,
             'le': 'match x { None => { le_u32(0u32, d, p); } Some(b) => { at_cat(d, p, enc_u32(1u32), enc_%s(*b)); le_u32(1u32, d, p); le_%s(*b, d, hi, p + 4); } }' % (t, t),
             'mo': 'if p + 4 <= hi && be32(d, p) == 1 { mo_%s(d, hi, p + 4); }' % t,
             'lo': 'if p + 4 <= hi { if be32(d, p) == 1 { mo_%s(d, hi, p + 4); } lo_32(d, p, p + 4, d2, sh); if be32(d, p) == 1 { lo_%s(d, hi, p + 4, d2, hi2, sh); } }' % (t, t),
             'un': 'if be32(d, p) == 1 { un_%s(d, hi, p + 4); }' % t}
        return self.emit('opt_' + t, y, rec, b, 'x, 0int', 'hi - p, 0int, 0int')

    def arrs(self, name):
        vs = self.vs
        T, rec, Y = 'T_' + name, name in vs.rec, vs.rty(name)
        ar = ' decreases hi - p, 1000int, n' if rec else ' decreases n'
        uf = lambda t: t if rec else ''
        f = dict(T=T, Y=Y, ule=uf('uf_enc_arr_%s(x); uf_wf_arr_%s(x); uf_s_arr_%s(x); uf_e_arr_%s(d, hi, p, x.len() as int); uf_v_at_%s(d, hi, p);' % ((T,) * 5)), ue=uf('uf_e_arr_%s(d, hi, p, n);' % T),
                 ulo=uf('uf_e_arr_%s(d2, hi2, p + sh, n); uf_v_at_%s(d, hi, p); uf_v_at_%s(d2, hi2, p + sh);' % (T, T, T)), uun=uf('uf_v_at_%s(d, hi, p);' % T), ueq=uf('uf_eq_arr_%s();' % T), xd=' decreases x, 0int' if rec else ' decreases x', wd=' decreases x, 0int' if rec else '', ar=ar)
        out = ['''
pub open spec fn enc_arr_{T}(x: Seq<{Y}>) -> Seq<u8> decreases x, 0int {{ if x.len() == 0 {{ Seq::<u8>::empty() }} else {{ enc_arr_{T}(x.drop_last()) + enc_{T}(x.last()) }} }}
pub open spec fn wf_arr_{T}(x: Seq<{Y}>) -> bool decreases x, 0int {{ if x.len() == 0 {{ true }} else {{ wf_arr_{T}(x.drop_last()) && wf_{T}(x.last()) }} }}
pub open spec fn eq_arr_{T}(x: Seq<{Y}>, y: Seq<{Y}>) -> bool decreases x, 0int {{ x.len() == y.len() && (x.len() > 0 ==> eq_arr_{T}(x.drop_last(), y.drop_last()) && eq_{T}(x.last(), y.last())) }}
pub proof fn le_arr_{T}(x: Seq<{Y}>, d: Seq<u8>, hi: int, p: int)
    requires wf_arr_{T}(x), at(d, p, enc_arr_{T}(x)), p + enc_arr_{T}(x).len() <= hi <= d.len()
    ensures e_arr_{T}(d, hi, p, x.len() as int) == R::Ok(p + enc_arr_{T}(x).len()), s_arr_{T}(x) == enc_arr_{T}(x).len(), forall|j: int| 0 <= j < x.len() ==> v_at_{T}(#[trigger] x[j], d, hi, p, j)
    decreases x, 0int
{{
    {ule}
    if x.len() > 0 {{
        let y = x.drop_last();
        at_cat(d, p, enc_arr_{T}(y), enc_{T}(x.last()));
        le_arr_{T}(y, d, hi, p);
        le_{T}(x.last(), d, hi, p + enc_arr_{T}(y).len());
        assert forall|j: int| 0 <= j < x.len() implies v_at_{T}(#[trigger] x[j], d, hi, p, j) by {{ if j < y.len() {{ assert(y[j] == x[j]); }} }}
    }}
}}
pub proof fn mo_arr_{T}(d: Seq<u8>, hi: int, p: int, n: int) requires 0 <= p <= hi <= d.len() ensures e_arr_{T}(d, hi, p, n) is Ok ==> p <= e_arr_{T}(d, hi, p, n)->Ok_0 <= hi {ar}
{{ {ue} if n > 0 {{ mo_arr_{T}(d, hi, p, n - 1); if e_arr_{T}(d, hi, p, n - 1) is Ok {{ mo_{T}(d, hi, e_arr_{T}(d, hi, p, n - 1)->Ok_0); }} }} }}
pub proof fn lo_arr_{T}(d: Seq<u8>, hi: int, p: int, d2: Seq<u8>, hi2: int, sh: int, n: int)
    requires 0 <= p <= hi <= d.len(), hi2 <= d2.len(), e_arr_{T}(d, hi, p, n) is Ok, e_arr_{T}(d, hi, p, n)->Ok_0 + sh <= hi2, same(d, p, e_arr_{T}(d, hi, p, n)->Ok_0, d2, sh)
    ensures e_arr_{T}(d2, hi2, p + sh, n) == R::Ok(e_arr_{T}(d, hi, p, n)->Ok_0 + sh), forall|x: {Y}, j: int| 0 <= j < n ==> #[trigger] v_at_{T}(x, d, hi, p, j) == v_at_{T}(x, d2, hi2, p + sh, j) {ar}
{{
    {ue} {ulo}
    if n > 0 {{
        let q = e_arr_{T}(d, hi, p, n - 1)->Ok_0;
        mo_arr_{T}(d, hi, p, n - 1); mo_{T}(d, hi, q);
        lo_arr_{T}(d, hi, p, d2, hi2, sh, n - 1); lo_{T}(d, hi, q, d2, hi2, sh);
    }}
}}
pub proof fn un_arr_{T}(d: Seq<u8>, hi: int, p: int, n: int)
    requires 0 <= p <= hi <= d.len(), e_arr_{T}(d, hi, p, n) is Ok
    ensures forall|x: {Y}, y: {Y}, j: int| 0 <= j < n && #[trigger] v_at_{T}(x, d, hi, p, j) && #[trigger] v_at_{T}(y, d, hi, p, j) ==> eq_{T}(x, y) {ar}
{{ {ue} {uun} if n > 0 {{ mo_arr_{T}(d, hi, p, n - 1); un_arr_{T}(d, hi, p, n - 1); un_{T}(d, hi, e_arr_{T}(d, hi, p, n - 1)->Ok_0); }} }}
pub proof fn eqx_{T}(x: Seq<{Y}>, y: Seq<{Y}>) requires x.len() == y.len(), forall|j: int| 0 <= j < x.len() ==> eq_{T}(#[trigger] x[j], y[j]) ensures eq_arr_{T}(x, y) decreases x.len()
{{ {ueq} if x.len() > 0 {{
    assert forall|j: int| 0 <= j < x.len() - 1 implies eq_{T}(#[trigger] x.drop_last()[j], y.drop_last()[j]) by {{ assert(eq_{T}(x[j], y[j])); }}
    eqx_{T}(x.drop_last(), y.drop_last()); assert(eq_{T}(x[x.len() - 1], y[y.len() - 1])); }} }}
'''.format(**f)]
        y = 'Vec<%s>' % Y
        b = {'enc': 'enc_u32(x@.len() as u32) + enc_arr_%s(x@)' % T, 'wf': 'x@.len() <= u32::MAX && wf_arr_%s(x@)' % T, 'eq': 'eq_arr_%s(x@, y@)' % T,
             'le': 'at_cat(d, p, enc_u32(x@.len() as u32), enc_arr_%s(x@)); le_u32(x@.len() as u32, d, p); le_arr_%s(x@, d, hi, p + 4);' % (T, T),
             'mo': 'if p + 4 <= hi { mo_arr_%s(d, hi, p + 4, be32(d, p) as int); }' % T,
             'lo': 'mo_arr_%s(d, hi, p + 4, be32(d, p) as int); lo_32(d, p, p + 4, d2, sh); lo_arr_%s(d, hi, p + 4, d2, hi2, sh, be32(d, p) as int); assert forall|x: %s| #[trigger] v_var_%s(x, d, hi, p) == v_var_%s(x, d2, hi2, p + sh) by { assert forall|j: int| 0 <= j < be32(d, p) implies v_at_%s(#[trigger] x@[j], d, hi, p + 4, j) == v_at_%s(x@[j], d2, hi2, p + sh + 4, j) by { } };' % (T, T, y, T, T, T, T),
             'un': 'un_arr_%s(d, hi, p + 4, be32(d, p) as int); assert forall|x: %s, y: %s| #[trigger] v_var_%s(x, d, hi, p) && #[trigger] v_var_%s(y, d, hi, p) implies eq_var_%s(x, y) by { assert forall|j: int| 0 <= j < x@.len() implies eq_%s(#[trigger] x@[j], y@[j]) by { assert(v_at_%s(x@[j], d, hi, p + 4, j)); assert(v_at_%s(y@[j], d, hi, p + 4, j)); } eqx_%s(x@, y@); }' % (T, y, y, T, T, T, T, T, T, T)}
        # the order of the bound variables: e_var_T(d, hi, p, mx)
        return out + self.emit('var_' + T, y, rec, b, 'x, 0int', 'hi - p, 0int, 0int', mx=True)

    def unfoldings(self, text):
        """f(args) == body of f, for every recursive specification function of a recursive type"""
        out, done = [], set()
        for m in re.finditer(r'pub open spec fn (\w+)\(([^)]*)\) -> [\w<>]+\s*decreases[^{]*\{', text):
            n = m.group(1)
            k = re.match(r'(e|v|s|enc|wf|eq)_(?:opt_|var_|arr_|at_)?T_(\w+?)(?:__\d+)?$', n)
            if not k or n in done or (k.group(1) == 'e' and re.search(r'__\d+$', n)) or not any(k.group(2) == r for r in self.vs.rec):
                continue
            done.add(n)
            d, i = 1, m.end()
            while d:
                d += {'{': 1, '}': -1}.get(text[i], 0)
                i += 1
            body = text[m.end():i - 1]
            ps = [q.strip() for q in m.group(2).split(',')]
            nm = [q.split(':')[0] for q in ps]
            call = '%s(%s)' % (n, ', '.join(nm))
            if k.group(1) == 'eq':
                fr, to = ps, []
            elif k.group(1) == 'v':
                fr, to = [q for q in ps if q[:2] in ('x:', 'i:')], [q for q in ps if q[:2] not in ('x:', 'i:')]
            else:
                fr, to = [], ps
            en = '%s == ({ %s })' % ('#[trigger] ' + call if fr else call, body)
            out.append('pub proof fn uf_%s(%s) ensures %s%s { }' % (n, ', '.join(to), 'forall|%s| ' % ', '.join(fr) if fr else '', en))
        return out

    def all(self, before=''):
        out = []
        for d in self.vs.live:
            out += self.decl(d)
        for n in sorted(self.vs.opts):
            out += self.opts(n)
        for n in sorted(self.vs.arrs):
            out += self.arrs(n)
        if not self.vs.rec:
            return out
        return out + self.unfoldings(before + '\n'.join(out))

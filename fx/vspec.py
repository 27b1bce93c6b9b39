"""Contracts of the generated decoders and size functions, derived from a specification's declarations (model.Spec)."""
import re
from model import *
from vgen import *
import hdr

W = {'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'bool': 4}
MAXN = 16


class Inst:
    """how one declared position is parsed: e(p), v(x, p), a(x, p), s(x); positions are over d, hi"""

    def __init__(self, ty, e, v, a, s, deps=(), var=None, parts=None):
        self.ty, self.e, self.v, self.a, self.s, self.deps, self.var, self.parts = ty, e, v, a, s, deps, var, parts


class VSpec:
    def __init__(self, spec, only=None):
        self.sp = spec
        self.gen = spec.generics()
        self.names = [d.name for d in spec.types()]
        self.skip = {}
        self.fixed = set()      # (elem id, elem type, n)
        self.arrs = {}          # elem id -> elem type
        self.opts = {}
        self.unf = {}
        self.reveal = {}
        self.only = only
        self.plan()

    # ---- which declarations are within reach ---------------------------------------------------
    def plan(self):
        sp = self.sp
        for d in sp.types():
            why = None
            fs = d.fields if isinstance(d, Struct) else [f for _, f in d.groups if f] if isinstance(d, Union) else []
            for f in fs:
                if f.ty.kind == 'opaque' and f.arr is None:
                    why = 'opaque without a length (recorded finding)'
            for ty, arr in [(f.ty, f.arr) for f in fs] + ([(d.target, d.arr)] if isinstance(d, Typedef) else []):
                if arr and arr[0] == 'fixed' and ty.kind != 'opaque' and sp.num(arr[1]) > MAXN:
                    why = 'fixed array of more than %d elements' % MAXN
            if why:
                self.skip[d.name] = why
        ch = True
        while ch:
            ch = False
            for d in sp.types():
                if d.name not in self.skip:
                    for t in sp.parts(d):
                        if t.kind == 'named' and t.name in self.skip:
                            self.skip[d.name] = 'contains ' + t.name
                            ch = True
        bounds = [sp.num(f.arr[1]) for d in sp.types() for f in (d.fields if isinstance(d, Struct) else [g for _, g in d.groups if g] if isinstance(d, Union) else []) if f.arr and f.arr[1] is not None]
        bounds += [sp.num(d.arr[1]) for d in sp.types() if isinstance(d, Typedef) and d.arr and d.arr[1] is not None]
        self.maxdecl = max(bounds or [0])
        self.live = [d for d in sp.types() if d.name not in self.skip]
        self.edges = {}
        for d in self.live:
            out = []
            def add(ty, arr, opt):
                if ty.kind == 'named' and ty.name in sp.byname:
                    out.append((ty.name, 'opt' if opt else 'var' if arr and arr[0] == 'var' else 'direct'))
            if isinstance(d, Struct):
                for f in d.fields:
                    add(f.ty, f.arr, f.opt)
            elif isinstance(d, Union):
                add(d.sw, None, False)
                for _, f in d.groups:
                    if f:
                        add(f.ty, f.arr, f.opt)
            elif isinstance(d, Typedef):
                add(d.target, d.arr, False)
            self.edges[d.name] = out
        self.rec = {n for n in self.edges if n in self.reach(n)}
        self.level = {}
        def lev(n):
            if n not in self.level:
                self.level[n] = 1 + max([lev(m) for m, k in self.edges.get(n, []) if k == 'direct'] or [0])
            return self.level[n]
        for n in self.edges:
            lev(n)
        # types inside the element of some counted array: their size function steers the decoder
        self.cone = set()
        for n in self.edges:
            for m, k in self.edges[n]:
                if k == 'var':
                    self.cone |= {m} | self.reach(m)

    def reach(self, n):
        seen, todo = set(), [n]
        while todo:
            for m, _ in self.edges.get(todo.pop(), []):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen

    def least(self, ty, arr=None, opt=False, seen=()):
        """a static lower bound of the wire size of any value of the type"""
        if opt or ty.kind == 'string' or (arr and arr[0] == 'var') or ty.kind == 'bool':
            return 4
        if ty.kind == 'opaque':
            return 0 if arr else 4      # the length of a fixed opaque is not part of its Rust type
        if arr:
            return self.sp.num(arr[1]) * self.least(ty, None, False, seen)
        if ty.kind != 'named':
            return W[ty.kind]
        d = self.sp.byname.get(ty.name)
        if d is None or ty.name in seen:
            return 0
        if isinstance(d, (Enum, Union)):
            return 4
        fs = [(f.ty, f.arr, f.opt) for f in d.fields] if isinstance(d, Struct) else [(d.target, d.arr, False)]
        return sum(self.least(*f, seen=seen + (ty.name,)) for f in fs)

    def four(self, name):
        return self.least(Ty('named', name)) >= 4

    def rty(self, name):
        return name + ('<Bytes>' if name in self.gen else '')

    # ---- positions --------------------------------------------------------------------------------
    def inst(self, ty, arr, opt=False):
        sp = self.sp
        k = ty.kind
        if opt:
            if k != 'named':
                raise Unsupported('optional primitive')
            b = self.inst(ty, arr)
            self.opts[ty.name] = b
            n = 'T_' + ty.name
            return Inst('Option<Box<%s>>' % b.ty, lambda p: 'e_opt_%s(d, hi, %s)' % (n, p), lambda x, p: 'v_opt_%s(%s, d, hi, %s)' % (n, x, p),
                        lambda x, p: 'a_opt_%s(%s, al, d, hi, %s)' % (n, x, p) if ty.name in self.gen else None, lambda x: 's_opt_%s(%s)' % (n, x), var='opt')
        mx = -1
        if arr and arr[1] is not None:
            mx = sp.num(arr[1])
        if k == 'opaque':
            if arr and arr[0] == 'fixed':
                return Inst('Bytes', lambda p: 'e_fix(hi, %s, %d)' % (p, mx), lambda x, p: 'v_fix(%s, d, %s, %d)' % (x, p, mx),
                            lambda x, p: 'a_fix(%s, al, %s, %d)' % (x, p, mx), lambda x: 's_op(%s)' % x)
            return Inst('Bytes', lambda p: 'e_cnt(d, hi, %s, %d)' % (p, mx), lambda x, p: 'v_cnt(%s, d, %s)' % (x, p),
                        lambda x, p: 'a_cnt(%s, al, d, %s)' % (x, p), lambda x: '(4nat + s_op(%s))' % x)
        if k == 'string':
            if arr and arr[0] == 'fixed':
                raise Unsupported('fixed string')
            return Inst('String', lambda p: 'e_str(d, hi, %s, %d)' % (p, mx), lambda x, p: 'v_str(%s, d, %s)' % (x, p), lambda x, p: None, lambda x: 's_str(%s)' % x)
        if arr is None:
            if k == 'named':
                n = 'T_' + ty.name
                return Inst(self.rty(ty.name), lambda p: 'e_%s(d, hi, %s)' % (n, p), lambda x, p: 'v_%s(%s, d, hi, %s)' % (n, x, p),
                            lambda x, p: 'a_%s(%s, al, d, hi, %s)' % (n, x, p) if ty.name in self.gen else None, lambda x: 's_%s(%s)' % (n, x))
            if k == 'bool':
                return Inst('bool', lambda p: 'e_bool(d, hi, %s)' % p, lambda x, p: 'v_bool(%s, d, %s)' % (x, p), lambda x, p: None, lambda x: '4nat')
            return Inst(k, lambda p: 'e_w(hi, %s, %d)' % (p, W[k]), lambda x, p: 'v_%s(%s, d, %s)' % (k, x, p), lambda x, p: None, lambda x: '%dnat' % W[k])
        b = self.inst(ty, None)
        eid = 'T_' + ty.name if k == 'named' else k
        if arr[0] == 'var':
            if k != 'named':
                raise Unsupported('counted array of a primitive')
            self.arrs[ty.name] = b.ty
            return Inst('Vec<%s>' % b.ty, lambda p: 'e_var_%s(d, hi, %s, %d)' % (eid, p, mx), lambda x, p: 'v_var_%s(%s, d, hi, %s)' % (eid, x, p),
                        lambda x, p: 'a_var_%s(%s, al, d, hi, %s)' % (eid, x, p) if ty.name in self.gen else None, lambda x: 's_var_%s(%s)' % (eid, x), var='var')
        self.fixed.add((eid, b.ty, mx))
        parts = lambda x: [(b, '%s@[%d]' % (x, i)) for i in range(mx)]
        isrec = k == 'named' and ty.name in self.rec
        return Inst('[%s; %d]' % (b.ty, mx), parts=parts, e=lambda p: '(%s)' % self.chain_e(parts('x'), p, isrec), v=lambda x, p: '(%s)' % self.chain_v(parts(x), p),
                    a=lambda x, p: '(%s)' % self.chain_v(parts(x), p, True) if self.generic(ty) else None, s=lambda x: 's_arr_%s(%s@)' % (eid, x))

    def generic(self, ty):
        return ty.kind == 'opaque' or ty.name in self.gen

    CTR = [0]

    def var(self):
        self.CTR[0] += 1
        return 'q%d' % self.CTR[0]

    def chain_e(self, parts, p, rec):
        if not parts:
            return 'R::Ok(%s)' % p
        if len(parts) == 1:
            return parts[0][0].e(p)
        q = self.var()
        rest = self.chain_e(parts[1:], q, rec)
        if rec:
            rest = 'if %s <= %s && %s <= hi { %s } else { R::Err(K::Other) }' % (p, q, q, rest)
        return 'match %s { R::Ok(%s) => %s, R::Err(k) => R::Err(k) }' % (parts[0][0].e(p), q, rest)

    def chain_v(self, parts, p, view=False):
        if not parts:
            return 'true'
        i, x = parts[0]
        t = (i.a if view else i.v)(x, p)
        if len(parts) == 1:
            return t or 'true'
        q = self.var()
        return '%s(match %s { R::Ok(%s) => %s, R::Err(_) => false })' % (t + ' && ' if t else '', i.e(p), q, self.chain_v(parts[1:], q, view))

    # ---- declarations ------------------------------------------------------------------------------
    def struct_parts(self, d):
        if isinstance(d, Struct):
            return [(self.inst(f.ty, f.arr, f.opt), 'x.' + safe(f.name)) for f in d.fields]
        return [(self.inst(d.target, d.arr), 'x.0')]

    def disc(self, d):
        """(parse expression at p, discriminant as int at p, width, UnknownVariant argument)"""
        w, s, base = self.sp.union_disc(d)
        if isinstance(base, Enum):
            return 'e_T_%s(d, hi, p)' % base.name, 'sx32(be32(d, p)) as int', 4, 'sx32(be32(d, p)) as int'
        if base == 'bool':
            return 'e_bool(d, hi, p)', 'be32(d, p) as int', 4, 'be32(d, p) as int'
        if w == 4:
            t = 'sx32(be32(d, p))' if s else 'be32(d, p)'
        else:
            t = 'sx64(be64(d, p))' if s else 'be64(d, p)'
        return 'e_w(hi, p, %d)' % w, t + ' as int', w, '(%s as i32) as int' % t

    def spec_fns(self, d):
        n, y = 'T_' + d.name, self.rty(d.name)
        rec = d.name in self.rec
        out = []
        edec = 'decreases hi - p, %dint , 0int' % self.level[d.name] if rec else ''
        vdec = 'decreases x, %dint' % self.level[d.name] if rec else ''
        sdec = 'decreases x, 0int' if rec else ''
        g = d.name in self.gen

        def put(e, v, a, s):
            nonlocal edec
            out.append('pub open spec fn e_%s(d: Seq<u8>, hi: int, p: int) -> R %s { %s }' % (n, edec, e))
            out.append('pub open spec fn v_%s(x: %s, d: Seq<u8>, hi: int, p: int) -> bool %s { %s }' % (n, y, vdec, v))
            if g:
                out.append('pub open spec fn a_%s(x: %s, al: int, d: Seq<u8>, hi: int, p: int) -> bool %s { %s }' % (n, y, vdec, a))
            out.append('pub open spec fn s_%s(x: %s) -> nat %s { %s }' % (n, y, sdec, s))
        if isinstance(d, (Struct, Typedef)):
            ps = self.struct_parts(d)
            fl = []
            for i, x in ps:
                fl += i.parts(x) if i.parts else [(i, x)]
            # e_T__k: the position after the first k parts
            pre = lambda k: 'p' if k == 0 else 'e_%s__%d(d, hi, p)->Ok_0' % (n, k)
            body = lambda k: fl[0][0].e('p') if k == 1 else 'match e_%s__%d(d, hi, p) { R::Ok(q) => %s, R::Err(k) => R::Err(k) }' % (
                n, k - 1, ('if p <= q && q <= hi { %s } else { R::Err(K::Other) }' if rec else '%s') % fl[k - 1][0].e('q'))
            self.unf[d.name] = None
            if rec and fl:
                self.unf[d.name] = 'pub proof fn unf_%s(d: Seq<u8>, hi: int, p: int) ensures %s { }' % (
                    n, ', '.join('e_%s(d, hi, p) == (%s)' % (n + ('__%d' % k if k < len(fl) else ''), body(k)) for k in range(1, len(fl) + 1)))
            for k in range(1, len(fl)):
                out.append('pub open spec fn e_%s__%d(d: Seq<u8>, hi: int, p: int) -> R %s { %s }' % (n, k, edec.replace('0int', '%dint' % k), body(k)))
            edec = edec.replace('0int', '%dint' % len(fl))
            conj = lambda view: ' && '.join(c for c in ((i.a if view else i.v)(x, pre(k)) for k, (i, x) in enumerate(fl)) if c) or 'true'
            put(body(len(fl)) if fl else 'R::Ok(p)', conj(False), conj(True), ' + '.join(i.s(x) for i, x in ps) or '0nat')
        elif isinstance(d, Enum):
            vals = self.sp.enum_values(d)
            cond = ' || '.join('sx32(be32(d, p)) == %d' % v for v in vals.values())
            arms = ', '.join('%s::%s => sx32(be32(d, p)) == %d' % (d.name, m, v) for m, v in vals.items())
            put('if p + 4 > hi { R::Err(K::Len) } else if %s { R::Ok(p + 4) } else { R::Err(K::Var(sx32(be32(d, p)) as int)) }' % cond,
                'match x { %s }' % arms, 'true', '4nat')
        else:
            m, dflt = self.sp.union_map(d)
            pe, dv, w, unk = self.disc(d)
            q = 'p + %d' % w
            def arm(f):
                return self.inst(f.ty, f.arr, f.opt)
            e = ''
            for val, lab, f, var in m:
                e += 'if %s == %d { %s } else ' % (dv, val, arm(f).e(q) if f else 'R::Ok(%s)' % q)
            if dflt is None:
                e += '{ R::Err(K::Var(%s)) }' % unk
            else:
                e += '{ %s }' % (arm(dflt[0]).e(q) if dflt[0] else 'R::Ok(%s)' % q)
            e = 'match %s { R::Err(k) => R::Err(k), R::Ok(_) => %s }' % (pe, e)
            vs = {}
            for val, lab, f, var in m:
                vs.setdefault(self.vname(var), [f, []])[1].append('%s == %d' % (dv, val))
            if dflt is not None:
                vs.setdefault('default', [dflt[0], []])[1].append(' && '.join('%s != %d' % (dv, val) for val, _, _, _ in m) or 'true')
            va, aa, sa = [], [], []
            for val, lab, f, var in m:      # labels falling through to a data default: never decoded, but part of the type
                if self.vname(lab) not in vs and f is not None:
                    va.append('%s::%s(_) => false' % (d.name, self.vname(lab)))
                    aa.append('%s::%s(_) => true' % (d.name, self.vname(lab)))
                    sa.append('%s::%s(i) => %s' % (d.name, self.vname(lab), arm(f).s('i')))
            for v, (f, conds) in vs.items():
                pat = '%s::%s%s' % (d.name, v, '(i)' if f else '')
                c = ' || '.join('(%s)' % x for x in conds)
                if f:
                    I = arm(f)
                    va.append('%s => (%s) && %s' % (pat, c, I.v('i', q)))
                    aa.append('%s => %s' % (pat, I.a('i', q) or 'true'))
                    sa.append('%s => %s' % (pat, I.s('i')))
                else:
                    va.append('%s => %s' % (pat, c))
                    aa.append('%s => true' % pat)
                    sa.append('%s => 0nat' % pat)
            put(e, 'match x { %s }' % ', '.join(va), 'match x { %s }' % ', '.join(aa), '%dnat + match x { %s }' % (w, ', '.join(sa)))
        names = [re.match(r'pub open spec fn (\w+)', t).group(1) for t in out]
        self.reveal[d.name] = []
        if not rec and not isinstance(d, Enum):      # opaque: only the decoder of this very type looks inside
            out = ['#[verifier::opaque] ' + t for t in out]
            self.reveal[d.name] = names
        if not g:
            out.append('pub open spec fn a_%s(x: %s, al: int, d: Seq<u8>, hi: int, p: int) -> bool { true }' % (n, y))
        return out

    def vname(self, var):
        return variant(var)

    def opt_fns(self, name):
        n, y = 'T_' + name, self.rty(name)
        rec = name in self.rec
        t = '''
pub open spec fn e_opt_{n}(d: Seq<u8>, hi: int, p: int) -> R {ed} {{
    if p + 4 > hi {{ R::Err(K::Len) }} else if be32(d, p) == 0 {{ R::Ok(p + 4) }} else if be32(d, p) == 1 {{ e_{n}(d, hi, p + 4) }} else {{ R::Err(K::Opt(be32(d, p) as int)) }}
}}
pub open spec fn v_opt_{n}(x: Option<Box<{y}>>, d: Seq<u8>, hi: int, p: int) -> bool {vd} {{
    match x {{ None => be32(d, p) == 0, Some(b) => be32(d, p) == 1 && v_{n}(*b, d, hi, p + 4) }}
}}
pub open spec fn s_opt_{n}(x: Option<Box<{y}>>) -> nat {sd} {{ match x {{ None => 4, Some(b) => 4 + s_{n}(*b) }} }}
'''
        if name in self.gen:
            t += '''pub open spec fn a_opt_{n}(x: Option<Box<{y}>>, al: int, d: Seq<u8>, hi: int, p: int) -> bool {vd} {{
    match x {{ None => true, Some(b) => a_{n}(*b, al, d, hi, p + 4) }}
}}
'''
        return t.format(n=n, y=y, ed='decreases hi - p, 0int, 0int' if rec else '', vd='decreases x, 0int' if rec else '', sd='decreases x, 0int' if rec else '')

    def align(self, d):
        """s % 4 == 0, by structure"""
        n, y = 'T_' + d.name, self.rty(d.name)

        def of(ty, arr, opt, x):
            if ty.kind == 'opaque':
                return 'lem_s_op(%s);' % x
            if ty.kind == 'string':
                return 'lem_s_str(%s);' % x
            if ty.kind != 'named':
                if arr and arr[0] == 'fixed':
                    return 'al_arr_%s(%s@); lem_fx_%s_%d();' % (ty.kind, x, ty.kind, self.sp.num(arr[1]))
                return ''
            m = 'T_' + ty.name
            if opt:
                return 'if let Some(b) = %s { al_%s(*b); }' % (x, m)
            if arr:
                if arr[0] == 'fixed':
                    return 'al_arr_%s(%s@); lem_fx_%s_%d(); %s' % (m, x, m, self.sp.num(arr[1]), ' '.join('al_%s(%s@[%d]);' % (m, x, i) for i in range(self.sp.num(arr[1]))))
                return 'al_arr_%s(%s@);' % (m, x)
            return 'al_%s(%s);' % (m, x)
        if isinstance(d, (Struct, Typedef)):
            fs = [(f.ty, f.arr, f.opt, 'x.' + safe(f.name)) for f in d.fields] if isinstance(d, Struct) else [(d.target, d.arr, False, 'x.0')]
            ss = [self.inst(*f[:3]).s(f[3]) for f in fs]
            b = ' '.join(of(*f) for f in fs)
            for k in range(1, len(ss)):
                b += ' lem_add4(%s, %s);' % (' + '.join(ss[:k]), ss[k])
        elif isinstance(d, Union):
            m, dflt = self.sp.union_map(d)
            arms = {}
            for val, lab, f, var in m:
                arms[self.vname(var)] = f
                arms[self.vname(lab)] = f
                if dflt is not None and var == 'default' and f is None:
                    arms.pop(self.vname(lab), None)
            if dflt is not None:
                arms['default'] = dflt[0]
            b = 'match x { %s }' % ', '.join('%s::%s%s => { %s }' % (d.name, v, '(i)' if f else '', of(f.ty, f.arr, f.opt, 'i') if f else '') for v, f in arms.items())
        else:
            b = ''
        return 'pub proof fn al_%s(x: %s) ensures s_%s(x) %% 4 == 0%s %s { %s }' % (n, y, n, ', s_%s(x) >= 4' % n if self.four(d.name) else '', 'decreases x, 0int' if d.name in self.rec else '', ('reveal(s_%s); ' % n if self.reveal[d.name] else '') + b)

"""Independent model of XDR specifications: declarations, rendering to text,
RFC 4506 encoding, sequential decoding with the documented errors, sizes, values.

Nothing here reads /repo: this is the oracle.
"""
import struct as _st

PRIMS = {  # kind -> (size, spellings)
    'u32': (4, ['unsigned int', 'uint32_t', 'u32', 'unsigned']),
    'i32': (4, ['int', 'int32_t', 'i32']),
    'u64': (8, ['unsigned hyper', 'uint64_t', 'u64']),
    'i64': (8, ['hyper', 'int64_t', 'i64']),
    'f32': (4, ['float']),
    'f64': (8, ['double']),
    'bool': (4, ['bool']),
    'string': (None, ['string']),
    'opaque': (None, ['opaque']),
}
RUST_WORDS = set('''as async await break const continue crate dyn else enum extern false fn for if impl in let loop
match mod move mut pub ref return Self self static struct super trait true type union unsafe use where while abstract
become box do final macro override priv try typeof unsized virtual yield'''.split())


class Ty:
    __slots__ = ('kind', 'name', 'spell')

    def __init__(self, kind, name=None, spell=None):
        self.kind, self.name = kind, name
        self.spell = spell or (name if kind == 'named' else PRIMS[kind][1][0])

    def __repr__(self):
        return self.spell


def P(kind, i=0):
    return Ty(kind, None, PRIMS[kind][1][i])


def N(name):
    return Ty('named', name)


class Field:
    """arr: None | ('fixed', n) | ('var', n|None); n is int or a constant's name."""

    def __init__(self, ty, name, arr=None, opt=False):
        self.ty, self.name, self.arr, self.opt = ty, name, arr, opt


class Const:
    def __init__(self, name, text):
        self.name, self.text = name, str(text)


class Enum:
    def __init__(self, name, members):
        self.name, self.members = name, [(m, str(t)) for m, t in members]


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Union:
    """groups: list of (labels, Field|None); a group whose labels contain 'default' is the default group
    ('default' is last in its label list)."""

    def __init__(self, name, sw, var, groups):
        self.name, self.sw, self.var, self.groups = name, sw, var, groups


class Typedef:
    def __init__(self, target, name, arr=None):
        self.target, self.name, self.arr = target, name, arr


class DecErr(Exception):
    """kind: InvalidLength | InvalidBoolean | UnknownVariant | UnknownOptionVariant | NonUtf8String"""

    def __init__(self, kind, arg=None):
        self.kind, self.arg = kind, arg

    def key(self):
        return self.kind if self.arg is None else '%s(%d)' % (self.kind, self.arg)


def pad4(n):
    return (4 - n % 4) % 4


def i32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


class Op:
    """opaque payload in a decoded value, with wire offset."""
    __slots__ = ('b', 'off')

    def __init__(self, b, off=None):
        self.b, self.off = b, off

    def __eq__(self, o):
        return self.b == o.b

    def __repr__(self):
        return 'Op(%s)' % self.b.hex()


class Spec:
    def __init__(self, sid, decls, note=''):
        self.id, self.decls, self.note = sid, decls, note
        self.byname = {}
        self.force, self.hit = None, False
        self.tr = None   # when a list: control words met while decoding, (kind, pos, width, info)
        self.memo = None   # set by freeze(), once nothing changes the declarations any more
        self.consts = {}
        self.enum_members = {}
        for d in decls:
            if isinstance(d, Const):
                self.consts[d.name] = d
            else:
                self.byname[d.name] = d
            if isinstance(d, Enum):
                for m, _ in d.members:
                    self.enum_members[m] = d

    # ---- constants -------------------------------------------------------------
    def num(self, t):
        """value of a literal or constant name"""
        if isinstance(t, int):
            return t
        seen = 0
        while t in self.consts:
            t = self.consts[t].text
            seen += 1
            if seen > len(self.consts):
                raise ValueError('constant cycle')
        if t.startswith('0x'):
            return int(t[2:], 16)
        return int(t)

    def freeze(self):
        self.memo = {}

    def remember(self, what, d, f):
        if self.memo is None:
            return f(d)
        k = what, id(d)
        if k not in self.memo:
            self.memo[k] = d, f(d)
        return self.memo[k][1]

    def enum_values(self, e):
        return self.remember('enum', e, lambda e: {m: self.num(t) for m, t in e.members})

    # ---- typedef resolution ------------------------------------------------------
    def resolve(self, ty):
        while ty.kind == 'named':
            d = self.byname.get(ty.name)
            if isinstance(d, Typedef) and d.arr is None:
                ty = d.target
            else:
                break
        return ty

    def is_self_typedef(self, d):
        """typedef of a primitive to its own (aliased) name, e.g. typedef unsigned int uint32_t"""
        return isinstance(d, Typedef) and d.target.kind != 'named' and d.name in PRIMS[d.target.kind][1]

    def types(self):
        return [d for d in self.decls if not isinstance(d, Const) and not self.is_self_typedef(d)]

    # ---- generic-ness (C13 oracle: reachability by graph search from each node) ----
    def parts(self, d):
        if isinstance(d, Struct):
            return [f.ty for f in d.fields]
        if isinstance(d, Union):
            return [f.ty for _, f in d.groups if f is not None]
        if isinstance(d, Typedef):
            return [d.target]
        return []

    def generics(self):
        out = set()
        for d in self.decls:
            if isinstance(d, (Const, Enum)):
                continue
            seen, todo, hit = set(), [d], False
            while todo and not hit:
                c = todo.pop()
                if c.name in seen:
                    continue
                seen.add(c.name)
                for t in self.parts(c):
                    if t.kind == 'opaque':
                        hit = True
                    elif t.kind == 'named' and t.name in self.byname:
                        todo.append(self.byname[t.name])
            if hit:
                out.add(d.name)
        return out

    # ---- unions ------------------------------------------------------------------
    def union_disc(self, u):
        """(width, signed, base) of the discriminant"""
        b = self.resolve(u.sw)
        if b.kind == 'named':
            return (4, True, self.byname[b.name])
        return {'u32': (4, False, 'u32'), 'i32': (4, True, 'i32'), 'bool': (4, False, 'bool'),
                'u64': (8, False, 'u64'), 'i64': (8, True, 'i64')}[b.kind]

    def label_value(self, u, lab):
        w, s, base = self.union_disc(u)
        if base == 'bool' and lab in ('TRUE', 'FALSE'):
            return 1 if lab == 'TRUE' else 0
        if lab in self.enum_members:
            return self.enum_values(self.enum_members[lab])[lab]
        return self.num(lab)

    def union_map(self, u):
        return self.remember('union', u, self.union_map_of)

    def union_map_of(self, u):
        """([(value, label, field, variant)], default or None) where default = (field,)"""
        m, dflt = [], None
        for labels, f in u.groups:
            if labels[-1] == 'default':
                dflt = (f,)
                # labels falling through to a data default decode as the default variant; to a void
                # default as their own variant (documented by the golden tests)
                for l in labels[:-1]:
                    m.append((self.label_value(u, l), l, f, 'default' if f is not None else l))
            else:
                for l in labels:
                    m.append((self.label_value(u, l), l, f, l))
        return m, dflt

    # ---- encoding ---------------------------------------------------------------
    def enc_prim(self, k, v):
        if k == 'u32':
            return _st.pack('>I', v)
        if k == 'i32':
            return _st.pack('>i', v)
        if k == 'u64':
            return _st.pack('>Q', v)
        if k == 'i64':
            return _st.pack('>q', v)
        if k == 'f32':
            return _st.pack('>I', v)  # value is the bit pattern
        if k == 'f64':
            return _st.pack('>Q', v)
        if k == 'bool':
            return _st.pack('>I', 1 if v else 0)
        raise KeyError(k)

    def enc_bytes(self, b, counted):
        r = _st.pack('>I', len(b)) if counted else b''
        return r + b + b'\0' * pad4(len(b))

    def enc_ty(self, ty, v):
        if ty.kind == 'string':
            return self.enc_bytes(v, True)
        if ty.kind == 'opaque':
            return self.enc_bytes(v.b, True)
        if ty.kind == 'named':
            return self.enc(self.byname[ty.name], v)
        return self.enc_prim(ty.kind, v)

    def enc_arr(self, ty, arr, v):
        if arr is None:
            return self.enc_ty(ty, v)
        if ty.kind == 'opaque':
            return self.enc_bytes(v.b, arr[0] == 'var')
        if ty.kind == 'string':
            return self.enc_bytes(v, True)
        r = _st.pack('>I', len(v)) if arr[0] == 'var' else b''
        return r + b''.join(self.enc_ty(ty, x) for x in v)

    def enc_field(self, f, v):
        if f.opt:
            return _st.pack('>I', 0) if v is None else _st.pack('>I', 1) + self.enc_ty(f.ty, v)
        return self.enc_arr(f.ty, f.arr, v)

    def enc(self, d, v):
        if isinstance(d, Struct):
            return b''.join(self.enc_field(f, x) for f, x in zip(d.fields, v))
        if isinstance(d, Enum):
            return _st.pack('>i', self.enum_values(d)[v])
        if isinstance(d, Typedef):
            return self.enc_arr(d.target, d.arr, v)
        w, s, base = self.union_disc(d)
        disc, variant, f, x = v
        head = (disc & ((1 << (8 * w)) - 1)).to_bytes(w, 'big')
        return head + (self.enc_field(f, x) if f is not None else b'')

    # ---- decoding ---------------------------------------------------------------
    # buf: bytes of the view; pos; returns (value, pos). Raises DecErr for the first error in wire order.
    def take(self, b, p, n):
        if len(b) - p < n:
            raise DecErr('InvalidLength')
        return b[p:p + n], p + n

    def mark(self, kind, p, w=4, info=None):
        if self.tr is not None:
            self.tr.append((kind, p, w, info))

    def dec_u32(self, b, p):
        x, p = self.take(b, p, 4)
        return int.from_bytes(x, 'big'), p

    def dec_prim(self, k, b, p):
        if k in ('u64', 'i64', 'f64'):
            x, p = self.take(b, p, 8)
            v = int.from_bytes(x, 'big', signed=(k == 'i64'))
            return v, p
        x, p = self.take(b, p, 4)
        v = int.from_bytes(x, 'big', signed=(k == 'i32'))
        if k == 'bool':
            self.mark('bool', p - 4)
            if v > 1:
                raise DecErr('InvalidBoolean')
            v = bool(v)
        return v, p

    def dec_fixed(self, b, p, n):
        if len(b) - p < n + pad4(n):
            raise DecErr('InvalidLength')
        return b[p:p + n], p + n + pad4(n), p

    def dec_counted(self, b, p, mx, kind='olen'):
        self.mark(kind, p, 4, mx)
        n, p = self.dec_u32(b, p)
        if mx is not None and n > mx:
            raise DecErr('InvalidLength')
        return self.dec_fixed(b, p, n)

    def dec_string(self, b, p, mx):
        x, p, _ = self.dec_counted(b, p, mx, 'slen')
        try:
            x.decode('utf-8')
        except UnicodeDecodeError:
            raise DecErr('NonUtf8String')
        return x, p

    def dec_ty(self, ty, b, p):
        if ty.kind == 'string':
            return self.dec_string(b, p, None)
        if ty.kind == 'opaque':
            x, p, o = self.dec_counted(b, p, None)
            return Op(x, o), p
        if ty.kind == 'named':
            return self.dec(self.byname[ty.name], b, p)
        return self.dec_prim(ty.kind, b, p)

    def dec_arr(self, ty, arr, b, p):
        if arr is None:
            return self.dec_ty(ty, b, p)
        n = self.num(arr[1]) if arr[1] is not None else None
        if ty.kind == 'opaque':
            if arr[0] == 'fixed':
                x, p, o = self.dec_fixed(b, p, n)
            else:
                x, p, o = self.dec_counted(b, p, n)
            return Op(x, o), p
        if ty.kind == 'string':
            return self.dec_string(b, p, n)
        if arr[0] == 'var':
            self.mark('alen', p, 4, n)
            c, p = self.dec_u32(b, p)
            if n is not None and c > n:
                raise DecErr('InvalidLength')
            n = c
        out = []
        for _ in range(n):
            q = p
            v, p = self.dec_ty(ty, b, p)
            out.append(v)
            if p == q and n > 100000:
                raise DecErr('TooManyEmpty')
        return out, p

    def dec_field(self, f, b, p):
        if f.opt:
            self.mark('opt', p)
            m, p = self.dec_u32(b, p)
            if m == 0:
                return None, p
            if m != 1:
                raise DecErr('UnknownOptionVariant', m)
            return self.dec_ty(f.ty, b, p)
        return self.dec_arr(f.ty, f.arr, b, p)

    def dec(self, d, b, p):
        if isinstance(d, Struct):
            out = []
            for f in d.fields:
                v, p = self.dec_field(f, b, p)
                out.append(v)
            return out, p
        if isinstance(d, Enum):
            x, p = self.dec_prim('i32', b, p)
            self.mark('enum', p - 4, 4, d)
            for m, v in self.enum_values(d).items():
                if v == x:
                    return m, p
            raise DecErr('UnknownVariant', x)
        if isinstance(d, Typedef):
            return self.dec_arr(d.target, d.arr, b, p)
        w, s, base = self.union_disc(d)
        self.mark('disc', p, w, d)
        if isinstance(base, Enum):
            m, p = self.dec(base, b, p)
            disc = self.enum_values(base)[m]
        elif base == 'bool':
            m, p = self.dec_prim('bool', b, p)
            disc = 1 if m else 0
        else:
            x, p = self.take(b, p, w)
            disc = int.from_bytes(x, 'big', signed=s)
        m, dflt = self.union_map(d)
        for val, lab, f, variant in m:
            if val == disc:
                break
        else:
            if dflt is None:
                raise DecErr('UnknownVariant', i32(disc))
            f, variant = dflt[0], 'default'
        x = None
        if f is not None:
            x, p = self.dec_field(f, b, p)
        return (disc, variant, f, x), p

    # ---- canonical dump (same format as the Rust harness) --------------------------
    def dump_ty(self, ty, v):
        if ty.kind in ('u32', 'i32', 'u64', 'i64'):
            return str(v)
        if ty.kind in ('f32', 'f64'):
            return 'f%x' % v
        if ty.kind == 'bool':
            return 'T' if v else 'F'
        if ty.kind == 'string':
            return 's' + v.hex()
        if ty.kind == 'opaque':
            return 'o' + v.b.hex() + ('@%d' % v.off if v.b and v.off is not None else '')
        return self.dump(self.byname[ty.name], v)

    def dump_arr(self, ty, arr, v):
        if arr is None or ty.kind in ('opaque', 'string'):
            return self.dump_ty(ty, v)
        return '[' + ','.join(self.dump_ty(ty, x) for x in v) + ']'

    def dump_field(self, f, v):
        if f.opt:
            return '-' if v is None else '?' + self.dump_ty(f.ty, v)
        return self.dump_arr(f.ty, f.arr, v)

    def dump(self, d, v):
        if isinstance(d, Struct):
            return '{' + ','.join('%s:%s' % (f.name, self.dump_field(f, x)) for f, x in zip(d.fields, v)) + '}'
        if isinstance(d, Enum):
            return '#' + v
        if isinstance(d, Typedef):
            return '~' + self.dump_arr(d.target, d.arr, v)
        disc, variant, f, x = v
        return '@%s(%s)' % (variant, self.dump_field(f, x) if f is not None else '')

    # ---- the size the *current* emitters give to bare `opaque` (known finding) -------
    # number of bare-opaque struct fields / union arms inside v: wire_size misses 4 bytes for each.
    def bare(self, ty, v):
        return self.bare_opaques(self.byname[ty.name], v) if ty.kind == 'named' else 0

    def bare_opaques(self, d, v):
        def arr(ty, a, x):
            if ty.kind != 'named':
                return 0
            if a is None:
                return self.bare(ty, x)
            return sum(self.bare(ty, y) for y in x)

        def fld(f, x):
            if f.opt:
                return 0 if x is None else self.bare(f.ty, x)
            if f.ty.kind == 'opaque' and f.arr is None:
                return 1
            return arr(f.ty, f.arr, x)
        if isinstance(d, Struct):
            return sum(fld(f, x) for f, x in zip(d.fields, v))
        if isinstance(d, Typedef):
            return arr(d.target, d.arr, v)
        if isinstance(d, Union):
            return fld(v[2], v[3]) if v[2] is not None else 0
        return 0

    def has_bare(self):
        for d in self.decls:
            fs = d.fields if isinstance(d, Struct) else [f for _, f in d.groups if f] if isinstance(d, Union) else []
            if any(f.ty.kind == 'opaque' and f.arr is None for f in fs):
                return True
        return False

    # ---- recursion -------------------------------------------------------------------
    def reaches(self, a):
        seen, todo = set(), [self.byname[a]]
        while todo:
            for t in self.parts(todo.pop()):
                if t.kind == 'named' and t.name in self.byname and t.name not in seen:
                    seen.add(t.name)
                    todo.append(self.byname[t.name])
        return seen

    def traced(self, d, b):
        self.tr = []
        try:
            return self.dec(d, b, 0), self.tr
        finally:
            self.tr = None

    def maxima(self, d):
        """sum of the element maxima declared in the declarations reachable from d (in elements), and whether some
        array has elements that take no bytes on the wire"""
        tot = 0
        for n in self.reaches(d.name) | {d.name}:
            c = self.byname[n]
            arrs = [(f.ty, f.arr) for f in c.fields] if isinstance(c, Struct) else [(c.target, c.arr)] if isinstance(c, Typedef) else \
                [(f.ty, f.arr) for _, f in c.groups if f] if isinstance(c, Union) else []
            for t, a in arrs:
                if a and a[1] is not None:
                    tot += self.num(a[1])
        return tot

    # ---- values ------------------------------------------------------------------------
    def gen_ty(self, ty, r, depth):
        k = ty.kind
        if k == 'u32':
            return r.choice([0, 1, 2, 3, 255, 256, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32)])
        if k == 'i32':
            return r.choice([0, 1, -1, 2, 0x01020304, 0x7fffffff, -0x80000000, i32(r.getrandbits(32))])
        if k == 'u64':
            return r.choice([0, 1, 0xffffffff, 1 << 32, 0x0102030405060708, (1 << 64) - 1, r.getrandbits(64)])
        if k == 'i64':
            return r.choice([0, 1, -1, -(1 << 63), (1 << 63) - 1, 0x0102030405060708, r.getrandbits(63)])
        if k == 'f32':
            return r.choice([0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x00000001, 0x807fffff, 0x41234567, 0x7fc00000, 0xffc12345, 0x7f812345])
        if k == 'f64':
            return r.choice([0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x800fffffffffffff, 0x4012345678abcdef, 0x7ff8000000000000, 0xfff8000012345678, 0x7ff0000000012345])
        if k == 'bool':
            return r.random() < .5
        if k == 'string':
            return self.gen_str(r, r.choice([0, 1, 2, 3, 4, 5, 7, 8, 13]))
        if k == 'opaque':
            return Op(r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17])))
        return self.gen(self.byname[ty.name], r, depth - 1)

    def gen_str(self, r, n):
        out = ''
        while len(out.encode()) < n:
            c = r.choice(['a', 'Z', '0', '\0', '\x7f', 'é', '€', '𝄞'])
            if len((out + c).encode()) <= n:
                out += c
        return out.encode()

    def forced(self, n):
        """with self.force = [k, delta]: the k-th bounded array generated gets its maximum plus delta elements"""
        if self.force is None or n is None or n > 3000:
            return None
        self.force[0] -= 1
        if self.force[0] == -1:
            self.hit = True
            return max(n + self.force[1], 0)
        return None

    def gen_len(self, r, arr, depth):
        n = self.num(arr[1]) if arr[1] is not None else None
        if arr[0] == 'var':
            k = self.forced(n)
            if k is not None:
                return k
        if arr[0] == 'fixed':
            return n
        if n is not None and r.random() < .4 and n <= 64:
            return n
        k = r.choice([0, 1, 2, 3, 5]) if depth > 0 else r.choice([0, 0, 0, 1])
        return min(k, n) if n is not None else k

    def gen_arr(self, ty, arr, r, depth):
        if arr is None:
            return self.gen_ty(ty, r, depth)
        if ty.kind in ('opaque', 'string'):
            n = self.num(arr[1]) if arr[1] is not None else None
            if arr[0] != 'fixed':
                k = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 11])
                fo = self.forced(n)
                n = fo if fo is not None else k if n is None else r.choice([min(k, n), n]) if n <= 4096 else min(k, n)
            return Op(r.randbytes(n)) if ty.kind == 'opaque' else self.gen_str(r, n)
        if depth < -6 and arr[0] == 'var':
            return []
        return [self.gen_ty(ty, r, depth) for _ in range(self.gen_len(r, arr, depth))]

    def gen_field(self, f, r, depth):
        if f.opt:
            if depth <= 0 or r.random() < .3:
                return None
            return self.gen_ty(f.ty, r, depth)
        return self.gen_arr(f.ty, f.arr, r, depth)

    def gen(self, d, r, depth=4):
        if isinstance(d, Struct):
            return [self.gen_field(f, r, depth) for f in d.fields]
        if isinstance(d, Enum):
            return r.choice(d.members)[0]
        if isinstance(d, Typedef):
            return self.gen_arr(d.target, d.arr, r, depth)
        return self.gen_union(d, r, depth)

    def union_discs(self, d):
        """discriminant values worth trying: every label and, if any, defaults: [(disc, variant, field)]"""
        m, dflt = self.union_map(d)
        w, s, base = self.union_disc(d)
        out = []
        seen = set()
        for val, lab, f, variant in m:
            if val not in seen:
                seen.add(val)
                out.append((val, variant, f))
        if dflt is not None:
            if isinstance(base, Enum):
                cand = list(self.enum_values(base).values())
            elif base == 'bool':
                cand = [0, 1]
            else:
                lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if s else (0, (1 << (8 * w)) - 1)
                cand = [0, 1, 2, 7, 99, lo, hi, (hi >> 1) + 1] + [v + 1 for v in seen] + [v - 1 for v in seen]
                if w == 8:
                    cand += [v + (1 << 32) for v in seen]
                cand = [c for c in cand if lo <= c <= hi]
            for c in cand:
                if c not in seen:
                    seen.add(c)
                    out.append((c, 'default', dflt[0]))
        return out

    def gen_union(self, d, r, depth, pick=None):
        ds = self.union_discs(d)
        if pick is None and depth <= 0:
            # prefer arms that end recursion
            easy = [x for x in ds if x[2] is None or x[2].ty.kind != 'named']
            ds = easy or ds
        disc, variant, f = ds[pick] if pick is not None else r.choice(ds)
        return (disc, variant, f, self.gen_field(f, r, depth) if f is not None else None)

    # ---- rendering -------------------------------------------------------------------------
    def tokens(self, d):
        def arr(a):
            if a is None:
                return []
            o, c = ('[', ']') if a[0] == 'fixed' else ('<', '>')
            return [o] + ([str(a[1])] if a[1] is not None else []) + [c]

        def ty(t):
            return t.spell.split(' ')

        def fld(f):
            return ty(f.ty) + (['*'] if f.opt else []) + [f.name] + arr(f.arr) + [';']
        if isinstance(d, Const):
            return ['const', d.name, '=', d.text, ';']
        if isinstance(d, Enum):
            o = ['enum', d.name, '{']
            for i, (m, t) in enumerate(d.members):
                o += ([','] if i else []) + [m, '=', t]
            return o + ['}', ';']
        if isinstance(d, Struct):
            o = ['struct', d.name, '{']
            for f in d.fields:
                o += fld(f)
            return o + ['}', ';']
        if isinstance(d, Typedef):
            return ['typedef'] + ty(d.target) + [d.name] + arr(d.arr) + [';']
        o = ['union', d.name, 'switch', '('] + ty(d.sw) + [d.var, ')', '{']
        for labels, f in d.groups:
            for l in labels:
                o += ['default', ':'] if l == 'default' else ['case', l, ':']
            o += ['void', ';'] if f is None else fld(f)
        return o + ['}', ';']

    def render(self, decls=None, r=None):
        """text; with r, random layout (whitespace and whitespace-delimited comments between tokens)"""
        out = []
        word = lambda t: t[0].isalnum() or t[0] == '_'
        for d in (decls or self.decls):
            toks = self.tokens(d)
            prev = None
            for t in toks:
                if prev is not None:
                    if r is None:
                        out.append(' ' if not (t in ';,<>[]:)' or prev in '<[*(') else '')
                        if prev in ('{', ';'):
                            out.append('\n  ')
                    else:
                        need = (word(prev) and (word(t) or prev in BASIC)) or prev == 'opaque'
                        out.append(layout(r, need))
                out.append(t)
                prev = t
            out.append('\n' if r is None else layout(r, False))
        return ''.join(out)


BASIC = {'int', 'hyper', 'float', 'double', 'string', 'opaque', 'unsigned'}
WS = [' ', '\t', '\n', '\r\n', '  ', ' \n\t ', '\n\n']
COM = ['/* c */', '/**/', '/* a; struct x { int y; }; */', '// line; int x\n', '/* multi\n line * / */', '//\n',
       '/* // */', '/*** ***/', '// /* not open\n', '/* unsigned */', '/* "é" */',
       '/***/', '/****/', '/* a **/', '/* a ***/', '/** a */', '/** a **/', '/* * */', '/*/ */', '/* / * / */', '/* /* */', '/*\n\n*/', '/*\r\n * a\r\n */', '/*\t*/',
       '// a */ b\n', '// a */ b\r\n', "/* it's */", "// it's \"x\n", '/* 0x1 = 2 */', '// const A = 1;\n', '/* } */', '// };\n', '/* \\ */', '// \\\n', '/* # % */', '// ' + 'x' * 300 + '\n',
       '/* ' + 'y ' * 150 + '\n*/', '///\n', '////\n', '/// doc\n', '//! doc\n', '/*! doc */', '//*\n', '//**/\n', '/* a *//* b */', '/* a */// b\n', '// \t\n', '/*\x0c*/', '/* \U0001f600 */', '// é\n', '/*;*/', '/*,*/', '/* default: */', '// a\r', '//\r', '/* a\rb */', '// a\r\n']


def layout(r, need):
    if hasattr(r, 'form'):
        return (' ' if need and not r.form.isspace() else '') + r.form
    k = r.random()
    if k < .35:
        return ' ' if need else r.choice(['', ' '])
    if k < .7:
        return r.choice(WS)
    out = r.choice(WS)
    for _ in range(r.choice([1, 1, 2])):
        out += r.choice(COM) + r.choice(WS)
    return out


def safe(n):
    """documented escaping of field names"""
    return n + '_v' if n in RUST_WORDS else n


def variant(n):
    return 'v_' + n if n[0].isdigit() else n

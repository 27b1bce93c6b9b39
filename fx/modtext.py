"""The contract of vx/text.vrs (module_text) in executable form: the text of the module for a specification.

Used only to choose specifications worth a closer look (fx/guide.py): a text that differs from this is no violation of anything,
it only sends that specification through the compiled checks and the proofs."""
from model import *

KW = set('as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return Self self static struct super trait true type union unsafe use where while abstract become box do final macro override priv try typeof unsized virtual yield'.split())
B = {'u32': 'u32', 'i32': 'i32', 'u64': 'u64', 'i64': 'i64', 'f32': 'f32', 'f64': 'f64', 'bool': 'bool', 'string': 'String', 'opaque': 'T'}
SPELL = {n: k for k, (_, names) in PRIMS.items() for n in names}
READ = {'u32': 'read_u32()', 'u64': 'read_u64()', 'i32': 'read_i32()', 'i64': 'read_i64()', 'f32': 'read_f32()', 'f64': 'read_f64()', 'bool': 'read_bool()', 'string': 'read_string(None)', 'opaque': 'read_variable_bytes(None)'}


def safe_name(s):
    return s + '_v' if s in KW else s.lower() if s in ('TRUE', 'FALSE') else s


def nd_name(s):
    return 'v_' + s if s[:1].isnumeric() else s


def tname(s):
    n = s.lower() if s in ('TRUE', 'FALSE') else s
    return n + '_v' if n in KW else n


def ident(s):
    return s


def num_u32(t):
    return int(t) if t.isdigit() and t.isascii() and int(t) < 1 << 32 else None


class Mod:
    def __init__(self, sp):
        self.c, self.t = {}, {}
        for d in sp.decls:
            if isinstance(d, Const):
                self.c[ident(d.name)] = ('const', ident(d.text))
            elif isinstance(d, Enum):
                for m, _ in d.members:
                    self.c[ident(m)] = ('enum', ident(d.name), ident(m))
        for d in sp.decls:
            if isinstance(d, Const):
                continue
            if isinstance(d, Struct):
                self.t[ident(d.name)] = ('struct', ident(d.name), [(ident(f.name), self.val(f.ty, f.arr), f.opt) for f in d.fields])
            elif isinstance(d, Enum):
                self.t[ident(d.name)] = ('enum', ident(d.name), [(ident(m), self.value(t)) for m, t in d.members])
            elif isinstance(d, Typedef):
                a = d.arr
                if d.target.kind == 'opaque' and a == ('var', None):
                    a = None
                alias = self.val(Ty('named', d.name), a)
                self.t[self.bstr(alias[0])] = ('typedef', self.ty(d.target), alias)
            else:
                cases, void, dflt = [], [], None
                for ls, f in d.groups:
                    ls = [self.bstr(self.ty(N(l))) for l in ls]
                    if f is None:
                        void += ls
                    elif ls[-1] == 'default':
                        dflt = (ls, self.val(f.ty, f.arr))
                    else:
                        cases.append((ls, self.val(f.ty, f.arr)))
                self.t[ident(d.name)] = ('union', ident(d.name), self.ty(d.sw), ident(d.var), cases, void, dflt)
        self.g = self.generics()

    # types are ('u32',) .. or ('id', name); values (type, None | ('fixed', n|name) | ('var', n|name|None))
    def ty(self, t):
        if t.kind != 'named':
            return (t.kind,)
        return (SPELL[t.name],) if t.name in SPELL else ('id', ident(t.name))

    def val(self, t, a):
        if a is None:
            return (self.ty(t), None)
        n = a[1]
        if isinstance(n, str):
            k = num_u32(n)
            n = k if k is not None else n
        return (self.ty(t), (a[0], n))

    def value(self, t):
        t = ident(t)
        try:
            k = int(t[2:], 16) if t.startswith('0x') else int(t) if t.lstrip('-').isdigit() else None
        except ValueError:
            k = None
        return k if k is not None and -(1 << 31) <= k < 1 << 31 else t

    def bstr(self, b):
        return b[1] if b[0] == 'id' else B[b[0]]

    def bname(self, b):
        return tname(b[1]) if b[0] == 'id' else B[b[0]]

    def inner(self, x):
        if x[0] == 'struct':
            return [v[0] for _, v, _ in x[2]]
        if x[0] == 'union':
            return [v[0] for _, v in x[4]] + ([x[6][1][0]] if x[6] else [])
        if x[0] == 'typedef':
            return [x[1]]
        return []

    def generics(self):
        g = set()
        while True:
            n = len(g)
            for k, x in self.t.items():
                if any(b == ('opaque',) or (b[0] == 'id' or x[0] == 'typedef') and self.bstr(b) in g for b in self.inner(x)):
                    g.add(k)
            if len(g) == n:
                return g

    def cval(self, n):
        k = 0
        while n in self.c and k <= len(self.c):
            if self.c[n][0] != 'const':
                return None
            n, k = self.c[n][1], k + 1
        try:
            return int(n[2:], 16) if n.startswith('0x') else num_u32(n)
        except ValueError:
            return None

    # ---- types
    def arr(self, v, b):
        t, a = self.bname(v[0]) + b, v[1]
        return t if a is None else '[%s; %s]' % (t, '%s as usize' % a[1] if isinstance(a[1], str) else a[1]) if a[0] == 'fixed' else 'Vec<%s>' % t

    def itype(self, e, x):
        bound = lambda n: '<T> where T: AsRef<[u8]> + Debug' if n in self.g else ''
        if x[0] == 'struct':
            a = '%s\npub struct %s%s {\n' % (e, x[1], bound(x[1]))
            for n, v, o in x[2]:
                b = v[0]
                s = 'T' if b[0] == 'opaque' else 'String' if b[0] == 'string' else self.arr(v, '<T>' if b[0] == 'id' and b[1] in self.g else '')
                a += 'pub %s: %s,\n' % (safe_name(n), 'Option<Box<%s>>' % s if o else s)
            return a + '}\n'
        if x[0] == 'union':
            a = '%s\npub enum %s%s {\n' % (e, x[1], bound(x[1]))
            for ls, v in x[4] + ([x[6]] if x[6] else []):
                b = v[0]
                s = 'T' if b[0] == 'opaque' else 'String' if b[0] == 'string' else b[1] + '<T>' if b[0] == 'id' and b[1] in self.g else self.arr(v, '')
                a += ''.join('%s(%s),\n' % (nd_name(l), s) for l in ls)
            return a + ''.join('%s,\n' % nd_name(l) for l in x[5]) + '}\n'
        if x[0] == 'enum':
            return '%s\n#[repr(u32)]\npub enum %s {\n%s}\n' % (e, x[1], ''.join('%s = %s,\n' % m for m in x[2]))
        t, v = x[1], x[2]
        if t == v[0]:
            return ''
        g = self.bstr(t) in self.g
        a = '%s\npub struct %s' % (e, self.bstr(v[0])) + ('<T: AsRef<[u8]> + Debug>' if g or t[0] == 'opaque' else '')
        if t[0] == 'opaque':
            return a + '(pub T);\n'
        if t[0] == 'string' and v[1] and v[1][0] == 'var':
            return a + '(pub String);\n'
        return a + (' (pub %s);\n' % self.arr((t, v[1]), '<T>') if g else '(pub %s);\n' % self.arr((t, v[1]), ''))

    # ---- decoders
    def basic(self, t, alias, r):
        if t[0] != 'id':
            return 'v.' + READ[t[0]]
        if alias:
            return '%s::try_from(%s)' % (t[1], r)
        x = self.t.get(t[1])
        if x and x[0] == 'typedef':
            return self.basic(x[1], True, r)
        return '%s::try_from(%s)' % (x[1] if x else t[1], r)

    def under(self, t, alias):
        x = self.t.get(self.bstr(t))
        return x[1] if not alias and x and x[0] == 'typedef' else t

    def afrom(self, k, v, alias):
        (t, a), r = v, k[2]
        if a is None:
            return self.basic(t, alias, r) + '?'
        n = self.cval(a[1]) if isinstance(a[1], str) else a[1]
        u = self.under(t, alias)
        if a[0] == 'fixed':
            if n is None:
                return '?'
            return 'v.read_bytes(%d)?' % n if u[0] == 'opaque' else '[\n%s]' % ((self.basic(t, alias, r) + '?,\n') * min(n, 100000))
        m = 'None' if a[1] is None else 'Some(%s)' % n
        if u[0] == 'opaque':
            return 'v.read_variable_bytes(%s)?' % m
        if u[0] == 'string':
            return 'v.read_string(%s)?' % m
        s = self.bname(t)
        if not alias and s in self.t:
            x = self.t[s]
            s = self.bstr(x[1]) if x[0] == 'typedef' else x[1]
        return 'v.read_variable_array::<%s>(%s)?' % (s + '<%s>' % k[0] if s in self.g else s, m)

    def value_lit(self, l):
        n = self.cval(l) if l in self.c and self.c[l][0] == 'const' else None
        return l if n is None else str(n)

    def literal(self, sw, l):
        v = self.value_lit(l)
        x = self.t.get(self.bstr(sw))
        if x and x[0] == 'enum':
            w = self.value(v)
            for m, y in x[2]:
                if y == w:
                    return 'c if c == %s::%s as %s' % (x[1], m, x[1])
        return safe_name(v)

    def matcher(self, sw, l):
        c = self.c.get(l)
        if c is None:
            return self.literal(sw, l)
        return self.literal(sw, c[1]) if c[0] == 'const' else 'c if c == %s::%s as %s' % (c[1], c[2], self.bname(sw))

    def alias_end(self, t):
        for _ in range(len(self.t)):
            x = self.t.get(self.bstr(t))
            if not (x and x[0] == 'typedef' and x[2][1] is None):
                break
            t = x[1]
        return t

    def head(self, k, n):
        return 'impl TryFrom<%s> for %s%s {\ntype Error = Error;\n\nfn try_from(mut v: %s) -> Result<Self, Self::Error> {\n' % (k[1], n, '<%s>' % k[0] if n in self.g else '', k[1])

    def ifrom(self, k, x):
        E = '}\n}\n'
        if x[0] == 'struct':
            a = self.head(k, x[1]) + 'Ok(%s {\n' % x[1]
            for n, v, o in x[2]:
                a += safe_name(n) + ': '
                a += '{ match v.read_u32()? {\n0 => None,\n1 => Some(Box::new(%s::try_from(%s)?)),\nd => return Err(Error::UnknownOptionVariant(d)),\n}},\n' % (self.bname(v[0]), k[2]) if o else self.afrom(k, v, True) + ',\n'
            return a + '})\n' + E
        if x[0] == 'union':
            sw = self.alias_end(x[2])
            n = 'v_v' if x[3] == 'v' else safe_name(x[3])
            a = self.head(k, x[1]) + 'let %s = %s?;\nOk(match %s {\n' % (n, self.basic(sw, False, k[2]), n)
            for ls, v in x[4]:
                f = self.afrom(k, v, True)
                a += ''.join('%s => Self::%s(%s),\n' % (self.matcher(sw, l), nd_name(l), f) for l in ls)
            for l in [l for l in x[5] if l != 'default'] + [l for l in x[5] if l == 'default']:
                a += '%s => Self::%s,\n' % ('_' if l == 'default' else self.matcher(sw, l), nd_name(l))
            if x[6]:
                a += '_ => Self::default(%s),\n' % self.afrom(k, x[6][1], True)
            elif 'default' not in x[5]:
                a += 'd => return Err(Error::UnknownVariant(d as i32)),\n'
            return a + '})\n' + E
        if x[0] == 'enum':
            return self.head(k, x[1]) + 'Ok(match v.read_i32()? {\n' + ''.join('%s => Self::%s,\n' % (v, m) for m, v in x[2]) + 'd => return Err(Error::UnknownVariant(d as i32)),\n})\n' + E
        if x[1] == x[2][0]:
            return ''
        return self.head(k, self.bstr(x[2][0])) + 'Ok(Self(' + self.afrom(k, (x[1], x[2][1]), False) + '))\n' + E if False else \
            self.head(k, self.bstr(x[2][0])) + 'Ok(Self(' + self.afrom(k, x[2], False) + '))\n' + E

    # ---- sizes
    def isize(self, k, x):
        E = '}\n}\n'
        h = lambda n: 'impl WireSize for %s%s {\nfn wire_size(&self) -> usize {\n' % (n, '<%s>' % k[0] if n in self.g else '')
        if x[0] == 'struct':
            a = h(x[1])
            for n, v, o in x[2]:
                a += 'self.%s.wire_size() +\n' % safe_name(n)
                if v[0][0] == 'opaque':
                    a += ' pad_length(self.%s.wire_size()) +\n' % safe_name(n) + ('4 +\n' if v[1] and v[1][0] == 'var' else '')
            return a + '0\n' + E
        if x[0] == 'union':
            sw = self.alias_end(x[2])
            a = h(x[1]) + ('8' if sw[0] in ('u64', 'i64') else '4') + ' + match self {\n'
            for ls, v in x[4] + ([x[6]] if x[6] else []):
                a += ''.join('Self::%s(inner) => inner.wire_size()%s,\n' % (nd_name(l), ' + pad_length(inner.wire_size())' if v[0][0] == 'opaque' else '') for l in ls)
            return a + ''.join('Self::%s => 0,\n' % nd_name(l) for l in x[5]) + '}\n' + E
        if x[0] == 'enum':
            return h(x[1]) + '4\n' + E
        if x[1] == x[2][0]:
            return ''
        a = h(self.bstr(x[2][0])) + 'self.0.wire_size()\n'
        if x[1][0] == 'opaque':
            a += '+ pad_length(self.0.wire_size())' + ('' if x[2][1] and x[2][1][0] == 'fixed' else ' + 4') + '\n'
        return a + E

    def text(self, e='#[derive(Debug, PartialEq)]'):
        c, t = sorted(self.c, key=lambda s: s.encode()), [self.t[n] for n in sorted(self.t, key=lambda s: s.encode())]
        a = ''.join('pub const %s: u32 = %s;\n' % (n, self.c[n][1]) for n in c if self.c[n][0] == 'const')
        a += ''.join(self.itype(e, x) for x in t)
        own, bor = ('Bytes', 'Bytes', '&mut v'), ('Bytes', '&mut Bytes', '&mut *v')
        for k in (own, bor):
            a += ''.join(self.ifrom(k, x) for x in t)
        return a + ''.join(self.isize(own, x) for x in t) + '}\n'

"""The bounded companion of the proofs: runs the real generator and the real generated code on concrete specifications
and inputs against the independent model.  Finds failing inputs for failed obligations, and stands in, labelled
bounded, for what the prover cannot reach."""
import itertools
from engine import *
import corpus
from corpus import V, F

U32 = [0, 1, 2, 3, 4, 5, 7, 8, 9, 255, 256, 65535, 1 << 16, 1 << 20, 1 << 24, 0x7ffffffc, 0x7fffffff, 0x80000000, 0x80000001,
       0xfffffff0, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff]


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0 = time.time()
        self.tmp = tmpdir()
        self.thorough = tier == 'thorough'
        self.viol, self.known, self.notes = [], {}, []
        self.evals, self.keys, self.samples = 0, set(), []
        self.rule = ''
        self._c = {}

    def bins(self, *names):
        return build(names or ('fxgen',))

    def specs(self, n=None, size=10):
        if n is None:
            n = 120 if self.thorough else 22
        return corpus.fixed() + corpus.scale() + corpus.known() + corpus.randoms(self.seed, n, size) + self.guided()

    def guided(self):
        """specifications whose module text is not what the contract gives (fx/guide.py)"""
        import guide
        if os.environ.get('FX_WILD'):
            a, b = map(int, os.environ['FX_WILD'].split('-'))
            return [guide.wild(i, 'wild%d' % i) for i in range(a, b)]
        r, n, d = guide.specs(self.bins('fxgen')['fxgen'], os.path.join(self.tmp, 'guide'), self.seed, 40000 if self.thorough else 6000)
        self.guide_n = (n, d, len(r))
        return r

    def compiled(self, n=None, extra=(), **kw):
        b = self.bins('fxgen')
        c = Compiled(self.specs(n) + list(extra), self.tmp, b['fxgen'], **kw)
        for k, v in c.failures.items():
            self.notes.append('specification %s left out (reported under C07): %s' % (k, v[:200]))
        if not c.exes:
            raise Broken('no specification generates and compiles: %s' % list(c.failures.items())[:2])
        return c

    def count(self, key, n=1):
        self.evals += n
        self.keys.add(key)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def bad(self, what, **replay):
        if len(self.viol) < 40:
            self.viol.append(dict(what=what, **replay))

    def knownf(self, fid, what):
        self.known.setdefault(fid, what)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def live(c):
    return [sp for sid, sp in c.specs.items() if sid in c.shard_of and sid != 'barearr']


def malformed(items, r, n=800):
    """requests that mostly fail, made from valid ones, to go before valid ones in the same process: what a decode
    returns may not depend on the decodes made before it"""
    by = {}
    for it in items:
        if it[3] and len(it[3]) <= 400:
            by.setdefault(it[0].id, []).append(it)
    out = []
    for its in by.values():
        for _ in range(n):
            sp, d, _, data, _, _ = r.choice(its)
            x = bytearray(data)
            k = r.randrange(min(len(x) // 4 + 1, 24)) * 4
            how = r.randrange(6)
            if how < 3:
                x[k:k + 4] = b'\0\0\0' + bytes([r.choice([2, 3, 9, 65, 200])])
            elif how == 3:
                x = x[:r.randrange(len(x))]
            elif how == 4:
                x[k:k + 4] = b'\xff\xff\xff\xff' if k and x[k - 4:k] < b'\0\0\1' and x[k - 4:k] > b'\0\0\0\0' else b'\0\0\1\0'
            else:
                x = x[:-1]
            out.append((sp.id, d.name, b'', bytes(x), b''))
    return out


def decode_all(cx, c, items, judge, tag, warm=None):
    """items: (spec, decl, pre, data, suf, info); judge(spec, decl, pre, data, suf, info, A, B) -> None | message"""
    reqs = [(sp.id, d.name, pre, data, suf) for sp, d, pre, data, suf, _ in items]
    first = malformed(items, warm) if warm else []
    res = c.run(first + reqs)[len(first):]
    alone = []
    for it, (A, B) in zip(items, res):
        sp, d, pre, data, suf, info = it
        cx.count((sp.id, d.name, data), 1)
        m = judge(sp, d, pre, data, suf, info, A.split(';'), B.split(';'))
        if m and first and not alone and not judge(sp, d, pre, data, suf, info, *[x.split(';') for x in c.run([(sp.id, d.name, pre, data, suf)])[0]]):
            alone = first
            m += ' (only after decodes of malformed input in the same process, listed under "after")'
        if m:
            cx.bad(m, after=[(t, x.hex()) for s, t, _, x, _ in alone if c.shard_of[s] == c.shard_of[sp.id]], spec=sp.id, spec_text=sp.render(), type=d.name, prefix=pre.hex(), input=data.hex(), suffix=suf.hex(), by_value=A[:600], by_ref=B[:600], kind='decode')
    if items:
        sp, d, pre, data, suf, _ = items[len(items) // 2]
        cx.sample({'spec': sp.id, 'type': d.name, 'input': data.hex()[:200], 'what': tag, 'result': res[len(items) // 2][0][:200]})
    return res


def values(sp, d, r, n):
    for i in range(n):
        yield sp.gen(d, r, r.choice([2, 3, 4, 5]) if n > 1 else 3)


def nodecount(x):
    if isinstance(x, (list, tuple)):
        return 1 + sum(nodecount(y) for y in x)
    return 1


def systematic(sp, d, r):
    """one value per union arm / enum member / boundary length where the declaration itself has them"""
    if isinstance(d, Union):
        for k in range(len(sp.union_discs(d))):
            yield sp.gen_union(d, r, 3, pick=k)
    if isinstance(d, Enum):
        for m, _ in d.members:
            yield m
    for k in range(40):
        sp.force, sp.hit = [k, 0], False
        try:
            v = sp.gen(d, r, 3)
            if not sp.hit:
                break
        finally:
            sp.force = None
        yield v
    fs = d.fields if isinstance(d, Struct) else [Field(d.target, 'x', d.arr)] if isinstance(d, Typedef) else []
    for i, f in enumerate(fs):
        if f.ty.kind in ('opaque', 'string') and not f.opt and (f.arr is None or f.arr[0] == 'var'):
            mx = sp.num(f.arr[1]) if f.arr and f.arr[1] is not None else None
            for n in itertools.chain(range(0, 10), (100, 9001)):
                if mx is not None and n > mx:
                    break
                v = sp.gen(d, r, 2)
                x = Op(r.randbytes(n)) if f.ty.kind == 'opaque' else sp.gen_str(r, n)
                if isinstance(d, Struct):
                    v = list(v)
                    v[i] = x
                else:
                    v = x
                yield v


def vals(sp, d, r, n):
    seen = set()
    for v in itertools.chain(systematic(sp, d, r), values(sp, d, r, n)):
        e = sp.enc(d, v)
        if e in seen or len(e) > 20000:
            continue
        seen.add(e)
        yield v, e


def strip(s):
    """a dump without payload offsets"""
    return re.sub(r'@-?\d+(?=[,\]}\)~:]|$)', '', s)


def kinderr(e):
    return 'err', e.key()


def oracle(sp, d, data):
    try:
        v, p = sp.dec(d, data, 0)
        return 'ok', v, p
    except DecErr as e:
        return 'err', e, None


# ---- C01 ------------------------------------------------------------------------------------------
def c01(cx):
    cx.rule = 'value of a declared type encoded by the independent encoder, decoded by the generated TryFrom<Bytes>; non-trivial: distinct (type, encoding)'
    c = cx.compiled(extra=corpus.bare_array())
    known = {sp.id for sp in corpus.known() + corpus.bare_array()}
    for sid, why in c.failures.items():
        if sid not in known:
            sp = next(x for x in cx.specs() if x.id == sid)
            cx.bad('%s: no decoder exists: %s' % (sid, why[:300]), kind='compile', spec=sid, spec_text=sp.render())
    r = random.Random('c01-%s' % cx.seed)
    items = []
    for sp in live(c):
        for d in sp.types():
            for v, e in vals(sp, d, r, 60 if cx.thorough else 10):
                items.append((sp, d, b'', e, b'' if r.random() < .8 else r.randbytes(5), v))
    sp = c.specs.get('recur')
    if sp and 'recur' in c.shard_of:
        for n in (1, 2, 50, 400):
            for t, mk in (('node', lambda i: i), ('onode', lambda i: Op(bytes([i % 256] * (i % 6))))):
                v = None
                for i in range(n):
                    v = [mk(i), v]
                items.append((sp, sp.byname[t], b'', sp.enc(sp.byname[t], v), b'', v))

    def judge(sp, d, pre, data, suf, v, A, B):
        want = strip(sp.dump(d, v))
        if A[0] != 'ok':
            return 'valid encoding of %s rejected: %s' % (d.name, ';'.join(A)[:200])
        if strip(A[1]) != want:
            return 'decoded value of %s differs: got %s, encoded %s' % (d.name, strip(A[1])[:300], want[:300])
    decode_all(cx, c, items, judge, 'round trip', warm=r)
    b = [Op(b'abc'), Op(b'')]
    sp = c.specs.get('barearr')
    if sp and 'barearr' in c.shard_of:
        d = sp.byname['xs']
        e = sp.enc(d, [[b[0]], [b[1]]])
        (A, _), = c.run([('barearr', 'xs', b'', e, b'')])
        A = A.split(';')
        if A[0] != 'ok' or strip(A[1]) != strip(sp.dump(d, [[b[0]], [b[1]]])):
            cx.knownf('C01-bare-opaque-array', 'counted array of structs with a bare `opaque x;` field is misread, as its elements are stepped over by wire_size() (see C02-bare-opaque)')
    programs(cx, c)


def programs(cx, c):
    cx.programs = len(live(c))
    cx.ntypes = sum(len(s.types()) for s in live(c))


# ---- C02 ------------------------------------------------------------------------------------------
def c02(cx):
    cx.rule = 'wire_size() of a decoded value against the length of its independent encoding and the bytes consumed; non-trivial: distinct (type, encoding)'
    c = cx.compiled()
    r = random.Random('c02-%s' % cx.seed)
    items = []
    for sp in live(c):
        for d in sp.types():
            for v, e in vals(sp, d, r, 50 if cx.thorough else 10):
                items.append((sp, d, b'', e, b'\0' * 8, v))

    def judge(sp, d, pre, data, suf, v, A, B):
        if A[0] != 'ok':
            return None   # C01's
        if strip(A[1]) != strip(sp.dump(d, v)):
            return None   # not the value encoded: C01's
        if A[3] != str(len(data)):
            miss = 4 * sp.bare_opaques(d, v)
            if miss and A[3] == str(len(data) - miss):
                cx.knownf('C02-bare-opaque', 'wire_size() of a bare `opaque x;` struct field or union arm lacks the 4-byte length prefix (%s.%s: %s for %d bytes)' % (sp.id, d.name, A[3], len(data)))
                return None
            return 'wire_size() of %s is %s for an encoding of %d bytes' % (d.name, A[3], len(data))
        if B[0] == 'ok' and B[3] != A[3]:
            return 'wire_size() differs between the decoders'
        if B[0] == 'ok' and B[4] != str(len(data)):
            return 'the decoder of %s consumes %s bytes, wire_size() is %s' % (d.name, B[4], A[3])
    decode_all(cx, c, items, judge, 'size', warm=r)
    programs(cx, c)


# ---- hostile bytes ------------------------------------------------------------------------------------
def hostile(sp, d, r, nval, cuts=40):
    for v, e in itertools.islice(vals(sp, d, r, nval), nval + 12):
        if len(e) > 3000:
            continue
        pos = range(len(e)) if len(e) <= cuts else sorted(set(r.sample(range(len(e)), cuts - 8) + list(range(4)) + list(range(len(e) - 4, len(e)))))
        for k in pos:
            yield e[:k], 'cut'
        (_, tr) = sp.traced(d, e)
        words = [(k, p, w, i) for k, p, w, i in tr]
        if len(words) > 10:
            words = r.sample(words, 10)
        for k, p, w, info in words:
            cand = list(U32)
            if isinstance(info, int):
                cand += [max(info - 1, 0), info, info + 1]
            for x in (cand if len(words) < 4 else r.sample(cand, 8)):
                yield e[:p + w - 4] + (x & 0xffffffff).to_bytes(4, 'big') + e[p + w:], k
        for p in range(0, min(len(e) - 3, 64), 4):
            yield e[:p] + r.choice(U32).to_bytes(4, 'big') + e[p + 4:], 'word'
    yield b'', 'empty'
    for _ in range(12):
        yield b''.join(r.choice([0, 1, 1, 1, 2, 3, 4, 5, 8, 0xffffffff, 0x7fffffff]).to_bytes(4, 'big') for _ in range(r.choice([1, 2, 4, 8, 16, 40]))), 'words'
        yield r.randbytes(r.choice([1, 2, 3, 4, 5, 7, 8, 12, 33])), 'random'


def c03(cx):
    cx.rule = 'valid and invalid byte strings under several prefixes and suffixes, by-value and by-reference decoders compared; non-trivial: distinct (type, bytes)'
    c = cx.compiled()
    r = random.Random('c03-%s' % cx.seed)
    items = []
    for sp in live(c):
        for d in sp.types():
            for v, e in vals(sp, d, r, 20 if cx.thorough else 5):
                for pre, suf in ((b'', b''), (b'\x07', b'\0'), (r.randbytes(r.choice([3, 4, 9])), r.randbytes(r.choice([1, 2, 3, 4, 64]))), (b'', b'\xff' * 8)):
                    items.append((sp, d, pre, e, suf, v))
            for x, k in hostile(sp, d, r, 8 if cx.thorough else 1, 12):
                items.append((sp, d, b'\1\2', x, b'', None))

    seen = {}

    def judge(sp, d, pre, data, suf, v, A, B):
        if A[0] in ('panic', 'died') or B[0] in ('panic', 'died'):
            if A[0] == B[0]:
                return None   # C04's
        ra = (A[0], A[1])
        rb = (B[0], B[1])
        if ra != rb:
            return 'TryFrom<Bytes> and TryFrom<&mut Bytes> of %s disagree: %s / %s' % (d.name, ';'.join(ra)[:200], ';'.join(rb)[:200])
        if v is None:
            st, x, p = oracle(sp, d, data)
            if st == 'ok' and B[0] == 'ok' and (B[4], B[5], B[6]) != (str(p), str(len(data) - p), '1'):
                return '&mut decoder of %s advanced to %s leaving %s, value takes %d of %d' % (d.name, B[4], B[5], p, len(data))
            return None
        k = (sp.id, d.name, data)
        if seen.setdefault(k, ra) != ra:
            return 'result of %s depends on what surrounds the value: %s, elsewhere %s' % (d.name, ';'.join(ra)[:200], ';'.join(seen[k])[:200])
        if B[0] == 'ok' and (B[4], B[5], B[6]) != (str(len(data)), str(len(suf)), '1'):
            return '&mut decoder of %s advanced by %s leaving %s bytes (same=%s), value takes %d and %d follow' % (d.name, B[4], B[5], B[6], len(data), len(suf))
    decode_all(cx, c, items, judge, 'two decoders')
    programs(cx, c)


def c04(cx):
    cx.rule = 'truncations, boundary values in every control word, random words; by-value and by-reference; non-trivial: distinct (type, bytes)'
    c = cx.compiled()
    r = random.Random('c04-%s' % cx.seed)
    items = []
    for sp in live(c):
        for d in sp.types():
            for x, k in hostile(sp, d, r, 30 if cx.thorough else 3, 120 if cx.thorough else 30):
                items.append((sp, d, b'', x, b'', k))

    def judge(sp, d, pre, data, suf, k, A, B):
        for f, x in (('TryFrom<Bytes>', A), ('TryFrom<&mut Bytes>', B)):
            if x[0] not in ('ok', 'err'):
                return '%s of %s: %s' % (f, d.name, ';'.join(x)[:300])
    decode_all(cx, c, items, judge, 'hostile')
    # long optional chains: a recorded finding (stack); shorter ones must work
    sp = c.specs.get('recur')
    if sp and 'recur' in c.shard_of:
        one = lambda n: b'\0\0\0\7\0\0\0\1' * n + b'\0\0\0\7\0\0\0\0'
        d = sp.byname['node']
        decode_all(cx, c, [(sp, d, b'', one(n), b'', 'chain') for n in (10, 500, 1500)], judge, 'chain')
        (a, b), = c.run([('recur', 'node', b'', one(300000), b'')])
        if a.startswith('died') or b.startswith('died'):
            cx.knownf('C04-deep-chain', 'a chain of 300000 optional links (recur.node) overflows an 8 MB stack')
    programs(cx, c)


def c05(cx):
    cx.rule = 'counts at max-1, max, max+1, 2^31, 2^32-1 and beyond the data, every strict prefix of valid encodings; non-trivial: distinct (type, bytes)'
    c = cx.compiled()
    r = random.Random('c05-%s' % cx.seed)
    items = []
    for sp in live(c):
        for d in sp.types():
            for k in range(60):
                for delta in (1, 0, -1):
                    sp.force, sp.hit = [k, delta], False
                    try:
                        v = sp.gen(d, r, 3)
                    finally:
                        sp.force = None
                    if not sp.hit:
                        break
                    e = sp.enc(d, v)
                    if len(e) < 40000:
                        items.append((sp, d, b'', e, r.choice([b'', b'\0' * 16]), 'max%+d' % delta))
                if not sp.hit:
                    break
            for v, e in itertools.islice(vals(sp, d, r, 20 if cx.thorough else 4), 30 if cx.thorough else 10):
                if len(e) > 3000:
                    continue
                cuts = range(len(e)) if len(e) < 60 else r.sample(range(len(e)), 50) + list(range(len(e) - 8, len(e)))
                for k in cuts:
                    items.append((sp, d, b'', e[:k], b'', 'prefix'))
                _, tr = sp.traced(d, e)
                ws = [t for t in tr if t[0] in ('olen', 'slen', 'alen')]
                for kind, p, w, mx in (ws if len(ws) < 6 else r.sample(ws, 6)):
                    rem = len(e) - p - 4
                    cand = [rem + 1, rem + 4, 1 << 31, 0xffffffff, 0x7fffffff, 0xfffffffd] + ([mx + 1, mx + 4, mx] if mx is not None else [])
                    for x in cand:
                        if x <= 0xffffffff:
                            items.append((sp, d, b'', e[:p] + x.to_bytes(4, 'big') + e[p + 4:], b'', kind))

    def judge(sp, d, pre, data, suf, tag, A, B):
        if tag == 'prefix':
            for x in (A, B):
                if x[0] == 'ok':
                    return 'strict prefix (%d bytes) of a valid encoding of %s accepted' % (len(data), d.name)
            return None
        st, e, p = oracle(sp, d, data + suf)
        for x in (A, B):
            if st == 'ok':
                if x[0] != 'ok':
                    return 'length within the declared maximum of %s rejected (%s): %s' % (d.name, tag, ';'.join(x)[:100])
            elif e.kind == 'InvalidLength':
                if x[0] != 'err' or x[1] != 'InvalidLength':
                    return 'length beyond the declared maximum or the data present in %s (%s): %s instead of InvalidLength' % (d.name, tag, ';'.join(x)[:100])
            elif x[0] == 'ok':
                return 'invalid input for %s accepted (%s)' % (d.name, tag)
    decode_all(cx, c, items, judge, 'bounds')
    programs(cx, c)


BADUTF = [b'\xff', b'\x80', b'\xc3', b'a\xc3(', b'\xe2\x82', b'\xed\xa0\x80', b'\xf5\x80\x80\x80', b'ab\xc0\x80']


def c06(cx):
    cx.rule = 'every label and default of every union, every enum member, undeclared values in every control word, non-UTF-8 strings; non-trivial: distinct (type, bytes)'
    c = cx.compiled()
    r = random.Random('c06-%s' % cx.seed)
    items = []
    for sp in live(c):
        for d in sp.types():
            for v, e in itertools.islice(vals(sp, d, r, 20 if cx.thorough else 5), 60 if cx.thorough else 25):
                items.append((sp, d, b'', e, b'', 'valid'))
                _, tr = sp.traced(d, e)
                if len(e) > 4000:
                    for kind, p, w, info in tr:
                        n = int.from_bytes(e[p:p + 4], 'big')
                        if kind == 'slen' and n > 4000:
                            items += [(sp, d, b'', e[:p + 4 + k] + b'\xff' + e[p + 5 + k:], b'', 'utf8') for k in (0, n // 2, n - 1)]
                    continue
                ws = [t for t in tr if t[0] in ('bool', 'enum', 'opt', 'disc')]
                big = len(ws) > 4
                for kind, p, w, info in (ws if len(ws) < 8 else r.sample(ws, 8)):
                    cand = [0, 1, 2, 3, 0x100, 0x10000, 0x1000000, 0x80000000, 0x7fffffff, 0xffffffff, 0x80000001, r.getrandbits(32), r.getrandbits(31)]
                    if kind == 'enum':
                        for m in sp.enum_values(info).values():
                            cand += [m + 1, m - 1, m, m ^ (1 << 31), m + 256]
                    if kind == 'disc':
                        for m, *_ in sp.union_map(info)[0]:
                            cand += [m + 1, m - 1, m, m ^ (1 << 31)] + ([m + (1 << 32), m ^ (1 << 63)] if w == 8 else [])
                        if w == 8:
                            cand += [r.getrandbits(64), 1 << 32, (1 << 64) - 1]
                    cand = sorted({x & ((1 << (8 * w)) - 1) for x in cand})
                    if big and len(cand) > 12:
                        cand = r.sample(cand, 12)
                    for x in cand:
                        # enough zero bytes follow for any arm of words to be complete
                        items.append((sp, d, b'', e[:p] + x.to_bytes(w, 'big') + e[p + w:] + b'\0' * 64, b'', kind))
                for kind, p, w, info in tr:
                    if kind == 'slen':
                        n = int.from_bytes(e[p:p + 4], 'big')
                        for b in BADUTF:
                            if len(b) <= n:
                                for k in {r.randrange(n - len(b) + 1), n - len(b)}:
                                    items.append((sp, d, b'', e[:p + 4 + k] + b + e[p + 4 + k + len(b):], b'', 'utf8'))

    def judge(sp, d, pre, data, suf, tag, A, B):
        st, e, p = oracle(sp, d, data)
        for x in (A, B):
            if st == 'ok':
                if x[0] != 'ok':
                    return 'declared discriminants of %s rejected: %s' % (d.name, ';'.join(x)[:100])
                if strip(x[1]) != strip(sp.dump(d, e)):
                    return '%s decodes to %s, the specification selects %s' % (d.name, strip(x[1])[:250], strip(sp.dump(d, e))[:250])
            elif x[0] == 'ok':
                return 'undeclared value accepted by %s (%s): %s, expected %s' % (d.name, tag, strip(x[1])[:200], e.key())
            elif e.kind != 'InvalidLength' and (x[0] != 'err' or x[1] != e.key()):
                return '%s answers %s, expected %s' % (d.name, ';'.join(x)[:100], e.key())
    decode_all(cx, c, items, judge, 'discriminants')
    programs(cx, c)


def c08(cx):
    cx.rule = 'opaque leaves of decoded values: address relative to the input view against the wire offset; non-trivial: distinct (type, bytes) with at least one non-empty opaque'
    c = cx.compiled()
    r = random.Random('c08-%s' % cx.seed)
    items = []
    for sp in live(c):
        g = sp.generics()
        for d in sp.types():
            if d.name not in g:
                continue
            for v, e in vals(sp, d, r, 80 if cx.thorough else 15):
                x, p = sp.dec(d, e, 0)
                want = sp.dump(d, x)
                pre = r.choice([b'', b'\1', b'\1\2\3\4\5'])
                items.append((sp, d, pre, e, r.choice([b'', b'\0\0\0']), want))

    def judge(sp, d, pre, data, suf, want, A, B):
        for x in (A, B):
            if x[0] != 'ok' or strip(x[1]) != strip(want):
                continue
            if x[1] != want:
                return 'an opaque payload of %s does not lie at its wire offset in the input: %s, expected %s' % (d.name, x[1][:300], want[:300])
    res = decode_all(cx, c, items, judge, 'provenance', warm=r)
    cx.keys = {(it[0].id, it[1].name, it[3]) for it in items if re.search(r'@\d', it[5])}
    programs(cx, c)


def c09(cx):
    cx.rule = 'bytes requested from a counting allocator during one decode; short inputs whose counts are 2^8..2^32-1; non-trivial: distinct (type, bytes)'
    c = cx.compiled()
    r = random.Random('c09-%s' % cx.seed)
    items = []
    for sp in live(c):
        for d in sp.types():
            for v, e in itertools.islice(vals(sp, d, r, 30 if cx.thorough else 4), 60 if cx.thorough else 10):
                if len(e) > 3000:
                    continue
                items.append((sp, d, b'', e, b'', 'valid'))
                _, tr = sp.traced(d, e)
                ws = [t for t in tr if t[0] in ('olen', 'slen', 'alen')]
                for kind, p, w, mx in (ws if len(ws) < 6 else r.sample(ws, 6)):
                    for x in [1 << 16, 1 << 18, 1 << 20, 1 << 24, 1 << 28, 1 << 31, (1 << 32) - 1, 0xfffffffc] + ([mx] if mx else []):
                        items.append((sp, d, b'', e[:p] + x.to_bytes(4, 'big') + e[p + 4:], b'', kind))
                        items.append((sp, d, b'', e[:p] + x.to_bytes(4, 'big'), b'', kind))

    def judge(sp, d, pre, data, suf, tag, A, B):
        lim = 4096 + 1500 * (len(data) + sp.maxima(d))
        for x in (A, B):
            if x[0] == 'died':
                return 'decoding %d bytes as %s ended the process under a memory limit (%s)' % (len(data), d.name, x[1])
            if x[0] in ('ok', 'err') and int(x[2]) > lim:
                return 'decoding %d bytes as %s requested %s bytes of memory' % (len(data), d.name, x[2])
            if x[0] == 'panic' and 'capacity' in x[1]:
                return 'decoding %d bytes as %s: %s' % (len(data), d.name, x[1])
    decode_all(cx, c, items, judge, 'allocation')
    programs(cx, c)


# ---- C10: the readers and sizes, called directly -----------------------------------------------------------
C10 = r'''
#![allow(warnings)]
mod g { include!("%s"); 
use fastxdr::bytes::{Bytes, Buf};
use xdr::*;
use std::convert::TryFrom;
static mut FAILS: usize = 0;
fn fail(s: String) { unsafe { FAILS += 1; if FAILS < 20 { println!("FAIL {}", s); } } }
fn cat<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}
fn pad(n: usize) -> usize { (4 - n %% 4) %% 4 }
#[derive(Debug, PartialEq, Clone)]
struct El { o: Bytes }
impl TryFrom<Bytes> for El { type Error = Error; fn try_from(mut v: Bytes) -> Result<Self, Error> { Ok(El { o: v.read_variable_bytes(Some(6))? }) } }
impl WireSize for El { fn wire_size(&self) -> usize { 4 + self.o.len() + pad(self.o.len()) } }
#[derive(Debug, PartialEq, Clone)]
struct One { o: u8 }
impl TryFrom<Bytes> for One { type Error = Error; fn try_from(mut v: Bytes) -> Result<Self, Error> { if v.remaining() < 1 { return Err(Error::InvalidLength); } Ok(One { o: v.get_u8() }) } }
impl WireSize for One { fn wire_size(&self) -> usize { 1 } }
#[derive(Debug, PartialEq, Clone)]
struct Zero;
impl TryFrom<Bytes> for Zero { type Error = Error; fn try_from(mut v: Bytes) -> Result<Self, Error> { Ok(Zero) } }
impl WireSize for Zero { fn wire_size(&self) -> usize { 0 } }
fn src(len: usize, salt: u8) -> Vec<u8> { (0..len).map(|i| ((i * 37 + 11) as u8) & 0x7f ^ salt).collect() }
pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let big: usize = %d;
    let mut evals = 0u64;
    // integers and floats: every remaining length, several contents, exact value and cursor
    for base in [vec![0u8; 16], vec![0xffu8; 16], vec![0x80, 0, 0, 0, 0, 0, 0, 1, 9, 9, 9, 9, 9, 9, 9, 9], (1u8..17).collect::<Vec<_>>(), vec![0x7f, 0xff, 0xff, 0xfe, 0x80, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
        // zeros of both signs, infinities, quiet and signalling NaNs, subnormals
        vec![0x80, 0, 0, 0, 0, 0, 0, 0, 0x80, 0, 0, 0], vec![0, 0, 0x80, 0, 0, 0, 0, 0, 0, 0, 0x80, 0, 0], vec![0x7f, 0x80, 0, 0, 0, 0, 0, 0, 0xff, 0x80, 0, 0], vec![0x7f, 0xf0, 0, 0, 0, 0, 0, 0, 0xff, 0xf0, 0, 0, 0, 0, 0, 0],
        vec![0x7f, 0xc0, 0x12, 0x34, 0, 0, 0, 0], vec![0xff, 0x80, 0, 1, 0, 0, 0, 0], vec![0x7f, 0xf8, 0, 0, 0, 0, 0, 7], vec![0xff, 0xf0, 0, 0, 0, 0, 0, 7], vec![0x80, 0x0f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]] {
        for off in 0..3usize { for r in 0..=(base.len() - off) {
            let all = Bytes::from(base.clone());
            macro_rules! prim { ($f:ident, $n:expr, $t:ty, $bits:expr) => {{
                evals += 1;
                let mut b = all.slice(off..off + r);
                let x = cat(|| b.$f());
                let ok = match &x {
                    Ok(Ok(v)) => r >= $n && $bits(*v) == { let mut a = [0u8; $n]; a.copy_from_slice(&base[off..off + $n]); a.to_vec() } && b.len() == r - $n && b[..] == base[off + $n..off + r],
                    Ok(Err(Error::InvalidLength)) => r < $n,
                    _ => false };
                if !ok { fail(format!("{} with {} bytes left of {:?}: {:?}, {} left", stringify!($f), r, &base[off..], x, b.len())); }
            }}}
            prim!(read_u32, 4, u32, |v: u32| v.to_be_bytes().to_vec());
            prim!(read_i32, 4, i32, |v: i32| v.to_be_bytes().to_vec());
            prim!(read_u64, 8, u64, |v: u64| v.to_be_bytes().to_vec());
            prim!(read_i64, 8, i64, |v: i64| v.to_be_bytes().to_vec());
            prim!(read_f32, 4, f32, |v: f32| v.to_bits().to_be_bytes().to_vec());
            prim!(read_f64, 8, f64, |v: f64| v.to_bits().to_be_bytes().to_vec());
        } }
    }
    // booleans
    let words: Vec<u32> = if %s { vec![] } else { (0..70000u32).chain((0..32).map(|i| 1u32 << i)).chain((0..32).map(|i| !(1u32 << i))).chain((0..5000).map(|i: u32| i.wrapping_mul(2654435761))).collect() };
    let mut one = |w: u32| {
        let mut b = Bytes::from_static(Box::leak(Box::new([0u8; 0])));
        let a = w.to_be_bytes();
        let mut v = Bytes::copy_from_slice(&a);
        let x = v.read_bool();
        let ok = match (w, &x) { (0, Ok(false)) | (1, Ok(true)) => v.len() == 0, (0, _) | (1, _) => false, (_, Err(Error::InvalidBoolean)) => true, _ => false };
        if !ok { fail(format!("read_bool of {:#x}: {:?}", w, x)); }
    };
    evals += words.len() as u64;
    for w in words { one(w); }
    if %s {
        evals += 1 << 32;
        let hs: Vec<_> = (0..8u64).map(|k| std::thread::spawn(move || { for w in (k << 29)..((k + 1) << 29) { 
            let a = (w as u32).to_be_bytes(); let mut v = Bytes::copy_from_slice(&a); let x = v.read_bool();
            let ok = match (w, &x) { (0, Ok(false)) | (1, Ok(true)) => v.len() == 0, (0, _) | (1, _) => false, (_, Err(Error::InvalidBoolean)) => true, _ => false };
            if !ok { fail(format!("read_bool of {:#x}: {:?}", w, x)); } } })).collect();
        for h in hs { h.join().unwrap(); }
    }
    for r in 0..4 { let mut v = Bytes::from(vec![0u8; r]); if !matches!(v.read_bool(), Err(Error::InvalidLength)) { fail(format!("read_bool with {} bytes", r)); } }
    // opaque and strings: n, r, max exhaustively
    for r in 0..=big + 8 { 
        let data = src(r, 0);
        let whole = { let mut w = vec![9u8; 3]; w.extend_from_slice(&data); w.extend_from_slice(&[7; 5]); Bytes::from(w) };
        let view = whole.slice(3..3 + r);
        for n in (0..=big).chain([1 << 31, (1 << 32) - 1, usize::MAX - 3, usize::MAX - 1, usize::MAX]) {
            evals += 1;
            let mut b = view.clone();
            let x = cat(|| b.read_bytes(n));
            let fits = n <= r && pad(n) <= r - n;
            let ok = match &x { Ok(Ok(p)) => fits && p[..] == data[..n] && b[..] == data[n + pad(n)..] && (n == 0 || p.as_ptr() == view.as_ptr()), Ok(Err(Error::InvalidLength)) => !fits, _ => false };
            if !ok { fail(format!("read_bytes({}) with {} left: {:?}, {} left after", n, r, x, b.len())); }
        }
        for n in (0..=big).chain([1 << 16, 1 << 31, (1 << 32) - 1, (1 << 32) - 3]) {
            let mut w = vec![3u8]; w.extend_from_slice(&(n as u32).to_be_bytes()); w.extend_from_slice(&data);
            let whole = Bytes::from(w);
            for mx in std::iter::once(None).chain((0..=big + 1).map(Some)).chain([Some(1 << 31), Some((1 << 32) - 1), Some(usize::MAX)]) {
                evals += 2;
                let fits = n <= r && pad(n) <= r - n && mx.map(|m| n <= m).unwrap_or(true);
                let mut b = whole.slice(1..);
                let x = cat(|| b.read_variable_bytes(mx));
                let ok = match &x { Ok(Ok(p)) => fits && p[..] == data[..n] && b[..] == data[n + pad(n)..] && (n == 0 || p.as_ptr() == whole[5..].as_ptr()), Ok(Err(Error::InvalidLength)) => !fits, _ => false };
                if !ok { fail(format!("read_variable_bytes({:?}) of length {} with {} left: {:?}, {} left after", mx, n, r, x, b.len())); }
                let mut b = whole.slice(1..);
                let x = cat(|| b.read_string(mx));
                let ok = match &x { Ok(Ok(p)) => fits && p.as_bytes() == &data[..n] && b[..] == data[n + pad(n)..], Ok(Err(Error::InvalidLength)) => !fits, _ => false };
                if !ok { fail(format!("read_string({:?}) of length {} with {} left: {:?}, {} left after", mx, n, r, x, b.len())); }
                // the same for bytes that are not UTF-8
                if fits && n > 0 {
                    let mut w = whole.to_vec(); w[5 + n - 1] = 0xff;
                    let mut b = Bytes::from(w).slice(1..);
                    let x = cat(|| b.read_string(mx));
                    if !matches!(x, Ok(Err(Error::NonUtf8String(_)))) { fail(format!("read_string of non-UTF-8: {:?}", x)); }
                }
            }
        }
    }
    for r in 0..4usize { evals += 1; let mut b = Bytes::from(vec![0u8; r]); if !matches!(b.read_variable_bytes(None), Err(Error::InvalidLength)) { fail(format!("read_variable_bytes with {} bytes", r)); } }
    // long payloads, and texts that are valid or not in several ways
    for n in [63usize, 64, 255, 256, 257, 1023, 4095, 4096, 8193, 65535, 65536, 70001, 1 << 20] {
        evals += 3;
        let text: Vec<u8> = (0..n).map(|i| b'a' + (i %% 26) as u8).collect();
        let mut w = (n as u32).to_be_bytes().to_vec(); w.extend_from_slice(&text); w.extend(std::iter::repeat(0).take(pad(n))); w.push(5);
        let whole = Bytes::from(w.clone());
        for mx in [None, Some(n), Some(n - 1)] {
            let fits = mx != Some(n - 1);
            let mut b = whole.clone();
            let x = cat(|| b.read_variable_bytes(mx));
            let ok = match &x { Ok(Ok(p)) => fits && p[..] == text[..] && b.len() == 1 && p.as_ptr() == whole[4..].as_ptr(), Ok(Err(Error::InvalidLength)) => !fits, _ => false };
            if !ok { fail(format!("read_variable_bytes({:?}) of length {}", mx, n)); }
            let mut b = whole.clone();
            let x = cat(|| b.read_string(mx));
            let ok = match &x { Ok(Ok(p)) => fits && p.as_bytes() == &text[..] && b.len() == 1, Ok(Err(Error::InvalidLength)) => !fits, _ => false };
            if !ok { fail(format!("read_string({:?}) of length {}", mx, n)); }
        }
        for at in [0, n / 2, n - 1] {
            let mut w = w.clone(); w[4 + at] = 0xc3;
            let mut b = Bytes::from(w);
            let x = cat(|| b.read_string(None));
            if !matches!(x, Ok(Err(Error::NonUtf8String(_)))) { fail(format!("read_string of {} bytes, not UTF-8 at {}", n, at)); }
        }
    }
    for t in [&b"\0"[..], b"ab\0", b"\0\0\0\0", b" x ", b"\r\n", b"\xef\xbb\xbfx", b"\xc3\xa9", b"e\xcc\x81", b"\xf0\x9f\x92\xa9", b"\xed\x9f\xbf", b"\xc2\x80", b"\xf4\x8f\xbf\xbf", b"A\x7f\"\\", b"\xef\xbf\xbd", b"\xef\xbf\xbe"] {
        evals += 1;
        let mut w = (t.len() as u32).to_be_bytes().to_vec(); w.extend_from_slice(t); w.extend(std::iter::repeat(0).take(pad(t.len())));
        let mut b = Bytes::from(w);
        let x = cat(|| b.read_string(None));
        if !matches!(&x, Ok(Ok(s)) if s.as_bytes() == t) { fail(format!("read_string of {:?}: {:?}", t, x)); }
    }
    for t in [&b"\xc3"[..], b"abc\xe2\x82", b"\xf0\x9f\x92", b"\x80", b"a\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff\xfe", b"ok\xc3", b"\xc3\x28ok", b"\xf8\x88\x80\x80\x80"] {
        evals += 1;
        let mut w = (t.len() as u32).to_be_bytes().to_vec(); w.extend_from_slice(t); w.extend(std::iter::repeat(0).take(pad(t.len())));
        let mut b = Bytes::from(w);
        let x = cat(|| b.read_string(None));
        if !matches!(x, Ok(Err(Error::NonUtf8String(_)))) { fail(format!("read_string of {:?}: {:?}", t, x)); }
    }
    // counted arrays of elements of no size
    for n in [0u32, 1, 2, 3, 7, 100] { for extra in [0usize, 1, 4, 9] { for mx in [None, Some(n as usize), Some(n as usize + 1)] {
        evals += 1;
        let mut all = n.to_be_bytes().to_vec(); all.extend(src(extra, 1));
        let mut b = Bytes::from(all);
        let x = cat(|| b.read_variable_array::<Zero>(mx));
        if !matches!(&x, Ok(Ok(v)) if v.len() == n as usize) || b.len() != extra { fail(format!("read_variable_array({:?}) of {} elements of no size with {} extra bytes: {:?}, {} left", mx, n, extra, x.map(|r| r.map(|v| v.len())), b.len())); }
    } } }
    // counted arrays of variable-sized and of byte-sized elements
    for k in 0..=5usize { for salt in 0..40usize {
        let mut w = vec![]; let mut els = vec![]; let mut ends = vec![];
        for i in 0..k { let l = (salt * 7 + i * 5 + salt / 3) %% 7; let d = src(l, salt as u8 & 0x7f); w.extend_from_slice(&(l as u32).to_be_bytes()); w.extend_from_slice(&d); w.extend(std::iter::repeat(0).take(pad(l))); els.push(El { o: Bytes::from(d) }); ends.push(w.len()); }
        for c in 0..=k + 1 { for cut in 0..=w.len() { for mx in [None, Some(c.wrapping_sub(1)), Some(c), Some(c + 1), Some(0)] {
            evals += 1;
            let mut all = (c as u32).to_be_bytes().to_vec(); all.extend_from_slice(&w[..cut]);
            let mut b = Bytes::from(all.clone());
            let x = cat(|| b.read_variable_array::<El>(mx));
            let need = if c == 0 { 0 } else if c <= k { ends[c - 1] } else { usize::MAX };
            let fits = need <= cut && mx.map(|m| c <= m).unwrap_or(true);
            let ok = match &x { Ok(Ok(v)) => fits && v[..] == els[..c] && b.len() == cut - need && b[..] == w[need..cut], Ok(Err(Error::InvalidLength)) => !fits, _ => false };
            if !ok { fail(format!("read_variable_array({:?}) of {} elements, {} of {} bytes: {:?}, {} left", mx, c, cut, w.len(), x, b.len())); }
        } } }
    } }
    for c in [1u32 << 16, 1 << 24, 1 << 31, u32::MAX] { for mx in [None, Some(5), Some(usize::MAX)] {
        evals += 1;
        let mut all = c.to_be_bytes().to_vec(); all.extend_from_slice(&[0u8; 40]);
        let mut b = Bytes::from(all);
        let x = cat(|| b.read_variable_array::<El>(mx));
        if !matches!(x, Ok(Err(Error::InvalidLength))) { fail(format!("read_variable_array of {} elements in 40 bytes: {:?}", c, x.map(|r| r.map(|v| v.len())))); }
    } }
    for n in 0..=9u32 { for extra in 0..5usize {
        evals += 1;
        let mut all = n.to_be_bytes().to_vec(); all.extend(src(n as usize + extra, 1));
        let mut b = Bytes::from(all);
        let x = cat(|| b.read_variable_array::<One>(None));
        let fits = pad(n as usize) <= extra;
        let ok = match &x { Ok(Ok(v)) => fits && v.len() == n as usize && v.iter().enumerate().all(|(i, e)| e.o == src(20, 1)[i]) && b.len() == extra - pad(n as usize), Ok(Err(Error::InvalidLength)) => !fits, _ => false };
        if !ok { fail(format!("read_variable_array of {} one-byte elements with {} extra bytes: {:?}, {} left", n, extra, x, b.len())); }
    } }
    // sizes
    macro_rules! sz { ($e:expr, $n:expr) => {{ evals += 1; let x = cat(|| WireSize::wire_size(&$e)); if x != Ok($n) { fail(format!("wire_size of {} is {:?}, not {}", stringify!($e), x, $n)); } }} }
    sz!(0u8, 1); sz!(7u32, 4); sz!(-1i32, 4); sz!(1.5f32, 4); sz!(true, 4); sz!(false, 4); sz!(1u64, 8); sz!(-1i64, 8); sz!(2.5f64, 8);
    for n in 0..=big * 3 {
        sz!(vec![1u32; n], 4 + 4 * n); sz!(vec![1u64; n], 4 + 8 * n); sz!(vec![1u8; n], 4 + n + pad(n)); sz!(vec![true; n], 4 + 4 * n); sz!(vec![1.0f64; n], 4 + 8 * n);
        sz!(vec![1u32; n][..], 4 * n); sz!(vec![1i64; n][..], 8 * n); sz!(vec![1u8; n][..], n + pad(n));
        sz!("x".repeat(n), 4 + n + pad(n)); sz!("\u{e9}".repeat(n), 4 + 2 * n + pad(2 * n));
        sz!(Some("x".repeat(n)), 8 + n + pad(n)); sz!(Some(Box::new("x".repeat(n))), 8 + n + pad(n)); sz!(Box::new(vec![2u32; n]), 4 + 4 * n);
        sz!(vec!["x".repeat(n); 3], 4 + 3 * (4 + n + pad(n))); sz!([ "x".repeat(n), "yz".repeat(n)][..], 8 + n + pad(n) + 2 * n + pad(2 * n));
        sz!(vec![vec![1u32; n]; 2], 4 + 2 * (4 + 4 * n)); sz!(vec![Some(1u64); n], 4 + 12 * n); sz!(Some(vec![1u8; n]), 8 + n + pad(n));
        sz!(Bytes::from(vec![1u8; n]), n);
    }
    sz!(None::<u32>, 4); sz!(None::<Box<String>>, 4); sz!(Some(1u32), 8); sz!(Some(1u64), 12); sz!(Some(Some(1u32)), 12); sz!([1u32, 2, 3][..], 12); sz!([1u64; 0][..], 0); sz!(Vec::<String>::new(), 4);
    println!("EVALS {}", evals);
} }
fn main() { g::main() }
'''


def c10(cx):
    big = 40 if cx.thorough else 14
    cx.rule = 'all payload lengths n in 0..=%d, remaining r in 0..=%d, max in {None, 0..=%d} plus boundary values; every truncation of counted arrays; blanket sizes' % (big, big + 8, big + 1)
    b = cx.bins('fxgen')
    g = Gen(b['fxgen'], cx.tmp)
    st, msg, text = g.run('struct a { u32 x; };')
    g.proc.close()
    if st != 'ok':
        cx.bad('generation fails: %s %s' % (st, msg), kind='generate', spec_text='struct a { u32 x; };')
        return
    # the trait's Debug/PartialEq for Bytes come from bytes itself
    p = os.path.join(cx.tmp, 'g.rs')
    open(p, 'w').write(text)
    src = os.path.join(cx.tmp, 'c10.rs')
    th = 'true' if cx.thorough else 'false'
    open(src, 'w').write(C10 % (p, big, th, th))
    r = rustc(src, os.path.join(cx.tmp, 'c10'), ['-C', 'opt-level=1', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on'])
    if r.returncode:
        raise Broken('reader harness does not compile: ' + r.stderr[-2000:])
    r = subprocess.run(['bash', '-c', 'ulimit -v 8000000; ulimit -c 0; exec timeout -s KILL %d %s' % (700 if cx.thorough else 120, os.path.join(cx.tmp, 'c10'))], capture_output=True, text=True)
    done = False
    for l in r.stdout.splitlines():
        if l.startswith('FAIL'):
            cx.bad(l[5:], kind='reader', call=l[5:])
        if l.startswith('EVALS'):
            cx.evals = int(l.split()[1])
            done = True
    cx.keys = set(range(min(cx.evals, 1 << 20)))
    cx.nontrivial = cx.evals
    if not done:
        cx.bad('the reader harness ended early (exit %d): a reader aborts or does not terminate' % r.returncode, kind='reader', call=(r.stdout + r.stderr)[-500:])
    cx.sample({'read_bytes': 'n=5 r=8', 'expected': 'payload of 5, cursor +8'})


def rustc(src, out, extra=()):
    return subprocess.run(['rustc', '--edition', '2021', '--cap-lints', 'allow', '--extern', 'fastxdr=' + engine_rlib(), '-L', 'dependency=' + os.path.join(TGT, 'debug', 'deps'), '-o', out, src] + list(extra),
                          capture_output=True, text=True)


def engine_rlib():
    import engine
    return engine.RLIB

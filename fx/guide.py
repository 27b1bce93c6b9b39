"""Looks for specifications whose module is not the text the contract gives (modtext.py), among thousands of varied random
ones, shrinks them and hands them to the compiled checks and the proofs.  Never a verdict of its own."""
import os, random, re, time
import corpus, modtext
from corpus import V, F
from model import *

ROOTS = ['a', 'b', 'k', 'z', 'id', 'x1', 'foo', 'bar', 'node', 'item', 'file', 'auth', 'list', 'entry', 'value', 'opaque_data', 'stringy', 'unsigned_t', 'integer', 'hyperx', 'floaty', 'doublet', 'boolean',
         'structure', 'unionx', 'enumx', 'switcher', 'caser', 'defaulted', 'voided', 'constant', 'typedefs', 'type_x', 'matchx', 'vec', 'option', 'boxed', 'str', 'Bytes_x', 'u8x', 'len_t', 'error', 'Ok_', 'some', 'none', 'selfish', 'true_x', 'False_x', 'r_abc', 'wire', 'size', 'pad', 'try_from_x', 'a_v', 'v_a', 'v_1', 'T1', 'Tt', 'U', 'zz9', 'long_name_for_a_thing_that_goes_on_and_on']
TAILS = ['', '', '', '_t', '_v', '_', 's', '1', '2', '_1', '__x', 'X', 'Res', '_ok', '3args', '0', '99', '_T']
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1]
VALS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 31, 32, 64, 99, 100, 127, 128, 255, 256, 1000, 10006, 32767, 32768, 65535, 65536, 70000, 1 << 20, 1 << 24, 1 << 30, (1 << 31) - 1]
WORDS = sorted(RUST_WORDS - {'self', 'Self', 'super', 'crate'})


def wild(seed, sid, size=None):
    """a specification of the supported subset: any names, counts and sizes"""
    r = random.Random('wild-%s' % seed)
    size = size or r.choice([2, 3, 4, 6, 8, 12, 16])
    used = set()

    def name(up=False):
        while True:
            n = r.choice(ROOTS) + r.choice(TAILS)
            if r.random() < .2:
                n += '_' + r.choice(ROOTS)
            if up and r.random() < .8:
                n = n.upper()
            if r.random() < .05:
                n = '_' + n
            if len(n) < 3 or n.lower() in ('true', 'false'):      # short names are those of the generated code
                n += r.choice(['_n', 'q7', 'Nm'])
            if n not in used and n.lower() not in {u.lower() for u in used} and n not in RUST_WORDS and n not in modtext.SPELL:
                used.add(n)
                return n
    fnames = lambda n: r.sample(ROOTS + WORDS + [a + b for a in ('f', 'arg', 'data', 'type') for b in ('0', '1', '_x')] + ['v', 'n', 'd', 'c', 'inner', 'data', 'out', 't', 'l', 'TRUE_f', 'len'], n)
    decls, consts, enums, names, types = [], [], [], [], []
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        n, v = name(True), r.choice(SIZES)
        decls.append(Const(n, r.choice([str(v), str(v), '0x%x' % v, '0x%X' % v, '0x%08x' % v] + consts[-1:])))
        consts.append(n)
    kc = lambda lo, hi: [c for c in consts if lo <= Spec('', decls).num(c) <= hi]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        n = name()
        vals = r.sample(VALS, r.choice([1, 2, 3, 4, 5, 8, 17, 30]))
        e = Enum(n, [(name(True), r.choice([str(v), str(v), hex(v), '0x%02X' % v])) for v in vals])
        decls.append(e)
        enums.append(e)
        names.append(n)
    later = [(name(), r.choice(['struct', 'struct', 'struct', 'union', 'union', 'typedef', 'typedef'])) for _ in range(size)]
    prim = lambda: (lambda k: P(k, r.randrange(len(PRIMS[k][1]))))(r.choice(['u32', 'i32', 'u64', 'i64', 'f32', 'f64', 'bool']))
    mx = lambda: V(r.choice([None, r.choice(SIZES), r.choice(SIZES)] + consts))
    fx = lambda hi: F(r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 32, 33] + kc(1, hi)))
    for i, (n, k) in enumerate(later):
        earlier = names + [m for m, _ in later[:i]]

        def field(fname, arm=False):
            z = r.random()
            if z < .25 or not earlier and z > .6:
                return Field(prim(), fname, None if arm or r.random() < .6 else fx(64))
            if z < .45 and not arm:
                return Field(P('opaque'), fname, r.choice([V(), mx(), mx(), fx(4096)]))
            if z < .6:
                return Field(P('string'), fname, None if arm else r.choice([None, V(), mx(), mx()]))
            if z < .72 and not arm:
                t = r.choice([m for m, kk in later if kk in ('struct', 'union')] + earlier)
                return Field(N(t), fname, None, True)
            if not earlier:
                return Field(prim(), fname)
            t = N(r.choice(earlier))
            return Field(t, fname) if arm else Field(t, fname, r.choice([None, None, V(), mx(), mx(), fx(8)]))
        if k == 'struct':
            decls.append(Struct(n, [field(f) for f in fnames(r.choice([1, 1, 2, 3, 4, 5, 8, 13, 25]))]))
        elif k == 'typedef':
            z = r.random()
            if z < .2 or not earlier and z > .6:
                decls.append(Typedef(prim(), n, None if r.random() < .5 else fx(64)))
            elif z < .45:
                decls.append(Typedef(P('opaque'), n, r.choice([None, V(), mx(), mx(), fx(4096)])))
            elif z < .6:
                decls.append(Typedef(P('string'), n, r.choice([None, V(), mx()])))
            else:
                decls.append(Typedef(N(r.choice(earlier)), n, r.choice([None, None, None, V(), mx(), fx(4)])))
        else:
            sp = Spec('', decls)
            al = [d for d in decls if isinstance(d, Typedef) and d.arr is None and (lambda b: b.kind in ('u32', 'i32', 'u64', 'i64', 'bool') or b.kind == 'named' and isinstance(sp.byname[b.name], Enum))(sp.resolve(N(d.name)))]
            sw = r.choice([P('u32', 0), P('i32', 0), prim()] + [N(e.name) for e in enums] * 2 + [N(d.name) for d in al])
            base = sp.resolve(sw)
            if base.kind not in ('u32', 'i32', 'u64', 'i64', 'bool', 'named'):
                base = sw = P('u32', r.randrange(4))
            if base.kind == 'bool':
                labs = r.choice([['TRUE', 'FALSE'], ['FALSE', 'TRUE'], ['TRUE'], ['FALSE']])[:]
            elif base.kind == 'named':
                labs = [m for m, _ in sp.byname[base.name].members]
                r.shuffle(labs)
                labs = labs[:r.choice([1, 2, 3, 40])]
            else:
                labs = [str(v) for v in r.sample(VALS, r.choice([1, 2, 3, 4, 6, 9, 16, 28]))]
                have = {int(l) for l in labs}
                for m in r.sample(consts, min(len(consts), 2)):
                    if sp.num(m) not in have and sp.num(m) < 1 << 31 and r.random() < .5:
                        labs.append(m)
                        have.add(sp.num(m))
                for e in enums[:1]:
                    for m, t in e.members:
                        if sp.num(t) not in have and r.random() < .15:
                            labs.append(m)
                            have.add(sp.num(t))
                r.shuffle(labs)
            groups, j = [], 0
            while labs:
                g = [labs.pop() for _ in range(min(len(labs), r.choice([1, 1, 1, 1, 2, 3, 5, 12])))]
                groups.append((g, None if r.random() < .35 else field('arm%d' % j, True)))
                j += 1
            z = r.random()
            if z < .25:
                groups.append((['default'], None))
            elif z < .45:
                groups.append((['default'], field('dflt', True)))
            elif z < .55 and groups:
                g, f = groups.pop()
                groups.append((g + ['default'], f))
            if z < .6:
                r.shuffle(groups)
            decls.append(Union(n, sw, r.choice(fnames(3) + ['d', 'status', 'k', 'type', 'v', 'x', 'c']), groups))
    r.shuffle(decls)
    return Spec(sid, decls)


def refs(d):
    if isinstance(d, Struct):
        ts, ns = [f.ty for f in d.fields], [f.arr[1] for f in d.fields if f.arr]
    elif isinstance(d, Union):
        ts, ns = [d.sw] + [f.ty for _, f in d.groups if f], [l for ls, f in d.groups for l in ls] + [f.arr[1] for _, f in d.groups if f and f.arr]
    elif isinstance(d, Typedef):
        ts, ns = [d.target], [d.arr[1]] if d.arr else []
    elif isinstance(d, Const):
        ts, ns = [], [d.text]
    else:
        ts, ns = [], []
    return {t.name for t in ts if t.kind == 'named'} | {n for n in ns if isinstance(n, str)}


def closed(decls):
    have = {d.name for d in decls} | {m for d in decls if isinstance(d, Enum) for m, _ in d.members}
    return all(n in have or n.isdigit() or n.startswith('0x') or n in ('default', 'TRUE', 'FALSE') for d in decls for n in refs(d))


def chunks(n):
    """index ranges to leave out, large ones first"""
    for k in sorted({n // 2, n // 4, 1} - {0}, reverse=True):
        for i in range(0, n, k):
            yield i, i + k


def smaller(decls):
    """one step smaller, larger steps first"""
    for i, j in chunks(len(decls)):
        yield decls[:i] + decls[j:]
    for i, d in enumerate(decls):
        put = lambda x: decls[:i] + [x] + decls[i + 1:]
        if isinstance(d, Struct):
            for a, b in chunks(len(d.fields)):
                fs = d.fields[:a] + d.fields[b:]
                if fs:
                    yield put(Struct(d.name, fs))
        if isinstance(d, Enum):
            for a, b in chunks(len(d.members)):
                ms = d.members[:a] + d.members[b:]
                if ms:
                    yield put(Enum(d.name, ms))
        if isinstance(d, Union):
            for a, b in chunks(len(d.groups)):
                gs = d.groups[:a] + d.groups[b:]
                if gs:
                    yield put(Union(d.name, d.sw, d.var, gs))
            for g, (ls, f) in enumerate(d.groups):
                if len(ls) > 1:
                    for a, b in chunks(len(ls)):
                        l = ls[:a] + ls[b:]
                        if l and (l[-1] == 'default') == (ls[-1] == 'default'):
                            yield put(Union(d.name, d.sw, d.var, d.groups[:g] + [(l, f)] + d.groups[g + 1:]))


DERIVE = {'gen': '#[derive(Debug, PartialEq)]', 'derive': '#[derive(Debug, Clone, PartialEq)]'}


class Guide:
    def __init__(self, exe, tmp, budget):
        import engine
        self.g, self.end = engine.Gen(exe, tmp), time.time() + budget
        st, m, t = self.g.run('const X = 1;')
        self.pre = t[:t.rindex('pub const X')] if st == 'ok' and 'pub const X' in t else None
        self.tried = self.differ = 0
        self.mode = 'gen'

    def text(self, sp):
        st, m, t = self.g.run(sp.render(), self.mode)
        return t if st == 'ok' else None

    def diff(self, sp):
        """None: the text is the contract's; else what is different, names and numbers left out"""
        self.tried += 1
        t = self.text(sp)
        w = self.pre + modtext.Mod(sp).text(DERIVE[self.mode])
        if t == w:
            return None
        if t is None:
            return ('rejected',)
        a, b = t[len(self.pre):].split('\n') if t.startswith(self.pre) else t.split('\n'), w[len(self.pre):].split('\n')
        sa, sb = set(a), set(b)
        form = lambda l: re.sub(r'\d+', '0', re.sub(r'\b(?!v\b|read_|wire_|pad_|Self\b|Ok\b|Some\b|None\b|T\b|Vec\b|Option\b|Box\b|inner\b)[A-Za-z_]\w*', 'i', l))
        s = tuple(sorted({'+' + form(l) for l in a if l not in sb} | {'-' + form(l) for l in b if l not in sa}))[:6]
        return s or ('order',)

    def shrink(self, sp, end):
        cur = sp.decls
        go = True
        while go:
            go = False
            for c in smaller(cur):
                if time.time() > end:
                    break
                if not c or not closed(c):
                    continue
                try:
                    if self.diff(Spec(sp.id, c)):
                        cur, go = c, True
                        break
                except (KeyError, ValueError):
                    pass
        return Spec(sp.id, cur)

    def search(self, seed, n, keep):
        """specifications worth a closer look by what differs"""
        found, first, i = {}, None, 0
        while self.pre is not None and i < n and time.time() < self.end:
            sp = wild('%s-%d' % (seed, i), 'w%d' % i)
            self.mode = 'derive' if i % 4 == 3 else 'gen'
            i += 1
            d = self.diff(sp)
            if d:
                self.differ += 1
                if first is None:
                    first = time.time()
                    self.end = min(self.end, first + 8)
                if d not in found or len(sp.decls) < len(found[d].decls):
                    found[d] = sp
                    sp.mode = self.mode
        out, t = {}, time.time()
        todo = sorted(found.values(), key=lambda x: len(x.render()))[:2 * keep]
        for sp in todo:
            if len(out) >= keep or time.time() > t + 20:
                break
            self.mode = sp.mode
            x = self.shrink(sp, time.time() + 4)
            e = self.diff(x)
            if e and (e not in out or len(x.render()) < len(out[e].render())):
                out[e] = x
        self.g.proc.close()
        return out


def work(a):
    exe, tmp, budget, seed, n, keep = a
    os.makedirs(tmp, exist_ok=True)
    G = Guide(exe, tmp, budget)
    r = G.search(seed, n, keep)
    return G.tried, G.differ, [(k, v.decls) for k, v in r.items()]


CACHE = {}


def specs(exe, tmp, seed, n, budget=25, keep=8):
    """(specifications whose text is not the contract's, how many were tried, how many differed)"""
    k = (seed, n)
    if k not in CACHE:
        import concurrent.futures as cf
        nw = 6
        with cf.ProcessPoolExecutor(nw) as ex:
            rs = list(ex.map(work, [(exe, os.path.join(tmp, 'g%d' % i), budget, '%s-%d' % (seed, i), n // nw, keep) for i in range(nw)]))
        best = {}
        for _, _, f in rs:
            for sig, decls in f:
                x = Spec('g', decls)
                if sig not in best or len(x.render()) < len(best[sig].render()):
                    best[sig] = x
        out = sorted(best.values(), key=lambda x: len(x.render()))[:keep]
        for i, x in enumerate(out):
            x.id = 'guide%d' % i
        CACHE[k] = (out, sum(r[0] for r in rs), sum(r[1] for r in rs))
    return CACHE[k]

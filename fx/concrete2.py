"""Bounded companions for the properties about the generator itself."""
from concrete import *


class Items:
    def __init__(self):
        r = subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', 'fxitems'], cwd=os.path.join(ROOT, 'rs'), env=env(), capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build fxitems: ' + r.stderr[-2000:])
        self.p = Proc(os.path.join(TGT, 'debug', 'fxitems'))

    def get(self, path):
        m = self.p.ask(path)
        try:
            return json.loads(m)
        except ValueError:
            return {'error': m}

    def text(self, t, tmp):
        p = os.path.join(tmp, 'items.rs')
        open(p, 'w').write(t)
        return self.get(p)


def ws(s):
    return re.sub(r'\s+', '', s)


# ---- C07 ----------------------------------------------------------------------------------------------
def shape(sp, js):
    """documented shape of every declaration against the parsed output; yields messages"""
    if 'error' in js:
        yield 'output is not Rust: %s' % js['error']
        return
    if len(js['mods']) != 1 or js['mods'][0]['name'] != 'xdr' or not js['mods'][0]['pub']:
        yield 'output is not one public module xdr'
        return
    its = js['mods'][0]['items']
    g = sp.generics()
    strs = {}
    for i in its:
        if i['k'] in ('struct', 'enum') and i['name'] in sp.byname:
            if i['name'] in strs:
                yield 'type %s declared twice' % i['name']
            strs[i['name']] = i
    T = lambda ty: ws(rustgen.rty(sp, ty, g, 'T')).replace('xdr::', '')

    def arr(ty, a):
        t = T(ty)
        if a is None or ty.kind in ('opaque', 'string'):
            return {t}
        if a[0] == 'fixed':
            return {'[%s;%s]' % (t, x) for x in (str(a[1]), '%sasusize' % a[1], str(sp.num(a[1])), '%dusize' % sp.num(a[1]))}
        return {'Vec<%s>' % t}

    def fty(f):
        return {'Option<Box<%s>>' % T(f.ty)} if f.opt else arr(f.ty, f.arr)
    for d in sp.types():
        i = strs.get(d.name)
        if i is None:
            yield 'no type %s' % d.name
            continue
        if not i['pub']:
            yield 'type %s is not public' % d.name
        if isinstance(d, Struct):
            if i['k'] != 'struct' or i['tuple'] and d.fields:
                yield '%s is not a struct' % d.name
                continue
            got = [(n, ws(t)) for n, t, v in i['fields']]
            want = [(safe(f.name), fty(f)) for f in d.fields]
            if [n for n, _ in got] != [n for n, _ in want]:
                yield 'fields of %s are %s, declared %s' % (d.name, [n for n, _ in got], [n for n, _ in want])
            if not all(v for _, _, v in i['fields']):
                yield 'a field of %s is not public' % d.name
        elif isinstance(d, Typedef):
            if i['k'] != 'struct' or not i['tuple'] or len(i['fields']) != 1 or not i['fields'][0][2]:
                yield '%s is not a public tuple newtype' % d.name
        elif i['k'] != 'enum':
            yield '%s is not an enum' % d.name
        else:
            got = [v[0] for v in i['variants']]
            if isinstance(d, Enum):
                want = [m for m, _ in d.members]
            else:
                m, df = sp.union_map(d)
                want = [variant(l) for ls, f in d.groups for l in ls]
            if sorted(got) != sorted(want):
                yield 'variants of %s are %s, declared %s' % (d.name, got, want)


def c07(cx):
    cx.rule = 'specifications generated with the default and a custom derive line, compiled with an accessor crate that names every field and variant with its type and asserts the three impls; output parsed for shape and order'
    b = cx.bins('fxgen')
    it = Items()
    n = 150 if cx.thorough else 40
    for derive in (False, True):
        specs = cx.specs(n, 14)
        c = Compiled(specs, cx.tmp, b['fxgen'], derive=derive)
        for sid, why in c.failures.items():
            sp = [s for s in specs if s.id == sid][0]
            cx.bad('%s: %s' % (sid, why), kind='compile', spec=sid, spec_text=sp.render(), derive=derive)
        for sp in specs:
            cx.count((sp.id, derive), len(sp.types()))
            p = c.gen_text.get(sp.id)
            if p:
                js = it.get(p)
                for m in shape(sp, js):
                    cx.bad('%s: %s' % (sp.id, m), kind='shape', spec=sp.id, spec_text=sp.render())
                if 'mods' in js and derive:
                    for i in js['mods'][0]['items']:
                        if i['k'] in ('struct', 'enum') and i['name'] in sp.byname and not any('Clone' in a for a in i['attrs']):
                            cx.bad('%s: custom derive line missing on %s' % (sp.id, i['name']), kind='shape', spec=sp.id, spec_text=sp.render())
        cx.sample({'spec': specs[3].id, 'derive': 'custom' if derive else 'default', 'types': [d.name for d in specs[3].types()][:8]})
        programs(cx, c)
    # recorded findings
    g = Gen(b['fxgen'], cx.tmp)
    for fid, text, what in KNOWN7:
        st, msg, out = g.run(text)
        if st == 'ok':
            p = os.path.join(cx.tmp, 'k.rs')
            open(p, 'w').write('#![allow(warnings)]\n' + out + '\nfn main() {}')
            if rustc(p, os.path.join(cx.tmp, 'k')).returncode:
                cx.knownf(fid, what)
    g.proc.close()
    it.p.close()


KNOWN7 = [
    ('C07-enum-const-value', 'const A = 1; enum e { X = A };', 'an enum member whose value names a constant does not compile (`X = A` with `const A: u32`), e.g. `const A = 1; enum e { X = A };`'),
    ('C07-reserved-label', 'enum e { type = 0, b = 1 }; union u switch (e d) { case type: u32 x; case b: void; };', 'enum members and case labels that are Rust reserved words are emitted raw, e.g. `enum e { type = 0 }`'),
    ('C07-escape-collision', 'struct s { int type; int type_v; };', 'the escaped name of a reserved word can be the name of another field, e.g. `int type; int type_v;` in one struct'),
    ('C07-name-collision', 'typedef opaque v<>; struct s { v x; };', 'a typedef or constant named like an identifier of the generated code (v, n, b, data, out, t, ...) collides with it, e.g. `typedef opaque v<>;`'),
]


# ---- C11 ------------------------------------------------------------------------------------------------
def itemset(js):
    if 'error' in js:
        return js['error']
    return sorted((m['name'] or '', i['t']) for m in js['mods'] for i in m.get('items', [{'t': m.get('t', '')}]))


class Always:
    """stands in for the random source of model.layout: puts the same filler between all tokens"""
    def __init__(self, form):
        self.form = form


def c11(cx):
    cx.rule = 'each specification generated in fresh processes, repeatedly and interleaved in one process, with random layout, and under permutations of its declarations; outputs compared byte for byte (same text) or as item sets'
    b = cx.bins('fxgen')
    it = Items()
    r = random.Random('c11-%s' % cx.seed)
    specs = cx.specs(150 if cx.thorough else 40, 16)
    nproc = 12 if cx.thorough else 5
    first = {}
    for k in range(nproc):
        g = Gen(b['fxgen'], cx.tmp)
        for sp in specs if k % 2 == 0 else reversed(specs):
            st, msg, out = g.run(sp.render(), 'multi' if k == 0 else 'gen')
            cx.count((sp.id, 'proc', k))
            if st == 'err' and 'DIFFERS' in msg:
                cx.bad('%s: %s' % (sp.id, msg), kind='gen', spec=sp.id, spec_text=sp.render())
                continue
            x = (st, out if st == 'ok' else '')
            if first.setdefault(sp.id, x) != x:
                a, bb = first[sp.id], x
                cx.bad('%s: another process generates something else: %s' % (sp.id, diff(a[1], bb[1])), kind='gen', spec=sp.id, spec_text=sp.render())
        g.proc.close()
    g = Gen(b['fxgen'], cx.tmp)
    # every comment and white space form, between any two tokens of one specification
    sp0 = next((sp for sp in specs if first.get(sp.id, ('',))[0] == 'ok' and len(sp.decls) > 2), None)
    for form in COM + [w for w in WS if w.strip(' ') or w] + [a + b2 for a in COM[:14] for b2 in COM[11:20]] if sp0 else []:
        text = sp0.render(None, Always(form))
        st, msg, o2 = g.run(text)
        cx.count((sp0.id, 'form', form))
        if st != 'ok' or o2 != first[sp0.id][1]:
            cx.bad('%s: with %r between tokens generation gives %s %s' % (sp0.id, form, st, msg or diff(first[sp0.id][1], o2 or '')), kind='gen', spec=sp0.id, spec_text=text, other=sp0.render())
    for sp in specs:
        st, out = first.get(sp.id, ('', None))
        if st != 'ok':
            continue
        base = itemset(it.text(out, cx.tmp))
        perms = [list(sp.decls), list(reversed(sp.decls))]
        for _ in range(14 if cx.thorough else 4):
            p = list(sp.decls)
            r.shuffle(p)
            perms.append(p)
        for k, p in enumerate(perms):
            for lay in (None, r) if k else (r, r):
                text = sp.render(p, lay)
                st, msg, o2 = g.run(text)
                cx.count((sp.id, text))
                what = 'layout' if k == 0 else 'declaration order'
                if st != 'ok':
                    cx.bad('%s: with another %s generation gives %s %s' % (sp.id, what, st, msg), kind='gen', spec=sp.id, spec_text=text, other=sp.render())
                elif o2 != out:
                    s2 = itemset(it.text(o2, cx.tmp))
                    if s2 != base:
                        cx.bad('%s: another %s changes the items: %s' % (sp.id, what, diff(out, o2)), kind='gen', spec=sp.id, spec_text=text, other=sp.render())
    cx.sample({'spec': specs[0].id, 'layout': specs[0].render(None, random.Random(1))[:300]})
    g.proc.close()
    it.p.close()
    cx.programs = len(specs)


def diff(a, b):
    a, b = (a or '').splitlines(), (b or '').splitlines()
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return 'line %d: %r / %r' % (i + 1, x, y)
    return 'same'


# ---- C12 ------------------------------------------------------------------------------------------------
def ast_expect(sp):
    def ty(t):
        if t.kind != 'named':
            return '!' + t.kind
        for k, (_, names) in PRIMS.items():
            if t.name in names:
                return '!' + k
        return t.name

    def val(t, a, name=None):
        if a is None:
            return [ty(t), None]
        return [ty(t), [a[0], a[1]]]
    out = {}
    for d in sp.decls:
        if isinstance(d, Const):
            continue
        if isinstance(d, Struct):
            out[d.name] = {'k': 'struct', 'name': d.name, 'fields': [{'name': f.name, 'value': val(f.ty, f.arr), 'opt': f.opt} for f in d.fields]}
        elif isinstance(d, Enum):
            out[d.name] = {'k': 'enum', 'name': d.name, 'members': [[m, sp.num(t)] for m, t in d.members]}
        elif isinstance(d, Typedef):
            a = d.arr
            if d.target.kind in ('opaque', 'string') and a == ('var', None):
                a = None
            nm = ty(N(d.name))
            out[d.name] = {'k': 'typedef', 'name': nm, 'target': ty(d.target), 'alias': [nm, [a[0], a[1]] if a else None]}
        else:
            arms, void, dflt = [], [], None
            for ls, f in d.groups:
                if f is None:
                    void += ls
                elif ls[-1] == 'default':
                    dflt = {'labels': ls, 'name': f.name, 'value': val(f.ty, f.arr)}
                else:
                    arms.append({'labels': ls, 'name': f.name, 'value': val(f.ty, f.arr)})
            out[d.name] = {'k': 'union', 'name': d.name, 'var': d.var, 'sw': ty(d.sw), 'cases': arms, 'void': void, 'default': dflt}
    return out


def numish(sp, x):
    if isinstance(x, str) and x in sp.consts:
        return sp.num(x)
    if isinstance(x, str) and re.fullmatch(r'0x[0-9a-fA-F]+|-?\d+', x):
        return int(x, 16) if x.startswith('0x') else int(x)
    return x


def ast_norm(sp, t):
    """representation differences that declare the same thing: array sizes and enum values by number, an unbounded
    string/opaque with or without <>, the order of arms and of the labels of one arm (a set)"""
    t = json.loads(json.dumps(t))

    def val(v):
        # a literal size is a number (ArraySize::Known), a constant's name may be kept or resolved
        if v[1] is not None and isinstance(v[1][1], str) and not re.fullmatch(r'[0-9]+', v[1][1]):
            v[1][1] = numish(sp, v[1][1])
        if v[0] in ('!string',) and v[1] == ['var', None]:
            v[1] = None
    if t['k'] == 'struct':
        for f in t['fields']:
            val(f['value'])
    elif t['k'] == 'enum':
        for m in t['members']:
            # a decimal value is a number, too
            if not (isinstance(m[1], str) and re.fullmatch(r'-?[0-9]+', m[1]) and abs(int(m[1])) < 1 << 31):
                m[1] = numish(sp, m[1])
    elif t['k'] == 'typedef':
        if t['target'] in ('!string', '!opaque') and t['alias'][1] == ['var', None]:
            t['alias'][1] = None
        val(t['alias'])
    else:
        for c in t['cases'] + ([t['default']] if t['default'] else []):
            val(c['value'])
            c['labels'].sort()
        t['cases'].sort(key=str)
        t['void'].sort()
    return t


def c12_compare(sp, dump):
    want = ast_expect(sp)
    got = dump['types']
    if dump['bad']:
        yield 'retrieval by name disagrees with iteration: %s' % dump['bad']
    for n in sorted(set(want) | set(got)):
        if n not in got:
            # an alias of a primitive to its own name may be keyed by the primitive
            yield '%s is declared but not in the AST' % n
        elif n not in want:
            yield '%s is in the AST but not declared' % n
        else:
            a, b = ast_norm(sp, got[n]), ast_norm(sp, want[n])
            if a != b:
                for k in b:
                    if a.get(k) != b[k]:
                        yield '%s: %s is %s, declared %s' % (n, k, json.dumps(a.get(k))[:300], json.dumps(b[k])[:300])
                        break
                else:
                    yield '%s: %s' % (n, json.dumps(a)[:300])
    wc = {}
    for d in sp.decls:
        if isinstance(d, Const):
            wc[d.name] = ['const', sp.num(d.text)]
        if isinstance(d, Enum):
            for m, _ in d.members:
                wc[m] = ['enum', d.name, m]
    gc = {k: ['const', numish(sp, v[1])] if v[0] == 'const' else v for k, v in dump['consts'].items()}
    for n in sorted(set(wc) | set(gc)):
        if wc.get(n) != gc.get(n):
            yield 'constant %s is %s, declared %s' % (n, gc.get(n), wc.get(n))


def ast_specs(cx):
    """specifications for the AST alone: also forms the generator need not support"""
    r = random.Random('ast-%s' % cx.seed)
    import guide
    out = [s for s in cx.specs(250 if cx.thorough else 80, 14) if s.id != 'selfdef'] + [guide.wild('ast-%s-%d' % (cx.seed, i), 'wild%d' % i) for i in range(3000 if cx.thorough else 400)]
    b = lambda k, n='x', arr=None: Field(P(k), n, arr)
    kws = ['constant', 'structure', 'enumeration', 'typedefs', 'unions', 'voided', 'defaults', 'cases', 'opaque_t', 'string_t', 'unsignedx', 'integer', 'hyper2', 'booly', 'int_', 'switcher', 'floaty', 'doubled', 'intx']
    out.append(Spec('kw', [Struct(k, [Field(N('intx'), k + '_f'), Field(P('u32'), k), Field(N('intx'), k + '2', V(3))]) for k in kws if k != 'intx'] + [Typedef(P('i32'), 'intx'),
               Const('constMAX', 3), Enum('enumx', [('enumA', 1), ('caseB', '0xff'), ('voidC', '0x7FFFFFFF'), ('defaultD', 2)]),
               Union('unionx', N('enumx'), 'switchv', [(['enumA', 'caseB'], Field(N('intx'), 'voidy')), (['voidC'], None), (['defaultD'], Field(N('structure'), 'defaultx'))])]))
    out.append(Spec('forms', [Const('C', 3), Const('H', '0xAbC'), Const('Z', '0x0'), Const('M', 4294967295), Enum('e', [('A', 0), ('B', 10), ('F', '0xaF')]),
               Struct('s', [Field(P(k, i), 'f_%s_%d_%d' % (k, i, j), a) for k in PRIMS for i in range(len(PRIMS[k][1])) for j, a in enumerate((None, F(2), F('C'), V(), V(5), V('C')))] +
                           [Field(N('e'), 'o%d' % i, a, o) for i, (a, o) in enumerate(((None, True), (F(1), False), (V(), False), (V('H'), False)))] +
                           [Field(P(k), 'op_' + k, None, True) for k in PRIMS if k not in ('opaque',)]),
               *[Typedef(P(k), 'td%d_%s' % (j, k), a) for k in PRIMS for j, a in enumerate((None, F(2), F('C'), V(), V(5), V('C')))],
               *[Typedef(N('s'), 'tds%d' % j, a) for j, a in enumerate((None, F(2), F('C'), V(), V(5), V('C')))],
               Union('u', P('i32'), 'd', [(['0', '1', '2', 'A', 'C'], b('u32')), (['10', '11'], None), (['12'], b('string', 's')), (['13'], b('opaque', 'o')), (['14', '15', 'default'], Field(N('s'), 'dd'))]),
               Union('u2', N('e'), 'd', [(['A'], None), (['B', 'F', 'default'], None)])]))
    return out


def c12(cx):
    cx.rule = 'declaration models rendered with random layout, comments, hex and decimal, every primitive spelling and declarator form, in random order; the AST dumped through the public API compared with the model'
    b = cx.bins('fxast')
    pr = Proc(b['fxast'])
    r = random.Random('c12-%s' % cx.seed)
    n = 0
    for sp in ast_specs(cx):
        for k in range(10 if cx.thorough else 4):
            decls = list(sp.decls)
            if k:
                r.shuffle(decls)
            text = sp.render(decls, r if k != 1 else None)
            p = os.path.join(cx.tmp, 'a.x')
            open(p, 'w', newline='').write(text)
            m = pr.ask(p)
            cx.count((sp.id, text), len(sp.decls))
            if not m.startswith('ok '):
                cx.bad('%s: %s' % (sp.id, m[:300]), kind='ast', spec=sp.id, spec_text=text)
                continue
            for w in c12_compare(sp, json.loads(m[3:])):
                cx.bad('%s: %s' % (sp.id, w), kind='ast', spec=sp.id, spec_text=text)
        n += 1
    cx.programs = n
    cx.sample({'spec': sp.id, 'text': text[:300]})
    pr.close()


# ---- C13 ------------------------------------------------------------------------------------------------
def graph_spec(sid, kinds, edges, leaves, order=None):
    """kinds: s/u/t per node; edges: list of (i, j, form); leaves: nodes that hold opaque data directly"""
    decls = []
    for i, k in enumerate(kinds):
        es = [(j, f) for a, j, f in edges if a == i]
        nm = 'n%d' % i
        if k == 't':
            if i in leaves:
                decls.append(Typedef(P('opaque'), nm, V()))
            elif es:
                decls.append(Typedef(N('n%d' % es[0][0]), nm, {'p': None, 'v': V(), 'f': F(2), 'o': None, 'd': V(3)}[es[0][1]]))
            else:
                decls.append(Typedef(P('u32'), nm))
        elif k == 's':
            fs = [Field(P('u32'), 'a')]
            for x, (j, f) in enumerate(es):
                fs.append(Field(N('n%d' % j), 'e%d' % x, {'v': V(), 'f': F(2), 'd': V(3)}.get(f), f == 'o'))
            if i in leaves:
                fs.insert(len(fs) if (i + len(es)) % 2 else 0, Field(P('opaque'), 'raw', [V(), V(4), F(3)][(i + len(es)) % 3]))
            decls.append(Struct(nm, fs))
        else:
            gs = [(['0'], None)]
            for x, (j, f) in enumerate(es):
                if f == 'd' and x == len(es) - 1 and i not in leaves:
                    gs.append((['default'], Field(N('n%d' % j), 'e')))
                elif f == 'v':
                    gs.append(([str(2 * x + 1), str(2 * x + 2)], Field(N('n%d' % j), 'e')))
                else:
                    gs.append(([str(2 * x + 1)], Field(N('n%d' % j), 'e')))
            if i in leaves:
                gs.append((['99'] if i % 2 else ['default'], Field(P('opaque'), 'raw')))
            decls.append(Union(nm, P('u32'), 'd', gs))
    sp = Spec(sid, decls)
    sp.order = [decls[i] for i in order] if order else decls
    return sp


def graphs(cx, r):
    """exhaustive over small graphs, then random large ones"""
    n = 0
    for k in (1, 2):
        pairs = [(i, j) for i in range(k) for j in range(k)]
        for kinds in itertools.product('sut', repeat=k):
            for es in itertools.product((None, 'p', 'v', 'o', 'd'), repeat=len(pairs)):
                edges = [(i, j, f) for (i, j), f in zip(pairs, es) if f]
                for lv in itertools.product((0, 1), repeat=k):
                    leaves = {i for i in range(k) if lv[i]}
                    yield graph_spec('g', kinds, edges, leaves)
                    if k == 2:
                        yield graph_spec('g', kinds, edges, leaves, [1, 0])
    # k = 3, edge present or not, all orders (sampled unless thorough)
    pairs = [(i, j) for i in range(3) for j in range(3)]
    for kinds in itertools.product('sut', repeat=3):
        for bits in range(1 << 9):
            if not cx.thorough and r.random() > .12:
                continue
            edges = [(i, j, r.choice('pvofd')) for b, (i, j) in enumerate(pairs) if bits >> b & 1]
            for lv in range(4):
                leaves = {0: set(), 1: {0}, 2: {1}, 3: {2}}[lv]
                o = [0, 1, 2]
                r.shuffle(o)
                yield graph_spec('g', kinds, edges, leaves, o)
    for _ in range(20000 if cx.thorough else 1200):
        k = r.choice([4, 4, 5, 8, 20, 40])
        kinds = [r.choice('sut') for _ in range(k)]
        m = r.choice([k // 2, k, 2 * k])
        edges = [(r.randrange(k), r.randrange(k), r.choice('pvofd')) for _ in range(m)]
        leaves = set(r.sample(range(k), r.choice([0, 1, 1, 2])))
        o = list(range(k))
        r.shuffle(o)
        yield graph_spec('g', kinds, edges, leaves, o)
    for k in (12, 15, 24, 40):   # chains, in every direction of declaration
        for kd in ('s', 'u', 't', 'sut', 'ts'):
            kinds = [kd[i % len(kd)] for i in range(k)]
            for leaf in (set(), {k - 1}, {k // 2}):
                edges = [(i, i + 1, r.choice('pvofd')) for i in range(k - 1)]
                for o in (list(range(k)), list(reversed(range(k))), r.sample(range(k), k)):
                    yield graph_spec('g', kinds, edges, leaf, o)
                yield graph_spec('g', kinds, edges + [(k - 1, 0, 'o')], leaf, list(range(k)))


def emitted_generics(js, names):
    """per type: (declaration generic, impl targets); from the generated text"""
    decl, impls = {}, {}
    for m in js.get('mods', []):
        for i in m.get('items', []):
            if i['k'] in ('struct', 'enum') and i['name'] in names:
                decl[i['name']] = ws(i['gen']) not in ('', '<>')
            elif i['k'] == 'impl':
                t = ws(i['self'])
                n = t.split('<')[0]
                if n in names:
                    impls.setdefault(n, set()).add((ws(i['trait'] or '').split('<')[0], '<' in t))
    return decl, impls


def c13(cx):
    cx.rule = 'dependency graphs: all of 1-2 declarations (every kind, edge form, leaf placement, both orders), sampled 3, random up to 40, chains up to 40; Ast::generics() against graph search; emitted parameters of declarations and impls on a sample'
    b = cx.bins('fxast', 'fxgen')
    pr = Proc(b['fxast'])
    it = Items()
    g = Gen(b['fxgen'], cx.tmp)
    r = random.Random('c13-%s' % cx.seed)
    p = os.path.join(cx.tmp, 'g.x')
    k = 0
    import guide
    for sp in itertools.chain(cx.specs(40, 16), (guide.wild('gen-%s-%d' % (cx.seed, i), 'wild%d' % i) for i in range(300)), graphs(cx, r)):
        text = sp.render(getattr(sp, 'order', None))
        open(p, 'w').write(text)
        m = pr.ask(p)
        want = sp.generics()
        k += 1
        cx.count(text, 1)
        if not m.startswith('ok '):
            cx.bad('%s: %s' % (sp.id, m[:200]), kind='ast', spec=sp.id, spec_text=text)
            continue
        d = json.loads(m[3:])
        got = {n for n in d['generics'] if n in sp.byname}
        if got != want or d['bad']:
            cx.bad('generics() is %s; opaque data is reachable from %s' % (sorted(got), sorted(want)), kind='generics', spec=sp.id, spec_text=text)
        elif set(d['generics']) - want:
            cx.bad('generics() contains undeclared names %s' % sorted(set(d['generics']) - want), kind='generics', spec=sp.id, spec_text=text)
        if (sp.id != 'g' or r.random() < (.5 if cx.thorough else .06)) and g is not None:
            st, msg, out = g.run(text)
            if st == 'ok':
                types = [x.name for x in sp.types()]
                decl, impls = emitted_generics(it.text(out, cx.tmp), set(types))
                cx.count(('emit', text), len(types))
                for n in types:
                    if n in decl and decl[n] != (n in want):
                        cx.bad('%s is emitted %s the container parameter' % (n, 'with' if decl[n] else 'without'), kind='generics', spec=sp.id, spec_text=text)
                    for tr, gen in impls.get(n, ()):
                        if gen != (n in want):
                            cx.bad('impl %s for %s %s the container parameter' % (tr, n, 'with' if gen else 'without'), kind='generics', spec=sp.id, spec_text=text)
    cx.programs = k
    cx.sample({'text': text[:300], 'generics': sorted(want)})
    pr.close()
    g.proc.close()
    it.p.close()


# ---- C14 -------------------------------------------------------------------------------------------------
OUTSIDE = [
    '', ' ', '\n', '// only a comment\n', '/* c */', 'struct a { };', 'struct a {};', 'enum e { };', 'union u switch (u32 x) { };', 'union u switch (u32 x) { default: void; };',
    'union u switch (u32 x) { case 1: u32 y<>; };', 'union u switch (u32 x) { case 1: u32 y[2]; };', 'union u switch (u32 x) { case 1: opaque y<5>; };', 'union u switch (u32 x) { case 1: opaque y[5]; };',
    'union u switch (u32 x) { case 1: string y<>; };', 'union u switch (u32 x) { case 1: string y<4>; };', 'union u switch (u32 x) { case 1: u32 *y; };', 'union u switch (u32 x) { case 1: case 1: u32 y; };',
    'union u switch (u32 x) { case 1: u32 y; case 1: u64 z; };', 'union u switch (string x) { case 1: u32 y; };', 'union u switch (opaque x) { case 1: u32 y; };', 'union u switch (float x) { case 1: u32 y; };',
    'union u switch (double x) { case 1: u32 y; };', 'union u switch (nosuch x) { case 1: u32 y; };', 'union u switch (s x) { case 1: u32 y; }; struct s { u32 a; };', 'union u switch (u x) { case 1: u32 y; };',
    'union u switch (bool x) { case 2: u32 y; };', 'union u switch (bool x) { case true: u32 y; case false: void; };', 'union u switch (u32 x) { case TRUE: u32 y; case FALSE: void; };', 'union u switch (u32 x) { case NOSUCH: u32 y; };',
    'union u switch (u32 x) { case 1: case default: u32 y; };', 'union u switch (u32 x) { default: u32 y; default: u64 z; };', 'union u switch (u32 x) { case 99999999999999999999: u32 y; };',
    'union u switch (u32 x) { case -1: u32 y; };', 'union u switch (int x) { case -1: u32 y; };', 'union u switch (u32 x) { case 1: void; case 1: void; };', 'union u switch (u32 x) { case 1: nosuch y; };',
    'struct s { string a[5]; };', 'struct s { string a[N]; }; const N = 3;', 'typedef string s[4];', 'typedef string s[N];', 'struct s { string *a; };', 'struct s { opaque *a; };', 'struct s { opaque *a<>; };', 'struct s { u32 *a; };', 'struct s { u32 *a<>; };', 'struct s { u32 *a[2]; };',
    'struct s { u32 a<>; };', 'struct s { u32 a<3>; };', 'struct s { nosuch a; };', 'struct s { nosuch a[N]; };', 'struct s { u32 a[NOSUCH]; };', 'struct s { opaque a[NOSUCH]; };', 'struct s { opaque a<NOSUCH>; };', 'struct s { string a<NOSUCH>; };', 'struct s { nosuch a<NOSUCH>; };',
    'struct s { u32 a[0]; };', 'struct s { opaque a[0]; };', 'struct s { opaque a<0>; };', 'struct s { u32 a[0x2]; };', 'struct s { opaque a<0x2>; };', 'struct s { u32 a[99999999999999999999]; };', 'struct s { opaque a<99999999999999999999>; };', 'struct s { opaque a<4294967296>; };', 'struct s { opaque a<4294967295>; };',
    'struct s { u32 a[E]; }; enum x { E = 3 };', 'struct s { opaque a<E>; }; enum x { E = 3 };', 'struct s { u32 a[e]; }; enum e { E = 3 };', 'struct s { u32 a[s]; };', 'struct s { u32 a; u32 a; };', 'struct s { s a; };', 'struct s { s a<>; };', 'struct s { s a[2]; };', 'struct s { t a; }; struct t { s a; };',
    'const A = 1; const A = 2;', 'const A = 99999999999999999999;', 'const A = 0xfffffffff;', 'const A = 0x;', 'const A = 0xg;', 'const A = A;', 'const A = B; const B = A; struct s { u32 x[A]; };', 'const A = B;', 'const A = E; enum e { E = 1 };', 'const A = 0xZZ;', 'const A = -1;', 'const A = 0X10;', 'const A = 010;', 'const A = 1.5;', 'const type = 1;', 'const A = foo;',
    'enum e { A = 1, A = 2 };', 'enum e { A = 1 }; enum f { A = 1 };', 'enum e { A = 1 }; const A = 3;', 'enum e { A = 99999999999999999999 };', 'enum e { A = 4294967295 };', 'enum e { A = 2147483648 };', 'enum e { A = 0xffffffff };', 'enum e { A = 0xfffffffff };', 'enum e { A = 0x };', 'enum e { A = 0xz };', 'enum e { A = 0x80000000 };', 'enum e { A = -1 };', 'enum e { A = B };', 'enum e { A = A };', 'enum e { A };', 'enum e { A, B = 2 };', 'enum e { A = 1, };',
    'enum e { A = 1, B = 1 };', 'struct s { u32 a; }; struct s { u64 b; };', 'struct s { u32 a; }; enum s { A = 1 };', 'typedef u32 a; typedef u64 a;', 'typedef a a;', 'typedef a b; typedef b a;', 'typedef a b; typedef b a; struct s { a x; b y; };', 'typedef a b; typedef b c; typedef c a; union u switch (a x) { case 1: void; };', 'typedef nosuch a;', 'typedef nosuch a; struct s { a x; };', 'typedef u32 u32;', 'typedef u64 u32;', 'typedef int int;', 'typedef opaque opaque;', 'typedef string string<>;', 'typedef u32 string;', 'typedef opaque opaque<>;', 'typedef u32 a<>;', 'typedef u32 a<5>;', 'typedef u32 a[5];', 'typedef u32 *a;', 'typedef a *b;', 'typedef opaque a[N];', 'typedef opaque a<N>;', 'typedef string a<N>;', 'typedef a b[N]; struct a { u32 x; };', 'typedef u32 a[0];',
    'struct u32 { u32 a; };', 'struct int { int a; };', 'struct string { string a; };', 'struct opaque { opaque a; };', 'struct bool { u32 a; };', 'enum u32 { A = 1 };', 'enum bool { FALSE = 0, TRUE = 1 };', 'enum int { A = 1 };', 'union u32 switch (u32 x) { case 1: u32 y; };', 'union opaque switch (u32 x) { case 1: u32 y; };', 'union string switch (int x) { case 1: u32 y; };', 'const u32 = 1;', 'const string = 1;', 'struct s { u32 u32; };', 'struct s { u32 int; string string; opaque opaque<>; };', 'struct s { u32 bool[2]; u32 hyper<>; };', 'union u switch (int int) { case 1: u32 u32; };', 'union u switch (u32 string) { case 1: u32 opaque; };', 'enum e { u32 = 1, int = 2, string = 3, opaque = 4 };', 'union u switch (u32 x) { case u32: u32 y; };', 'union u switch (u32 x) { case string: u32 y; case opaque: void; };',
    'union u switch (e x) { case string: u32 y; case int: void; }; enum e { string = 1, int = 2 };', 'const N = string; struct s { opaque x<N>; };', 'struct s { opaque x<string>; };', 'struct s { u32 x[int]; };', 'typedef u32 x[opaque];', 'struct type { type type; };', 'struct self { u32 self; };', 'struct Self { u32 a; };', 'struct s { string T; opaque T<>; };', 'struct T { opaque x<>; };', 'struct Bytes { opaque x<>; };', 'enum Error { A = 1 };', 'struct String { string x; };', 'struct Vec { u32 x; };', 'struct s { Self x; };',
    'program P { version V { void NULL(void) = 0; } = 1; } = 100003;', 'struct s { struct { u32 a; } b; };', 'struct s { enum { A = 1 } b; };', 'struct s { union switch (u32 x) { case 1: void; } b; };', 'typedef struct { u32 a; } s;', 'typedef enum { A = 1 } s;', 'struct s { unsigned x; };', 'struct s { unsigned hyper x; };', 'struct s { unsigned\tint x; };', 'struct s { quadruple x; };', 'struct s { void; };', 'struct s { void x; };', '%#include <x>\nstruct s { u32 a; };', 'struct s { u32 a;', 'struct s { u32 a; }', 'struct s u32 a; };', '}', ';', 'struct', 'foo', '0', '"', '\0', '\ufeffstruct s { u32 a; };', 'struct s\u00e9 { u32 a; };', 'struct s { u32 \u00e9; };', '/* unterminated', '/* a /* b */ */', '// x', 'struct s { u32 a; }; // x', 'struct s { u32 a; }; /* x', 'struct s { opaque /* c */ a<>; };', 'struct s { u32 a[ 2 ]; opaque b< 3 >; opaque c< >; };',
    'const A = 0x1; union u switch (e d) { case A: u32 x; }; enum e { B = 1 };', 'const A = 5; union u switch (e d) { case A: u32 x; }; enum e { B = 1 };', 'union u switch (e d) { case 5: u32 x; }; enum e { B = 1 };', 'const A = B; enum e { B = 1 }; union u switch (u32 d) { case A: u32 x; }; struct s { opaque x<A>; };', 'enum e { B = A }; const A = B; struct s { u32 x[A]; };',
]
DEEP = [lambda n: 'struct s { u32 a; };' * n, lambda n: ''.join('struct s%d { s%d *x; s%d y<>; };' % (i, i + 1, i) for i in range(n)) + 'struct s%d { opaque x<>; };' % n,
        lambda n: ''.join('typedef t%d t%d;' % (i + 1, i) for i in range(n)) + 'typedef opaque t%d<>;' % n, lambda n: 'const C0 = 1;' + ''.join('const C%d = C%d;' % (i + 1, i) for i in range(n)) + 'struct s { u32 x[C%d]; };' % n,
        lambda n: 'union u switch (u32 d) {' + ''.join('case %d:' % i for i in range(n)) + ' u32 x; };', lambda n: 'union u switch (t0 d) { case 1: void; };' + ''.join('typedef t%d t%d;' % (i + 1, i) for i in range(n)) + 'typedef u32 t%d;' % n,
        lambda n: '/*' * n, lambda n: '{' * n, lambda n: 'struct s {' + 'u32 a; ' * n + '};', lambda n: ' ' * n, lambda n: 'union u switch (u32 d) {' + ''.join('case %d: void;' % i for i in range(n)) + '};', lambda n: 'struct ' + 'a' * n + ' { u32 b; };']


def toks(text):
    return re.findall(r'/\*.*?\*/|//[^\n]*|\w+|[^\w\s]|\s+', text, re.S)


def mutate(r, t):
    t = list(t)
    words = ['struct', 'union', 'enum', 'typedef', 'const', 'switch', 'case', 'default', 'void', 'opaque', 'string', 'unsigned', 'int', 'hyper', 'u32', 'bool', 'TRUE', 'FALSE', '0', '1', '3', '0x', '0x1F', '0xffffffffff', '4294967296', '{', '}',
             '[', ']', '<', '>', '(', ')', ':', ';', ',', '=', '*', 'x', 'type', '-', '/*', '*/', '//', ' ', '"', '99999999999999999999', 'float', 'double']
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not t:
            break
        i = r.randrange(len(t))
        k = r.random()
        if k < .25:
            del t[i]
        elif k < .5:
            t[i] = r.choice(words)
        elif k < .65:
            t.insert(i, r.choice(words))
        elif k < .8:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k < .9:
            j = r.randrange(len(t))
            t[i] = t[j]
        else:
            j = min(len(t), i + r.randint(1, 6))
            t[i:i] = t[i:j]
    return ''.join(t)


def reject_texts(r, sp):
    """texts no reading of the grammar accepts: broken brackets, a declaration cut short, a wrong first word"""
    text = sp.render()
    tk = toks(text)
    stops = [i for i, x in enumerate(tk) if x == ';' and i and tk[i - 1] == '}']
    yield text + ' }'
    yield text + ' struct'
    yield text + ' foo'
    yield text + ' ='
    yield 'foo ' + text
    yield '; ' + text
    yield '} ' + text
    if stops:
        i = stops[-1]
        yield ''.join(tk[:i])                      # last `;` and what follows missing
        yield ''.join(tk[:i - 1])                  # unclosed brace
        i = r.choice(stops)
        yield ''.join(tk[:i - 1] + tk[i:])         # a closing brace missing
        yield ''.join(tk[:i] + ['}'] + tk[i:])
    for w in ('struct', 'union', 'enum', 'typedef', 'const'):
        ix = [i for i, x in enumerate(tk) if x == w]
        if ix:
            i = r.choice(ix)
            yield ''.join(tk[:i] + [w + 'q'] + tk[i + 1:])
            nx = next((x for x in tk[i + 1:] if x.strip()), '')
            if not nx.startswith(('struct', 'union', 'enum', 'typedef', 'const')):     # `enum enumx` without its first word is `enum x`
                yield ''.join(tk[:i] + tk[i + 1:])
    ix = [i for i, x in enumerate(tk) if x == '(']
    if ix:
        i = r.choice(ix)
        yield ''.join(tk[:i] + tk[i + 1:])
    for o in '[<':
        ix = [i for i, x in enumerate(tk) if x == o]
        if ix:
            i = r.choice(ix)
            yield ''.join(tk[:i + 1] + ['{'] + tk[i + 1:])


def c14(cx):
    cx.rule = 'grammar-valid texts inside and outside the subset, token mutations of them, long and deep texts, and texts no grammar accepts; Ast::new and generate under catch_unwind with time and memory limits'
    b = cx.bins('fxgen', 'fxast')
    r = random.Random('c14-%s' % cx.seed)
    g = Gen(b['fxgen'], cx.tmp)
    g.proc.timeout = 30
    pr = Proc(b['fxast'], timeout=30)
    p = os.path.join(cx.tmp, 'a.x')
    oks = [0, 0]

    def one(text, must=None, what=''):
        if re.search(r'\[\s*\w*\d{5,}', text) or 'const' in text and re.search(r'=\s*(\d{5,}|0x\w{5,})\s*;', text) and '[' in text:
            # a fixed array of many elements is written out element by element: recorded finding
            if not re.search(r'\d{10,}', text):
                return
            text = re.sub(r'\d{5,10}(?=\D)', lambda m: m.group(0) + '0' * 10, text)
        st, msg, out = g.run(text)
        open(p, 'w', newline='').write(text)
        m = pr.ask(p)
        st2 = m.split(' ')[0]
        cx.count(text, 2)
        oks[0] += st == 'ok'
        oks[1] += st2 == 'ok'
        for s, f, mm in ((st, 'Generator::generate', msg), (st2, 'Ast::new', m)):
            if s not in ('ok', 'err'):
                cx.bad('%s: %s %s' % (f, s, mm[:200]), kind='gen', spec_text=text)
            elif must == 'err' and s == 'ok':
                cx.bad('%s accepts a text the grammar cannot accept (%s)' % (f, what), kind='gen', spec_text=text)
    for t in OUTSIDE:
        one(t)
    for f in DEEP:
        for n in (1, 10, 300) + ((2000,) if cx.thorough else ()):
            one(f(n))
    pool = [sp.render() for sp in cx.specs(30, 10)] + [sp.render(None, r) for sp in cx.specs(10, 6)]
    small = [sp.render() for sp in corpus.randoms('c14-%s' % cx.seed, 60, 3)] + OUTSIDE
    import guide
    for t in pool + [guide.wild('tot-%s-%d' % (cx.seed, i), 'w').render() for i in range(200)]:
        one(t)
    for _ in range(60000 if cx.thorough else 5000):
        t = r.choice(small) if r.random() < .85 else r.choice(pool)
        one(mutate(r, toks(t)))
        if len(cx.viol) > 30:
            break
    for sp in [x for x in cx.specs(20, 8) if not x.id.startswith('guide')]:
        for t in reject_texts(r, sp):
            one(t, 'err', 'structurally invalid')
    for t in ('struct s { u32 a;', 'struct s { u32 a; }', 'struct s u32 a; };', '}', ';', 'struct', 'foo', '0', 'const A = ;', 'enum e { A = };', 'typedef ;', 'union u { };', 'struct { u32 a; };', 'struct s { a; };', 'struct s { u32; };', 'enum { A = 1 };'):
        one(t, 'err', 'structurally invalid')
    cx.notes.append('%d texts accepted by generate, %d by Ast::new' % tuple(oks))
    cx.sample({'text': mutate(random.Random(3), toks(small[0]))[:300]})
    # recorded finding: the size of a fixed array is also the size of the output
    pk = Proc(b['fxgen'], timeout=25, mem_kb=1 << 20)
    q = os.path.join(cx.tmp, 'big.x')
    open(q, 'w').write('struct s { u32 x[4294967295]; };')
    m = pk.ask('gen %s -' % q)
    if m.split(' ')[0] not in ('ok', 'err'):
        cx.knownf('C14-huge-fixed-array', '`struct s { u32 x[4294967295]; };` writes out one expression per element and exhausts memory')
    pk.proc = None
    if pk.p:
        pk.p.kill()
        pk.p.wait()
    g.proc.close()
    pr.close()


# ---- C15 ---------------------------------------------------------------------------------------------------
def c15(cx):
    cx.rule = 'argument lists of 0..3 files drawn from valid, invalid and unreadable ones (all of them for short lists); standard output and exit status of the built binary against the library'
    b = cx.bins('fxgen')
    exe = cli()
    r = random.Random('c15-%s' % cx.seed)
    g = Gen(b['fxgen'], cx.tmp)
    d = os.path.join(cx.tmp, 'cli')
    os.makedirs(d)
    files = {}
    texts = [sp.render() for sp in cx.specs(60 if cx.thorough else 6, 8)] + ['', '// nothing\n', 'struct a { u32 x; };\n', 'struct a { u32 x; };', 'const A = 1;\r\nstruct s { opaque x<A>; };\r\n', 'struct pct { u32 percent; }; // %s {} {0} \\n\n']
    bad = ['foo', 'struct s { u32 a; }', 'struct s { u32 a[NOSUCH]; };', '{']
    for i, t in enumerate(texts + bad):
        n = ['v%d.x' % i, 'with space %d.x' % i, 'unié%d' % i][i % 3]
        p = os.path.join(d, n)
        open(p, 'w', newline='').write(t)
        st, msg, out = g.run(t)
        files[p] = out if st == 'ok' else None
    # file contents at the edges of what a text file can be, each compared with what the library makes of the very same bytes
    S = 'struct s { u32 a; };'
    edge = ['\ufeff' + S, '\ufeff' + S + '\n', S + '\ufeff', S + '\x00', '\x00' + S, S + '\x1a', '\x0c' + S, S + '\x0c', '\x0b' + S, '\u2028' + S, '\u00a0' + S, S + '\u00a0', '\r' + S + '\r', S + '\r', '\r\r\n' + S, '// a\r' + S, '// a\r\n' + S,
            '#!/bin/x\n' + S, '# c\n' + S, '%#include <a>\n' + S, '% c\n' + S, S + '\n%x', S + '\n#x', '#include "a.x"\n' + S, '"' + S + '"', "'" + S, S + '\\\n', '\\\n' + S, ' ' + S + ' ', '\n\n\n' + S + '\n\n\n', '\t' + S + '\t', '// \u00e9\n' + S, '/* \U0001f600 */' + S,
            '/* \ufeff */' + S, '/* \x00 */' + S, '// \x0c\n' + S, '-', '--', '--help', '${S}', '~', '<x>', S + ' // no end', S + ' /* no end', S + S.replace(' s ', ' t ') * 1, S + ('// ' + 'x' * 78 + '\n') * 4000 + 'struct t { u32 b; };', ''.join('struct s%d { u32 a; };\n' % i for i in range(700)), S + ' ' * 70000 + 'enum e { A = 1 };',
            '// %s\n' % ('y' * 99) * 11000 + S, S + '/*' + ' ' * 5000000 + '*/' + 'struct last { u32 b; };']
    pool = [t for t in OUTSIDE if t not in edge]
    for i, t in enumerate(edge + (pool if cx.thorough else r.sample(pool, 90))):
        p = os.path.join(d, '%s%d.x' % (['e', '-e', '--e', '@e', 'é e'][i % 5], i))
        open(p, 'w', newline='').write(t)
        st, msg, out = g.run(t)
        files[p] = out if st == 'ok' else None
    for i, raw in enumerate([S.encode('utf-16'), S.encode('utf-16-le'), S.encode('utf-8') + b'\x80', b'\xfe\xff' + S.encode(), b'// \xe9\n' + S.encode(), b'/* \xc3 */' + S.encode(), b'\xed\xa0\x80' + S.encode()]):
        p = os.path.join(d, 'raw%d.x' % i)
        open(p, 'wb').write(raw)
        try:
            st, msg, out = g.run(raw.decode())
        except UnicodeDecodeError:
            st = 'err'
        files[p] = out if st == 'ok' else None
    ln = os.path.join(d, 'link.x')
    os.symlink(next(f for f in files if files[f]), ln)
    files[ln] = next(files[f] for f in files if files[f])
    dang = os.path.join(d, 'dangling.x')
    os.symlink('nowhere', dang)
    files[dang] = None
    nb = os.path.join(d, 'notutf8.x')
    open(nb, 'wb').write(b'struct s { u32 a; }; // \xff\n')
    files[nb] = None
    files[os.path.join(d, 'missing.x')] = None
    files[d] = None
    odd = os.path.join(os.fsencode(d), b'odd\xff.x')
    open(odd, 'wb').write(b'struct odd { u32 a; };')
    st, msg, out = g.run('struct odd { u32 a; };')
    files[odd] = out
    good = [f for f in files if files[f] is not None]
    evil = [f for f in files if files[f] is None]

    def one(args):
        nm = [os.path.basename(os.fsdecode(a)).encode('utf8', 'replace').decode() for a in args]
        try:
            pr = subprocess.run([exe] + list(args), stdin=subprocess.DEVNULL, capture_output=True, cwd=d, timeout=120, env={k: v for k, v in os.environ.items() if not k.startswith('RUST')})
        except subprocess.TimeoutExpired:
            cx.bad('no end within 120 s for %s' % nm, kind='cli', args=nm)
            return
        cx.count(tuple(args))
        if args and all(files[a] is not None for a in args):
            want = ''.join(files[a] for a in args).encode()
            if pr.returncode != 0:
                cx.bad('exit status %d for %s' % (pr.returncode, nm), kind='cli', args=nm)
            elif pr.stdout != want:
                cx.bad('output for %s differs from the library: %d bytes, expected %d; %s' % (nm, len(pr.stdout), len(want), diff(want.decode(), pr.stdout.decode('utf8', 'replace'))), kind='cli', args=nm)
        else:
            if pr.returncode == 0:
                cx.bad('exit status 0 for %s' % nm, kind='cli', args=nm)
            if not pr.stdout.strip() and not pr.stderr.strip() or (args and not pr.stderr.strip()):
                cx.bad('no diagnostic for %s' % nm, kind='cli', args=nm)
            if pr.returncode < 0:
                cx.bad('killed by signal %d for %s' % (-pr.returncode, nm), kind='cli', args=nm)
    one([])
    rel0 = next(f for f in good if isinstance(f, str))
    for f in files:
        one([f])
    for _ in range(400 if cx.thorough else 60):
        one([r.choice(good) for _ in range(r.choice([2, 2, 3]))])
        l = [r.choice(good) for _ in range(r.choice([1, 2, 3]))]
        l.insert(r.randrange(len(l) + 1), r.choice(evil))
        one(l)
    for k in (4, 7, 20, 60):
        one([r.choice(good) for _ in range(k)])
        l = [r.choice(good) for _ in range(k)]
        for x in (0, k // 2, k):
            one(l[:x] + [r.choice(evil)] + l[x:])
    one([r.choice(good), r.choice(evil), r.choice(good), r.choice(evil)])
    # every special looking name, alone and among others; as many failures as an exit status can hold
    plain = g.run(S)[2]
    for n in ('-', '--', '-h', '--help', '-V', '--version', '-o', '@file', '*', '%s', '{}', '$HOME', 'a=b', '-x=1'):
        open(os.path.join(d, n), 'w').write(S)
        files[n] = plain
        one([n])
        one([rel0, n])
        one([n, n, rel0])
        one([n, os.path.join(d, 'missing.x')])
    files[''] = None
    for l in ([''], ['', rel0], [rel0, '']):
        one(l)
    for k in (2, 255, 256, 257, 512):
        one([os.path.join(d, 'missing.x')] * k)
        one([rel0] + [os.path.join(d, 'missing.x')] * k)
    one([rel0] * 300)
    # relative path
    rel = [os.path.basename(f) for f in good if isinstance(f, str) and not os.path.basename(f).startswith('-')][:3] + ['./' + os.path.basename(f) for f in good if isinstance(f, str) and os.path.basename(f).startswith('-')][:2]
    for x in rel:
        files[x] = files[os.path.join(d, os.path.basename(x))]
    one(rel)
    # several files equal to each generated alone, again: duplicates
    one([good[0], good[0]])
    cx.sample({'args': [os.path.basename(os.fsdecode(x)).encode('utf8', 'replace').decode() for x in good[:2]], 'exit': 0})
    g.proc.close()

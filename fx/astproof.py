"""The parser side (src/ast) under contract: parse tree -> syntax tree -> indexes (C12, C13, C14)."""
import os, re, subprocess, json
import engine
from engine import ROOT, REPO, TGT, env, Broken
from vgen import *

SUP = open(os.path.join(ROOT, 'vx', 'ast.vrs')).read()
SPEC = open(os.path.join(ROOT, 'vx', 'astspec.vrs')).read()
LEM = open(os.path.join(ROOT, 'vx', 'astlem.vrs')).read() if os.path.exists(os.path.join(ROOT, 'vx', 'astlem.vrs')) else ''
FILES = ['basic_type', 'array', 'node', 'structure', 'union', 'enumeration', 'typedef', 'indexes/constants', 'indexes/generic_types', 'indexes/type_index', 'mod']
TYPES = ['BasicType', 'ArraySize', 'ArrayType', 'Node', 'Struct', 'StructField', 'UnionSwitch', 'Union', 'UnionCase', 'CaseStmt', 'Enum', 'Variant', 'VariantValue', 'Typedef', 'ConstantType', 'ConstantIndex', 'GenericIndex', 'AstType', 'TypeIndex', 'Ast']


def build():
    r = subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', 'fxast'], cwd=os.path.join(ROOT, 'rs'), env=env(), capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build fxast: ' + r.stderr[-1500:])
    return os.path.join(TGT, 'debug', 'fxast')


def extract(files):
    b = build()
    if any(not os.path.exists(f) for f in files):
        raise Unsupported('a file of src/ast has moved')
    known = {k for x in table() for k in re.split(r'[|/]', x[0])} | {x[2] for x in table()}
    r = subprocess.run([b, ','.join(sorted(known))], input='\n'.join(files) + '\n', capture_output=True, text=True)
    its = []
    for f, l in zip(files, r.stdout.splitlines()):
        v = json.loads(l)
        if 'error' in v:
            raise Unsupported('does not parse: ' + v['error'])
        for i in v['items']:
            i['file'] = os.path.relpath(f, REPO)
            its.append(i)
    return its


# ---- the grammar, as far as the shape of its parse trees goes -------------------------------------------------------
def grammar(path):
    """rule -> (modifier, expression)"""
    t = re.sub(r'//[^\n"]*\n', '\n', open(path).read())
    out, i = {}, 0
    for m in re.finditer(r'(\w+)\s*=\s*([_@$!]?)\s*\{', t):
        j, d, q = m.end(), 1, False
        if m.start() < i:
            continue
        while d:
            c = t[j]
            if q:
                if c == '\\':
                    j += 1
                elif c == '"':
                    q = False
            elif c == '"':
                q = True
            elif c == '{':
                d += 1
            elif c == '}':
                d -= 1
            j += 1
        out[m.group(1)] = (m.group(2), t[m.end():j - 1])
        i = j
    return out


class Shapes:
    """rule -> ([allowed rules by position], allowed rules after, least, most)"""

    def __init__(self, path):
        self.g = grammar(path)

    def toks(self, s):
        return re.findall(r'"(?:\\.|[^"\\])*"|\'.\'|\w+|[~|()*+?!&{},^.]', s)

    def parse(self, t):
        """-> regex over rule names: ('r', n) ('seq', [..]) ('alt', [..]) ('star', x) ('opt', x) ('eps',)"""
        ts, pos = self.toks(t), [0]

        def peek():
            return ts[pos[0]] if pos[0] < len(ts) else None

        def eat():
            pos[0] += 1
            return ts[pos[0] - 1]

        def alt():
            xs = [seq()]
            while peek() == '|':
                eat()
                xs.append(seq())
            return xs[0] if len(xs) == 1 else ('alt', xs)

        def seq():
            xs = [post()]
            while peek() == '~':
                eat()
                xs.append(post())
            return ('seq', xs)

        def post():
            c = eat()
            if c in '!&':
                post()
                return ('eps',)
            if c == '(':
                x = alt()
                if eat() != ')':
                    raise Unsupported('grammar')
            elif c[0] in '"\'':
                x = ('eps',)
                while peek() == '.':      # a character range
                    eat()
                    if peek() and peek()[0] == "'":
                        eat()
            elif c == '^':
                eat()
                x = ('eps',)
            elif re.fullmatch(r'\w+', c):
                x = ('r', c)
            else:
                raise Unsupported('grammar: ' + c)
            while peek() in ('*', '+', '?'):
                k = eat()
                x = {'*': ('star', x), '+': ('seq', [x, ('star', x)]), '?': ('opt', x)}[k]
            if peek() == '{':
                raise Unsupported('grammar: counted repetition')
            return x
        x = alt()
        if peek() is not None:
            raise Unsupported('grammar: ' + peek())
        return x

    def inline(self, x, depth=0):
        """silent rules are replaced by their own tokens"""
        if depth > 30:
            raise Unsupported('recursive grammar')
        if x[0] == 'r':
            n = x[1]
            if n not in self.g:
                return x if n == 'EOI' else ('eps',)
            m, e = self.g[n]
            return self.inline(self.parse(e), depth + 1) if m == '_' else x
        if x[0] in ('seq', 'alt'):
            return (x[0], [self.inline(y, depth) for y in x[1]])
        if x[0] in ('star', 'opt'):
            return (x[0], self.inline(x[1], depth))
        return x

    def kids(self, n):
        m, e = self.g[n]
        if m == '@':
            return ('eps',)
        # implicit whitespace and comments may themselves leave tokens
        for w in ('WHITESPACE', 'COMMENT'):
            if w in self.g and m != '$' and self.g[w][0] != '_':
                raise Unsupported('visible ' + w)
        return self.inline(self.parse(e))

    def names(self, x):
        if x[0] == 'r':
            return {x[1]}
        if x[0] in ('seq', 'alt'):
            return set().union(*[self.names(y) for y in x[1]]) if x[1] else set()
        return self.names(x[1]) if x[0] in ('star', 'opt') else set()

    INF = 10 ** 6

    def span(self, x):
        k = x[0]
        if k == 'r':
            return 1, 1
        if k == 'eps':
            return 0, 0
        if k == 'seq':
            a = [self.span(y) for y in x[1]]
            return sum(i for i, _ in a), min(self.INF, sum(j for _, j in a))
        if k == 'alt':
            a = [self.span(y) for y in x[1]]
            return min(i for i, _ in a), max(j for _, j in a)
        if k == 'opt':
            return 0, self.span(x[1])[1]
        return 0, 0 if self.span(x[1])[1] == 0 else self.INF

    def words(self, x, n):
        """prefixes of length <= n of the words of x: set of (tuple, complete)"""
        k = x[0]
        if k == 'r':
            return {((x[1],), True)} if n >= 1 else {((), False)}
        if k == 'eps':
            return {((), True)}
        if k == 'alt':
            return set().union(*[self.words(y, n) for y in x[1]])
        if k == 'opt':
            return {((), True)} | self.words(x[1], n)
        if k == 'seq':
            out = {((), True)}
            for y in x[1]:
                nx = set()
                for w, c in out:
                    if not c:
                        nx.add((w, c))
                        continue
                    for v, d in self.words(y, n - len(w)):
                        nx.add((w + v, d))
                out = nx
            return out
        out, new = {((), True)}, {((), True)}
        while new:
            nx = set()
            for w, c in new:
                if c:
                    for v, d in self.words(x[1], n - len(w)):
                        if v or not d:
                            nx.add((w + v, d))
            new = nx - out
            out |= new
        return out

    def shape(self, n, depth=4):
        x = self.kids(n)
        lo, hi = self.span(x)
        ws = self.words(x, depth)
        pos = [{w[i] for w, _ in ws if len(w) > i} for i in range(depth)]
        return lo, hi, pos, self.names(x)

    def visible(self):
        """the rules that leave pairs: not the silent ones"""
        return [n for n in self.g if self.g[n][0] != '_']

    def text(self, skip=('comment', 'comment_long', 'comment_short', 'comment_long_inner', 'comment_short_inner')):
        """Rule, and what the kids of each kind of pair are"""
        ns = self.visible()
        out = ['#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum Rule { %s, EOI }' % ', '.join(self.g), 'pub open spec fn shape(p: Pair) -> bool { let k = p.kids(); match p.rule() {']
        one = lambda e, s: '(%s)' % ' || '.join('%s == Rule::%s' % (e, r) for r in sorted(s)) if s else 'false'
        for n in ns:
            lo, hi, pos, alls = self.shape(n)
            cs = ['k.len() >= %d' % lo] + (['k.len() <= %d' % hi] if hi < self.INF else [])
            for i, s in enumerate(pos):
                if i < hi:
                    cs.append('(k.len() > %d ==> %s)' % (i, one('k[%d].rule()' % i, s)))
            if hi > len(pos):
                # a repetition: positions from the last prefix position on
                rest = alls
                for d in range(len(pos), 0, -1):
                    pass
                cs.append('(forall|i: int| 0 <= i < k.len() ==> %s)' % one('(#[trigger] k[i]).rule()', rest))
                tail = self.tail(n)
                cs.append('(forall|i: int| %d <= i < k.len() ==> %s)' % (tail[0], one('(#[trigger] k[i]).rule()', tail[1])))
            out.append('  Rule::%s => %s,' % (n, ' && '.join(cs)))
        out.append('  Rule::EOI => k.len() == 0,\n  _ => false } }')
        out.append('/// every pair is one that pest built for this grammar')
        out.append("pub broadcast axiom fn pest_shape<'i>(p: Pair<'i>) ensures shape(p), #[trigger] p.kids().len() >= 0;")
        return '\n'.join(out)

    def tail(self, n):
        """(c, rules that may stand at position c or later): c the number of leading fixed positions"""
        x = self.kids(n)
        xs = []

        def flat(y):
            if y[0] == 'seq':
                for z in y[1]:
                    flat(z)
            elif y[0] != 'eps':
                xs.append(y)
        flat(x)
        c = 0
        while c < len(xs) and self.span(xs[c]) == (1, 1):
            c += 1
        return c, set().union(*[self.names(y) for y in xs[c:]]) if xs[c:] else set()


# ---- contracts ------------------------------------------------------------------------------------------------------
def C(requires=(), ensures=(), loops=None, **k):
    return Contract(requires=[(n, p, t) for n, p, t in requires], ensures=ensures, loops=loops or {}, **k)


A, G, T = ('C12',), ('C13',), ('C14',)
AG, AT = ('C12', 'C13'), ('C12', 'C14')


def emit(o, key, name, fn, c, vis='pub ', generics='', tysub=None, unwrap=None, ext=False, genfix=None):
    """like vgen.emit_fn, for the records of fxast"""
    ts0 = tysub or (lambda t: t)
    tysub = lambda t: re.sub(r"(Pairs?) < ('\w+) , Rule >", r'\1 < \2 >', ts0(t))
    if fn is None:
        raise Unsupported('no function ' + key)
    if fn['bad']:
        raise Unsupported('%s: %s' % (key, fn['bad'][0]))
    generics = fn['generics'].replace('AsRef < str >', 'AsRefStr')
    where = (fn['where'] or '').replace('AsRef < str >', 'AsRefStr')
    if genfix:
        generics, where = genfix(generics, where)
    names = [p['name'] for p in fn['params']]
    S = {'$%d' % i: n for i, n in enumerate(names)}

    def sub(t, extra=None):
        m = dict(S, **(extra or {}))
        return re.sub(r'\$\w+', lambda k: m[k.group(0)], t)
    ps = [p['self'] if p['name'] == 'self' else '%s%s: %s' % ('mut ' if p['mut'] else '', p['name'], tysub(p['ty'])) for p in fn['params']]
    first = len(o.lines) + 1
    if ext:
        o.add('#[verifier::external_body]')
    elif c.attrs or c.loops:
        o.add((c.attrs or '') + ('#[verifier::loop_isolation(false)]' if c.loops else '') + ('#[verifier::allow_complex_invariants]' if any(x.get('brk') for l in c.loops.values() for x in l.values()) else ''))
    o.add('%sfn %s%s(%s) -> (ret__: %s) %s' % (vis, name, generics, ', '.join(ps), tysub(fn['ret']), where))
    for kw, cl in (('requires', c.requires), ('ensures', c.ensures)):
        if cl:
            o.add('  ' + kw)
            for n, props, t in cl:
                o.add('    %s,' % sub(t), (key, n, props))
    if c.decreases:
        o.add('  decreases %s' % sub(c.decreases))
    if ext:
        o.add('{ unimplemented!() }')
        return
    anyl = getattr(c, 'anyloops', False)
    if getattr(c, 'loopfn', None):
        c.loops = {li: {l['kind']: c.loopfn(fn, li)} for li, l in enumerate(fn['loops'])}
    if not anyl and len(fn['loops']) != len(c.loops):
        raise Unsupported('%s: %d loops, annotations for %d' % (key, len(fn['loops']), len(c.loops)))
    parts = re.split(r'__VF_LOOP_(\d+)__ \{', tysub(fn['body']))
    ghosts = ' '.join('let ghost vf_p%d = %s;' % (i, p['name']) for i, p in enumerate(fn['params']) if c.loops and '& mut' not in p['ty'] and p['name'] != 'self')
    o.add('{ broadcast use string_ext; ' + ghosts + ' %s' % ('proof { %s }' % sub(c.pro) if c.pro else ''))
    o.add(parts[0].lstrip()[1:])
    for j in range(1, len(parts), 2):
        li = int(parts[j])
        info = fn['loops'][li]
        spec = {'inv': [], 'break': True} if anyl and info['kind'] not in ('while', 'loop') else c.loops.get(li, {}).get(info['kind'])
        if spec is None and anyl and info['kind'] == 'while':
            m = re.match(r'^([^<>=!|]+) (<|<=|>|>=) ([^<>=!|]+)$', (info['x'] or '').split(' && ')[0])
            if m:
                a, b = (m.group(1), m.group(3)) if m.group(2)[0] == '<' else (m.group(3), m.group(1))
                spec = {'inv': [('none', None, 'true')], 'break': True, 'dec': '(%s) as int - (%s) as int' % (b, a)}
                o.guess = getattr(o, 'guess', set()) | {key}
        if spec is None:
            raise Unsupported('%s: loop %d is a %s loop' % (key, li, info['kind']))
        if info['break'] and not spec.get('break'):
            raise Unsupported('%s: loop %d has a break' % (key, li))
        extra = {'$it': info['it'], '$r': 'vf_r%d' % li}
        if isinstance(info['x'], str):
            extra['$x'] = info['x']
        for role in ('push', 'ins', 'set'):
            for n, v in enumerate(info[role]):
                extra['$%s%s' % (role, n if n else '')] = v
        try:
            o.add('  invariant')
            if spec.get('brk'):
                o.lines[-1] = '  invariant_except_break'
            if info['kind'] != 'while' and info['kind'] != 'loop':
                o.add('    vf_it%d.all() == vf_s%d, 0 <= vf_it%d.pos() <= vf_s%d.len(),' % (li, li, li, li), (key, 'loop%d.iterator' % li, T))
                extra['$s'] = 'vf_s%d' % li
            for n, props, t in spec['inv']:
                o.add('    %s,' % sub(t, extra), (key, 'loop%d.%s' % (li, n), props))
            if spec.get('post'):
                o.add('  ensures')
                for n, props, t in spec['post']:
                    o.add('    %s,' % sub(t, extra), (key, 'loop%d.%s' % (li, n), props))
            o.add('  decreases %s' % sub(spec.get('dec', '$it.all().len() - $it.pos()'), extra))
            o.add('{ %s' % ('proof { %s }' % sub(spec['pro'], extra) if spec.get('pro') else ''))
        except KeyError as e:
            raise Unsupported('%s: loop %d has no variable in the role %s' % (key, li, e))
        o.add(parts[j + 1])
    o.fns.append((first, len(o.lines), key, c.builtin or T))


def type_text(i):
    g = re.sub(r'where.*', '', i['generics'])
    g = re.sub(r":\s*[^,>]+", '', g)
    if 'variants' in i:
        vs = []
        for v in i['variants']:
            if v[1] and v[1][0][0]:
                vs.append('%s { %s }' % (v[0], ', '.join('%s: %s' % (n, t) for n, t in v[1])))
            else:
                vs.append(v[0] + ('(%s)' % ', '.join(t for _, t in v[1]) if v[1] else ''))
        t = 'pub enum %s%s { %s }' % (i['name'], g, ', '.join(vs))
    elif i['tuple']:
        t = 'pub struct %s%s(%s);' % (i['name'], g, ', '.join('pub ' + t for _, t in i['fields']))
    elif i.get('unit'):
        t = 'pub struct %s;' % i['name']
    else:
        t = 'pub struct %s%s { %s }' % (i['name'], g, ', '.join('pub %s: %s' % (n, t) for n, t in i['fields']))
    if re.search(r'\bClone\b', i['derive']):
        # the derived clone: an equal value
        gi = '<T: Clone>' if '< T' in i['generics'] or '<T' in g.replace(' ', '') else g
        n = i['name'] + re.sub(r"\s", '', g)
        t += "\nimpl%s Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % (gi, n)
        t += "\nimpl%s %s { #[verifier::external_body] pub fn vf_to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % (gi, n)
    return t


# (key in the source, file) -> (wrapper, emitted name, contract, extra generics)
def table():
    it = lambda seq: ('it', AT, 'refs($it.all(), %s), 0 <= $it.pos() <= $it.all().len()' % seq)
    own = lambda seq: ('it', AT, '$it.all() == %s, 0 <= $it.pos() <= $it.all().len()' % seq)
    t = []

    def f(key, impl, c, name=None, generics='', tysub=None):
        t.append((key, impl, name or re.split(r'[|/]', key)[-1], c, generics, tysub))
    f('|BasicType|as_str', 'impl BasicType', C(ensures=[('name', A, 'ret__@ == bstr(*self)')]))
    f('|BasicType|is_opaque', 'impl BasicType', C(ensures=[('opaque', A, 'ret__ == (*self is Opaque)')]))
    f("From < & 'a str >|BasicType|from", "impl<'a> VFrom<&'a str> for BasicType", C(ensures=[('type', A, 'is_b(ret__, $0@)')]), name='vf_from')
    f('From < String >|BasicType|from', 'impl VFrom<String> for BasicType', C(ensures=[('type', A, 'is_b_owned(ret__, $0@)')], pro='lem_lits();'), name='vf_from')
    f('From < T >|ArraySize|from', 'impl<T: AsRefStr> VFrom<T> for ArraySize', C(ensures=[('size', A, 'is_size(ret__, $0.sv())')]), name='vf_from')
    f('|ArrayType < T >|unwrap_array', 'impl<T> ArrayType<T>', C(ensures=[('elem', A, '*ret__ == elem(*self)')]))
    f("|Node < 'a >|ident_str", "impl<'a> Node<'a>", C(requires=[('named', T, 'named(*self)')], ensures=[('name', A, 'ret__@ == nid(*self)')], decreases='self'))
    f('|StructField|new', 'impl StructField', C(requires=[('shape', T, '$0 is StructDataField ==> opts_full($0->StructDataField_0@)')],
      ensures=[('field', A, 'ret__ is Ok ==> $0 is StructDataField && is_field($0->StructDataField_0@, ret__->Ok_0)'), ('accepts', A, '$0 is StructDataField && field_accepted($0->StructDataField_0@) ==> ret__ is Ok')]))
    f('|StructField|contains_opaque', 'impl StructField', C(ensures=[('opaque', A, 'ret__ == (elem(self.field_value) is Opaque)')]))
    f('|Struct|name', 'impl Struct', C(ensures=[('name', A, 'ret__@ == self.name@')]))
    f('|Struct|new', 'impl Struct', C(requires=[('shape', T, '$0@.len() > 0 && named($0@[0]) && forall|i: int| 1 <= i < $0@.len() && #[trigger] $0@[i] is StructDataField ==> opts_full($0@[i]->StructDataField_0@)')],
      ensures=[('struct', A, 'ret__ is Ok ==> is_struct($0@, ret__->Ok_0)'), ('accepts', A, '(forall|i: int| 1 <= i < $0@.len() ==> #[trigger] $0@[i] is StructDataField && field_accepted($0@[i]->StructDataField_0@)) ==> ret__ is Ok')],
      loops={0: {k: dict(inv=[own('$0@.skip(1)'), ('count', A, '$push@.len() == $it.pos()'), ('shape', T, 'forall|i: int| 1 <= i < $0@.len() && #[trigger] $0@[i] is StructDataField ==> opts_full($0@[i]->StructDataField_0@)'),
                                  ('fields', A, 'forall|i: int| 0 <= i < $push@.len() ==> field_of($0@[i + 1], #[trigger] $push@[i])')], pro='assert($0@.skip(1)[$it.pos()] == $0@[$it.pos() + 1]);') for k in ('for', 'collect_result')}}))
    f('CompoundType|Struct|inner_types', 'impl Struct', C(ensures=[('types', G, 'refs(ret__@, inner(Node::Struct(*self)))')],
      loops={0: {'collect': dict(inv=[it('self.fields@'), ('same', G, 'refs_to($push@, inner(Node::Struct(*self)), $it.pos())')])}}))
    f('|Variant|new', 'impl Variant', C(requires=[('shape', T, '$0 is EnumVariant && $0->EnumVariant_0@.len() == 2 ==> named($0->EnumVariant_0@[0]) && named($0->EnumVariant_0@[1])')],
      ensures=[('member', A, 'ret__ is Ok ==> $0 is EnumVariant && is_variant($0->EnumVariant_0@, ret__->Ok_0)')]))
    f('From < T >|VariantValue|from', 'impl<T: AsRefStr> VFrom<T> for VariantValue', C(ensures=[('value', A, 'is_value($0.sv(), ret__)')]), name='vf_from')
    f("|Enum|new", "impl Enum", C(requires=[('shape', T, '$0@.len() > 0 && named($0@[0]) && forall|i: int| 1 <= i < $0@.len() && #[trigger] $0@[i] is EnumVariant && $0@[i]->EnumVariant_0@.len() == 2 ==> named($0@[i]->EnumVariant_0@[0]) && named($0@[i]->EnumVariant_0@[1])')],
      ensures=[('enum', A, 'ret__ is Ok ==> is_enum($0@, ret__->Ok_0)')],
      loops={0: {k: dict(inv=[own('$0@.skip(1)'), ('count', A, '$push@.len() == $it.pos()'),
                                  ('shape', T, 'forall|i: int| 1 <= i < $0@.len() && #[trigger] $0@[i] is EnumVariant && $0@[i]->EnumVariant_0@.len() == 2 ==> named($0@[i]->EnumVariant_0@[0]) && named($0@[i]->EnumVariant_0@[1])'),
                                  ('members', A, 'forall|i: int| 0 <= i < $push@.len() ==> variant_of($0@[i + 1], #[trigger] $push@[i])')], pro='assert($0@.skip(1)[$it.pos()] == $0@[$it.pos() + 1]);') for k in ('for', 'collect_result')}}), tysub=lambda x: x.replace("Node < 'a >", 'Node'))
    f('|Typedef|new', 'impl Typedef', C(requires=[('shape', T, 'typedef_shape($0@)')], ensures=[('typedef', A, 'is_typedef($0@, ret__)')]))
    f('|UnionCase|new', 'impl UnionCase', C(ensures=[('arm', A, 'ret__ is Ok ==> plain_field($1@) && arm(ret__->Ok_0) == arm_of(strs($0@), $1@)'), ('accepts', A, 'plain_field($1@) ==> ret__ is Ok')]))
    f('|UnionCase|contains_opaque', 'impl UnionCase', C(ensures=[('opaque', A, 'ret__ == (elem(self.field_value) is Opaque)')]))
    f('|CaseStmt|parse', 'impl CaseStmt', C(requires=[('shape', T, 'case_shape($1@) || default_shape($1@)')], ensures=[('stmt', A, 'ret__ is Ok ==> is_stmt(strs($0@), $1@, ret__->Ok_0)')], pro='lem_strs();'))
    f('|Union|name', 'impl Union', C(ensures=[('name', A, 'ret__@ == self.name@')]))
    f('|Union|new', 'impl Union', C(requires=[('shape', T, 'union_shape($0@)')], ensures=[('union', A, 'ret__ is Ok ==> is_union($0@, ret__->Ok_0)')], pro='lem_strs(); lem_arms();',
      loops={0: {'for': dict(inv=[own('$0@.skip(3)'), ('shape', T, 'union_shape($0@)'),
                                  ('pending', A, 'strs(case_values@) == ufold($0@, $it.pos()).pend'), ('cases', A, 'arms(cases@) == ufold($0@, $it.pos()).cases'),
                                  ('default', A, 'oarm(default) == ufold($0@, $it.pos()).def'), ('void', A, 'strs(void_cases@) == ufold($0@, $it.pos()).void')], pro='lem_strs(); lem_arms();')}}))
    f('CompoundType|Union|inner_types', 'impl Union', C(ensures=[('types', G, 'refs(ret__@, inner(Node::Union(*self)))')],
      loops={0: {'collect': dict(inv=[('it', G, 'refs($it.all(), self.cases@ + self.default.elems()), 0 <= $it.pos() <= $it.all().len()'), ('same', G, 'refs_to($push@, inner(Node::Union(*self)), $it.pos())')])}}))
    # ---- indexes
    f('|TypeIndex|new', 'impl TypeIndex', C(requires=[('shape', T, '$0 is Root')], ensures=[('index', A, '$0 is Root ==> ret__.0@ == tmap($0->Root_0@, $0->Root_0@.len() as int)')],
      loops={0: {'for': dict(inv=[it('ast->Root_0@'), ('map', A, '$0 is Root, $ins@ == tmap($0->Root_0@, $it.pos())')])}}), tysub=None)
    f('|TypeIndex|get', 'impl TypeIndex', C(ensures=[('get', A, 'ret__ is Some == self.0@.dom().contains($1.sv()) && (ret__ is Some ==> *ret__->Some_0 == self.0@[$1.sv()])')]), generics='<T: AsRefStr>')
    f('|TypeIndex|typedef_target', 'impl TypeIndex', C(ensures=[('alias', A, 'ret__ is Some == (self.0@.dom().contains($1.sv()) && self.0@[$1.sv()] is Typedef) && (ret__ is Some ==> *ret__->Some_0 == self.0@[$1.sv()]->Typedef_0)')]), generics='<T: AsRefStr>')
    f('|TypeIndex|resolve_alias', 'impl TypeIndex', C(ensures=[('end', ('C06',), '*ret__ == alias_end(self.0@, *$1, self.0@.len())')],
      loops={0: {'for': dict(brk=True, inv=[('chain', ('C06',), '$it.all().len() == self.0@.len(), alias_end(self.0@, *$set, (self.0@.len() - $it.pos()) as nat) == alias_end(self.0@, *vf_p1, self.0@.len())')],
      post=[('end', ('C06',), '*$set == alias_end(self.0@, *vf_p1, self.0@.len())')], **{'break': True})}}), generics="<'a>")
    full = 'entries($0->Root_0@, $0->Root_0@.len() as int)'
    f('|ConstantIndex|new', 'impl ConstantIndex', C(requires=[('shape', T, '$0 is Root && const_ok($0->Root_0@)')],
      ensures=[('index', A, 'ret__ is Ok ==> cexact(ret__->Ok_0.0@, %s) && distinct(%s)' % (full, full)), ('accepts', A, 'distinct(%s) ==> ret__ is Ok' % full)],
      loops={1: {'for': dict(inv=[('map', A, 'refs($s, $0->Root_0@), cexact($ins@, entries($0->Root_0@, $it.pos())), distinct(entries($0->Root_0@, $it.pos()))')],
                             pro='lem_const($0->Root_0@, $it.pos(), $ins@); lem_cexact($ins@, entries($0->Root_0@, $it.pos()));')},
             0: {'for': dict(inv=[('it', A, 'vf_it1.all() == vf_s1, 0 < vf_it1.pos() <= vf_s1.len(), refs(vf_s1, $0->Root_0@), $0->Root_0@[vf_it1.pos() - 1] is Enum, refs($s, $0->Root_0@[vf_it1.pos() - 1]->Enum_0.variants@)'),
                                  ('map', A, 'cexact($ins@, entries($0->Root_0@, vf_it1.pos() - 1) + members($0->Root_0@[vf_it1.pos() - 1]->Enum_0, $it.pos())), distinct(entries($0->Root_0@, vf_it1.pos() - 1) + members($0->Root_0@[vf_it1.pos() - 1]->Enum_0, $it.pos()))')],
                             pro='lem_member($0->Root_0@, vf_it1.pos() - 1, $it.pos()); lem_cexact($ins@, entries($0->Root_0@, vf_it1.pos() - 1) + members($0->Root_0@[vf_it1.pos() - 1]->Enum_0, $it.pos()));')}}))
    f('|ConstantIndex|get', 'impl ConstantIndex', C(ensures=[('get', A, 'ret__ is Some == self.0@.dom().contains($1.sv()) && (ret__ is Some ==> *ret__->Some_0 == self.0@[$1.sv()])')]), generics='<T: AsRefStr>')
    end = 'cend(self.0@, $1.sv(), self.0@.len() + 1)'
    f('|ConstantIndex|value', 'impl ConstantIndex', C(ensures=[('value', A, 'ret__ is Ok == (%s is Some && cnum(%s->Some_0) is Some)' % (end, end)), ('value', A, 'ret__ is Ok ==> cnum(%s->Some_0) == Some(ret__->Ok_0 as int)' % end)],
      loops={0: {'for': dict(brk=True, inv=[('chain', A, '$s.len() == self.0@.len() + 1, cend(self.0@, $set@, (self.0@.len() + 1 - $it.pos()) as nat) == %s' % end)], post=[('end', A, 'Some($set@) == ' + end)], pro='assert(0 < self.0@.len() + 1 - $it.pos()); assert(cend(self.0@, $set@, (self.0@.len() + 1 - $it.pos()) as nat) == cend(self.0@, $set@, ((self.0@.len() - $it.pos()) as nat + 1) as nat));', **{'break': True})}}, pro='reveal_strlit("0x");'), generics='<T: AsRefStr>')
    anyl = lambda: {'any': dict(inv=[('seen', G, 'index@ == old(index)@, $r == exists|j: int| 0 <= j < $it.pos() && ty_opq(elem(**#[trigger] $s[j]), inset(index@))')])}
    f('|GenericIndex|new/recurse', None, C(requires=[('shape', T, 'decl_node(*$0) || ($0 is Root && root_ok($0->Root_0@))')],
      ensures=[('decl', G, 'decl_node(*$0) ==> final($1)@ == gstep(*$0, old($1)@)'), ('pass', G, '$0 is Root ==> final($1)@ == gpass($0->Root_0@, $0->Root_0@.len() as int, old($1)@)')], decreases='$0',
      loops={0: anyl(), 1: anyl(), 2: {k: dict(inv=[('pass', G, 'refs($s, vf_p0->Root_0@), index@ == gpass(vf_p0->Root_0@, $it.pos(), old(index)@)')]) for k in ('fold', 'for', 'any')}}), generics="<'a>")
    f('|GenericIndex|new', 'impl GenericIndex', C(requires=[('shape', T, '$0 is Root && root_ok($0->Root_0@)')],
      ensures=[('generic', G, 'forall|n: Seq<char>| #[trigger] ret__.0@.contains(n) == reaches($0->Root_0@, n)')],
      loops={0: {'while': dict(inv=[('sound', G, 'sound($0->Root_0@, index@), index@.subset_of(nset($0->Root_0@, $0->Root_0@.len() as int)), index@.len() <= $0->Root_0@.len()'),
                                    ('size', G, '-1 <= $set <= index@.len(), $set == index@.len() ==> forall|n: Seq<char>| #[trigger] index@.contains(n) == reaches($0->Root_0@, n)')],
                               dec='$0->Root_0@.len() - $set', pro='lem_pass($0->Root_0@, index@);'),
                 'loop': dict(brk=True, inv=[('sound', G, 'sound($0->Root_0@, index@), index@.subset_of(nset($0->Root_0@, $0->Root_0@.len() as int)), index@.len() <= $0->Root_0@.len()')],
                              post=[('fixed', G, 'forall|n: Seq<char>| #[trigger] index@.contains(n) == reaches($0->Root_0@, n)')], dec='$0->Root_0@.len() - index@.len()', pro='lem_pass($0->Root_0@, index@);', **{'break': True})}}), generics="<'a>")
    f('|GenericIndex|contains', 'impl GenericIndex', C(ensures=[('contains', G, 'ret__ == self.0@.contains($1@)')]))
    f('try_walk/collect_values', None, C(ensures=[('kids', AT, 'ret__ is Ok ==> nds($0.kids(), ret__->Ok_0@, $0.ht())')], decreases='$0.ht(), 0int', pro='',
      loops={0: {k: dict(inv=[('kids', AT, '$s == $0.kids(), $push@.len() == $it.pos(), forall|i: int| 0 <= i < $push@.len() ==> nd(#[trigger] $0.kids()[i], $push@[i])')], pro='broadcast use pair_ht; assert($0.kids()[$it.pos()].ht() < $0.ht());') for k in ('collect_result', 'for')}}))
    f('try_walk', None, C(ensures=[('tree', AT, 'ret__ is Ok ==> nd($0, ret__->Ok_0)')], decreases='$0.ht(), 1int', pro='reveal_strlit("unsigned"); broadcast use pest_shape; lem_walk($0); lem_intro($0); assert($0.kids().len() >= 0); span_one($0.kids()); lem_uns(trim_sp($0.text()));'))
    f('|Ast|new', 'impl Ast', C(ensures=[('index', A, 'ret__ is Ok ==> pest_parse(Rule::item, $0@) is Some && exists|ns: Seq<Node>| #[trigger] nds(pest_parse(Rule::item, $0@)->Some_0.kids(), ns, pest_parse(Rule::item, $0@)->Some_0.ht()) && ast_of(ns, ret__->Ok_0)'),
        ('rejects', T, 'pest_parse(Rule::item, $0@) is None ==> ret__ is Err')], pro='if pest_parse(Rule::item, $0@) is Some { if pest_parse(Rule::item, $0@)->Some_0.rule() == Rule::item { lem_root(pest_parse(Rule::item, $0@)->Some_0); } }'))
    for n in ('constant', 'generic', 'type'):
        f('|Ast|%ss' % n, 'impl Ast', C(ensures=[('index', A, '*ret__ == self.%s_index' % n)]))
    return t


def ast_file(items, shapes):
    o = Out()
    o.text(HEAD)
    o.text(shapes.text())
    o.text(SUP)
    by = {}
    for i in items:
        by.setdefault(i['key'], i)
    for n in TYPES:
        i = by.get('struct ' + n) or by.get('enum ' + n)
        if i is None:
            raise Unsupported('no type ' + n)
        o.text(type_text(i))
    o.text(SPEC)
    o.text(LEM)
    for key, impl, name, c, generics, tysub in table():
        if impl:
            ig = (by.get(key) or {}).get('impl_generics', '').replace(' ', '')
            if impl.startswith('impl ') and re.fullmatch(r"<'\w+>", ig):
                impl = 'impl' + ig + impl[4:]
            o.add(impl + ' {')
        emit(o, key.strip('|').replace('|', '::'), name, by.get(key), c, vis='' if ' for ' in (impl or '') else 'pub ', generics=generics, tysub=tysub)
        if impl:
            o.add('}')
    o.text(open(os.path.join(ROOT, 'vx', 'order.vrs')).read())
    o.text('proof fn vf_canary() { broadcast use string_ext; broadcast use pair_ht; broadcast use pest_shape; assert(1int == 2int); }')
    o.canary = len(o.lines)
    o.text('fn main() {}\n}')
    return o


HEAD = '''#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals, dead_code, unused_mut, unreachable_patterns, unused_imports, unused_parens, unused_braces, unused_variables, unused_assignments)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
'''

def shape_texts(n=240):
    """sentences of the grammar in many layouts, and near-sentences"""
    import random
    import corpus
    import guide
    r = random.Random('shapes')
    specs = [s for s in corpus.fixed()] + [guide.wild('shape-%d' % i, 's') for i in range(n // 3)]
    out = []
    for s in specs:
        ts = [s.render(r=r), s.render()]
        toks = re.findall(r'\w+|[^\w\s]', ts[1])
        for _ in range(4):
            t = list(toks)
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(len(t))
                k = r.random()
                if k < .4:
                    del t[i]
                elif k < .7:
                    t.insert(i, r.choice(toks))
                else:
                    t[i] = r.choice(toks)
                if not t:
                    t = ['x']
            ts.append(' '.join(t))
        # each declaration on its own with one change: far likelier to remain a sentence
        out += ts
    for d in [d for s in specs for d in s.decls]:
        t = re.findall(r'\w+|[^\w\s]', specs[0].render([d]))
        for _ in range(3):
            u = list(t)
            i, k = r.randrange(len(u)), r.random()
            if k < .5:
                del u[i]
            elif k < .8:
                u.insert(i, r.choice(t))
            else:
                u[i:i + 2] = u[i:i + 2][::-1]
            out.append(' '.join(u))
    return out


def shapes_hold(shapes):
    """the shapes read off the grammar against the trees pest builds with it: (texts, sentences, distinct pairs, first disagreement)"""
    exe = engine.build(('fxshapes',))['fxshapes']
    r = subprocess.run([exe], input='\0'.join(shape_texts()), capture_output=True, text=True, timeout=120)
    ls = r.stdout.splitlines()
    if r.returncode or not ls:
        raise Unsupported('the parse trees could not be built: ' + r.stderr[-200:])
    n, ok = map(int, ls[0].split())
    bad = None
    for l in ls[1:]:
        w = l.split()
        if w[0] == '!':
            bad = bad or l
        elif w[0] == 'EOI':
            bad = bad or (l if len(w) > 1 else None)
        else:
            rule, ks = w[0], w[1:]
            lo, hi, pos, names = shapes.shape(rule)
            tail = shapes.tail(rule)
            if not (lo <= len(ks) <= hi and all(k in names for k in ks) and all(k in pos[i] for i, k in enumerate(ks[:len(pos)])) and
                    (hi <= len(pos) or all(k in tail[1] for k in ks[tail[0]:]))):
                bad = bad or l[:200]
    return n, ok, len(ls) - 1, bad


def verify(tmp):
    import proofs
    sh = Shapes(os.path.join(REPO, 'src/xdr.pest'))
    o = ast_file(extract([os.path.join(REPO, 'src/ast', f + '.rs') for f in FILES]), sh)
    tried = shapes_hold(sh)
    if tried[3]:
        raise Unsupported('the parse trees are not what the grammar was read to give: ' + tried[3])
    path = os.path.join(tmp, 'ast.v.rs')
    res = proofs.run_verus(path, o, 'src/ast', timeout=240)
    if [f['fn'] for f in res.failed] == ['From < String >::BasicType::from']:
        # no parse tree gives this function the word `unsigned` (its node is the type); either reading of it will do, in all places
        k = next(i for i, l in enumerate(o.lines) if 'spec fn is_b_owned(' in l)
        o.lines[k] = 'pub open spec fn is_b_owned(b: BasicType, s: Seq<char>) -> bool { is_b(b, s) }'
        r = proofs.run_verus(path, o, 'src/ast', timeout=240)
        res = res if r.failed else r
    res.shapes = tried
    return res


if __name__ == '__main__':
    import sys
    import proofs
    its = extract([os.path.join(REPO, 'src/ast', f + '.rs') for f in FILES])
    o = ast_file(its, Shapes(os.path.join(REPO, 'src/xdr.pest')))
    r = proofs.run_verus(sys.argv[1], o, 'ast')
    print(r.verified, r.errors, '%.1f' % r.time, r.unsupported)
    for f in r.failed[:12]:
        print('  ', f['obligation'], '|', f['message'][:80], [a[:200] for a in f['at'][:3]])

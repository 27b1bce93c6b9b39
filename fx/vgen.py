"""Assembling Verus files: the woven bodies of the real functions under contracts, with a line -> obligation map."""
import re


class Unsupported(Exception):
    """the verifier cannot be asked about this text (never a verdict)"""


def norm(t):
    return re.sub(r'\s+', '', t)


class Out:
    def __init__(self):
        self.lines = []
        self.canary = -1
        self.special = {}     # line of a trusted precondition -> properties
        self.clause = {}      # line -> (function key, clause name, properties)
        self.fns = []         # (first line, last line, key, properties of the built-in obligations)

    def text(self, t):
        self.lines += t.rstrip('\n').split('\n')

    def add(self, line, info=None):
        self.lines.append(line)
        if info:
            self.clause[len(self.lines)] = info

    def dump(self):
        return '\n'.join(self.lines) + '\n'

    def owner(self, line):
        for a, b, k, props in self.fns:
            if a <= line <= b:
                return k, props
        return None, None


class Contract:
    """requires/ensures: lists of (clause name, properties, text); loops: {index: (kind, [(name, props, text)], decreases, prologue)}"""

    def __init__(self, requires=(), ensures=(), loops=None, pro='', builtin=(), decreases=None, ret=None, params=None, attrs='', budget=''):
        self.requires, self.ensures, self.loops, self.pro, self.builtin = list(requires), list(ensures), loops or {}, pro, tuple(builtin)
        self.decreases, self.ret, self.params, self.attrs, self.budget = decreases, ret, params, attrs, budget


def emit_fn(o, key, name, fn, c, subst=None, vis='pub ', extbody=False, tysub=None):
    """fn: the weaver's record (None: contract only); writes the function under contract"""
    tysub = tysub or (lambda t: t)
    if fn is not None and fn['bad']:
        raise Unsupported('%s: %s' % (key, fn['bad'][0]))
    names = [p['name'] for p in fn['params']]
    tys = [norm(tysub(p['ty'])) for p in fn['params']]
    if c.params is not None and [norm(t) for t in c.params] != tys:
        raise Unsupported('%s: parameters are %s' % (key, tys))
    if c.ret is not None and norm(c.ret) != norm(tysub(fn['ret'])):
        raise Unsupported('%s: returns %s' % (key, fn['ret']))
    S = {'$%d' % i: n for i, n in enumerate(names)}

    def sub(t, extra=None):
        m = dict(S, **(extra or {}))
        return re.sub(r'\$\w+', lambda k: m[k.group(0)], t)
    ps = []
    for p in fn['params']:
        if p['name'] == 'self':
            ps.append(p['self'])
        else:
            ps.append('%s%s: %s' % ('mut ' if p['mut'] else '', p['name'], tysub(p['ty'])))
    first = len(o.lines) + 1
    if c.attrs:
        o.add(c.attrs)
    if extbody:
        o.add('#[verifier::external_body]')
    o.add('%sfn %s(%s) -> (ret__: %s)' % (vis, name, ', '.join(ps), tysub(fn['ret'])))
    if c.requires:
        o.add('  requires')
        for n, props, t in c.requires:
            o.add('    %s,' % sub(t), (key, n, props))
    if c.ensures:
        o.add('  ensures')
        for n, props, t in c.ensures:
            o.add('    %s,' % sub(t), (key, n, props))
    if c.decreases:
        o.add('  decreases %s' % sub(c.decreases))
    if extbody:
        o.add('{ unimplemented!() }')
        return
    body = tysub(fn['body'])
    if fn['loops'] and len(fn['loops']) != len(c.loops):
        raise Unsupported('%s: %d loops, annotations for %d' % (key, len(fn['loops']), len(c.loops)))
    parts = re.split(r'__VF_LOOP_(\d+)__ \{', body)
    o.add('{ %s' % ('proof { %s }' % sub(c.pro) if c.pro else ''))
    if 'vf_budget' in body:
        if not c.budget:
            raise Unsupported('%s: reserves memory' % key)
        o.add('let ghost vf_budget: int = %s;' % sub(c.budget))
    head = parts[0].lstrip()[1:]
    o.add(head)
    for j in range(1, len(parts), 2):
        li = int(parts[j])
        info = fn['loops'][li]
        cands = c.loops[li]
        spec = cands.get(info['kind'])
        if spec is None:
            raise Unsupported('%s: loop %d is a %s loop' % (key, li, info['kind']))
        extra = {}
        for role in ('push', 'add'):
            vs = sorted(set(info[role]) - ({info['x'].get('var')} if isinstance(info['x'], dict) else set()))
            for n in range(len(vs)):
                extra['$%s%s' % (role, n if n else '')] = vs[n]
        if isinstance(info['x'], dict):
            extra['$i'] = info['x']['var']
            extra['$hi'] = info['x']['hi'] or ''
            extra['$lo'] = info['x']['lo'] or ''
        try:
            o.add('  invariant')
            for n, props, t in spec['inv']:
                o.add('    %s,' % sub(t, extra), (key, 'loop%d.%s' % (li, n), props))
            if spec.get('dec'):
                o.add('  decreases %s' % sub(spec['dec'], extra))
            o.add('{ %s' % ('proof { %s }' % sub(spec['pro'], extra) if spec.get('pro') else ''))
        except KeyError as e:
            raise Unsupported('%s: loop %d has no variable in the role %s' % (key, li, e))
        o.add(parts[j + 1])
    o.fns.append((first, len(o.lines), key, c.builtin))

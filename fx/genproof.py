"""The generator side (src/impls, src/lib.rs, the Display implementations) under contract: C14, names for C07."""
import os, re, subprocess, json
import engine
from engine import ROOT, REPO
from vgen import *
import astproof
from astproof import C, T, A

SUP = open(os.path.join(ROOT, 'vx', 'gen.vrs')).read()
FILES = ['src/ast/%s.rs' % f for f in astproof.FILES] + ['src/impls/%s.rs' % f for f in ('mod', 'from', 'types', 'wire_size', 'template/mod', 'template/bytes')] + ['src/lib.rs']
KW = 'as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return Self self static struct super trait true type union unsafe use where while abstract become box do final macro override priv try typeof unsized virtual yield'.split()
N = ('C07',)
WR = r'(?:(?:std :: )?fmt :: )?Write'


def any_(**k):
    c = C(**k)
    c.anyloops = True
    return c


def tysub(t):
    t = re.sub(r"std :: fmt :: Formatter(?: < '_ >)?", 'String', t)
    t = re.sub(r'std :: fmt :: Result', 'Result < () >', t)
    t = re.sub(r"BTreeMap < & ?'?\w* ?str ,", 'BTreeMap < String ,', t)
    t = re.sub(r'impl (?:std :: )?(?:iter :: )?Iterator < Item = & AstType >', "VIter < & AstType >", t)
    t = re.sub(r'impl (?:std :: )?(?:iter :: )?Iterator < Item = \( ?& String , & (?:\w+ :: )*ConstantType ?\) >', "VIter < (& String , & ConstantType) >", t)
    t = re.sub(r'(?:\b(?!std\b)[a-z_]+ :: )+(?=[A-Z])', '', t)
    t = re.sub(r'\bcrate :: (?:[a-z_]+ :: )*', '', t)
    t = re.sub(r'\b(?:std :: )?(?:string :: )?ToString :: to_string\b', 'VToS :: vf_to_string', t)
    t = re.sub(r':: < ([^<>]*(?:< [^<>]*>)?[^<>]*?) , _ >', r':: < \1 >', t)
    return t


def split(g):
    out, d, cur = [], 0, ''
    for ch in g:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]


def genfix(writers):
    def fix(generics, where):
        g = [x for x in split(generics.strip()[1:-1])] if generics.strip() else []
        w = [x for x in split(re.sub(r'^where', '', where.strip()))]
        bad = {re.split(r'[ :]', x)[0] for x in g + w if re.search(r':\s*' + WR + r'\b', x)}
        writers.update(bad)
        ok = lambda x: re.split(r'[ :]', x)[0] not in bad
        f = lambda x: re.sub(r'(?:std :: fmt :: |fmt :: )?\bDisplay\b', 'VShow', x)
        g, w = [f(x) for x in g if ok(x)], [f(x) for x in w if ok(x)]
        return ('< %s >' % ' , '.join(g) if g else ''), ('where ' + ' , '.join(w) if w else '')
    return fix


def table():
    t = []

    def f(key, impl, c, name=None):
        t.append((key, impl, name or re.split(r'[|/]', key)[-1], c))
    for n, g in (('ArraySize', ''), ('ArrayType < T >', '<T: VShow>'), ('BasicType', ''), ('VariantValue', ''), ('AstType', ''), ('ConstantType', ''), ('ReferenceType', '')):
        f('Display|%s|fmt' % n, 'impl%s VShow for %s' % (g, n), any_())
    f('Display|SafeName < T >|fmt', 'impl<T: AsRefStr> VShow for SafeName<T>', any_())
    f('Display|NonDigitName < T >|fmt', 'impl<T: AsRefStr> VShow for NonDigitName<T>', any_())
    f('AsRef < str >|SafeName < T >|as_ref', 'impl<T: AsRefStr> AsRefStr for SafeName<T>', any_())
    f('AsRef < str >|NonDigitName < T >|as_ref', 'impl<T: AsRefStr> AsRefStr for NonDigitName<T>', any_())
    f('|BasicType|as_safe_string', 'impl BasicType', any_(ensures=[('name', N, 'ret__@ == match *self { BasicType::Ident(s) => type_name_text(s@), _ => bstr(*self) }')]))
    f('|ArrayType < T >|write_with_bounds', 'impl<T: VShow> ArrayType<T>', any_(ensures=[('ok', T, 'ret__ is Ok')]))
    for n in ('Bytes', 'RefMutBytes'):
        f('FromTemplate|%s|*' % n, 'impl FromTemplate for ' + n, any_())
    f('|TypeResolve|use_alias', 'impl TypeResolve', any_(ensures=[('alias', T, 'ret__ == (*self is UseAlias)')]))
    f('literal_matcher', None, any_())
    f('print_decode_basic_type', None, any_(decreases='(if $3 is UseAlias { 0int } else { 1int })'))
    f('print_decode_array', None, any_())
    f('print_impl_from', None, any_())
    f('print_impl_wire_size', None, any_())
    f('print_types', None, any_())
    f('|Generator|generate', 'impl Generator', any_(ensures=[('rejects', T, 'pest_parse(Rule::item, $1@) is None ==> ret__ is Err')]))
    return t


TRAIT = 'pub trait FromTemplate: Copy { fn type_name(&self) -> &\'static str; fn try_from(&self) -> &\'static str; fn ref_type(&self) -> ReferenceType; }'


def build_file(items, shapes, tx=None):
    """tx: the module that states the text of every emitter too (fx/textproof.py)"""
    o = Out()
    o.text(astproof.HEAD)
    o.text(shapes.text())
    o.text(astproof.SUP)
    sup = SUP.replace('@KW@', ' || '.join('s == "%s"@' % k for k in KW))
    o.text(tx.sup(sup) if tx else sup)
    by = {}
    for i in items:
        by.setdefault(i['key'], i)
    for n in astproof.TYPES + ['SafeName', 'NonDigitName', 'Bytes', 'RefMutBytes', 'ReferenceType', 'TypeResolve', 'Generator']:
        i = by.get('struct ' + n) or by.get('enum ' + n)
        if i is None:
            raise Unsupported('no type ' + n)
        o.text(astproof.type_text(i))
        g = '<T>' if '< T' in i['generics'] or '<T' in i['generics'] else ''
        if re.search(r'\bPartialEq\b', i['derive']) and not g and not i['generics'].strip():
            o.text('impl%s PartialEq for %s%s { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool)%s { unimplemented!() } }' % (g and '<T: PartialEq>', n, g, ' ensures r == (*self == *o)' if tx else ''))
        if re.search(r'\bCopy\b', i['derive']):
            o.text('impl Copy for %s {}' % n)
    o.text(astproof.SPEC)
    o.text(astproof.LEM)
    if tx:
        o.text(tx.SPEC)
    o.text(tx.TRAIT if tx else TRAIT)
    seen = set()

    def one(key, impl, name, c, tys=tysub, ext=False):
        writers = set()
        if impl:
            ig = (by.get(key) or {}).get('impl_generics', '').replace(' ', '')
            if impl.startswith('impl ') and re.fullmatch(r"<'\w+>", ig) and "'" not in impl:
                impl = 'impl' + ig + impl[4:]
            o.add(impl + ' {')
            extra = {'VShow': 'Display'}
            m = re.match(r'impl(?:<[^>]*>)? VShow for SafeName', impl)
            if tx:
                tx.impl(o, impl)
            elif 'VShow for SafeName' in impl:
                o.add('open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + safe(self.0.sv()) }')
            elif 'VShow for NonDigitName' in impl:
                o.add('open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { b == a + nondigit(self.0.sv()) }')
            elif 'VShow for' in impl:
                o.add('open spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { true }')
            elif 'AsRefStr for' in impl:
                o.add('open spec fn sv(&self) -> Seq<char> { self.0.sv() }')
        keys = sorted(k for k in by if k.startswith(key[:-1]) and k.count('|') == 2) if key.endswith('*') else [key]
        for k in keys:
            fn = by.get(k)
            gf = genfix(writers)
            if fn:
                gf(fn['generics'], fn['where'] or '')

            def ts(t):
                t = tys(t)
                for w in writers:
                    t = re.sub(r'& mut %s\b' % w, '& mut String', t)
                    t = re.sub(r'^%s$' % w, '& mut String', t.strip())
                return t
            if fn and key.startswith('|Generator|generate'):
                fn = dict(fn, generics='', params=[dict(p, ty='& str' if p['ty'] == 'T' else p['ty']) for p in fn['params']])
            if fn:
                fn = dict(fn, params=[dict(p, mut=False) if p['ty'] in writers else p for p in fn['params']])
            astproof.emit(o, k.strip('|').replace('|', '::'), name if name != '*' else k.split('|')[2], fn, c, vis='' if ' for ' in (impl or '') else 'pub ', tysub=ts, genfix=gf, ext=ext)
        if impl:
            o.add('}')
    # the parser side, by contract (its own file discharges it)
    mine = tx.table() if tx else table()
    keys = {x[0] for x in mine}
    for key, impl, name, c, generics, tys in astproof.table():
        if key in keys or '/' in key or key.startswith(('try_walk', '|Variant|new', '|UnionCase|new', '|CaseStmt|', '|Typedef|new', '|Struct|new', '|StructField|new', '|Union|new', '|Enum|new')) or key.startswith('|GenericIndex|new') or key.startswith(('|TypeIndex|new', '|ConstantIndex|new')):
            continue
        one(key, impl, name, c, tys=lambda t, g=tys: tysub((g or (lambda x: x))(t)), ext=True)
    for n, ty, r in (('TypeIndex', 'types', 'AstType'),):
        pass
    for key, impl, ret in (('|TypeIndex|iter', 'impl TypeIndex', None), ('|ConstantIndex|iter', 'impl ConstantIndex', None)):
        one(key, impl, 'vf_iter', any_(ensures=[('start', T, 'ret__.pos() == 0')] + (tx.ITER[impl] if tx else [])))
    for n in ('SafeName<T>', 'NonDigitName<T>', 'BasicType', 'AstType', 'VariantValue', 'ArraySize', 'u32', 'i32', 'usize', 'ReferenceType', 'ArrayType<T>', 'ConstantType'):
        b = '<T: VShow>' if n.startswith('Array') and '<' in n else '<T: AsRefStr>' if '<' in n else ''
        o.text('impl%s VToS for %s { ' % (b, n) + ('open spec fn tos(&self) -> Seq<char> { self.app(Seq::empty()) } ' if tx else '') + 'fn vf_to_string(&self) -> (r: String) { let mut f = vf_text(); let vf_r = VShow::fmt(self, &mut f); f } }')
    for key, impl, name, c in mine:
        one(key, impl, name, c)
    finish(o)
    if tx:
        tx.finish(o)
    return o



MAIN = ('C15',)


def main_file(items, shapes):
    o = Out()
    o.text(astproof.HEAD)
    o.text(shapes.text())
    o.text(astproof.SUP)
    o.text(SUP.replace('@KW@', 'true'))
    o.text(open(os.path.join(ROOT, 'vx', 'main.vrs')).read())
    fs = [i for i in items if i['key'] == 'main']
    if len(fs) != 1 or fs[0]['params']:
        raise Unsupported('no single main function')
    fn = dict(fs[0], params=[{'name': 'vf_w', 'mut': False, 'ty': '& mut World'}])
    if not re.match(r'^(?:std :: result :: |fastxdr :: )?Result <', fn['ret']):
        raise Unsupported('main returns ' + fn['ret'])
    fn['ret'] = 'Result < () >'
    fn['body'] = re.sub(r'\bfastxdr :: ', '', fn['body'])
    fn['body'] = re.sub(r'\b(let vf_hr\d+) : ! =', r'\1 =', fn['body'])
    fn['body'] = fn['body'].replace(' . count ()', ' . vf_len ()')
    fn['body'] = re.sub(r' \. collect (?::: < [^()]* > )?\(\)', ' . vf_collect ()', fn['body'])
    fn['body'] = re.sub(r'(?<![\w.] )\b(\w+) \[(\d+) \.\.\]', r'vf_tail (& \1 , \2)', fn['body'])
    inv = [('unchanged', MAIN, '$0.same(vf_w0)'), ('pending', MAIN, 'paths($s) =~= vf_w0.args().skip(1)'), ('files', MAIN, 'vf_w0.args().len() >= 2'), ('texts', MAIN, 'texts(vf_w0.args(), vf_w0.fs(), $it.pos() as nat) is Some && $0.out() == texts(vf_w0.args(), vf_w0.fs(), $it.pos() as nat)->Some_0')]
    c = C(requires=[('start', MAIN, '$0.out() == Seq::<char>::empty()'), ('named', MAIN, '$0.args().len() >= 1'), ('program', MAIN, '$0.args().len() < usize::MAX')],
          ensures=[('success', MAIN, 'ret__ is Ok ==> may_end(*final($0), true)'), ('failure', MAIN, 'ret__ is Err ==> may_end(*final($0), false)')],
          loops={0: {'for': {'inv': inv, 'pro': 'assert(paths($s)[$it.pos()] == $s[$it.pos()].pv()); texts_step(vf_w0.args(), vf_w0.fs(), $it.pos() as nat);'}}}, builtin=MAIN)
    astproof.emit(o, 'main', 'vf_main', fn, c, tysub=lambda t: tysub(re.sub(r'\b(?:std :: )?(?:ffi :: |path :: )?(?:OsStr|OsString|PathBuf|Path)\b', 'OsString', t)))
    o.lines = [l.replace('vf_w0', 'old(vf_w)') for l in o.lines]
    finish(o)
    return o


def finish(o):
    o.text('proof fn vf_canary() { broadcast use string_ext; assert(1int == 2int); }')
    o.canary = len(o.lines)
    o.text('fn main() {}\n}')
    o.special_label = 'name text'
    o.special = {k + 1: N for k, l in enumerate(o.lines) if '@TEXT@' in l}
    o.lines = [l.replace('{ broadcast use string_ext;', '{ broadcast use {string_ext, cat3, cat0};') for l in o.lines]
    o.lines = [re.sub(r'\bfn as_ref\b', 'fn vf_as_ref', re.sub(r' \. (iter|values) \(\)', r' . vf_\1 ()', l)) for l in o.lines]


def known():
    return {k for x in table() + astproof.table() for k in re.split(r'[|/]', x[0])} | {x[2] for x in table() + astproof.table()} | {'iter', 'type_name', 'try_from', 'ref_type'}


def extract(files=FILES, names=None):
    fs = [os.path.join(REPO, f) for f in files]
    b = astproof.build()
    if any(not os.path.exists(f) for f in fs):
        raise Unsupported('a source file has moved')
    r = subprocess.run([b, ','.join(sorted(known() if names is None else names)), 'texts'], input='\n'.join(fs) + '\n', capture_output=True, text=True)
    its = []
    for f, l in zip(fs, r.stdout.splitlines()):
        v = json.loads(l)
        if 'error' in v:
            raise Unsupported('does not parse: ' + v['error'])
        for i in v['items']:
            i['file'] = os.path.relpath(f, REPO)
            its.append(i)
    if r.returncode:
        raise Unsupported('the weaver stopped: ' + r.stderr[-300:])
    return its


def verify(tmp):
    import proofs
    o = build_file(extract(), astproof.Shapes(os.path.join(REPO, 'src/xdr.pest')))
    r = proofs.run_verus(os.path.join(tmp, 'gen.v.rs'), o, 'src/impls', timeout=240)
    g = [f for f in r.failed if f['fn'] in getattr(o, 'guess', ())]
    if g:
        r.unsupported = r.unsupported or 'a while loop without a contract: ' + g[0]['obligation']
        r.failed = [f for f in r.failed if f not in g]
    return r



def verify_main(tmp):
    import proofs
    o = main_file(extract(['src/main.rs'], {'main'}), astproof.Shapes(os.path.join(REPO, 'src/xdr.pest')))
    return proofs.run_verus(os.path.join(tmp, 'main.v.rs'), o, 'src/main', timeout=240)


if __name__ == '__main__':
    import sys
    import proofs
    o = build_file(extract(), astproof.Shapes(os.path.join(REPO, 'src/xdr.pest'))) if len(sys.argv) < 3 else main_file(extract(['src/main.rs'], {'main'}), astproof.Shapes(os.path.join(REPO, 'src/xdr.pest')))
    open(sys.argv[1], 'w').write(o.dump())
    r = proofs.run_verus(sys.argv[1], o, 'gen')
    print(r.verified, r.errors, '%.1f' % r.time, r.unsupported)
    for f in r.failed[:12]:
        print('  ', f['obligation'], '|', f['message'][:80], [a[:200] for a in f['at'][:3]])

"""What the emitters write, by contract (vx/text.vrs): the text of the module is a stated function of the declarations.
Nothing here raises an alarm: a change that rewrites the output another way loses the theorem, not the check."""
import os, re, sys
from engine import ROOT, REPO
from vgen import *
import astproof, genproof
from astproof import C, T

P = ('text',)
TOK = re.compile(r'[A-Za-z0-9_]+|.', re.S)


def q(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def unq(l):
    return re.sub(r'\\(n|"|\\|\'|t)', lambda m: {'n': '\n', 't': '\t'}.get(m.group(1), m.group(1)), l)


LIT = r'"((?:[^"\\]|\\.)*)"'


def dsl(s):
    """@[a; pieces] by left-nested sums"""
    while True:
        i = s.rfind('@[')
        if i < 0:
            return s
        d, j, ins = 0, i + 1, False
        semi = None
        while True:
            c = s[j]
            if ins:
                if c == '\\':
                    j += 1
                elif c == '"':
                    ins = False
            elif c == '"':
                ins = True
            elif c in '[({':
                d += 1
            elif c in '])}':
                d -= 1
                if d == 0:
                    break
            elif c == ';' and d == 1 and semi is None:
                semi = j
            j += 1
        acc, rest = s[i + 2:semi].strip(), s[semi + 1:j].strip()
        while rest:
            m = re.match(LIT, rest)
            if m:
                for t in TOK.findall(unq(m.group(1))):
                    acc = '(%s + %s@)' % (acc, q(t))
                rest = rest[m.end():].strip()
                continue
            o, d, k, ins = rest[0], 0, 0, False
            while True:
                c = rest[k]
                if ins:
                    ins = c != '"'
                elif c == '"':
                    ins = True
                elif c in '({[':
                    d += 1
                elif c in ')}]':
                    d -= 1
                    if d == 0:
                        break
                k += 1
            x = rest[1:k].strip()
            acc = '(%s + (%s))' % (acc, x) if o == '(' else re.sub(r'(?<![\w])_(?![\w])', lambda m: acc, x, count=1)
            rest = rest[k + 1:].strip()
        s = s[:i] + acc + s[j + 1:]


def sup(s):
    """the trusted model of text output, with Display as a function of what was written before"""
    s = re.sub(r'spec fn text\(&self, a: Seq<char>, b: Seq<char>\) -> bool;', 'spec fn app(&self, a: Seq<char>) -> Seq<char>;', s)
    s = s.replace('self.text(old(f)@, final(f)@)', 'final(f)@ == self.app(old(f)@)').replace('ensures x.text(old(self).ov(), final(self).ov())', 'ensures final(self).ov() == x.app(old(self).ov())')
    s = re.sub(r'spec fn text\(&self, a: Seq<char>, b: Seq<char>\) -> bool \{ b == a \+ (.*?) \} #', r'spec fn app(&self, a: Seq<char>) -> Seq<char> { a + \1 } #', s)
    s = s.replace('spec fn text(&self, a: Seq<char>, b: Seq<char>) -> bool { (**self).text(a, b) }', 'spec fn app(&self, a: Seq<char>) -> Seq<char> { (**self).app(a) }')
    s = s.replace('pub trait VToS { fn vf_to_string(&self) -> (r: String); }', 'pub trait VToS { spec fn tos(&self) -> Seq<char>; fn vf_to_string(&self) -> (r: String) ensures r@ == self.tos(); }')
    s = s.replace("pub fn vf_include() -> &'static str {", "pub fn vf_include() -> (r: &'static str) ensures r@ == header_text() {")
    s = s.replace('n: usize) -> Option<&\'a str> { unimplemented!() }', 'n: usize) -> (r: Option<&\'a str>) ensures r is Some == split_nth(s@, p@, n as int) is Some, r is Some ==> r->Some_0@ == split_nth(s@, p@, n as int)->Some_0 { unimplemented!() }')
    s = s.replace('pub trait VJoin { fn vf_join(&self, p: &str) -> String; }', 'pub trait VJoin { spec fn parts(&self) -> Seq<Seq<char>>; fn vf_join(&self, p: &str) -> (r: String) ensures r@ == joined(self.parts(), p@); }')
    s = re.sub(r'impl VJoin for Vec<(&str|String)> \{ #\[verifier::external_body\] fn vf_join\(&self, p: &str\) -> String', lambda m: 'impl VJoin for Vec<%s> { open spec fn parts(&self) -> Seq<Seq<char>> { %s }' % (m.group(1), 'strviews(self@)' if m.group(1)[0] == '&' else 'self@.map_values(|s: String| s@)') + ' #[verifier::external_body] fn vf_join(&self, p: &str) -> (r: String)', s)
    s = re.sub(r'pub uninterp spec fn mvalues.*\n.*mpairs.*\n', '/// the keys of a map, in order\npub uninterp spec fn skeys(s: Set<Seq<char>>) -> Seq<Seq<char>>;\npub broadcast axiom fn skeys_in(s: Set<Seq<char>>, i: int) requires 0 <= i < skeys(s).len() ensures s.contains(#[trigger] skeys(s)[i]);\n', s)
    s = s.replace('refs(r.all(), mvalues(self@))', 'r.all().len() == skeys(self@.dom()).len(), forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]) == self@[skeys(self@.dom())[i]]')
    s = re.sub(r'r\.all\(\)\.len\(\) == mpairs\(self@\)\.len\(\), forall.*?==> .*? \{ unimpl', 'r.all().len() == skeys(self@.dom()).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0@ == skeys(self@.dom())[i] && *r.all()[i].1 == self@[skeys(self@.dom())[i]] { unimpl', s)
    return s


def W(fn):
    """the loop writes: what it has written so far"""
    return lambda n, m: dict(inv=[('text', P, '$0@ == ' + fn.replace('B', 'vf_b%d' % n).replace('S', 'derefs($s)').replace('I', '$it.pos()'))])


TL = 'vf_st%d.len() == skeys(D.t.dom()).len(), forall|i: int| 0 <= i < $s.len() ==> *(#[trigger] $s[i]) == D.t[skeys(D.t.dom())[i]]'
APP = {'ArraySize': 'match *self { ArraySize::Known(n) => @[a; (dec(n as int))], ArraySize::Constant(s) => @[a; (s@) " as usize"] }',
       'ArrayType': 'arr(a, *self, ""@)', 'BasicType': '@[a; (bname(*self))]', 'VariantValue': 'match *self { VariantValue::String(s) => @[a; (s@)], VariantValue::Numeric(n) => @[a; (dec(n as int))] }',
       'AstType': '@[a; (iname(*self))]', 'ConstantType': 'match *self { ConstantType::ConstValue(s) => @[a; (s@)], ConstantType::EnumValue { enum_name, variant } => @[a; (enum_name@) "::" (variant@)] }',
       'ReferenceType': 'refapp(*self, a)', 'SafeName': 'safe_app(a, self.0.sv())', 'NonDigitName': 'nd_app(a, self.0.sv())'}
TRAIT = "pub trait FromTemplate: Copy { spec fn tn(&self) -> Seq<char>; spec fn tf(&self) -> Seq<char>; spec fn rt(&self) -> ReferenceType; fn type_name(&self) -> (r: &'static str) ensures r@ == self.tn(); fn try_from(&self) -> (r: &'static str) ensures r@ == self.tf(); fn ref_type(&self) -> (r: ReferenceType) ensures r == self.rt(); }"
K = {'Bytes': 'k_owned()', 'RefMutBytes': 'k_borrowed()'}
SPEC = open(os.path.join(ROOT, 'vx', 'order.vrs')).read() + dsl(open(os.path.join(ROOT, 'vx', 'text.vrs')).read()) + open(os.path.join(ROOT, 'vx', 'unique.vrs')).read()
ITER = {'impl TypeIndex': [('values', P, 'ret__.all().len() == skeys(self.0@.dom()).len(), forall|i: int| 0 <= i < ret__.all().len() ==> *(#[trigger] ret__.all()[i]) == self.0@[skeys(self.0@.dom())[i]]')],
        'impl ConstantIndex': [('pairs', P, 'ret__.all().len() == skeys(self.0@.dom()).len(), forall|i: int| 0 <= i < ret__.all().len() ==> (#[trigger] ret__.all()[i]).0@ == skeys(self.0@.dom())[i] && *ret__.all()[i].1 == self.0@[skeys(self.0@.dom())[i]]')]}


def impl(o, i):
    m = re.search(r'VShow for (\w+)', i)
    if m:
        o.add('open spec fn app(&self, a: Seq<char>) -> Seq<char> { %s }' % dsl(APP[m.group(1)]))
    elif 'AsRefStr for' in i:
        o.add('open spec fn sv(&self) -> Seq<char> { self.0.sv() }')
    m = re.search(r'FromTemplate for (\w+)', i)
    if m:
        k = K[m.group(1)]
        o.add('open spec fn tn(&self) -> Seq<char> { %s.tn } open spec fn tf(&self) -> Seq<char> { %s.tf } open spec fn rt(&self) -> ReferenceType { %s.r }' % (k, k, k))


BU = '{string_ext, cat0, derefs_refs, derefs_cat, derefs_at, derefs_len, derefs_push, views_one, views_str, lem_vfind, lem_value}'


def loops(d, rules, pro=''):
    """the contract of each loop, told by what it runs over; names of locals are read off the code"""
    def pick(fn, li):
        infos = fn['loops']
        l = infos[li]
        y = re.search(r'let (\w+) = [^;]*?\bresolve_alias \(', fn['body'])
        x = l['x'] if isinstance(l['x'], str) else ''
        n = sum(1 for i in infos[:li] if i['kind'] == l['kind'] and i['x'] == l['x'])
        for kind, rx, inv, *own in rules:
            m = re.search(rx, x)
            if m and kind == l['kind']:
                f = {'D': 'dd(*%s)' % d, 'B': 'vf_b%d' % li, 'S': 'derefs($s)', 'I': '$it.pos()', 'Q': 'true' if n else 'false', 'W': '*' + (y.group(1) if y else 'switch_type')}
                if m.groups():
                    f['C'] = m.group(1)
                r = re.search(r'UseAlias , (\w+)', fn['body'][fn['body'].index('__VF_LOOP_%d__' % li):])
                if 'R' in inv.split():
                    inv = re.sub(r'\bR\b', r.group(1) if r else 'try_from', inv)
                return dict(inv=[('text', P, re.sub(r'\b[DBSICQW]\b(?!\()', lambda y: f[y.group(0)], inv))], pro='broadcast use %s; %s' % (BU, own[0] if own else pro))
        return None
    return pick


def table():
    t = []

    def f(key, impl, c, lf=None, name=None):
        if lf:
            c.loopfn = lf
        t.append((key, impl, name or re.split(r'[|/]', key)[-1], c))
    for n, g in (('ArraySize', ''), ('ArrayType < T >', '<T: VShow>'), ('BasicType', ''), ('VariantValue', ''), ('AstType', ''), ('ConstantType', ''), ('ReferenceType', '')):
        f('Display|%s|fmt' % n, 'impl%s VShow for %s' % (g, n), C())
    for n in ('SafeName', 'NonDigitName'):
        f('Display|%s < T >|fmt' % n, 'impl<T: AsRefStr> VShow for %s<T>' % n, C())
    for n in ('SafeName', 'NonDigitName'):
        f('AsRef < str >|%s < T >|as_ref' % n, 'impl<T: AsRefStr> AsRefStr for %s<T>' % n, C())
    f('|BasicType|as_safe_string', 'impl BasicType', C(ensures=[('name', P, 'ret__@ == bname(*self)')]))
    f('|ArrayType < T >|write_with_bounds', 'impl<T: VShow> ArrayType<T>', C(ensures=[('ok', T, 'ret__ is Ok'), ('text', P, 'final($1)@ == arr(old($1)@, *self, bounds($2))')], pro='reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());'),
      loops('ast', [('collect', '', 'parts_to($push, $s, I)')]))
    for n in ('Bytes', 'RefMutBytes'):
        f('FromTemplate|%s|*' % n, 'impl FromTemplate for ' + n, C())
    f('|TypeResolve|use_alias', 'impl TypeResolve', C(ensures=[('alias', T, 'ret__ == (*self is UseAlias)')]))
    f('literal_matcher', None, C(ensures=[('text', P, 'ret__@ == literal(dd(*$0), *$1, $2@)')]), loops('$0', [('find', '', 'found($r, vfind(S, value, I))')]))
    f('print_decode_basic_type', None, C(ensures=[('text', P, 'ret__ is Ok ==> final($0)@ == basic(old($0)@, dd(*$2), *$1, $3 is UseAlias, $4)')], decreases='(if $3 is UseAlias { 0int } else { 1int })'))
    f('print_decode_array', None, C(ensures=[('text', P, 'ret__ is Ok ==> final($0)@ == arr_from(old($0)@, dd(*$3), kk($1), *$2, $4 is UseAlias, $5)')], pro='reveal(arr_from);'), loops('$3', [('for', r'\.\.', '$0@ == rep(B, D, *$2, $4 is UseAlias, $5, I)')]))
    TT = ', $s.len() == skeys(D.t.dom()).len(), forall|i: int| 0 <= i < $s.len() ==> *(#[trigger] $s[i]) == D.t[skeys(D.t.dom())[i]]'
    CC = ', $s.len() == skeys(D.c.dom()).len(), forall|i: int| 0 <= i < $s.len() ==> (#[trigger] $s[i]).0@ == skeys(D.c.dom())[i] && *$s[i].1 == D.c[skeys(D.c.dom())[i]]'
    f('print_impl_from', None, C(ensures=[('text', P, 'ret__ is Ok ==> final($0)@ == from_text(old($0)@, dd(*$2), kk($1))')], pro='reveal(from_text); reveal(item_from);'), loops('$2', [
        ('for', r'\btypes \(\)', '$0@ == items_from(B, D, kk($1), I)' + TT, 'reveal(item_from); assume(vf_case(*$s[$it.pos()]));'), ('for', r'\. fields\b', 'R == $1.rt() && $0@ == fields_from(B, D, kk($1), S, I)'), ('for', r'^(\w+) \. case_values\b', 'R == $1.rt() && $0@ == labels_from(B, D, kk($1), W, C.field_value, S, I)'),
        ('for', r'\. cases\b', 'R == $1.rt() && $0@ == arms_from(B, D, kk($1), W, S, I)'), ('filter', r'\. void_cases\b', 'derefs($push@) == vsel(S, Q, I)'), ('for', r'\. variants\b', '$0@ == members_from(B, S, I)'),
        ('for', r'\. chain\b', '$0@ == voids_from(B, D, W, S, I), $set == has_default(S, I)')], 'reveal(matcher);'))
    f('print_impl_wire_size', None, C(ensures=[('text', P, 'ret__ is Ok ==> final($0)@ == size_text(old($0)@, dd(*$2), kk($1))')], pro='reveal(size_text); reveal(item_size);'), loops('$2', [
        ('for', r'\btypes \(\)', '$0@ == items_size(B, D, kk($1), I)' + TT, 'reveal(item_size);'), ('for', r'\. fields\b', '$0@ == fields_size(B, S, I)'), ('for', r'^(\w+) \. case_values\b', '$0@ == labels_size(B, elem(C.field_value) is Opaque, S, I)'),
        ('for', r'\. cases\b', '$0@ == arms_size(B, S, I)'), ('for', r'\. void_cases\b', '$0@ == voids_size(B, S, I)')]))
    f('print_types', None, C(ensures=[('text', P, 'ret__ is Ok ==> final($0)@ == types_text(old($0)@, dd(*$1), $2@)')], pro='reveal(types_text); reveal(item_ty);'), loops('$1', [
        ('for', r'\bconstants \(\)', '$0@ == consts_text(B, D, I)' + CC), ('for', r'\btypes \(\)', '$0@ == items_ty(B, D, $2@, I)' + TT, 'reveal(item_ty);'), ('for', r'\. fields\b', '$0@ == fields_ty(B, D, S, I)'),
        ('for', r'^(\w+) \. case_values\b', '$0@ == labels_ty(B, D, C.field_value, S, I)'), ('for', r'\. cases\b', '$0@ == arms_ty(B, D, S, I)'), ('for', r'\. void_cases\b', '$0@ == voids_ty(B, S, I)'), ('for', r'\. variants\b', '$0@ == members_ty(B, S, I)')]))
    f('|Generator|generate', 'impl Generator', C(ensures=[('text', P, 'ret__ is Ok ==> exists|a: Ast| #[trigger] ast_text($1@, a) && ret__->Ok_0@ == module_text(self.derive@, dd(a))')]))
    return t


def finish(o):
    b = BU
    o.lines = [l.replace('{ broadcast use {string_ext, cat3, cat0};', '{ broadcast use %s;' % b) for l in o.lines]
    # what Ast::new promises, folded (the definition of ast_text is the same words)
    o.lines = [re.sub(r'pest_parse\(Rule::item, (\w+)@\) is Some && exists\|ns: Seq<Node>\| #\[trigger\] nds\(pest_parse\(Rule::item, \w+@\)->Some_0.kids\(\), ns, pest_parse\(Rule::item, \w+@\)->Some_0.ht\(\)\) && ast_of\(ns, ret__->Ok_0\)', r'ast_text(\1@, ret__->Ok_0)', l) for l in o.lines]
    ar = set()

    def lit(m):
        ts = TOK.findall(unq(m.group(2)))
        ar.add(len(ts))
        return '%s . vf_lit%d (%s)' % (m.group(1), len(ts), ', '.join(q(t) for t in ts))
    w = 'w'
    for k, l in enumerate(o.lines):
        m = re.match(r'pub fn \w+.*?\((\w+): & mut String', l)
        w = m.group(1) if m else 'f' if re.match(r'(pub )?fn ', l) else w
        l = re.sub(r'(\w+) \. vf_show \((& %s)\)' % LIT, lambda m: '%s . vf_lit ("%s")' % (m.group(1), m.group(3)), l)
        l = re.sub(r'(\w+) \. vf_lit \(%s\)' % LIT, lit, l)
        o.lines[k] = re.sub(r'let ghost vf_s(\d+) = ', lambda m: 'let ghost vf_b%s = %s@ ; let ghost vf_s%s = ' % (m.group(1), w, m.group(1)), l) if 'w' == w else l
    k = next(i for i, l in enumerate(o.lines) if 'fn vf_lit(&mut self' in l)
    o.lines[k] += ' ' + ' '.join('fn vf_lit%d(&mut self, %s) ensures final(self).ov() == %s;' % (n, ', '.join('t%d: &str' % i for i in range(n)), '(' * n + 'old(self).ov()' + ''.join(' + t%d@)' % i for i in range(n))) for n in sorted(ar))
    k = next(i for i, l in enumerate(o.lines) if 'fn vf_lit(&mut self' in l and 'external_body' in l)
    o.lines[k] += ' ' + ' '.join('#[verifier::external_body] fn vf_lit%d(&mut self, %s) { unimplemented!() }' % (n, ', '.join('t%d: &str' % i for i in range(n))) for n in sorted(ar))


CASE = 'pub open spec fn vf_case(t: AstType) -> bool { %s }'


def files():
    """three files, equal but for the kind of declaration the loop of print_impl_from is verified for (a proof by cases:
    together they cover every declaration; one query for all of them exceeds what the solver takes)"""
    fs = []
    for c in ('!(t is Union) && !(t is Struct)', 't is Union', 't is Struct'):
        o = genproof.build_file(genproof.extract(), astproof.Shapes(os.path.join(REPO, 'src/xdr.pest')), sys.modules[__name__])
        k = next(i for i, l in enumerate(o.lines) if 'spec fn dd(a: Ast)' in l)
        o.lines[k] += ' ' + CASE % c
        fs.append(o)
    return fs


def verify(tmp, jobs=3):
    """never an alarm: a failure here is a theorem not claimed"""
    import proofs
    from concurrent.futures import ThreadPoolExecutor
    fs = files()
    one = ('--verify-root', '--verify-function', 'print_impl_from')
    more = [(), one, one]
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda k: proofs.run_verus(os.path.join(tmp, 'text%d.v.rs' % k), fs[k], 'text', timeout=400, extra=('--rlimit', '60') + more[k]), range(3)))


if __name__ == '__main__':
    sys.modules['textproof'] = sys.modules['__main__']
    for r in verify(sys.argv[1]):
        print(r.verified, r.errors, '%.1f' % r.time, r.unsupported)
        for f in r.failed[:12]:
            print('  ', f['obligation'], '|', f['message'][:80], [a[:200] for a in f['at'][:3]])

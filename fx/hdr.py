"""Contracts of the runtime (src/header.rs): readers, size helpers."""
from vgen import *

ACC, REJ, KIND = ('C10', 'C01', 'C05', 'C06'), ('C10', 'C05', 'C06'), ('C10', 'C05', 'C06')
POS, VAL, PROV = ('C10', 'C01', 'C03'), ('C10', 'C01', 'C06'), ('C10', 'C08')
SIZE = ('C10', 'C02', 'C01', 'C03')
PANIC = ('C10', 'C04')
ALLOC = ('C09',)
D, H, L = 'old(self)@.data', 'old(self)@.hi', 'old(self)@.lo'


def reader(e, v, a=None, s=None, **kw):
    """e: the parse result; v: the value predicate on ret__->Ok_0"""
    en = [('accepts', ACC, '(%s) is Ok ==> ret__ is Ok' % e), ('rejects', REJ, '(%s) is Err ==> ret__ is Err' % e),
          ('error', KIND, '(%s) is Err && ret__ is Err ==> kind(ret__->Err_0) == (%s)->Err_0' % (e, e)),
          ('advances', POS, 'ret__ is Ok ==> final(self)@ == (Cur { lo: (%s)->Ok_0, ..old(self)@ })' % e),
          ('value', VAL, 'ret__ is Ok ==> %s' % v)]
    if a:
        en.append(('view', PROV, 'ret__ is Ok ==> %s' % a))
    if s:
        en.append(('size', SIZE, 'ret__ is Ok ==> %s' % s))
    kw.setdefault('budget', 'self@.hi - self@.lo')
    return Contract(ensures=en, builtin=PANIC, pro='broadcast use bytes_wf; reveal(padn);', **kw)


X = 'ret__->Ok_0'


def readers():
    c = {}
    for k, w in (('u32', 4), ('i32', 4), ('f32', 4), ('u64', 8), ('i64', 8), ('f64', 8)):
        c['read_' + k] = reader('e_w(%s, %s, %d)' % (H, L, w), 'v_%s(%s, %s, %s)' % (k, X, D, L), params=['&mut Self'], ret='Result<%s, Error>' % k)
    c['read_bool'] = reader('e_bool(%s, %s, %s)' % (D, H, L), 'v_bool(%s, %s, %s)' % (X, D, L), params=['&mut Self'], ret='Result<bool, Error>')
    c['read_bool'].pro += ' reveal(be32); reveal(sx32);'
    c['read_bytes'] = reader('e_fix(%s, %s, $1 as int)' % (H, L), 'v_fix(%s, %s, %s, $1 as int)' % (X, D, L),
                             'a_fix(%s, old(self)@.alloc, %s, $1 as int)' % (X, L), params=['&mut Self', 'usize'], ret='Result<Bytes, Error>')
    c['read_variable_bytes'] = reader('e_cnt(%s, %s, %s, opt_max($1))' % (D, H, L), 'v_cnt(%s, %s, %s)' % (X, D, L),
                                      'a_cnt(%s, old(self)@.alloc, %s, %s)' % (X, D, L), params=['&mut Self', 'Option<usize>'], ret='Result<Bytes, Error>')
    c['read_string'] = reader('e_str(%s, %s, %s, opt_max($1))' % (D, H, L), 'v_str(%s, %s, %s)' % (X, D, L), None,
                              's_str(%s) == 4 + be32(%s, %s) + padn(be32(%s, %s) as int)' % (X, D, L, D, L),
                              params=['&mut Self', 'Option<usize>'], ret='Result<String, Error>')
    for n in ('read_variable_bytes', 'read_string'):
        c[n].budget = 'self@.hi - self@.lo + opt_max($1) + 1'
    return c


def array_reader(T, Y=None, dec=None, paid=True):
    """read_variable_array::<T> for an element type whose decoder meets the element contract"""
    e = 'e_var_%s(%s, %s, %s, opt_max($1))' % (T, D, H, L)
    inv = [('frame', POS, 'self@ == (Cur { lo: self@.lo, ..old(self)@ })'),
           ('count', VAL, '$hi == be32(%s, %s)' % (D, L)),
           ('limit', ACC + REJ, 'opt_max($p1) >= 0 ==> $hi <= opt_max($p1)'),
           ('start', POS, '%s + 4 <= %s' % (L, H)),
           ('cursor', ACC + POS, 'e_arr_%s(%s, %s, %s + 4, $i as int) == R::Ok(self@.lo)' % (T, D, H, L)),
           ('bounds', POS, '%s + 4 <= self@.lo <= %s' % (L, H)),
           ('length', VAL, '$push@.len() == $i'),
           ('values', VAL, 'forall|j: int| 0 <= j < $push@.len() ==> v_at_%s(#[trigger] $push@[j], %s, %s, %s + 4, j)' % (T, D, H, L)),
           ('views', PROV, 'forall|j: int| 0 <= j < $push@.len() ==> a_at_%s(#[trigger] $push@[j], old(self)@.alloc, %s, %s, %s + 4, j)' % (T, D, H, L)),
           ('sum', SIZE, '$add == self@.lo - %s - 4' % L), ('sizes', SIZE, 's_arr_%s($push@) == $add' % T),
           ('aligned', SIZE, '$add % 4 == 0')]
    if paid:
        inv.append(('paid', ALLOC, '4 * $push@.len() <= self@.lo - %s - 4' % L))      # no element is kept that no input paid for
    pro = ('broadcast use bytes_wf; lem_arr_err_{T}({D}, {H}, {L} + 4, $i + 1, $hi as int); lem_align_{T}(); lem_push_{T}(); ').format(T=T, D=D, H=H, L=L)
    c = reader(e, 'v_var_%s(%s, %s, %s, %s)' % (T, X, D, H, L), 'a_var_%s(%s, old(self)@.alloc, %s, %s, %s)' % (T, X, D, H, L),
               's_var_%s(%s) == (%s)->Ok_0 - %s' % (T, X, e, L), params=['&mut Self', 'Option<usize>'], ret='Result<Vec<%s>, Error>' % (Y or T))
    c.decreases = dec
    c.budget = 'self@.hi - self@.lo + opt_max($1) + 1'
    inv = [(n, p, t.replace('$p1', '$1')) for n, p, t in inv]
    c.loops = {0: {'range': {'inv': inv, 'pro': pro}, 'while': {'inv': inv + [('index', VAL, '0 <= $i <= $hi')], 'pro': pro, 'dec': '$hi - $i'}}}
    return c


def size_spec(T, Y):
    return '''
pub open spec fn s_arr_{T}(x: Seq<{Y}>) -> nat decreases x, 0int {{
    if x.len() == 0 {{ 0 }} else {{ s_arr_{T}(x.drop_last()) + s_{T}(x.last()) }}
}}
pub open spec fn s_var_{T}(x: Vec<{Y}>) -> nat decreases x, 0int {{ 4 + s_arr_{T}(x@) }}
pub proof fn lem_push_{T}()
    ensures forall|s: Seq<{Y}>, x: {Y}| s_arr_{T}(#[trigger] s.push(x)) == s_arr_{T}(s) + s_{T}(x)
{{
    assert forall|s: Seq<{Y}>, x: {Y}| s_arr_{T}(#[trigger] s.push(x)) == s_arr_{T}(s) + s_{T}(x) by {{ assert(s.push(x).drop_last() == s); }}
}}
pub proof fn lem_mono_{T}(s: Seq<{Y}>, i: int)
    requires 0 <= i <= s.len()
    ensures s_arr_{T}(s.take(i)) <= s_arr_{T}(s), i < s.len() ==> s_arr_{T}(s.take(i + 1)) == s_arr_{T}(s.take(i)) + s_{T}(s[i])
    decreases s.len() - i
{{
    if i < s.len() {{ lem_mono_{T}(s, i + 1); assert(s.take(i + 1).drop_last() == s.take(i)); }} else {{ assert(s.take(i) == s); }}
}}
'''.format(T=T, Y=Y)


def array_spec(T, Y=None, rec=False):
    """spec functions and lemmas for sequences of T (e_T, v_T, a_T, s_T given)"""
    Y = Y or T
    step = 'if p <= q && q <= hi {{ e_{T}(d, hi, q) }} else {{ R::Err(K::Other) }}' if rec else 'e_{T}(d, hi, q)'
    step = step.format(T=T)
    dec = 'hi - p, 1000int, n' if rec else 'n'
    vdec = 'decreases x, 1000int' if rec else ''
    return size_spec(T, Y) + '''
pub open spec fn e_arr_{T}(d: Seq<u8>, hi: int, p: int, n: int) -> R decreases {dec} {{
    if n <= 0 {{ R::Ok(p) }} else {{ match e_arr_{T}(d, hi, p, n - 1) {{ R::Ok(q) => {step}, R::Err(k) => R::Err(k) }} }}
}}
pub open spec fn v_at_{T}(x: {Y}, d: Seq<u8>, hi: int, p: int, i: int) -> bool {vdec} {{
    match e_arr_{T}(d, hi, p, i) {{ R::Ok(q) => v_{T}(x, d, hi, q), R::Err(_) => false }}
}}
pub open spec fn a_at_{T}(x: {Y}, al: int, d: Seq<u8>, hi: int, p: int, i: int) -> bool {vdec} {{
    match e_arr_{T}(d, hi, p, i) {{ R::Ok(q) => a_{T}(x, al, d, hi, q), R::Err(_) => false }}
}}
pub open spec fn e_var_{T}(d: Seq<u8>, hi: int, p: int, mx: int) -> R {vdv} {{
    if p + 4 > hi {{ R::Err(K::Len) }}
    else if mx >= 0 && be32(d, p) > mx {{ R::Err(K::Len) }}
    else {{ e_arr_{T}(d, hi, p + 4, be32(d, p) as int) }}
}}
pub open spec fn v_var_{T}(x: Vec<{Y}>, d: Seq<u8>, hi: int, p: int) -> bool {vd2} {{
    &&& x@.len() == be32(d, p)
    &&& forall|j: int| 0 <= j < x@.len() ==> v_at_{T}(#[trigger] x@[j], d, hi, p + 4, j)
}}
pub open spec fn a_var_{T}(x: Vec<{Y}>, al: int, d: Seq<u8>, hi: int, p: int) -> bool {vd2} {{
    forall|j: int| 0 <= j < x@.len() ==> a_at_{T}(#[trigger] x@[j], al, d, hi, p + 4, j)
}}
pub proof fn lem_arr_err_{T}(d: Seq<u8>, hi: int, p: int, i: int, n: int)
    ensures e_arr_{T}(d, hi, p, i) is Err && i <= n ==> e_arr_{T}(d, hi, p, n) == e_arr_{T}(d, hi, p, i)
    decreases n - i
{{ if i < n && e_arr_{T}(d, hi, p, i) is Err {{ lem_arr_err_{T}(d, hi, p, i, n - 1); }} }}
'''.format(T=T, Y=Y, step=step, dec=dec, vdec=vdec, vdv='decreases hi - p, 0int, 0int' if rec else '', vd2='decreases x, 0int' if rec else '')


WS = 'pub trait WireSize { spec fn ws(&self) -> nat; fn wire_size(&self) -> (ret__: usize) requires self.ws() <= usize::MAX, ensures ret__ == self.ws(); }'


def emit_ws(o, key, ty, spec, fn, tysub=None, pro='', loops=None, props=SIZE, trusted=False, generics=''):
    """impl WireSize for ty: the trait's contract with ws() := spec"""
    if fn is not None and fn['bad']:
        raise Unsupported('%s: %s' % (key, fn['bad'][0]))
    o.add('impl%s WireSize for %s { open spec fn ws(&self) -> nat { %s }' % (generics, ty, spec))
    first = len(o.lines) + 1
    if trusted:
        o.add('#[verifier::external_body] fn wire_size(&self) -> (ret__: usize) { unimplemented!() } }')
        return
    f = dict(fn, ret='usize')
    emit_fn(o, key, 'wire_size', f, Contract(pro=pro, loops=loops, builtin=props, params=['&Self']), vis='', tysub=tysub)
    o.add('}')
    # the trait's own postcondition is reported at the trait; attribute it to this function
    o.fns[-1] = (first, len(o.lines), key, props)


def sum_loops(T, seq='self@'):
    inv = [('acc', SIZE, '$add == s_arr_%s(%s.take(vf_i as int))' % (T, seq)), ('idx', SIZE, 'vf_i <= %s.len()' % seq), ('fits', SIZE, 's_arr_%s(%s) <= usize::MAX' % (T, seq)),
           ('whole', SIZE, 'vf_i == %s.len() ==> %s.take(vf_i as int) =~= %s' % (seq, seq, seq))]
    l = {'inv': inv, 'dec': '%s.len() - vf_i' % seq, 'pro': 'lem_mono_%s(%s, vf_i as int); lem_mono_%s(%s, vf_i + 1);' % (T, seq, T, seq)}
    return {0: {'sum': l, 'iter': l}}


def align_arr(T, Y, last):
    return 'pub proof fn al_arr_%s(s: Seq<%s>) ensures s_arr_%s(s) %% 4 == 0 decreases s, 0int { if s.len() > 0 { al_arr_%s(s.drop_last()); %s; } }' % (T, Y, T, T, last)

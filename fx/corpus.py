"""Specifications: a fixed systematic corpus plus seeded random ones."""
import random
from model import *

PK = ['u32', 'i32', 'u64', 'i64', 'f32', 'f64', 'bool']


def V(n=None):
    return ('var', n)


def F(n):
    return ('fixed', n)


def fixed():
    out = []

    def S(sid, *decls):
        out.append(Spec(sid, list(decls)))

    # primitives in every position
    fs = []
    for k in PK:
        for i in range(len(PRIMS[k][1])):
            fs.append(Field(P(k, i), '%s_%d' % (k, i)))
    S('prim', Const('THREE', 3), Const('HEX_2', '0x2'), Const('ALSO_3', 'THREE'),
      Struct('all', fs),
      Struct('fixarr', [Field(P(k), 'a' + k, F(2)) for k in PK] + [Field(P('u32', 1), 'lit', F(5)), Field(P('u64', 1), 'cst', F('THREE')),
             Field(P('i32', 1), 'hx', F('HEX_2')), Field(P('bool'), 'al', F('ALSO_3')), Field(P('u32'), 'one', F(1))]),
      *[Typedef(P(k), 't_' + k) for k in PK], *[Typedef(P(k, len(PRIMS[k][1]) - 1), 'ta_' + k, F(3)) for k in PK],
      Typedef(P('u32'), 'tac', F('THREE')), Typedef(P('u64'), 'tah', F('HEX_2')))
    # strings
    S('str', Const('MAX', 7), Const('HMAX', '0xA'), Const('ZMAX', 0),
      Struct('s', [Field(P('string'), 'bare'), Field(P('string'), 'unb', V()), Field(P('string'), 'b5', V(5)), Field(P('string'), 'bc', V('MAX')),
                   Field(P('string'), 'bh', V('HMAX')), Field(P('u32'), 'end')]),
      Struct('s8', [Field(P('string'), 'x', V(8))]), Struct('s4', [Field(P('string'), 'x', V(4))]), Struct('s1', [Field(P('string'), 'x', V(1))]),
      Struct('s0', [Field(P('string'), 'x', V('ZMAX'))]),
      Typedef(P('string'), 'tbare'), Typedef(P('string'), 'tunb', V()), Typedef(P('string'), 't6', V(6)), Typedef(P('string'), 'tc', V('MAX')),
      Typedef(N('t6'), 'tt6'), Typedef(N('tt6'), 'list6', V()), Struct('u', [Field(N('tc'), 'a'), Field(N('list6'), 'b'), Field(N('tunb'), 'c', F(2))]))
    # opaques
    S('opq', Const('MAX', 7), Const('HMAX', '0x0a'), Const('LEN', 6), Const('IND', 'LEN'),
      Struct('counted', [Field(P('opaque'), 'unb', V()), Field(P('opaque'), 'b5', V(5)), Field(P('opaque'), 'bc', V('MAX')), Field(P('opaque'), 'bh', V('HMAX')),
                         Field(P('u32'), 'end')]),
      Struct('fixed', [Field(P('opaque'), 'f%d' % n, F(n)) for n in (1, 2, 3, 4, 5, 8)] + [Field(P('opaque'), 'fc', F('LEN')), Field(P('opaque'), 'fi', F('IND')), Field(P('u32'), 'end')]),
      Struct('f1', [Field(P('opaque'), 'x', F(1))]), Struct('f5', [Field(P('opaque'), 'x', F(5))]), Struct('c8', [Field(P('opaque'), 'x', V(8))]),
      Struct('c1', [Field(P('opaque'), 'x', V(1))]), Struct('c0', [Field(P('opaque'), 'x', V(0)), Field(P('u32'), 'y')]),
      Typedef(P('opaque'), 'tbare'), Typedef(P('opaque'), 'tunb', V()), Typedef(P('opaque'), 't6', V(6)), Typedef(P('opaque'), 'tc', V('MAX')),
      Typedef(P('opaque'), 'tf5', F(5)), Typedef(P('opaque'), 'tf8', F(8)), Typedef(P('opaque'), 'tfc', F('LEN')),
      Typedef(N('t6'), 'tt6'), Typedef(N('tt6'), 'ttt6'), Typedef(N('tf5'), 'ttf5'),
      Typedef(N('tbare'), 'lb', V()), Typedef(N('ttt6'), 'l6', V(3)), Typedef(N('tf5'), 'lf5', V('MAX')), Typedef(N('tunb'), 'a2', F(2)), Typedef(N('tc'), 'ac', F('LEN')),
      Struct('mix', [Field(N('tbare'), 'a'), Field(N('tt6'), 'b'), Field(N('ttf5'), 'c'), Field(N('lb'), 'd'), Field(N('l6'), 'e'), Field(N('lf5'), 'f'),
                     Field(N('a2'), 'g'), Field(N('tunb'), 'h', V(2)), Field(N('tf8'), 'i', F(2)), Field(N('tfc'), 'j'), Field(P('u32'), 'end')]),
      Struct('listf', [Field(N('f5'), 'xs', V())]), Struct('listc', [Field(N('counted'), 'xs', V()), Field(P('opaque'), 'tail', V())]))
    # enums
    S('enm', Const('FIVE', 5), Enum('color', [('RED', 0), ('GREEN', 1), ('BLUE', 2)]), Enum('sparse', [('A', '0x10'), ('B', 7), ('C', '0x7fffffff'), ('D', 1000)]),
      Enum('single', [('ONLY', 42)]), Typedef(N('color'), 'colour'), Typedef(N('colour'), 'couleur'), Typedef(N('color'), 'palette', V(4)), Typedef(N('sparse'), 'pair', F(2)),
      Struct('s', [Field(N('color'), 'a'), Field(N('sparse'), 'b'), Field(N('couleur'), 'c'), Field(N('single'), 'd'), Field(N('color'), 'e', V()), Field(N('sparse'), 'f', F('FIVE')),
                   Field(N('palette'), 'g'), Field(N('pair'), 'h'), Field(N('color'), 'i', opt=True)]))
    # unions: every discriminant kind
    E = Enum('st', [('OK', 0), ('BAD', 1), ('WORSE', '0x2'), ('UGLY', 7)])
    b = lambda k, n='x', arr=None: Field(P(k), n, arr)
    S('uni', E, Const('C1', 1), Const('C2', '0x2'), Const('CBIG', '0xFFFFFFFE'), Const('ALIAS1', 'C1'),
      Typedef(P('u32'), 'tu32'), Typedef(N('tu32'), 'ttu32'), Typedef(P('i32', 1), 'ti32'), Typedef(P('u64'), 'tu64'), Typedef(N('tu64'), 'ttu64'), Typedef(P('i64'), 'ti64'),
      Typedef(P('bool'), 'tbool'), Typedef(N('st'), 'tst'), Typedef(N('tst'), 'ttst'),
      Union('u_lit', P('u32'), 'd', [(['1'], b('u32')), (['2'], b('u64')), (['30'], b('string')), (['0'], None)]),
      Union('u_int', P('i32'), 'd', [(['1'], b('i32')), (['2147483647'], b('i64')), (['0'], b('f32'))]),
      Union('u_max', P('u32'), 'd', [(['1'], b('bool')), (['16'], b('u64')), (['4294967295'], None)]),
      Union('u_cst', P('u32'), 'd', [(['C1'], b('u32')), (['C2'], b('u64')), (['CBIG'], None)]),
      Union('u_enm', N('st'), 'd', [(['OK'], b('u32')), (['BAD'], b('string')), (['UGLY'], None)]),
      Union('u_enm_all', N('st'), 'd', [(['UGLY'], b('u32')), (['WORSE'], b('f64')), (['BAD'], None), (['OK'], b('bool'))]),
      Union('u_enm_u32', P('u32'), 'd', [(['OK'], b('u32')), (['WORSE'], b('f64')), (['9'], b('u64')), (['UGLY'], None)]),
      Union('u_enm_i32', P('i32'), 'd', [(['OK'], b('u32')), (['WORSE'], None)]),
      Union('u_enm_lit', N('st'), 'd', [(['0'], b('u32')), (['7'], None), (['BAD'], b('u64'))]),
      Union('u_bool', P('bool'), 'd', [(['TRUE'], b('u32')), (['FALSE'], b('u64'))]),
      Union('u_bool_r', P('bool'), 'd', [(['FALSE'], b('u32')), (['TRUE'], b('u64'))]),
      Union('u_bool_v', P('bool'), 'd', [(['TRUE'], b('u32')), (['FALSE'], None)]),
      Union('u_bool_v2', P('bool'), 'd', [(['FALSE'], None), (['TRUE'], None)]),
      Union('u_bool_v3', P('bool'), 'd', [(['FALSE'], b('u32')), (['TRUE'], None)]),
      Union('u_bool_1', P('bool'), 'd', [(['TRUE'], b('u32'))]),
      Union('u_tbool', N('tbool'), 'd', [(['FALSE'], None), (['TRUE'], b('u32'))]),
      Union('u_tu32', N('tu32'), 'd', [(['1'], b('u32')), (['default'], None)]),
      Union('u_ttu32', N('ttu32'), 'd', [(['C1'], b('u32')), (['C2'], None)]),
      Union('u_ti32', N('ti32'), 'd', [(['ALIAS1'], b('u32')), (['OK'], None)]),
      Union('u_tu64', N('tu64'), 'd', [(['ALIAS1'], b('u32')), (['C2'], b('u64')), (['4294967297'], None)]),
      Union('u_ttu64', N('ttu64'), 'd', [(['1'], b('u32')), (['default'], b('u64'))]),
      Union('u_u64', P('u64'), 'd', [(['7'], b('u32')), (['OK'], None)]),
      Union('u_i64', N('ti64'), 'd', [(['7'], b('u32')), (['default'], None)]),
      Union('u_tst', N('tst'), 'd', [(['OK'], b('u32')), (['BAD'], None)]),
      Union('u_ttst', N('ttst'), 'd', [(['OK'], b('u32')), (['BAD'], None), (['default'], b('string'))]))
    S('fall', E, Const('C1', 1), Const('C9', 9),
      Union('f_data', P('u32'), 'd', [(['1', '2', '3'], b('u32')), (['4'], b('u64')), (['5', '6'], b('string'))]),
      Union('f_void', P('u32'), 'd', [(['1', '2'], None), (['3'], b('u32')), (['4', '5', '6'], None)]),
      Union('f_mixed', N('st'), 'd', [(['OK', 'BAD'], b('u32')), (['WORSE', 'UGLY'], None)]),
      Union('f_mixed2', P('u32'), 'd', [(['C1', 'OK', '12'], b('u64')), (['UGLY', 'C9'], None)]),
      Union('d_void', P('u32'), 'd', [(['1'], b('u32')), (['default'], None)]),
      Union('d_data', P('u32'), 'd', [(['1'], b('u32')), (['default'], b('u64'))]),
      Union('d_only', P('u32'), 'd', [(['default'], b('u64'))]),
      Union('d_only_void', P('i32'), 'd', [(['default'], None)]),
      Union('d_str', P('i32'), 'd', [(['1'], None), (['default'], b('string'))]),
      Union('d_fall_void', P('u32'), 'd', [(['1'], b('u32')), (['2', '3', 'default'], None)]),
      Union('d_fall_data', P('u32'), 'd', [(['1'], b('u32')), (['2', '3', 'default'], b('u64'))]),
      Union('d_first', P('u32'), 'd', [(['default'], None), (['1'], b('u32')), (['3'], None)]),
      Union('d_first_data', P('u32'), 'd', [(['default'], b('u64')), (['1'], b('u32')), (['3'], None)]),
      Union('d_mid', N('st'), 'd', [(['OK'], None), (['default'], None), (['BAD'], b('u32')), (['UGLY'], None)]),
      Union('d_enm', N('st'), 'd', [(['OK'], b('u32')), (['default'], b('f32'))]),
      Union('d_bool', P('bool'), 'd', [(['TRUE'], b('u32')), (['default'], None)]),
      Union('d_bool_data', P('bool'), 'd', [(['FALSE'], None), (['default'], b('u32'))]),
      Union('v', P('u32'), 'v', [(['1'], b('u32')), (['2'], None)]), Union('kw', P('u32'), 'type', [(['1'], b('u32', 'async')), (['2'], None)]))
    # nesting: arrays of variable-sized things
    S('nest', Const('N', 3), Typedef(P('opaque'), 'blob', V()), Typedef(P('opaque'), 'fh', V(8)), Typedef(P('u32'), 'w'), Typedef(P('string'), 'name', V(9)),
      Struct('pt', [Field(P('i32'), 'x'), Field(P('i32'), 'y')]),
      Struct('rec', [Field(P('string'), 'n', V()), Field(N('fh'), 'h'), Field(N('pt'), 'p', V(2)), Field(P('opaque'), 'o', V(6))]),
      Union('pick', P('u32'), 'k', [(['0'], None), (['1'], Field(N('rec'), 'r')), (['2'], Field(N('blob'), 'd')), (['3'], Field(P('string'), 's')), (['default'], Field(N('recs'), 'rs'))]),
      Typedef(N('rec'), 'recs', V()), Typedef(N('recs'), 'recss', V()), Typedef(N('pick'), 'picks', V('N')), Typedef(N('pick'), 'pick2', F(2)), Typedef(N('w'), 'bitmap', V()),
      Typedef(N('bitmap'), 'bitmaps', V(2)), Typedef(N('bitmap'), 'bitmap2', F(2)), Typedef(N('name'), 'names', V()), Typedef(N('pt'), 'pts', F('N')), Typedef(N('recs'), 'alias'),
      Struct('deep', [Field(N('recss'), 'a'), Field(N('picks'), 'b'), Field(N('pick2'), 'c'), Field(N('pick'), 'd', V(2)), Field(N('rec'), 'e', F('N')), Field(N('rec'), 'f', opt=True),
                      Field(N('names'), 'g'), Field(N('bitmaps'), 'h'), Field(N('alias'), 'i'), Field(N('pick'), 'j', opt=True), Field(N('alias'), 'k', opt=True), Field(N('pts'), 'l'),
                      Field(N('bitmap2'), 'm'), Field(P('u32'), 'end')]),
      Struct('wrap', [Field(N('deep'), 'd', V(2)), Field(N('blob'), 'last')]), Typedef(N('wrap'), 'wraps', V()))
    # recursion through optionals, unions and arrays
    S('recur', Struct('node', [Field(P('u32'), 'v'), Field(N('node'), 'next', opt=True)]),
      Struct('onode', [Field(P('opaque'), 'v', V()), Field(N('onode'), 'next', opt=True)]),
      Struct('tree', [Field(P('u32'), 'v'), Field(N('tree'), 'l', opt=True), Field(N('tree'), 'r', opt=True)]),
      Struct('rose', [Field(P('string'), 'n'), Field(N('rose'), 'kids', V())]),
      Struct('ping', [Field(P('u32'), 'v'), Field(N('pong'), 'p', opt=True)]), Struct('pong', [Field(N('blob'), 'b'), Field(N('ping'), 'p', opt=True)]), Typedef(P('opaque'), 'blob', V(5)),
      Union('expr', P('u32'), 'k', [(['0'], Field(P('i32'), 'lit')), (['1'], Field(N('pair'), 'p')), (['2'], None)]),
      Struct('pair', [Field(N('expr'), 'a', opt=True), Field(N('exprs'), 'b')]), Typedef(N('expr'), 'exprs', V(4)),
      Struct('dirlist', [Field(N('entry'), 'entries', opt=True), Field(P('bool'), 'eof')]),
      Struct('entry', [Field(P('u64', 1), 'cookie'), Field(P('string'), 'name', V(255)), Field(N('fattr'), 'attrs', V()), Field(N('entry'), 'nextentry', opt=True)]),
      Typedef(P('opaque'), 'fattr', V()))
    # names
    kw = ['type', 'async', 'match', 'self', 'fn', 'final', 'box', 'yield', 'try', 'dyn', 'override', 'abstract', 'where', 'Self', 'union2', '_x', 'x9', 'virtual', 'become', 'do', 'macro', 'priv', 'typeof', 'unsized', 'crate', 'super', 'move', 'ref', 'static', 'true', 'false']
    kw = [k for k in kw if k not in ('self', 'Self', 'super', 'crate')] + ['crate', 'super', 'self', 'Self']
    S('names', Const('LIMIT', 2), Struct('kws', [Field(P('u32'), k) for k in kw]), Struct('Camel', [Field(P('opaque'), 'loop', V('LIMIT')), Field(N('snake_t'), 'in', V())]),
      Typedef(N('kws'), 'snake_t'), Struct('n1', [Field(P('u32'), 'v'), Field(P('opaque'), 'd', V()), Field(P('u32'), 'c')]), Struct('empty', []), Struct('_lead', [Field(N('empty'), 'e')]),
      Union('u', P('u32'), 'match', [(['1'], Field(N('Camel'), 'type')), (['2'], Field(P('string'), 'self'))]),
      Union('long_name_with_1_digit', P('u32'), 'x', [(['LIMIT'], Field(P('u32'), 'y')), (['default'], Field(N('Camel'), 'z'))]))
    # self typedefs of primitives
    S('selfdef', Typedef(P('u32', 0), 'uint32_t'), Typedef(P('u64', 0), 'uint64_t'), Typedef(P('i32'), 'int32_t'), Typedef(P('i64'), 'int64_t'),
      Struct('s', [Field(P('u32', 1), 'a'), Field(P('u64', 1), 'b'), Field(P('i32', 1), 'c', F(2)), Field(P('i64', 1), 'd')]), Typedef(P('u32', 1), 'id'), Typedef(N('id'), 'ids', V()))
    # generic reachability: chains, diamonds, cycles, both outcomes
    ch = [Typedef(N('c%d' % (i + 1)), 'c%d' % i) for i in range(9)] + [Typedef(P('opaque'), 'c9', V())]
    nc = [Typedef(N('n%d' % (i + 1)), 'n%d' % i) for i in range(5)] + [Typedef(P('u32'), 'n5')]
    S('gen', *ch, *nc, Struct('dia', [Field(N('dl'), 'l'), Field(N('dr'), 'r')]), Struct('dl', [Field(N('dz'), 'z')]), Struct('dr', [Field(N('dz'), 'z', V())]), Struct('dz', [Field(N('c4'), 'x')]),
      Struct('cy1', [Field(N('cy2'), 'n', opt=True)]), Struct('cy2', [Field(N('cy3'), 'n', V())]), Union('cy3', P('u32'), 'd', [(['0'], None), (['1'], Field(N('cy1'), 'x'))]),
      Struct('gy1', [Field(N('gy2'), 'n', opt=True)]), Struct('gy2', [Field(N('gy3'), 'n', V())]), Union('gy3', P('u32'), 'd', [(['0'], Field(N('c8'), 'o')), (['1'], Field(N('gy1'), 'x'))]),
      Union('onlydef', P('u32'), 'd', [(['0'], None), (['default'], Field(N('c1'), 'x'))]), Struct('usedef', [Field(N('onlydef'), 'x', F(2))]), Struct('plain', [Field(N('n0'), 'a'), Field(P('string'), 'b')]),
      Struct('optg', [Field(N('dz'), 'x', opt=True)]), Struct('opfix', [Field(P('opaque'), 'x', F(4))]), Struct('useopfix', [Field(N('opfix'), 'x', F(2))]))
    # an NFS/mount-like specification
    S('mount', Const('MNTPATHLEN', 1024), Const('MNTNAMLEN', 255), Const('FHSIZE3', 64), Typedef(P('opaque'), 'fhandle3', V('FHSIZE3')), Typedef(P('string'), 'dirpath', V('MNTPATHLEN')),
      Typedef(P('string'), 'name', V('MNTNAMLEN')), Enum('mountstat3', [('MNT3_OK', 0), ('MNT3ERR_PERM', 1), ('MNT3ERR_NOENT', 2), ('MNT3ERR_IO', 5), ('MNT3ERR_SERVERFAULT', 10006)]),
      Typedef(P('u32', 1), 'flavor'), Struct('mountres3_ok', [Field(N('fhandle3'), 'fhandle'), Field(N('flavor'), 'auth_flavors', V())]),
      Union('mountres3', N('mountstat3'), 'fhs_status', [(['MNT3_OK'], Field(N('mountres3_ok'), 'mountinfo')), (['default'], None)]),
      Typedef(N('mountbody'), 'mountlist'), Struct('mountbody', [Field(N('name'), 'ml_hostname'), Field(N('dirpath'), 'ml_directory'), Field(N('mountbody'), 'ml_next', opt=True)]),
      Struct('groupnode', [Field(N('name'), 'gr_name'), Field(N('groupnode'), 'gr_next', opt=True)]),
      Struct('exportnode', [Field(N('dirpath'), 'ex_dir'), Field(N('groupnode'), 'ex_groups', opt=True), Field(N('exportnode'), 'ex_next', opt=True)]))
    return out


def scale():
    """large counts, long names, wide numbers: nothing here is special but its size"""
    b = lambda k, n='x', arr=None: Field(P(k), n, arr)
    en = Enum('ebig', [('M%d' % i, i * 3 if i % 5 else hex(i * 3)) for i in range(300)])
    bounds = [16, 100, 255, 256, 999, 1000, 4095, 65535, 65536, 100000, 16777216, 2147483647, 2147483648, 4294967294, 4294967295]
    long = lambda n, c='q': c + 'z_long_name_' * (n // 12) + c * (n % 12)
    wide = []
    for i in range(60):
        wide.append([b('u32', 'w%d' % i), b('string', 'w%d' % i, V(i + 1)), Field(N('ebig'), 'w%d' % i), Field(N('node'), 'w%d' % i, None, True), b('opaque', 'w%d' % i, V()), b('u64', 'w%d' % i), b('bool', 'w%d' % i)][i % 7])
    chain = lambda pre, t, n: [Typedef(t, pre + '0', V() if t.kind == 'opaque' else None)] + [Typedef(N('%s%d' % (pre, i)), '%s%d' % (pre, i + 1)) for i in range(n)]
    out = [Spec('big', [Const('K%d' % i, [1 << i, hex(1 << i), (1 << i) - 1][i % 3]) for i in range(2, 32)] + [en, Struct('node', [b('u32', 'v')]), Struct('wide', wide),
            Struct('bounds', [b(['opaque', 'string', 'u32'][i % 3] if i % 3 < 2 else 'opaque', 'b%d' % i, V(n)) for i, n in enumerate(bounds)] + [Field(N('node'), 'l%d' % i, V(n)) for i, n in enumerate(bounds)]),
            Struct('hexb', [b(['opaque', 'string'][i % 2], 'h%d' % i, V('K%d' % i)) for i in (3, 8, 15, 16, 17, 29, 30, 31)]),
            Struct('fixed', [b('opaque', 'f%d' % n, F(n)) for n in (9, 10, 16, 99, 100, 255, 256, 1000)] + [b('u32', 'g%d' % n, F(n)) for n in (10, 33, 100)] + [b('opaque', 'fk', F('K10'))]),
            Union('voids', P('u32'), 'd', [(['0'], b('u32')), ([str(7 * i) for i in range(1, 41)], None), (['10', '100', '1000', '10000', '100000', '4294967295'], None), (['default'], b('u64'))]),
            Union('datas', P('u32'), 'd', [([str(5 * i) for i in range(1, 41)], b('u32')), (['1', '999', '123456789', '4294967295'], b('string')), (['11111', '22222'], None)]),
            Union('arms', N('ebig'), 'd', [(['M%d' % i], [b('u32'), None, b('string'), Field(N('node'), 'x')][i % 4]) for i in range(45)] + [(['M%d' % i for i in range(60, 90)], b('u64')), (['M%d' % i for i in range(100, 130)], None)])] +
            chain('cu', P('u32'), 30) + chain('co', P('opaque'), 30) + [Struct('ends', [Field(N('cu30'), 'a'), Field(N('co30'), 'b'), Field(N('co17'), 'c', V())]), Union('uend', N('cu30'), 'd', [(['1'], Field(N('co29'), 'x')), (['2'], None)])])]
    ns = [12, 24, 25, 31, 32, 33, 63, 64, 65, 100, 128, 200]
    out.append(Spec('longnames', [Struct(long(n, 's'), [b('u32', long(n, 'f')), b('opaque', long(n, 'g'), V()), Field(N(long(n, 'e')), 'e'), Field(N(long(n, 't')), 't')]) for n in ns] + [Typedef(P('opaque'), long(n, 't'), V(n)) for n in ns] +
            [Typedef(N(long(n, 't')), long(n, 'a')) for n in ns] + [Enum(long(n, 'e'), [(long(n, 'M'), n), (long(n, 'N'), n + 1)]) for n in ns] + [Const(long(n, 'K'), n) for n in ns] +
            [Union(long(n, 'u'), N(long(n, 'e')), long(n, 'd'), [([long(n, 'M')], Field(N(long(n, 'a')), 'x')), ([long(n, 'N')], None)]) for n in ns] +
            [Struct('bylong', [b('opaque', 'x%d' % n, V(long(n, 'K'))) for n in ns])]))
    return out


def known():
    """specifications around recorded findings: bare opaque struct fields and union arms"""
    b = lambda k, n='x', arr=None: Field(P(k), n, arr)
    return [Spec('bare', [
        Struct('one', [b('opaque')]), Struct('two', [b('u32', 'a'), b('opaque', 'b'), b('u32', 'c')]),
        Union('arm', P('u32'), 'd', [(['1'], b('opaque')), (['2'], b('u32')), (['3'], None)]),
        Union('dfl', P('u32'), 'd', [(['2'], b('u32')), (['default'], b('opaque'))]),
        Struct('holder', [Field(N('two'), 'a'), Field(N('arm'), 'b'), Field(N('dfl'), 'c', opt=True)])])]


def bare_array():
    """compiled for the recorded finding only"""
    return [Spec('barearr', [Struct('one', [Field(P('opaque'), 'x')]), Typedef(N('one'), 'xs', V())])]


# ---- random ------------------------------------------------------------------------------------
def random_spec(seed, sid, size=12):
    r = random.Random('spec-%s' % seed)
    decls, consts, enums, names, kinds = [], [], [], [], {}
    ctr = [0]

    def fresh(p):
        ctr[0] += 1
        return '%s%d' % (p, ctr[0]) if r.random() < .8 else '%s_%d_t' % (p, ctr[0])

    for _ in range(r.randint(1, 4)):
        n = fresh('K').upper()
        v = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        decls.append(Const(n, r.choice([str(v), '0x%x' % v, '0x%02X' % v] + ([c for c in consts] if consts else []))))
        consts.append(n)
    for _ in range(r.randint(1, 2)):
        n = fresh('en')
        vals = r.sample([0, 1, 2, 3, 4, 5, 10, 100, 0x7fffffff, 70000], r.randint(1, 5))
        ms = [(fresh('M').upper(), r.choice([str(v), hex(v)])) for v in vals]
        e = Enum(n, ms)
        decls.append(e)
        enums.append(e)
        names.append(n)
        kinds[n] = 'enum'
    # names of later types, so references may go forward; recursion only through optionals
    later = [(fresh(r.choice(['st', 'un', 'td', 'ty'])), r.choice(['struct', 'struct', 'union', 'typedef', 'typedef'])) for _ in range(size)]
    prim = lambda: (lambda k: P(k, r.randrange(len(PRIMS[k][1]))))(r.choice(PK))
    sizes = lambda: r.choice([1, 2, 3, 4, 5] + consts)
    fixed_size = lambda: r.choice([1, 2, 3] + consts)
    fields_used = ['a', 'b', 'c', 'd', 'e', 'f', 'type', 'match', 'v', 'len', 'data', 'final', 'x', 'y']
    for i, (n, k) in enumerate(later):
        earlier = names + [m for m, _ in later[:i]]

        def field(fname, in_union=False):
            z = r.random()
            if z < .3 and not in_union:
                ty = prim()
                return Field(ty, fname, r.choice([None, None, F(fixed_size())]))
            if z < .3:
                return Field(prim(), fname)
            if z < .5 and not in_union:
                return Field(P('opaque'), fname, r.choice([V(), V(sizes()), F(sizes())]))
            if z < .6:
                return Field(P('string'), fname, None if in_union else r.choice([None, V(), V(sizes())]))
            if z < .72 and not in_union and k == 'struct':
                t = r.choice([m for m, kk in later if kk in ('struct', 'union')] or earlier)
                return Field(N(t), fname, None, True)
            t = N(r.choice(earlier))
            if in_union:
                return Field(t, fname)
            return Field(t, fname, r.choice([None, None, V(), V(sizes()), F(r.choice([1, 2]))]))
        if k == 'struct':
            fn = r.sample(fields_used, r.randint(1, 5))
            decls.append(Struct(n, [field(f) for f in fn]))
        elif k == 'typedef':
            z = r.random()
            if z < .25:
                decls.append(Typedef(prim(), n, r.choice([None, None, F(fixed_size())])))
            elif z < .5:
                decls.append(Typedef(P('opaque'), n, r.choice([None, V(), V(sizes()), F(sizes())])))
            elif z < .6:
                decls.append(Typedef(P('string'), n, r.choice([None, V(), V(sizes())])))
            else:
                decls.append(Typedef(N(r.choice(earlier)), n, r.choice([None, V(), V(sizes()), F(r.choice([1, 2]))])))
        else:
            sw = r.choice(['u32', 'u32', 'i32', 'bool', 'enum', 'enum', 'u64'])
            groups = []
            if sw == 'bool':
                labs = ['TRUE', 'FALSE']
                r.shuffle(labs)
                swt = P('bool')
            elif sw == 'enum':
                e = r.choice(enums)
                labs = [m for m, _ in e.members]
                r.shuffle(labs)
                swt = N(e.name)
            else:
                labs = r.sample(['0', '1', '2', '3', '4', '5', '77', '128', '2147483647'], r.randint(1, 6))
                sp = Spec('', decls)
                have = {sp.num(l) for l in labs}
                for m in r.sample(consts, len(consts)):
                    if sp.num(m) not in have and m not in labs and r.random() < .4:
                        labs.append(m)
                        have.add(sp.num(m))
                for e in enums:
                    for m, t in e.members:
                        if sp.num(t) not in have and r.random() < .2:
                            labs.append(m)
                            have.add(sp.num(t))
                swt = P(sw)
            while labs:
                g = [labs.pop() for _ in range(min(len(labs), r.choice([1, 1, 1, 2, 3])))]
                groups.append((g, None if r.random() < .35 else field(r.choice(fields_used), True)))
            z = r.random()
            if z < .25:
                groups.append((['default'], None))
            elif z < .45:
                groups.append((['default'], field('dflt', True)))
            elif z < .55 and groups:
                g, f = groups.pop()
                groups.append((g + ['default'], f))
            if z < .6:
                r.shuffle(groups)
            decls.append(Union(n, swt, r.choice(['d', 'status', 'k', 'type', 'v', 'x']), groups))
    r.shuffle(decls)
    return Spec(sid, decls)


def randoms(seed, n, size=12):
    return [random_spec('%s-%d' % (seed, i), 'rnd%d' % i, size) for i in range(n)]

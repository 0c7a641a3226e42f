"""Enumerated well-formed schemas for converters and transforms, and the meaning of a schema (independent normal form)."""
import itertools
import wf
from explore import fresh
from ref import parse_opts
from wide import ORDERS, ids
from zoo import FRAG, SETTYPES, combine

INFO = {'package': 'http://a.b/c', 'version': '1'}
AUX = [['T0', 'Record', [], '', [[1, 'p', 'String', [], ''], [2, 'q', 'T1', ['[0'], '']]], ['T1', 'Choice', [], '', [[1, 'a', 'Integer', [], ''], [5, 'b', 'String', [], '']]],
       ['E0', 'Enumerated', [], '', [[4, 'a', ''], [1, 'b', '']]]]
TOPTS = {
    'Binary': ['/x', '/eui', '/b', '{0', '{2', '}0', '}9'],
    'Boolean': [],
    'Integer': ['/i16', '/datetime-ms', '{0', '{-7', '}0', '}12'],
    'Number': ['/f32', 'y0.0', 'y-1.5', 'z0.0', 'z1e+30'],
    'String': ['/email', '/date-time', '%^a{1,2}$', '{0', '{3', '}4'],
    'Enumerated': ['=', 'X', '#T0', '>T0'],
    'Choice': ['=', 'X', 'CO', 'CA', 'CX'],
    'Array': ['X', '/ipv4-net', '/tag-uuid', '{1', '}2'],
    'ArrayOf': ['*T0', '*String', '*#T0', '*>T0', '{1', '}2', '}0', 'q', 's', 'b'],
    'Map': ['=', 'X', '{1', '}2', 'o'],
    'MapOf': ['+String', '+E0', '+#T1', '+n:K', '*T0', '*n:V', '*>T0', '{1', '}2', 'o'],
    'Record': ['X', '{1', '}2', 'o'],
}
FIELDS = {'Enumerated': [[[1, 'one', '']], [[3, 'b x', 'bee'], [0, 'a', '']]]}
for _b in ('Choice', 'Array', 'Map', 'Record'):
    FIELDS[_b] = [[[1, 'f', 'T0', [], 'eff']], [[1, 'f', 'String', ['%^x$', '[0'] if _b != 'Choice' else [], ''], [2, 'gg', 'T1', [']0'], '']]]
MULT = [[], ['[0'], [']0'], ['[0', ']0'], [']2'], ['[2', ']3'], ['[0', ']2'], ['[1', ']1'], ['[0', ']1'], ['[2', ']2'], ['[3', ']0']]
FEXTRA = [[], ['<'], ['K'], ['L'], ['&2'], ['&3']]
REQ = ({'ArrayOf': 1, 'MapOf': 2}, '*+')


def subsets(items, hi):
    for n in range(min(hi, len(items)) + 1):
        yield from itertools.combinations(items, n)


def optsets(base, hi=4):
    """Every well-formed set of type options"""
    seen = set()
    for o in subsets(TOPTS[base], hi + REQ[0].get(base, 0)):
        if len({x[0] for x in o}) < len(o):
            continue
        if o not in seen:
            seen.add(o)
            yield list(o)


def types():
    for b in TOPTS:
        for o in optsets(b):
            for fields in [[]] + FIELDS.get(b, []):
                for desc in ('', 'Words here'):
                    yield {'types': [['A', b, o, desc, fields]] + AUX}


def fields(container, deep=True):
    for ft in list(TOPTS) + ['T0', 'T1', 'n:V', 'A']:
        for o in optsets(ft, 3 if deep or container == 'Record' else 1) if ft in TOPTS else [[], ['q']]:
            for m in (MULT if deep or container == 'Record' else MULT[:7]):
                for x in FEXTRA:
                    if x and (len(o) > 1 + REQ[0].get(ft, 0) or x[0][0] == '&' and ft in TOPTS):
                        continue            # a tag selects an alternative of a defined Choice
                    yield {'types': [['A', container, [], '', [[1, 'f', ft, o + m + x, 'dd'], [2, 't', 'Enumerated', ['#T1'], ''], [3, 'id', 'Integer', ['K'], 'kk']]]] + AUX}
                    if container in ('Map', 'Choice') and not m and not x:
                        yield {'types': [['A', container, ['='], '', [[1, 'f', ft, o + m + x, ''], [7, 't', 'Enumerated', ['#T1'], '']]]] + AUX}


TEXT = 'a" \\/|*<>{}[]().,:;=#%&\'`_-+?!$~^@é\u20ac\U0001f600'
WIDE = ['a\u2028b', 'a\u2029 b', 'a\xa0b', 'a\u3000b', 'a\u2028 // b']      # White space and separators other than line feeds
ATEXT = 'a"\\/:|*<= {[&'


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alpha, repeat=n):
            yield ''.join(w)


def oneline(s):
    """Text that a line of a document can carry: single line, no surrounding whitespace"""
    return s == s.strip() and not s.startswith('//')


def texts(n3=False):
    out = list(words(TEXT, 1, 2)) + [w for w in words(ATEXT, 3, 4 if n3 else 3)]
    out += ['a // b', 'a  b', 'x [0..1]', 'y optional', 'n:: v', 'n::', '::', 'a::b:: c', 'http://x.y/z', '{pattern="a"}', 'A = Record', '1 a String // b', 'x"', '"y" // z', 'a' * 200, 'key: "v"', 'a = b', '12 f G', '&amp;', '&lt;b&gt;', '<b>bold</b>', ']]>', '<!-- c -->', *WIDE]
    return [t for t in out if oneline(t)]


def described(t):
    """t as the description of types, fields and items"""
    yield {'types': [['A', 'String', [], t, []], ['P', 'String', ['%^a"? b$'], t, []], ['I', 'Integer', ['{0'], t, []],
                     ['R', 'Record', [], t, [[1, 'f', 'String', ['[0'], t], [2, 'g', 'E', [']0'], t]]], ['E', 'Enumerated', [], t, [[1, 'x', t], [2, 'y', '']]],
                     ['L', 'Array', [], t, [[1, 'f', 'String', ['[0'], t], [2, 'g', 'A', [], t]]], ['F', 'Enumerated', ['='], t, [[1, 'x', t], [2, 'y', t]]],
                     ['C', 'Choice', ['CX'], '', [[1, 'f', 'A', [], t]]], ['D', 'Map', ['='], '', [[3, 'f', 'String', ['%a b'], t], [1, 'g', 'A', [], t]]]]}


def itemnames(n3=False):
    out = list(words(TEXT, 1, 2)) + [w for w in words('a: /"{=', 3, 4 if n3 else 3)] + ['2.4 GHz', 'a: b', 'a:: b', '10', 'x optional', 'x [1]', 'http://a/b', 'A = B', 'a//b', *WIDE]
    return [t for t in out if oneline(t) and '//' not in ' ' + t + ' ' .strip() or t in ('http://a/b', 'a//b')]


def items(t):
    if ' //' in t or t != t.strip():
        return
    yield {'types': [['A', 'Enumerated', [], '', [[1, t, ''], [2, 'zz', 'd']]]]}
    yield {'types': [['A', 'Enumerated', [], 'x', [[7, 'zz', ''], [3, t, 'desc: it']]]]}
    if '::' not in t and not t.endswith(':') and not t.startswith(':'):
        yield {'types': [['A', 'Enumerated', ['='], '', [[1, t, ''], [2, 'zz', 'd'], [3, t + 'q', 'desc']]]]}


def patterns(n3=False):
    out = list(words('a"\\/{}[]().*+?^$|,:= #%', 1, 2)) + list(words('a"\\/ {}="', 3, 4 if n3 else 3)) + ['^[a-z]{1,3}$', '(a|b)', 'a //b', 'pattern="x"', '..', '1..2', '^$TypeName$', 'a /email', 'x unique', '\\"', '\\\\"', '[^"]+', *WIDE]
    return [p for p in out if p[0] != '$' and ok_pattern(p)]


def ok_pattern(p):
    """Patterns that a quoted string can carry unambiguously next to a comment"""
    e = p.replace('\\\\', '').replace('\\"', '')
    odd = (len(p) - len(p.rstrip('\\'))) % 2
    return not ('"' in e and ' //' in p) and not odd


def patterned(p):
    yield {'types': [['S', 'String', ['%' + p], '', []], ['A', 'String', ['%' + p, '/email'], 'desc', []],
                     ['B', 'Record', [], '', [[1, 'f', 'String', ['%' + p, '[0'], ''], [2, 'g', 'String', ['%' + p, ']0'], 'dd']]],
                     ['C', 'Array', [], '', [[1, 'f', 'String', ['%' + p], 'x']]]]}


def numbers():
    ints = (0, 1, -1, 9, 10, -10, 2 ** 31, -2 ** 63, 10 ** 25)
    for a, b in itertools.product((None,) + ints, repeat=2):
        o = ([f'{{{a}'] if a is not None else []) + ([f'}}{b}'] if b is not None else [])
        yield {'types': [['A', 'Integer', o, '', []], ['B', 'Record', [], '', [[1, 'f', 'Integer', o, '']]]]}
        yield {'types': [['A', 'String', o, '', []], ['B', 'Record', [], '', [[1, 'f', 'ArrayOf', ['*String'] + o, ''], [2, 'g', 'Binary', o + [']0'], '']]]]}
    fl = ('0.0', '-0.5', '1.5', '100.0', '1e-07', '1e+300', '123456789.125', '-3.0', '1234567.0', '-98765432109876.0', '1e+16', '0.1', '5e-324')
    for a, b in itertools.product((None,) + fl, repeat=2):
        o = ([f'y{a}'] if a is not None else []) + ([f'z{b}'] if b is not None else [])
        yield {'types': [['A', 'Number', o, '', []], ['B', 'Record', [], '', [[1, 'f', 'Number', o, '']]]]}
    for lo, hi in itertools.product((0, 1, 2, 7, 100), (0, 1, 2, 7, 100, 1000)):
        yield {'types': [['A', 'Record', [], '', [[1, 'f', 'String', [f'[{lo}', f']{hi}'], ''], [2, 'g', 'A', [f'[{lo}', f']{hi}'], '']]]]}


def names():
    tn = ['A', 'Ab-c', '$A', '$', 'A$b', 'A1', 'Z-', 'A' + 'b' * 63, 'Recordx', 'Enum', 'Pointer', 'Id', 'TagId', 'Key', 'Link', 'AnyOf', 'Link-x', 'Choice2']
    fn = ['a', 'aB', 'a_b', '$', '$a', 'a$b', 'z9', 'a' + 'B' * 63, 'optional', 'unique', 'pattern', 'id', 'key', 'link', 'set', 'type', 'tagid', 'enum', 'f1']
    for t in tn:
        yield {'types': [[t, 'Record', [], '', [[1, 'f', t, ['[0'], ''], [2, 'g', 'ArrayOf', ['*' + t], ''], [3, 'h', 'Enumerated', ['#' + t], '']]], ['Zz', 'MapOf', ['+' + t, '*#' + t], '', []]]}
        yield {'types': [[t, 'Enumerated', [], '', [[1, 'x', '']]], ['Zz', 'MapOf', ['+' + t, '*>' + t], '', []], ['Zy', 'Record', [], '', [[1, 'f', 'nsId:' + t, [], ''], [2, 'l', 'Zy', ['L', '[0'], ''], [3, 'k', t, ['K'], '']]]]}
    for f in fn:
        for c in ('Record', 'Map', 'Choice', 'Array'):
            yield {'types': [['A', c, [], '', [[1, f, 'String', [], ''], [2, f + 'q', 'A', ['<'], 'dd']]]]}
            yield {'types': [['A', c, [], '', [[1, 'ch', 'T1', ['&2'], ''], [2, f + 'x', 'Enumerated', ['#T1'], '']]]] + AUX}
        yield {'types': [['A', 'Map', ['='], '', [[5, f, 'String', [], ''], [2, f + 'q', 'A', ['<'], 'dd']]]]}
    for n in (0, 1, 9, 10, 99, 100, 12345, 2 ** 31):
        for o in ([], ['=']):
            yield {'types': [['A', 'Enumerated', o, '', [[n, 'x', ''], [n + 1, 'y', 'z']]], ['B', 'Map', o, '', [[n, 'f', 'String', [], ''], [n + 1, 'g', 'A', [f'&{n}'], 'd']]]]}
    for n in (0, 1, 2, 50, 100):
        yield {'types': [['A', 'Record', [], '', [[i, f'f{i}', 'String', [], ''] for i in range(1, n + 1)]], ['B', 'Enumerated', [], '', [[i, f'f{i}', ''] for i in range(n)]]]}


def refs():
    """Repeated, mutual and self references; every order of the types; names that extend each other"""
    targets = ('A', 'T0', 'T1', 'E0', 'String')
    for k, v in itertools.product(targets + ('#T1', '#T0', '>T0'), repeat=2):
        yield {'types': [['A', 'MapOf', ['+' + k, '*' + v], '', []]] + AUX}
        if 'A' not in (k, v):
            yield {'types': [['A', 'Record', [], '', [[1, 'f', 'MapOf', ['+' + k, '*' + v], ''], [2, 'g', 'ArrayOf', ['*' + v], '']]]] + AUX}
    for v in targets:
        yield {'types': [['A', 'ArrayOf', ['*' + v], '', []]] + AUX}
    for c in ('Record', 'Map', 'Choice', 'Array'):
        for n in (1, 2, 3):
            for ft in itertools.product(targets, repeat=n):
                yield {'types': [['A', c, [], '', [[i, 'fgh'[i - 1], x, ['[0'] if i > 1 and c != 'Choice' else [], ''] for i, x in enumerate(ft, 1)]]] + AUX}
    for perm in itertools.permutations(AUX + [['A', 'Choice', [], '', [[1, 'f', 'A$b', [], ''], [2, 'g', 'T0', [], '']]], ['A$b', 'MapOf', ['+E0', '*#A'], '', []]]):
        if perm[0][0] != 'T1':
            yield {'types': list(perm)}
    for a, b in (('A', 'A$b'), ('A', 'A-b'), ('A', 'Aa'), ('A$', 'A$$'), ('A$Enum', 'A'), ('A$Enum2', 'A'), ('T', 'T$x')):
        for x, y in ((a, b), (b, a)):
            yield {'types': [[x, 'Record', [], '', [[1, 'p', 'String', [], ''], [2, 'q', y, ['[0'], '']]], [y, 'Choice', [], '', [[1, 'r', 'Integer', [], ''], [2, 's', x, [], '']]],
                             ['L', 'ArrayOf', ['*#' + y], '', []], ['M', 'MapOf', ['+#' + x, '*' + y], '', []], ['N', 'Enumerated', ['#' + y], '', []], ['O', 'ArrayOf', ['*>' + x], '', []]]}


CYCLE = [('String', ['%^a+$']), ('T0', []), ('ArrayOf', ['*T0', '}3']), ('Enumerated', ['#T1']), ('Integer', ['{1', '}5']), ('MapOf', ['+E0', '*Integer']), ('Binary', ['/x', '}2']), ('T1', []),
         ('Boolean', []), ('E0', []), ('Number', ['y0.5']), ('ArrayOf', ['*#T0', 'q']), ('String', ['/ipv4'])]
CYMULT = [[], ['[0'], ['[0', ']3'], [']0', 'q'], ['[2', ']2']]


def wide(deep=True):
    """Many fields, items, alternatives, tags, types, generated types, levels of derivation"""
    def cyc(i, c, k=0):
        ft, o = CYCLE[(i + k) % 13]
        m = [] if c == 'Choice' else CYMULT[i % 5]
        if m:
            o = [x for x in o if x != 'q']
        return [ft, o + [x for x in m if x != 'q' or ft in ('T0', 'T1', 'E0')], f'number {i}']
    for n in (4, 10, 12, 33, 100) if deep else (4, 11, 33):
        for c, o, order in [(c, o, x) for c, o in (('Record', []), ('Array', []), ('Map', []), ('Map', ['=']), ('Choice', []), ('Choice', ['='])) for x in (ORDERS if c in ('Map', 'Choice') else ('asc',))]:
            if not deep and n > 12 and order not in ('asc', 'text'):
                continue
            for k in range(3 if deep else 1):
                yield {'types': [['A', c, o, f'{n} fields', [[i, f'f{x}', *cyc(x, c, k)] for x, i in enumerate(ids(n, order))]]] + AUX}
                yield {'types': [['A', c, o, '', [[i, f'f{x}', ('T0', 'T1', 'E0', 'String')[x % 4], ['[0'] if x % 3 and c != 'Choice' else [], ''] for x, i in enumerate(ids(n, order))]]] + AUX}
        for o, order in itertools.product(([], ['=']), ORDERS):
            if deep or n < 12:
                e = ['A', 'Enumerated', o, '', [[i, f'i{x}', f'item {x}' if x % 3 else ''] for x, i in enumerate(ids(n, order))]]
                yield {'types': [e, ['B', 'Enumerated', ['#A'], '', []], ['M', 'MapOf', ['+A', '*Integer'], '', []], ['L', 'ArrayOf', ['*A', 'q'], '', []]]}
                if not o:
                    yield {'types': [['L', 'ArrayOf', ['*#A'], '', []], ['A', 'Map', [], '', [[f[0], f[1], 'String', ['[0'], f[2]] for f in e[4]]], ['E', 'Enumerated', ['#A', '='], '', []]]}
    for n in (3, 7, 12):        # Every field, one after the other, is the tag of another
        for order in ORDERS:
            i = ids(n, order)
            for c in ('Map', 'Record', 'Array'):
                if c == 'Map' or order == 'asc':
                    for d in (1, n - 1):
                        yield {'types': [['A', c, [], '', [[x, f'f{k}', *(['T1', [f'&{i[(k + d) % n]}', '[0']] if k % 2 == 0 and k + 1 < n or n == 3 and k == 0 else ['Enumerated', ['#T1']]), ''] for k, x in enumerate(i)]]] + AUX}
    for n in (5, 12, 40):       # Chains, stars and ladders of types, in either order
        chains = [[f'A{i}', 'Record', [], '', [[1, 'p', f'A{i + 1}' if i < n - 1 else 'Integer', ['[0'], '']]] for i in range(n)]
        arrays = [[f'A{i}', 'ArrayOf', [f'*A{i + 1}' if i < n - 1 else '*Integer', '}2'], '', []] for i in range(n)]
        star = [['A', 'Record', [], '', [[i, f'f{i}', f'A{i}', ['[0'] if i % 2 else [], ''] for i in range(1, n + 1)]]] + [[f'A{i}', ('String', 'Integer', 'Boolean')[i % 3], [], f'd{i}', []] for i in range(1, n + 1)]
        ladder = [[f'A{i}', 'Map', [], '', [[1, 'l', f'A{min(i + 2, n - 1)}' if i < n - 2 else 'String', ['[0'], ''], [2, 'r', f'A{min(i + 1, n - 1)}' if i < n - 1 else 'String', ['[0'], '']]] for i in range(n)]
        ring = [[f'A{i}', 'Choice', [], '', [[1, 'n', f'A{(i + 1) % n}', [], ''], [2, 'e', 'Boolean', [], '']]] for i in range(n)]
        enums = [[f'A{i}', 'Enumerated', [f'#A{i + 1}'] if i < n - 1 else [], '', [] if i < n - 1 else [[3, 'x', ''], [1, 'y', '']]] for i in range(n)]
        for t in (chains, arrays, star, ladder, ring) + ((enums,) if n < 40 else ()):
            yield {'types': t}
            yield {'types': t[::-1]}
    for n in (2, 5, 9):         # Paths
        dirs = [[f'A{i}', 'Record', [], '', [[1, 'a', 'String', ['[0'], 'leaf'], [2, 'b', f'A{i + 1}' if i < n - 1 else 'Integer', ['<', '[0'] if i < n - 1 else ['[0'], ''], [3, 'c', 'Integer', ['[0'], '']]] for i in range(n)]
        yield {'types': [['P', 'Enumerated', ['>A0'], '', []], ['L', 'ArrayOf', ['*>A0'], '', []]] + dirs}
    for n in (4, 12):           # Generated types
        for m in CYMULT:
            yield {'types': [['A', 'Record', [], '', [[i, f'f{i}', CYCLE[i % 13][0], CYCLE[i % 13][1] + [x for x in m if x != 'q' or CYCLE[i % 13][0] in ('T0', 'T1', 'E0')], ''] for i in range(1, n + 1)]],
                             ['B', 'Map', [], '', [[i * 3, f'f{i}', CYCLE[i % 13][0], CYCLE[i % 13][1], ''] for i in range(1, n + 1)]]] + AUX}


def infos():
    vals = {'title': ['a', 'a "b" \\ c', 'é\u20ac', 'x // y', 'k: v'], 'package': ['http://a.b/c', 'http://a.b/c/v1.0'], 'version': ['1', '1.0-rc // x'], 'description': ['long text: with, punctuation. {"a": 1}', 'line 1\nline { 2\n\n"line" 3\r\n'],
            'comment': ['one'], 'copyright': ['(c) "me"'], 'license': ['Apache-2.0'], 'namespaces': [{'n': 'http://a.b/d'}, [['n', 'http://a.b/d'], ['m', 'http://a.b/e']], {'a': 'http://a.b/d', 'b': 'http://x.y'}],
            'exports': [['A'], ['A', 'B-c']], 'roots': [['A'], ['A', 'Zz']], 'config': [{'$MaxString': 1000}, {'$FieldName': '^[a-z]+$', '$Sys': '.'}, {'$MaxElements': 500, '$NSID': '^[a-z]{1,3}$'}]}
    T = [['A', 'String', [], '', []]]
    for k, vs in vals.items():
        for v in vs:
            i = dict(INFO)
            i[k] = v
            yield {'info': i, 'types': T}
            yield {'info': dict(reversed(list(i.items()))), 'types': T}
    for a, b in itertools.permutations(vals, 2):
        i = {a: vals[a][0], b: vals[b][-1]}
        yield {'info': {**i, 'package': 'http://a.b/c'}, 'types': T}
    yield {'info': {k: v[-1] for k, v in vals.items()}, 'types': T}
    for w in [*TEXT, *words(ATEXT, 2, 2), '\\\\', '\\n', '\\u0041', 'a\\', '\t', '\u2028', '\x7f', ' a', 'a ']:
        yield {'info': {'package': 'http://a.b/c', 'title': w, 'comment': 'x' + w, 'license': w + w}, 'types': T}
    yield {'types': T}
    yield {'types': []}
    yield {'info': INFO, 'types': []}


def combos(depth):
    for n in range(1, depth + 1):
        for c in itertools.permutations(SETTYPES, n):
            s, _ = combine(c, INFO)
            yield s


FAMILIES = ['types', *[f'fields:{c}' for c in ('Record', 'Map', 'Choice', 'Array')], 'desc', 'items', 'patterns', 'numbers', 'names', 'refs', 'infos', 'combos', 'wide']
PARTS = {'types': 4, 'fields:Record': 8, 'fields:Map': 8, 'fields:Choice': 8, 'fields:Array': 8, 'desc': 8, 'items': 4, 'patterns': 4, 'numbers': 1, 'names': 1, 'refs': 2, 'infos': 1, 'combos': 4, 'wide': 4}


def raw(family, deep):
    if family == 'types':
        yield from types()
    elif family.startswith('fields:'):
        yield from fields(family[7:], deep)
    elif family == 'desc':
        for t in texts(deep):
            yield from described(t)
    elif family == 'items':
        for t in itemnames(deep):
            yield from items(t)
    elif family == 'patterns':
        for p in patterns(deep):
            yield from patterned(p)
    elif family == 'wide':
        yield from wide(deep)
    elif family == 'combos':
        yield from combos(3 if deep else 2)
    else:
        yield from globals()[family]()


def jobs(deep, families=FAMILIES):
    return [('gen', f, n, deep) for f in families for n in range(PARTS[f])]


def schemas(job):
    """Well-formed schemas of one job"""
    _, f, part, deep = job
    for s in itertools.islice(raw(f, deep), part, None, PARTS[f]):
        if wf.ok(s) is True or f == 'infos' and wf.ok({'types': s['types']}) is True:
            yield fresh(s)


def rename(schema, suffix):
    m = {t[0]: t[0] + suffix for t in schema['types']}

    def opts(lst):
        out = []
        for o in lst:
            n = 2 if o[:2] in ('*#', '*>', '+#', '+>') else 1
            out.append(o[:n] + m.get(o[n:], o[n:]) if o[0] in '*+#>' else o)
        return out
    return [[m[t[0]], t[1], opts(t[2]), t[3], [f if t[1] == 'Enumerated' else [f[0], f[1], m.get(f[2], f[2]), opts(f[3]), f[4]] for f in t[4]]] for t in schema['types']]


def packs(job, size):
    """The schemas of a job, up to 'size' at a time as one schema: (packed schema, [schemas])"""
    group = []
    for s in schemas(job):
        if job[1] in ('names', 'refs', 'infos', 'combos', 'numbers', 'wide'):
            yield s, [s]
            continue
        group.append(s)
        if len(group) == size:
            yield fresh({'types': [t for n, g in enumerate(group) for t in rename(g, str(n))]}), group
            group = []
    if group:
        yield fresh({'types': [t for n, g in enumerate(group) for t in rename(g, str(n))]}), group


# ---- meaning of a schema
def options(base, opts):
    t, f = parse_opts(opts)
    o = {**t, **f}
    if base != 'Integer' and o.get('minv') == 0:
        del o['minv']
    for k in ('minc', 'maxc'):
        if o.get(k) == 1:
            del o[k]
    return o


def meaning(schema):
    """Everything a schema says, without the order and spelling of options"""
    out = []
    for t in schema['types']:
        t = list(t) + [[], '', []][len(t) - 2:] if len(t) < 5 else t
        fields = [[f[0], f[1], f[2]] if t[1] == 'Enumerated' else [f[0], f[1], f[2], options(f[2], f[3]), f[4]] for f in t[4]]
        out.append([t[0], t[1], options(t[1], t[2]), t[3], fields])
    return {'info': schema.get('info'), 'types': out}

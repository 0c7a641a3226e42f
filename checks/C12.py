"""C12: check() accepts exactly the well-formed schemas."""
import copy
import itertools
import mc
import wf
import wide
from explore import fresh, same
import jadn

ID = 'C12'
BOUNDS = ('every base type x every option string out of 66, every pair out of 39 (thorough: every set of up to 3 of 66); every field type x every option string (pairs for 3 types in Record; '
          'thorough: in every container; every id/name assignment of up to 3 fields; every 1-2 char prefix class of names and all '
          'boundary lengths; every pair of 22-36 names within a type and among types; two definitions of a name with every pair of base types; every single edit (delete, replace by 20 atoms, duplicate, swap) of every node of 6 base schemas; '
          'information blocks; compared with the reference definition of well-formedness; accepted schemas come back normalised')
RULE = 'state = schema; transition = check call compared with the reference; trace = agreement'
ASSUMPTIONS = ['default configuration', 'repeated options, unusual spellings of numbers and empty option values are not judged']
EXPECT_OUTCOMES = ('accept', 'reject')
BASES = tuple(wf.ALLOWED)
OPTS = ['=', '*String', '+String', '*T0', '+T0', '*Undef', '#T0', '>T0', '>Undef', '/email', '/b', '/x', '/eui', '/ipv4-net', '/tag-uuid', '/i8', '/datetime-ms', '/f16', '/f64',
        '/nope', '/uuid', '%^a$', 'y0', 'y1.5', 'z2', 'z-1.5', 'yx', '{0', '{1', '{5', '{-1', '{x', '}1', '}5', '}2', '}-2', '}x', 'q', 's', 'b', 'o', 'CO', 'CA', 'CX',
        'X', '!a', '[0', '[1', '[2', '[-1', '[x', ']0', ']1', ']3', ']-1', '&1', '&2', '&9', '&x', '<', 'K', 'L', '?', '', 'Z1', '~']
CORE = ['=', '*T0', '+String', '#T0', '>T0', '>Undef', '/email', '/b', '/ipv4-net', '/i8', '/f16', '/nope', '%^a$', 'y0', 'y1.5', 'z1', '{0', '{1', '{5', '}1', '}2', '}x',
        'q', 's', 'b', 'o', 'CO', 'X', '!a', '[0', '[1', ']0', ']2', '&1', '&9', '<', 'K', 'L', '?']
ATOMS = [None, True, 0, 1, -1, 2, 3, 1.5, '', 'a', 'A', 'T0', 'String', 'Record', '[0', '{1', [], ['a'], ['[0'], {}, 'é', 'a b', [[1, 'a', '']], [[1, 'a', 'String', [], '']]]
T0 = ['T0', 'Record', [], '', [[1, 'z', 'String', [], '']]]
EX = [
    {'types': [['A', 'Record', [], 'd', [[1, 'a', 'String', ['[0'], 'x'], [2, 'b', 'B', ['[0', ']0', 'q'], ''], [3, 'c', 'C', ['&4'], ''], [4, 't', 'Enumerated', ['#C'], '']]],
               ['B', 'Enumerated', [], '', [[0, 'x', ''], [3, 'y', 'z']]], ['C', 'Choice', ['='], '', [[7, 'p', 'A', [], ''], [2, 'q', 'Integer', ['{1', '}5'], '']]]]},
    {'info': {'package': 'http://a/b', 'title': 't', 'roots': ['A'], 'namespaces': {'n': 'http://c/d'}, 'version': '1'},
     'types': [['A', 'Map', ['='], '', [[3, 'a', 'n:B', ['<'], ''], [1, 'b', 'A', ['L', '[0'], ''], [2, 'k', 'Integer', ['K'], '']]], ['L', 'ArrayOf', ['*A', '{1', '}3', 'q'], '', []]]},
    {'info': {'package': 'http://a/b', 'exports': ['A'], 'namespaces': [['n', 'http://c/d'], ['', 'http://c/e']]},
     'types': [['A', 'MapOf', ['+String', '*#R'], '', []], ['R', 'Array', ['/ipv4-net'], '', [[1, 'a', 'Binary', ['/ipv4-addr'], ''], [2, 'n', 'Integer', ['{0', '}32', '[0'], '']]]]},
    {'types': [['S', 'String', ['%^a$'], ''], ['N', 'Number', ['y-1.0', 'z1'], '', []], ['I', 'Integer'], ['E', 'Enumerated', ['#R'], '', []],
               ['P', 'Enumerated', ['>R'], '', []], ['R', 'Record', ['{1'], '', [[1, 'f', 'S', [], '']]], ['U', 'Choice', ['CA'], '', [[1, 'f', 'S', [], ''], [2, 'g', 'String', [], '']]]]},
]


def edits(v, root=True):
    if isinstance(v, list):
        for n in range(len(v)):
            yield v[:n] + v[n + 1:]
            yield v[:n] + [v[n], copy.deepcopy(v[n])] + v[n + 1:]
            if n:
                yield v[:n - 1] + [v[n], v[n - 1]] + v[n + 1:]
            for a in ATOMS:
                yield v[:n] + [a] + v[n + 1:]
            for e in edits(v[n], False):
                yield v[:n] + [e] + v[n + 1:]
        for a in ATOMS:
            yield v + [a]
    elif isinstance(v, dict):
        for k in v:
            yield {j: x for j, x in v.items() if j != k}
            for a in ATOMS:
                yield {j: a if j == k else x for j, x in v.items()}
            for e in edits(v[k], False):
                yield {j: e if j == k else x for j, x in v.items()}
        for k in ('zz', 'config', 'comment', 'license'):
            if k not in v:
                yield {**v, k: 'a'}
                yield {**v, k: {}}


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for b in BASES:
        out += [('type', b, 3 if deep else 2, n) for n in range(4)]
        if deep:
            out += [('type3', b, n) for n in range(len(OPTS))]
    for c in ('Record', 'Choice', 'Array', 'Map'):
        for ft in BASES + ('T0', 'Undef', 'n:T0', 'lower', 'Bad name'):
            out.append(('field', c, ft, 2 if deep or (c == 'Record' and ft in ('String', 'ArrayOf', 'T0')) else 1, OPTS if deep else CORE))
    out += [('ids', b, deep) for b in BASES]
    out += [('wide', b, n) for b in ('Enumerated', 'Choice', 'Array', 'Map', 'Record') for n in ((4, 9, 12, 33) if not deep else (4,) + wide.SIZES)]
    out += [('names', deep), ('limits', 0), ('info', 0)] + [('same', b) for b in (None, 'Enumerated', 'Choice', 'Array', 'Map', 'Record')]
    for n, s in enumerate(EX):
        out += [('edit', n, k) for k in range(8)]
        if deep:
            out += [('edit2', n, k) for k in range(64)]
    return out


def schemas(job):
    k = job[0]
    if k == 'type':
        b = job[1]
        fields = [[1, 'f', '']] if b == 'Enumerated' else [[1, 'f', 'String', [], '']] if b in wf.COMPLEX else []
        sets = [o for n in range(2) for o in itertools.combinations(OPTS, n)] + list(itertools.combinations(OPTS if job[2] > 2 else CORE, 2))
        for o in sets[job[3]::4]:
            if len(o) > 1 or not fields:
                if '#T0' in o or '>T0' in o or '>Undef' in o:
                    yield {'types': [T0, ['A', b, list(o), '', []]]}
                yield {'types': [T0, ['A', b, list(o)[::-1], '', fields]]}
            else:
                yield {'types': [T0, ['A', b, list(o), '', []]]}
                yield {'types': [T0, ['A', b, list(o), '', fields]]}
    elif k == 'type3':
        for o in itertools.combinations(OPTS[job[2] + 1:], 2):
            yield {'types': [T0, ['A', job[1], [OPTS[job[2]], *o], '', []]]}
    elif k == 'field':
        _, c, ft, depth, opts = job
        for n in range(depth + 1):
            for o in itertools.combinations(opts if n > 1 else OPTS, n):
                yield {'types': [T0, ['A', c, [], '', [[1, 'f', ft, list(o), ''], [2, 'g', 'T0', [], '']]]]}
        need = {'ArrayOf': ['*T0'], 'MapOf': ['+String', '*T0']}.get(ft)
        if need:
            for n in range(depth):
                for o in itertools.combinations(OPTS, n):
                    yield {'types': [T0, ['A', c, [], '', [[1, 'f', ft, need + list(o), '']]]]}
    elif k == 'ids':
        b, deep = job[1:]
        tail = [] if b == 'Enumerated' else ['String', []]
        for n in range(4):
            for ids in itertools.product((0, 1, 2, 3, -1)[:4 if n == 3 and not deep else 5], repeat=n):
                for nm in itertools.product(('a', 'b', 'c'), repeat=n) if n < 3 else [('a', 'b', 'c'), ('a', 'b', 'a'), ('b', 'a', 'a')]:
                    yield {'types': [['A', b, [], '', [[i, x, *tail, ''] for i, x in zip(ids, nm)]]]}
        for f in ([1, 'a'], [1, 'a', ''], [1, 'a', 'String'], [1, 'a', 'String', []], [1, 'a', 'String', [], ''], [1, 'a', 'String', [], '', ''], [], [1], ['1', 'a', ''], [1, 'a', '', '']):
            yield {'types': [['A', b, [], '', [f]]]}
            yield {'types': [['A', b, [], '', [[1, 'x', *tail, ''], [2, *f[1:]] if f else f]]]}
    elif k == 'wide':       # Many fields: every pair of equal ids or names, every id out of order, tags that refer to every id
        _, b, n = job
        tail = [] if b == 'Enumerated' else ['T0', []]
        for order in wide.ORDERS:
            ids = wide.ids(n, order)
            for opts in ([], ['=']) if b in ('Enumerated', 'Choice', 'Map') else ([],):
                yield {'types': [T0, ['A', b, opts, '', [[i, f'f{x}', *tail, ''] for x, i in enumerate(ids)]]]}
            for i, j in itertools.combinations(range(n), 2):
                if n > 12 and (i * 7 + j) % 5:
                    continue
                for what in range(3):
                    fields = [[x, f'f{y}', *tail, ''] for y, x in enumerate(ids)]
                    if what == 2:
                        fields[i][0], fields[j][0] = fields[j][0], fields[i][0]
                    else:
                        fields[j][what] = fields[i][what]
                    yield {'types': [T0, ['A', b, [], '', fields]]}
            if tail:
                for i in range(n):
                    for t in sorted({*ids, *(x + 1 for x in ids[:4])}) if n < 13 else (ids[0], ids[i - 1], ids[-1] + 1):
                        if t != ids[i] and b != 'Choice':
                            fields = [[x, f'f{y}', 'Ch' if y == i else 'En' if x == t else 'T0', [f'&{t}'] if y == i else [], ''] for y, x in enumerate(ids)]
                            yield {'types': [T0, ['A', b, [], '', fields], ['Ch', 'Choice', [], '', [[1, 'z', 'String', [], '']]], ['En', 'Enumerated', ['#Ch'], '', []]]}
                    for o in (['/nope'], ['[2', ']1'], ['*T0'], ['<']):
                        fields = [[x, f'f{y}', *(['String', o] if y == i else tail), ''] for y, x in enumerate(ids)]
                        yield {'types': [T0, ['A', b, [], '', fields]]}
        for i in range(n):      # Many types, one of which is wrong
            for bad in (['A0', 'String', [], '', []], [f'A{i}', 'Nope', [], '', []], [f'A{i}', 'String', ['/nope'], '', []], [f'A{i}', 'ArrayOf', [], '', []], [f'a{i}', 'String', [], '', []], [f'A{i}', b, [], '', [[2, 'f', *tail, '']]]):
                types = [[f'A{x}', b, [], '', [[1, 'f', *tail, '']]] for x in range(n)]
                types[i] = bad
                yield {'types': [T0] + types}
    elif k == 'names':
        chars = 'aA0$_-. é:'
        ns = [''.join(p) for n in (0, 1, 2, 3) for p in itertools.product(chars if n < 3 or job[1] else 'aA$é', repeat=n)]
        ns += [c * n for c in 'aA$' for n in (63, 64, 65, 66)] + list(BASES) + ['A' + 'b' * 63, 'A' + 'b' * 64, 'a' + 'B' * 63, 'a' + 'B' * 64, 'a\n', 'A\n', '\n', 'Aa\n\n', 'A\r', '\na', '\nA']
        for x in ns:
            yield {'types': [[x, 'String', [], '', []]]}
            yield {'types': [['A', 'Record', [], '', [[1, x, 'String', [], '']]]]}
            yield {'types': [['A', 'Map', [], '', [[1, 'f', x, [], '']]]]}
        for x in ns:
            if len(x) < 3:
                yield {'types': [['A', 'Enumerated', [], '', [[1, x, '']]]]}
                yield {'types': [['A', 'Map', [], '', [[1, 'f', x + ':A', [], '']]]]}
        for a in BASES + ('A', 'a', '', 'record', 'Foo', 'T0'):
            yield {'types': [T0, ['A', a, [], '', []]]}
        for a, b in itertools.product(('A', 'B', 'T0'), repeat=2):
            yield {'types': [[a, 'String', [], '', []], [b, 'Integer', [], '', []], T0]}
    elif k == 'same':       # every pair of names, in the same type: the same or not
        b = job[1]
        ns = ['a', 'b', 'aa', 'aB', 'ab', 'a_', 'a__', '$', '$a', 'a$', 'a$b', 'a0', 'a1', 'a00', 'x' * 63, 'x' * 64, 'x' * 63 + 'y', 'y' + 'x' * 63, 'toString', 'keys', 'id', 'class']
        if b is None:
            ns = ['$', '$a'] + [x[0].upper() + x[1:].replace('_', '-') for x in ns if x[0] != '$'] + ['Str', 'Strings', 'Integer0', 'Map-', 'MAP']
            for x, y in itertools.product(ns, repeat=2):
                for z in ([], [['T1', 'Boolean', [], '', []]]):
                    yield {'types': [[x, 'String', [], '', []], *z, [y, 'String', [], '', []]]}
                    yield {'types': [*z, [x, 'Integer', [], '', []], *z[:0], [y, 'Record', [], '', []]]}
            for a, b in itertools.product(BASES, repeat=2):     # two definitions of one name
                for name in ('A', 'B'):
                    for d in ('', 'x'):
                        for o in ([], ['X'] if b in ('Record', 'Array', 'Enumerated', 'Choice', 'Map') else ['{1'] if b in ('String', 'Integer', 'Binary') else []):
                            one, two = (([t, *(['*String'] if t in ('ArrayOf', 'MapOf') else []), *(['+String'] if t == 'MapOf' else [])]) for t in (a, b))
                            yield {'types': [['A', one[0], one[1:], '', []], [name, two[0], two[1:] + o, d, []]]}
                            yield {'types': [[name, two[0], two[1:] + o, d, []], T0, ['A', one[0], one[1:], '', []]]}
            return
        tail = [] if b == 'Enumerated' else ['String', []]
        if b == 'Enumerated':
            ns += ['', ' ', 'a ', ' a', 'A', '1', '01', 'é', 'e\u0301', '\u00e9', 'a b', 'a\n', '\u2028', 'null']
        for x, y in itertools.product(ns, repeat=2):
            for z in ([], [[2, 'zz', *tail, '']]):
                yield {'types': [['A', b, [], '', [[1, x, *tail, ''], *z, [len(z) + 2, y, *tail, '']]]]}
            if b in ('Enumerated', 'Choice', 'Map'):
                yield {'types': [['A', b, ['='], '', [[9, x, *tail, ''], [3, y, *tail, '']]]]}
    elif k == 'limits':
        for n in (0, 1, 2047, 2048, 2049):
            yield {'types': [['A', 'Integer', [], 'x' * n, []]]}
            yield {'types': [['A', 'Record', [], '', [[1, 'f', 'String', [], 'x' * n]]]]}
            yield {'types': [['A', 'Enumerated', [], '', [[1, 'f', 'x' * n]]]]}
        for n in (99, 100, 101):
            yield {'types': [['A', 'Record', [], '', [[i, f'f{i}', 'String', [], ''] for i in range(1, n + 1)]]]}
            yield {'types': [['A', 'Enumerated', [], '', [[i, f'f{i}', ''] for i in range(1, n + 1)]]]}
            yield {'types': [[f'A{i}', 'String', [], '', []] for i in range(n)]}
        for n in (999, 1000, 1001):
            yield {'types': [[f'A{i}', 'String', [], '', []] for i in range(n)]}
        for n in (254, 255, 256):
            yield {'types': [['A', 'Enumerated', [], '', [[1, 'x' * n, '']]]]}
            yield {'types': [['A', 'String', ['%' + 'x' * (n - 1)], '', []]]}
    elif k == 'info':
        vals = ['', 'a', 'http://a/b', 'x y', None, 1, True, [], {}, ['A'], ['a'], ['A', 'B'], [['n', 'http://a/b']], [['n', 'x']], {'n': 'http://a/b'},
                {'1n': 'http://a/b'}, {'': 'http://a/b'}, [['n', 'http://a/b'], ['m', 'http://a/c']], {'nnnnnnnnn': 'http://a/b'}, {'n\n': 'http://a/b'}, [['n\n', 'http://a/b']], ['A\n'], [['n']], [[1, 'http://a/b']], 'x' * 255, 'x' * 256]
        for key in wf.INFO + ['zz', 'module', 'comments']:
            for v in vals:
                yield {'info': {'package': 'http://a/b', key: v}, 'types': [T0]}
                yield {'info': {key: v}, 'types': [T0]}
        for i in (None, {}, [], 'a', {'package': 'http://a/b'}):
            yield {'info': i, 'types': [T0]}
        for t in (None, {}, [], '', 'a', {'A': 1}, [{'A': 1, 'String': 2}], ['AB'], [[]], [['A']], [['A', 'String']], [['A', 'String', []]], [['A', 'String', [], '']], [['A', 'String', [], '', [], 1]], [None]):
            yield {'types': t}
            yield {'info': {'package': 'http://a/b'}, 'types': t}
        yield {}
        yield {'info': {'package': 'http://a/b'}}
        yield {'types': [T0], 'zz': 1}
    elif k == 'edit':
        yield from itertools.islice(edits(EX[job[1]]), job[2], None, 8)
    elif k == 'edit2':
        for e in itertools.islice(edits(EX[job[1]]), job[2], None, 64):
            if wf.ok(e) is True:
                yield from edits(e)


def run(job, rec):
    rec.sample({'job': job})
    for s in schemas(job):
        s = fresh(s)
        before = copy.deepcopy(s)
        want = wf.ok(before)
        rec.state(before)
        rec.trans()
        try:
            r = jadn.check(s)
            got = True
        except Exception as e:
            got, r = False, f'{type(e).__name__}: {e}'[:200]
        rec.outcome({True: 'accept', False: 'reject', None: 'not-judged'}[want])
        if want is not None and got != want:
            rec.fail(f'{before!r}'[:500], {'schema': before, 'well-formed': want, 'accepted': got, 'why': repr(r)[:300]},
                     f'import jadn\n# expected: {"accepted" if want else "rejected"}\nprint(jadn.check({before!r}))\n')
            continue
        if got and want:
            full = {**before, 'types': [t + ['', '', [], '', []][len(t):] for t in before['types']]}
            if not same(r, full):
                rec.fail(f'returned:{before!r}'[:500], {'schema': before, 'returned': r}, f'import jadn\nprint(jadn.check({before!r}))\n')
                continue
        rec.trace()


if __name__ == '__main__':
    mc.main(globals())

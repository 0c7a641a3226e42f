"""C06: ArrayOf and MapOf: element, key and size constraints, uniqueness."""
import itertools
import mc
from explore import Explorer, MODES

ID = 'C06'
BOUNDS = ('ArrayOf over 10 element types x size bounds x none/unique/set/unordered, every list up to length 4 over 3-5 '
          'values; MapOf over 7 key types x 4 value types x size bounds, every map of up to 3 entries over 4 keys and 3 '
          'values; lists and maps of up to 3 texts, several of which stand for the same value; lists of different values with equal hashes; a repetition at every pair of positions of a list of 12; default and configured maximum; multi-valued fields with every multiplicity; 4 modes')
RULE = 'as C01'
ASSUMPTIONS = ['1 and 1.0 are the same element (as in JSON), true is a different one']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej')
SUB = [['R', 'Record', [], '', [[1, 's', 'Integer', [], ''], [2, 't', 'String', ['[0'], '']]],
       ['E', 'Enumerated', [], '', [[1, 'p', ''], [2, 'q', '']]], ['B', 'Binary', ['/x', '}2'], '', []],
       ['I3', 'Integer', ['{0', '}3'], '', []], ['S2', 'String', ['}2'], '', []], ['PA', 'String', ['%^[ab]+$'], '', []],
       ['EI', 'Enumerated', ['='], '', [[1, 'p', ''], [2, 'q', '']]],
       ['L', 'ArrayOf', ['*Integer'], '', []], ['O', 'MapOf', ['+String', '*Integer'], '', []],
       ['C', 'Choice', [], '', [[1, 'i', 'Integer', [], ''], [2, 's', 'String', [], '']]], ['I6', 'Binary', ['/ipv6-addr'], '', []], ['Dm', 'Integer', ['/datetime-ms'], '', []],
       ['U', 'Choice', ['CO'], '', [[1, 'b', 'Boolean', [], ''], [2, 'i', 'Integer', [], ''], [3, 'n', 'Number', [], ''], [4, 'l', 'LU', [], '']]], ['LU', 'ArrayOf', ['*U'], '', []]]
ELEMS = {'Integer': (0, 1, 2, 'x'), 'String': ('', 'a', 'b', 1), 'Number': (0.5, 1.5, 2, None), 'Boolean': (True, False, 0),
         'R': ({'s': 1}, {'s': 2}, {'s': 1, 't': 'a'}, {'t': 'a'}), 'E': ('p', 'q', 'z'), 'B': (b'', b'a', b'abc'),
         'L': ([], [1, 2], [2, 1], ['x']), 'O': ({}, {'a': 1}, {'a': 2}, {'a': 'x'}), 'C': ({'i': 1}, {'s': 'a'}, {'i': 'a'}),
         'Binary': (b'', b'\x00', b'a', ''), 'U': (1, True, 1.0, 0, 'x'), 'Dm': (0, 1000, -1)}
# serialized forms, some of the same value
TEXTS = {'B': ('6a', '6A', '61', ''), 'I6': ('::1', '0:0:0:0:0:0:0:1', '::A', '::a'), 'Dm': ('1970-01-01T00:00:00.000Z', '1970-01-01T00:00:01.000Z', '1970-01-01T00:00:00Z', '1970-01-01T01:00:00+01:00'),
         'U': (True, 1, 1.0, False, 0, [True], [1]), 'Number': (1, 1.0, True, 0, -0.0, 1e2, 100), 'Integer': (1, '1', '01', '-0', '0', 0)}
KEYS = {'String': ('', 'a', 'b', 1), 'Integer': (0, 1, -7, '1'), 'S2': ('a', 'ab', 'abc', ''), 'I3': (0, 3, 4, '0'), 'PA': ('a', 'ab', 'c', ''),
        'B': (b'', b'a', b'abc', '61'), 'E': ('p', 'q', 'z', 1), 'EI': (1, 2, 3, 'p'), '#R': ('s', 't', 'u', 1), 'Binary': (b'', b'a', 'a', 1)}
# different values whose hashes are equal in Python
HASH = {'Integer': (-1, -2, 0, 2 ** 61 - 1, 2 ** 61, 1, 1 - 2 ** 61), 'Number': (-1.0, -2.0, 314159, float('inf'), 0.5, 2 ** 60), 'LI': ([-1], [-2], [[]][0], [0], [2 ** 61 - 1]),
        'O': ({'a': -1}, {'a': -2}, {}), 'R': ({'s': -1}, {'s': -2}, {'s': 0}), 'String': ('', 'a', 'A', 'aa'), 'C': ({'i': -1}, {'i': -2}, {'s': ''})}
# lists of 12 distinct values, with one repeated at every pair of positions
FAR = {'Integer': range(12), 'String': [f's{n}' for n in range(12)], 'R': [{'s': n} for n in range(12)], 'L': [[n] for n in range(12)], 'Binary': [bytes([n]) for n in range(12)]}
SIZES = ((None, None), (1, None), (2, None), (None, 1), (None, 2), (2, 3), (1, 2), (3, 3))


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    out += [('Text', a, b, None, deep) for a in TEXTS for b in ('', 'q', 's')]
    for el in ELEMS:
        for size in SIZES:
            for u in ('', 'q', 's', 'b'):
                out.append(('ArrayOf', el, u, size, deep))
        out.append(('ArrayOf', el, '', 'config', deep))
        out.append(('Mult', el, '', None, deep))
        out.append(('Mult', el, 'q', None, deep))
    for kt in KEYS:
        for vt in ('Integer', 'R', 'E', 'L'):
            for size in SIZES if kt not in ('E', 'EI', '#R') else SIZES[:1]:
                out.append(('MapOf', kt, vt, size, deep))
            if kt not in ('E', 'EI', '#R'):
                out.append(('MapOf', kt, vt, 'seq', deep))
                out.append(('MapOf', kt, vt, 'config', deep))
    out += [('Hash', a, b, None, deep) for a in HASH for b in 'qs'] + [('Far', a, b, None, deep) for a in FAR for b in 'qs']
    out += [('Default', 'ArrayOf', '', None, deep), ('Default', 'MapOf', '', None, deep), ('Default', 'Multi', '', None, deep)]
    return out


def run(job, rec):
    kind, a, b, size, deep = job
    rec.sample({'kind': kind, 'of': a, 'options': b, 'size': size})
    label = f'{kind}({a},{b}){size}'
    so = [f'{c}{v}' for c, v in zip('{}', size) if v] if isinstance(size, tuple) else ['o'] if size == 'seq' else []
    info = {'info': {'package': 'x', 'config': {'$MaxElements': 2}}} if size == 'config' else {}
    top = 5 if deep else 4
    if kind == 'Default':
        types = [['A', 'ArrayOf', ['*Integer'], '', []], ['M', 'MapOf', ['+Integer', '*Integer'], '', []],
                 ['X', 'Record', [], '', [[1, 'f', 'Integer', ['[0', ']0'], ''], [2, 'g', 'Integer', ['[3', ']120'], '']]]]
        e = Explorer(rec, {'types': types}, label)
        ns = range(0, 125)
        if a == 'ArrayOf':
            e.explore('A', [[1] * n for n in ns], mutate=False)
        elif a == 'MapOf':
            e.explore('M', [{i: i for i in range(n)} for n in ns], mutate=False)
        else:
            e.explore('X', [{'g': [1] * n} for n in ns] + [{'f': [1] * n, 'g': [1] * 3} for n in ns], mutate=False)
        return
    if kind in ('Hash', 'Far'):
        types = [['T', 'ArrayOf', [f'*{a}', b], '', []], ['F', 'Record', [], '', [[1, 'f', a, ['[0', ']0', 'q'], '']]], ['LI', 'ArrayOf', ['*Integer'], '', []], ['TT', 'ArrayOf', ['*T', b], '', []]]
        e = Explorer(rec, {'types': types + SUB}, label)
        if kind == 'Hash':
            lists = [list(p) for k in range(4) for p in itertools.product(HASH[a], repeat=k)]
        else:
            full = list(FAR[a])
            lists = [full[:n] for n in range(13)] + [full[::-1]] + [full[:i] + [full[j]] + full[i + 1:] for i in range(12) for j in range(12) if i != j]
        e.explore('T', lists, lists, junk=[], mutate=False)
        if a != 'LI':
            e.explore('F', [{'f': x} for x in lists[1:]], [], junk=[], mutate=False)
        e.explore('TT', [[x, y] for x in lists[:20] for y in lists[:20]], [], junk=[], mutate=False)
        return
    if kind == 'Text':
        q = [b] if b else []
        types = [['T', 'ArrayOf', [f'*{a}'] + q, '', []], ['R', 'Record', [], '', [[1, 'f', a, ['[0', ']0'] + (q if b == 'q' else []), ''], [2, 'g', 'ArrayOf', [f'*{a}', '[0'] + q, '']]],
                 ['TT', 'ArrayOf', ['*TV'] + q, '', []], ['TV', 'ArrayOf', [f'*{a}'], '', []]] + ([['K', 'MapOf', [f'+{a}', '*Integer'], '', []], ['KI', 'MapOf', [f'+{a}', '*T', '{2'], '', []]] if a != 'U' else [])
        e = Explorer(rec, {'types': types + SUB}, label)
        lists = [list(p) for k in range(4) for p in itertools.product(TEXTS[a], repeat=k)]
        e.explore('T', [], lists, junk=[])
        e.explore('R', [], [{'f': x} for x in lists] + [{'g': x} for x in lists] + [[x] for x in lists], junk=[])
        e.explore('TT', [], [[x, y] for x in lists[:60] for y in lists[:60] if x != y], junk=[])
        if a != 'U':
            maps = [dict(zip(p, range(k))) for k in range(4) for p in itertools.permutations(TEXTS[a], k)]
            e.explore('K', [], maps, junk=[])
            e.explore('KI', [], [{k: list(m)[:1] for k in m} for m in maps], junk=[])
        return
    if kind == 'ArrayOf':
        els = ELEMS[a]
        types = [['T', 'ArrayOf', [f'*{a}'] + so + ([b] if b else []), '', []],
                 ['Rec', 'Record', [], '', [[1, 'f', 'ArrayOf', [f'*{a}'] + so + ([b] if b else []), ''], [2, 'g', 'T', ['[0'], '']]],
                 ['TT', 'ArrayOf', ['*T', '}2'] + (['q'] if b == 'q' else []), '', []]]
        e = Explorer(rec, {**info, 'types': types + SUB}, label)
        n = top if len(els) < 4 else top - 1
        vals = [list(p) for k in range(n + 1) for p in itertools.product(els, repeat=k)]
        e.explore('T', vals, vals, mutate=deep)
        e.explore('Rec', [{'f': v} for v in vals] + [{'f': vals[1], 'g': v} for v in vals[:20]], [], junk=[], mutate=False)
        small = vals[:8]
        e.explore('TT', [[x, y] for x in small for y in small], [], junk=[], mutate=False)
        return
    if kind == 'Mult':
        els = ELEMS[a]
        q = [b] if b else []
        mult = [(lo, hi) for lo in (0, 1, 2) for hi in (1, 2, 3, 0) if (hi == 0 or lo <= hi) and not (lo == 1 and hi == 1)]
        for lo, hi in mult:
            if hi == 1 and b:
                continue
            fo = ([] if lo == 1 else [f'[{lo}']) + ([] if hi == 1 else [f']{hi}'])
            types = [['T', 'Record', [], '', [[1, 'f', a, fo + q, ''], [2, 'g', a, ['[0'], '']]],
                     ['M', 'Map', ['='], '', [[7, 'f', a, fo + q, '']]], ['A', 'Array', [], '', [[1, 'f', a, fo + q, '']]]]
            e = Explorer(rec, {'types': types + SUB}, label + f'{lo}..{hi}')
            lists = [list(p) for k in range(top) for p in itertools.product(els[:3], repeat=k)] + [[els[-1]]] + list(els) + [None]
            e.explore('T', [{'f': v} for v in lists] + [{}, {'g': els[0]}, {'f': [els[0]] * 2, 'g': [els[0]]}], junk=[], mutate=False)
            e.explore('M', [{'f': v} for v in lists] + [{}], junk=[], mutate=False)
            e.explore('A', [[v] for v in lists] + [[]], junk=[], mutate=False)
        return
    kopt = f'+{a}'
    vals3 = ELEMS[b][:2] + ELEMS[b][-1:]
    types = [['T', 'MapOf', [kopt, f'*{b}'] + so, '', []],
             ['Rec', 'Record', [], '', [[1, 'f', 'MapOf', [kopt, f'*{b}'] + so, ''], [2, 'g', 'T', ['[0'], '']]],
             ['TT', 'MapOf', ['+String', '*T'], '', []]]
    e = Explorer(rec, {**info, 'types': types + SUB}, label)
    maps = [dict(zip(ks, vs)) for k in range(4) for ks in itertools.combinations(KEYS[a], k) for vs in itertools.product(vals3, repeat=k)]
    wires = [{str(k) if not isinstance(k, bytes) else k: v for k, v in m.items()} for m in maps]
    e.explore('T', maps, maps + wires, mutate=True)
    e.explore('Rec', [{'f': v} for v in maps] + [{'f': maps[1], 'g': v} for v in maps[:20]], [], junk=[], mutate=False)
    e.explore('TT', [{'x': v, 'y': v} for v in maps[:30]], [], junk=[], mutate=False)


if __name__ == '__main__':
    mc.main(globals())

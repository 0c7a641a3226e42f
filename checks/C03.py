"""C03: Enumerated and tagged Choice types accept exactly their items / alternatives, by name or by id as specified."""
import itertools
import mc
import wide
from explore import Explorer, subsets

ID = 'C03'
BOUNDS = ('Enumerated and Choice types with every subset of up to 4 items out of 5 (ids 0..2^31, non-contiguous and out of '
          'order), with and without the id option, and derived enumerations; every item, every id, every other item of '
          'the schema, ids as strings, swapped ids and names, multi-valued Choices; types of 9-70 items or alternatives with ids in six orders; 4 modes, encode and decode; contexts: '
          'type, field, element, map key, anonymous')
RULE = 'as C01'
ASSUMPTIONS = ['spellings of integers other than the canonical one are not judged as member names']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej')
ITEMS = [(1, 'a'), (2, 'b'), (10, 'c1'), (0, 'd'), (2147483647, 'e')]
ODD = [(5, '1'), (1, '5'), (7, 'a-b'), (8, '')]     # items whose names look like ids


def jobs(tier):
    n = 5 if tier == 'thorough' else 3
    out = []
    for opts in ([], ['=']):
        for sub in subsets(range(5), 0, n):
            for order in ([sub] if len(sub) < 2 else list(itertools.permutations(sub)) if tier == 'thorough' else [sub, sub[::-1]]):
                out.append(('Enumerated', opts, [ITEMS[i] for i in order]))
                out.append(('Choice', opts, [ITEMS[i] for i in order]))
        for sub in subsets(range(4), 1, 4):
            out.append(('Enumerated', opts, [ODD[i] for i in sub]))
    for opts in ([], ['=']):
        out += [('wide', b, opts, n, order) for b in ('Enumerated', 'Choice') for n in wide.SIZES for order in wide.ORDERS]
    return out


ALTS = (('Integer', []), ('String', []), ('E2', []), ('Integer', ['{0', '}3']), ('R', []))
GOOD = ((5, -1), ('x', ''), ('p',), (0, 3), ({'u': 1},))
BAD = (('5', None), (5, b''), ('q', 1), (4, -1), ({'u': 'a'}, {}, [1]))


def run_wide(job, rec):
    _, base, opts, n, order = job
    types, names, ids, good, _ = wide.container(base, opts, n, order, 'all')
    rec.sample({'base': base, 'options': opts, 'items': n, 'order': order})
    keys = ids + names + [str(i) for i in ids] + [i + 1 for i in ids] + [i % 65536 for i in ids] + [i % 256 for i in ids] + ['f0', f'f{n + 1}', 'f01', 'f', '']
    if base == 'Enumerated':
        types[0][4] = [f[:2] + [''] for f in types[0][4]]
        e = Explorer(rec, {'types': types + [['L', 'ArrayOf', ['*T', 'q', '}200'], '', []], ['K', 'MapOf', ['+Kx', '*T'], '', []], ['Kx', 'Enumerated', [] + opts, '', types[0][4][3:]]]}, f'{job}')
        e.explore('T', keys, keys, junk=[], mutate=False)
        e.explore('L', [names, ids, names[::-1], ids + ids[:1], names + names[-1:]], [], junk=[], mutate=False)
        e.explore('K', [{k: v for k, v in zip(ks[3:], ks)} for ks in (names, ids)], [], junk=[], mutate=False)
        return
    e = Explorer(rec, {'types': types}, f'{job}')
    vals = [{k: v} for ks in (ids, names, [str(i) for i in ids]) for k, v in zip(ks, good)] + [{k: good[0]} for k in keys] + [{names[i]: good[0], names[i - 1]: good[0]} for i in range(n)]
    e.explore('T', vals, vals, junk=[], mutate=False)


def run(job, rec):
    if job[0] == 'wide':
        return run_wide(job, rec)
    base, opts, items = job
    label = f'{base}{opts}{items}'
    rec.sample({'base': base, 'options': opts, 'items': items})
    keys = [i for i, _ in ITEMS + ODD] + [n for _, n in ITEMS + ODD] + [str(i) for i, _ in ITEMS] + \
           [-1, 3, 'A', 'zz', '01', '1.0', '+1', ' 1', None, True, False, 1.0, 2.5, b'a', (), (1,)]
    if base == 'Enumerated':
        types = [['E', base, opts, '', [[i, n, ''] for i, n in items]],
                 ['Rec', 'Record', [], '', [[1, 'f', 'E', [], ''], [2, 'g', 'E', ['[0', ']2'], '']]],
                 ['List', 'ArrayOf', ['*E'], '', []], ['Arr', 'Array', [], '', [[1, 'f', 'E', ['[0'], ''], [2, 'g', 'E', ['[0'], '']]],
                 ['Ch', 'Choice', ['='], '', [[3, 'f', 'E', [], '']]],
                 ['Copy', 'Enumerated', ['#E'], '', []], ['CopyId', 'Enumerated', ['=', '#E'], '', []],
                 ['An', 'Record', [], '', [[1, 'f', 'Enumerated', ['#E'], ''], [2, 'g', 'Enumerated', ['=', '#E', '[0'], '']]],
                 ['Src', 'Map', [], '', [[i or 99, n, 'String', ['[0'], ''] for i, n in items]],
                 ['Fld', 'Enumerated', ['#Src'], '', []], ['FldL', 'ArrayOf', ['*#Src'], '', []]]
        e = Explorer(rec, {'types': types}, label)
        vals = [i for i, _ in items] + [n for _, n in items]
        for t in ('E', 'Copy', 'CopyId', 'Fld'):
            e.explore(t, keys, keys, junk=[[], {}, ['a'], {'a': 1}], mutate=False)
        hk = [k for k in keys if k.__hash__]
        for t, w in (('List', lambda v: [v, v]), ('Rec', lambda v: {'f': v, 'g': [v]}), ('Arr', lambda v: [v]), ('FldL', lambda v: [v]),
                     ('Ch', lambda v: {3: v}), ('An', lambda v: {'f': v}), ('An', lambda v: {'f': items[0][1] if items else 'a', 'g': v})):
            e.explore(t, [w(k) for k in hk], [], junk=[], mutate=False)
        return
    types = [['Ch', base, opts, '', [[i, n, ALTS[x % 5][0], ALTS[x % 5][1], ''] for x, (i, n) in enumerate(items)]],
             ['R', 'Record', [], '', [[1, 'u', 'Integer', [], '']]], ['E2', 'Enumerated', [], '', [[1, 'p', ''], [2, 'r', '']]],
             ['Rec', 'Record', [], '', [[1, 'f', 'Ch', [], ''], [2, 'g', 'Ch', ['[0', ']2'], '']]], ['List', 'ArrayOf', ['*Ch'], '', []]]
    e = Explorer(rec, {'types': types}, label)
    good = [{k: v} for x, (i, n) in enumerate(items) for k in (i, n) for v in GOOD[x % 5]]
    vals = list(good)
    vals += [{k: v} for x, (i, n) in enumerate(items) for k in (i, n, str(i)) for v in BAD[x % 5]]
    vals += [{k: v} for k in keys if k.__hash__ for v in (1, 'x')]
    vals += [{**a, **b} for a in good for b in good if a != b][:60] + [{}] + [{**a, k: None} for a in good[::2] for k in ('a', 'b', 1, 'zz')]
    e.explore('Ch', vals, vals, mutate=True)
    e.explore('List', [[v] for v in vals] + [[a, b] for a in good for b in good], [], junk=[], mutate=False)
    e.explore('Rec', [{'f': v} for v in vals] + [{'f': a, 'g': [a]} for a in good], [], junk=[], mutate=False)


if __name__ == '__main__':
    mc.main(globals())

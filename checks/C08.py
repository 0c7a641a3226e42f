"""C08: the serialized form of every value is the one its mode prescribes: names or ids as member names and enumerated
values, records as objects or arrays, in all modes, at every nesting level; and only that form is accepted back."""
import itertools
import mc
from explore import Explorer, MODES
from compose import build, chains, LEAVES, CONS, RECURSIVE

ID = 'C08'
BOUNDS = ('every Enumerated, Choice, Map, Record and Array with 1-3 items, each id assignment from {0,1,2,5}, with and without the id option and size limits, required and optional fields, bare and inside '
          'a Record, list and map; '
          'every chain of 1-2 (thorough: 3) of 16 constructors above each leaf type, values per type, all four modes; every '
          "encoding, every other mode's encoding and every single edit of each encoding compared with the reference model")
RULE = 'as C01'
ASSUMPTIONS = []
EXPECT_OUTCOMES = ('encode-ok', 'decode-ok', 'decode-rej')


def jobs(tier):
    deep = tier == 'thorough'
    out = [('shape', b, n, deep) for b in ('Enumerated', 'Choice', 'Map', 'Record', 'Array') for n in (1, 2, 3)]
    out += [('rec', n, None, deep) for n in range(len(RECURSIVE))]
    for leaf in LEAVES:
        out += [('ch', (a,), leaf, True) for a in CONS]
    for leaf in LEAVES:
        out += [('ch', (a, b), leaf, leaf in ('Enm', 'EnmId')) for a in CONS for b in CONS]
    if deep:
        out += [('ch', c, leaf, leaf == 'Enm') for c in chains(3) for leaf in ('Enm', 'Date', 'Net')]
    return out


def shapes(base, n):
    """-> (definition, values)"""
    for ids in [range(1, n + 1)] if base in ('Record', 'Array') else itertools.permutations((0, 1, 2, 5), n):
        for opts in ([], ['=']) if base not in ('Record', 'Array') else ([],):
            names = 'pqr'[:n]
            if base == 'Enumerated':
                yield [base, opts, [[i, x, ''] for i, x in zip(ids, names)]], list(ids if opts else names)
                continue
            if 0 in ids:
                continue
            vals = [3, 'y', 'p'][:n]
            keys = [i if opts and base == 'Choice' else x for i, x in zip(ids, names)]
            # Size limits do not change the form, nor does which of the fields may be absent
            for size, req in [([], 1), ([], 0)] + [(x, r) for x in (['{1'], ['}3'], ['{1', '}4']) for r in (0, 1)] if base != 'Choice' else [([], 0)]:
                fields = [[i, x, ('Integer', 'E', 'String')[k], ['[0'] if k >= req and base != 'Choice' else [], ''] for k, (i, x) in enumerate(zip(ids, names))]
                if base == 'Choice':
                    yield [base, opts, fields], [{k: v} for k, v in zip(keys, vals)]
                elif base == 'Array':
                    yield [base, size, fields], [vals, vals[:1]] + [[None] * (n - 1) + vals[-1:]] * (not req)
                else:
                    yield [base, opts + size, fields], [dict(zip(keys, vals)), {keys[0]: 0}] + [{keys[-1]: vals[-1]}] * (not req)


def run(job, rec):
    kind, chain, leaf, deep = job
    if kind == 'shape':
        for d, vals in shapes(chain, leaf):
            schema = {'types': [['R', 'Record', [], '', [[1, 'f', 'T', [], ''], [2, 'g', 'T', [']0', '[0'], '']]], ['L', 'ArrayOf', ['*T'], '', []], ['M', 'MapOf', ['+T' if chain == 'Enumerated' else '+Integer', '*T'], '', []],
                                ['T', d[0], d[1], '', d[2]], ['E', 'Enumerated', [], '', [[7, 'x', ''], [3, 'y', '']]]]}
            e = Explorer(rec, schema, f'shape {d}')
            e.explore('T', vals, junk=[0, 1, 2, 5, 'p', 'q', '1', 'x', [], {}])
            e.explore('R', [{'f': vals[0]}, {'f': vals[-1], 'g': vals}], junk=[], mutate=deep)
            e.explore('L', [vals], junk=[], mutate=deep)
            e.explore('M', [{v: v for v in vals}] if chain == 'Enumerated' else [{4: vals[0], -1: vals[-1]}], junk=[], mutate=deep)
        rec.sample({'shape': chain, 'items': leaf})
        return
    if kind == 'rec':
        name, schema, fn = RECURSIVE[chain]
        e = Explorer(rec, schema, name)
        e.explore('T', [fn(d) for d in range(4)], junk=[])
        return
    schema, root, vals = build(chain, leaf)
    rec.sample({'nesting': chain, 'leaf': leaf, 'values': [repr(v) for v in vals[:2]]})
    e = Explorer(rec, schema, f'{">".join(chain)}>{leaf}')
    e.explore(root, vals, junk=[], mutate=deep)


if __name__ == '__main__':
    mc.main(globals())

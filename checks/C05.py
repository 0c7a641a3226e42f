"""C05: Record, Map and Array accept exactly the instances with the required fields, no unknown ones, and an allowed
number of fields; absent optional fields keep their positions."""
import itertools
import mc
import wide
from explore import Explorer, subsets, MODES

ID = 'C05'
BOUNDS = ('Record, Map, Map with ids and Array with every required/optional pattern of up to 4 fields (5 in thorough) x '
          'size bounds; instances: every combination of absent/good/bad/null per field, plus unknown fields, extra '
          'elements, other spellings of every field id, and every single edit of every serialized form; types of 10-33 (thorough 9-70) fields '
          'with ids in six orders, with every field absent, alone, or wrong; 4 modes')
RULE = 'as C01'
ASSUMPTIONS = ['explicit null members of a serialized object are not judged']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej')
FT = ('Integer', 'String', 'Sub', 'Boolean', 'Lst')
GOOD = (7, 'x', {'s': 1}, True, ['p'])
GOOD2 = (0, '', {'s': 0, 't': 'y'}, False, ['p', ''])
BAD = ('7', 7, {'s': 'a'}, 0, [])
NAMES = ('a', 'b', 'c', 'd', 'e')


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for base, opts in (('Record', []), ('Map', []), ('Map', ['=']), ('Array', [])):
        for n in range(0, 6 if deep else 5):
            for req in itertools.product((1, 0), repeat=n):
                for size in ((None, None), (1, None), (2, None), (None, 1), (None, 2), (2, 3), (3, 3)) if n else ((None, None),):
                    if n == 5 and size not in ((None, None), (2, 3)):
                        continue
                    if size[0] and size[0] > n:
                        continue
                    out.append((base, opts, req, size, 0, deep))
                if n and 'Map' == base:
                    out.append((base, opts, req, (None, None), 1, deep))    # ids out of order and not contiguous
        out.append((base, opts, (0,) * 3, 'config', 0, deep))
    for base, opts in (('Record', []), ('Map', []), ('Map', ['=']), ('Array', [])):
        out += [('wide', base, opts, n, order, req) for n in (wide.SIZES if deep else wide.SIZES[1:-1]) for order in (wide.ORDERS if base == 'Map' and (deep or n < 17) else ('asc',))
                for req in (('all', 'none', 'odd', 'last') if deep or n < 17 else ('none', 'odd'))]
    return out


def run_wide(job, rec):
    _, base, opts, n, order, required = job
    types, names, ids, good, req = wide.container(base, opts, n, order, required)
    e = Explorer(rec, {'types': types + [['Out', 'Array', [], '', [[1, 'x', 'T', ['[0'], ''], [2, 'y', 'T', ['[0'], '']]]]}, f'{job}')
    rec.sample({'base': base, 'fields': n, 'order': order, 'required': required})
    vals, wires = [], []
    for r in wide.rows(good, req):
        a = [None if x is wide.ABSENT else x for x in r]
        if base == 'Array':
            vals += [a, a + [1]]
        else:
            vals += [{k: x for k, x in zip(names, r) if x is not wide.ABSENT}]
            wires += [{str(k): x for k, x in zip(ids, r) if x is not wide.ABSENT}]
        wires.append(a)
    if base != 'Array':
        vals += [dict(reversed(list(vals[0].items()))), {**vals[0], f'f{n + 1}': 1}, {**vals[0], 'f0': 1}, {**vals[0], 'f01': 1}]
        wires += [dict(reversed(list(wires[0].items())))] if isinstance(wires[0], dict) else []
    e.explore('T', vals, wires, junk=[], mutate=False)
    e.explore('Out', [[None, v] for v in vals[:3]], [], junk=[], mutate=False)


def run(job, rec):
    if job[0] == 'wide':
        return run_wide(job, rec)
    base, opts, req, size, shuffle, deep = job
    n = len(req)
    ids = [(n - i) * 10 + i for i in range(n)] if shuffle else list(range(1, n + 1))
    fields = [[ids[i], NAMES[i], FT[i], [] if req[i] else ['[0'], ''] for i in range(n)]
    so = [] if size == 'config' else [f'{c}{v}' for c, v in zip('{}', size) if v]
    types = [['T', base, opts + so, '', fields],
             ['Sub', 'Record', [], '', [[1, 's', 'Integer', [], ''], [2, 't', 'String', ['[0'], '']]],
             ['Lst', 'ArrayOf', ['*String', '{1'], '', []],
             ['Out', 'Record', [], '', [[1, 'x', 'T', ['[0'], ''], [2, 'y', 'T', ['[0', ']2'], '']]],
             ['OutA', 'Array', [], '', [[1, 'x', 'T', ['[0'], ''], [2, 'y', 'T', ['[0'], '']]]]
    schema = {'types': types}
    if size == 'config':
        schema = {'info': {'package': 'x', 'config': {'$MaxElements': 2}}, 'types': types}
    e = Explorer(rec, schema, f'{base}{opts}{req}{size}{shuffle}')
    rec.sample({'base': base, 'options': opts + so, 'required': req})
    absent = object()
    vals, wires = [], []
    pool = [(absent, GOOD[i], GOOD2[i], BAD[i], None) if n < 4 else (absent, GOOD[i], BAD[i], None) if n < 5 else (absent, GOOD[i], GOOD2[i])
            for i in range(n)]
    for c in itertools.product(*pool):
        if base == 'Array':
            v = [None if x is absent else x for x in c]
            vals.append(v)
            if v and v[-1] is None:
                vals.append(v[:-1])
            wires.append(v)
        else:
            v = {NAMES[i]: x for i, x in enumerate(c) if x is not absent}
            vals.append(v)
            wires.append([None if x is absent else x for x in c])
            wires.append({NAMES[i]: x for i, x in enumerate(c) if x is not absent})
            wires.append({ids[i]: x for i, x in enumerate(c) if x is not absent})
            wires.append({str(ids[i]): x for i, x in enumerate(c) if x is not absent})
    good = dict(zip(NAMES, GOOD[:n]))
    if base == 'Array':
        vals += [list(GOOD[:n]) + [x] for x in (None, 1, 'x')] + [list(GOOD[:n]) + [None, None]]
    else:
        vals += [{**good, k: 1} for k in ('f', 'A', '1', '', 1, 99, None)] + [dict(zip(ids, GOOD))]
        vals += [dict(reversed(list(good.items())))]
        full = dict(zip(ids, GOOD))
        for i in ids:       # other spellings of an id, alone and next to the id itself
            for k in (i, str(i), f'0{i}', f' {i}', f'+{i}', f'{i}.0', f'{i}_0', float(i), i + 0.5, chr(0x660 + i % 10), i == 1, str(-i), f'{i}\n'):
                wires += [{(k if x == i else x): y for x, y in full.items()}, {(k if x == i else str(x)): y for x, y in full.items()}, {**full, k: full[i]}, {k: full[i], **{str(x): y for x, y in full.items()}}]
    few = n <= 3 or deep
    e.explore('T', vals, wires, mutate=n <= 3 or (deep and n <= 4))
    if n <= 3:
        e.explore('Out', [{'x': v} for v in vals] + [{'y': [v, v]} for v in vals], [], junk=[], mutate=False)
        e.explore('OutA', [[None, v] for v in vals], [], junk=[], mutate=False)


if __name__ == '__main__':
    mc.main(globals())

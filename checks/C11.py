"""C11: a field whose type is selected by another field (TagId) is encoded and decoded as the selected alternative, in
every container, field order and mode; a missing or unknown selector is rejected."""
import itertools
import mc
from explore import Explorer

ID = 'C11'
BOUNDS = ('Record, Map, Map with ids, Array x every order and optionality of a selector, one or two selected fields and '
          'another field x Choice with/without ids x selector Enumerated derived, explicit or larger than the Choice; nested '
          'alternatives; every selector/value combination incl. mismatches, missing, null, junk; 4 modes; single edits')
RULE = 'as C01'
ASSUMPTIONS = ['the selector is an Enumerated type with the same id option as the Choice']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej')
ALT = (('Integer', (5, 0), 'x'), ('String', ('s', ''), 5), ('R', ({'u': 1}, {'u': 0, 'w': 'q'}), {}), ('E', ('m', 'n'), 'z'), ('L', ([1], [2, 3]), ['x']))


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for cid in (0, 1):
        for base in ('Record', 'Map', 'MapId', 'Array'):
            for sel in ('derived', 'explicit', 'bigger', 'named'):
                for n in (2, 1):
                    if sel != 'derived' and n == 2 and not deep and base in ('Map',):
                        continue
                    fl = ['tag'] + [f'v{i}' for i in range(n)] + ['o']
                    for order in itertools.permutations(range(len(fl))):
                        for opt in ((1, 1), (0, 1), (1, 0), (0, 0)) if deep or n == 1 else ((1, 0), (0, 0)):
                            out.append((cid, base, sel, n, order, opt, deep))
    return out


def run(job, rec):
    cid, base, sel, n, order, (reqtag, reqval), deep = job
    ids = {}
    names = ['tag'] + [f'v{i}' for i in range(n)] + ['o']
    for pos, i in enumerate(order):
        ids[i] = pos * 3 if base.startswith('Map') else pos + 1      # 0 is an id
    chf = [[3 + 4 * k, f'c{k}', ALT[k][0], [], ''] for k in range(len(ALT))]
    copt = ['='] if cid else []
    types = [['Ch', 'Choice', copt, '', chf], ['R', 'Record', [], '', [[1, 'u', 'Integer', [], ''], [2, 'w', 'String', ['[0'], '']]],
             ['E', 'Enumerated', [], '', [[1, 'm', ''], [4, 'n', '']]], ['L', 'ArrayOf', ['*Integer'], '', []]]
    items = [[f[0], f[1], ''] for f in chf]
    if sel == 'derived':
        ft, fo = 'Enumerated', copt + ['#Ch']
    else:
        ft, fo = 'Sel', []
        if sel == 'named':
            types.append(['Sel', 'Enumerated', copt + ['#Ch'], '', []])
        else:
            types.append(['Sel', 'Enumerated', copt, '', items + ([[50, 'extra', '']] if sel == 'bigger' else [])])
    fields = []
    for i in order:
        if i == 0:
            fields.append([ids[i], 'tag', ft, fo + ([] if reqtag else ['[0']), ''])
        elif i <= n:
            fields.append([ids[i], f'v{i - 1}', 'Ch', [f'&{ids[0]}'] + ([] if reqval else ['[0']), ''])
        else:
            fields.append([ids[i], 'o', 'Boolean', ['[0'], ''])
    b = {'MapId': ('Map', ['=']), 'Map': ('Map', [])}.get(base, (base, []))
    types.append(['T', *b, '', fields])
    types.append(['Out', 'ArrayOf', ['*T'], '', []])
    e = Explorer(rec, {'types': types}, repr(job))
    rec.sample({'type': types[-2]})
    tags = [f[0] if cid else f[1] for f in chf] + [50 if cid else 'extra', None, 'zz', 99]
    if deep:
        tags += [str(t) for t in tags[:2]] + [1, 1.0, True, [], '']
    dicts = []
    for t in tags:
        for k, (_, good, bad) in enumerate(ALT):
            for v in (good[0], good[1], bad) if n == 1 or k < 2 else (good[1],):
                d = {'v0': v}
                if t is not None:
                    d['tag'] = t
                dicts.append(d)
                if v is good[0]:        # the form of a Choice that is not selected by a tag
                    dicts.append({**d, 'v0': {chf[k][0] if cid else chf[k][1]: v}})
                if n == 2:
                    for w in (good[0], 'q', None) if k < 3 else ():
                        dicts.append({**d, 'v1': w} if w is not None else d)
        dicts.append({'tag': t} if t is not None else {'o': True})
    dicts += [{**d, 'o': True} for d in dicts[:4]]
    if b[0] == 'Array':
        vals = [[d.get(f[1]) for f in fields] for d in dicts]
        vals = [e.model.strip(v) for v in vals] + [[None] * 2]
    else:
        vals = [{k: v for k, v in d.items()} for d in dicts]
    e.explore('T', vals, [], junk=[], mutate=deep or n == 1)
    e.explore('Out', [[vals[0], v] for v in vals[:30]], [], junk=[], mutate=False)


if __name__ == '__main__':
    mc.main(globals())

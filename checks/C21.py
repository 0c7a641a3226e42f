"""C21: dependency analysis and topological sort of type graphs."""
import copy
import itertools
import mc
import gen
from explore import call, same, fresh
from ref import parse_opts, BUILTIN
import jadn

ID = 'C21'
BOUNDS = ('topo_sort: every directed graph on up to 3 nodes (4 in the thorough tier; all acyclic ones on 4 in the quick tier) x every ordered choice of '
          '1-2 roots, plus graphs with undefined nodes and duplicate edges; build_deps and analyze: every reference position x every target, every '
          'pair of positions, the enumerated schemas of C16, information blocks with roots / exports')
RULE = 'state = graph or schema; transition = call compared with the graph theory definition; trace = agreement'
EXPECT_OUTCOMES = ('sorted', 'deps', 'analyze')
NODES = 'ABCD'


def jobs(tier):
    deep = tier == 'thorough'
    out = [('topo', n, k, 8) for n in (1, 2, 3) for k in range(8 if n == 3 else 1)]
    out += [('topo', 4, k, 64) for k in range(64)] if deep else [('dag', 4, k, 16) for k in range(16)]
    out += [('extra',), ('pos', 0), ('pos', 1), ('pos', 2), ('pos', 3)]
    return out + gen.jobs(deep, ['types', 'fields:Record', 'fields:Choice', 'names', 'refs', 'combos', 'wide'])


def reach(g, roots):
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += g.get(n, [])
    return seen


def topo(rec, g, roots):
    rec.state('topo', g, roots)
    rec.trans()
    arg, ar = copy.deepcopy(g), list(roots)
    r, out = call(jadn.topo_sort if hasattr(jadn, 'topo_sort') else jadn.utils.topo_sort, arg, ar)
    why = None
    if r != 'ok':
        why = 'failed'
    elif arg != g or ar != list(roots):
        why = 'argument modified'
    else:
        want = reach(g, roots)
        if sorted(out) != sorted(want):
            why = f'lists {sorted(out)}, reachable from the roots are {sorted(want)}'
        else:
            pos = {n: i for i, n in enumerate(out)}
            for a in want:
                for b in g.get(a, []):
                    if pos[b] <= pos[a] and a not in reach(g, [b]):
                        why = why or f'{b} listed before {a}, which depends on it (no cycle between them)'
    if why:
        rec.fail(f'topo|{g!r}|{roots!r}', {'graph': g, 'roots': roots, 'got': out, 'what': why}, f'import jadn\nprint(jadn.utils.topo_sort({g!r}, {list(roots)!r}))\n')
    else:
        rec.outcome('sorted')
        rec.trace()


def cyclic(g):
    return any(a in reach(g, g[a]) for a in g)


def refs(t):
    """-> set of references of a type definition (derived enumerations marked)"""
    out = set()

    def opts(o):
        d = parse_opts(o)[0]
        for k in ('ktype', 'vtype'):
            if k in d and d[k] not in BUILTIN:
                out.add(d[k])
        for k, c in (('enum', '#'), ('pointer', '>')):
            if k in d:
                out.add(d[k])
    opts(t[2])
    for f in t[4] if len(t) > 4 and t[1] in ('Choice', 'Array', 'Map', 'Record') else []:
        if f[2] not in BUILTIN:
            out.add(f[2])
        opts(f[3])
    return {x.lstrip('#>') for x in out}


def deps(rec, s):
    rec.state('deps', s)
    rec.trans(2)
    arg = copy.deepcopy(s)
    r, d = call(jadn.build_deps, arg)
    want = {t[0]: refs(t) for t in s['types']}
    got = {k: {x.lstrip('#>') for x in v} for k, v in d.items()} if r == 'ok' else d
    if got != want or list(got) != list(want) or not same(arg, s):
        rec.fail(f'deps|{s!r}'[:500], {'schema': s, 'expected': repr(want), 'got': repr(d)}, f'import jadn\nprint(jadn.build_deps({s!r}))\n')
        return
    rec.outcome('deps')
    r, a = call(jadn.analyze, arg)
    info = s.get('info', {})
    used = set().union(*want.values(), set(info.get('roots', info.get('exports', []))))
    if r != 'ok' or set(a['unreferenced']) != set(want) - used or set(a['undefined']) != used - set(want) or not same(arg, s):
        rec.fail(f'analyze|{s!r}'[:500], {'schema': s, 'unreferenced': sorted(set(want) - used), 'undefined': sorted(used - set(want)), 'got': repr(a)},
                 f'import jadn\nprint(jadn.analyze({s!r}))\n')
        return
    rec.outcome('analyze')
    r, o = call(jadn.utils.topo_sort, {k: [x.lstrip('#>') for x in v] for k, v in d.items()}, list(want)[:1])
    rec.trace()


# every position in which a type can refer to another
POS = [
    lambda x: ['ArrayOf', ['*' + x], []], lambda x: ['ArrayOf', ['*#' + x], []], lambda x: ['ArrayOf', ['*>' + x], []],
    lambda x: ['MapOf', ['+' + x, '*String'], []], lambda x: ['MapOf', ['+String', '*' + x], []], lambda x: ['MapOf', ['+#' + x, '*Integer'], []],
    lambda x: ['MapOf', ['+>' + x, '*>' + x], []], lambda x: ['Enumerated', ['#' + x], []], lambda x: ['Enumerated', ['>' + x], []],
    *[lambda x, b=b: [b, [], [[1, 'f', x, [], '']]] for b in ('Record', 'Map', 'Array', 'Choice')],
    *[lambda x, b=b, o=o: ['Record', [], [[1, 'f', b, o(x), '']]] for b, o in (
        ('ArrayOf', lambda x: ['*' + x]), ('MapOf', lambda x: ['+String', '*' + x]), ('MapOf', lambda x: ['+' + x, '*String']), ('Enumerated', lambda x: ['#' + x]),
        ('Enumerated', lambda x: ['>' + x, '[0']), ('ArrayOf', lambda x: ['*#' + x]), ('MapOf', lambda x: ['+>' + x, '*Binary']))],
    lambda x: ['Map', ['='], [[4, 'f', x, ['[0', ']0', '<'], '']]], lambda x: ['Record', [], [[1, 'f', x, ['L'], '']]],
    lambda x: ['Enumerated', [], [[1, x, ''], [2, 'x', x]]], lambda x: ['String', ['%' + x], []], lambda x: ['Choice', ['CO'], [[1, 'f', x, [], ''], [2, 'g', x, [], '']]],
]
TARGETS = ('A', 'B', 'C', 'n:Q', 'Undefined', 'String', 'Integer')


def run(job, rec):
    if job[0] in ('topo', 'dag'):
        n = NODES[:job[1]]
        pairs = [(a, b) for a in n for b in n] if job[0] == 'topo' else [(a, b) for a in n for b in n if a != b]
        graphs = itertools.islice(itertools.product((0, 1), repeat=len(pairs)), job[2], None, job[3] if job[1] > 2 else 1)
        for bits in graphs:
            g = {a: [] for a in n}
            for (a, b), x in zip(pairs, bits):
                if x:
                    g[a].append(b)
            if job[0] == 'dag' and cyclic(g):
                continue
            variants = [g, {k: v[::-1] for k, v in g.items()}]
            for v in variants:
                for k in (1, 2):
                    for roots in itertools.permutations(n, k):
                        topo(rec, v, roots)
        rec.sample({'graph': g})
    elif job[0] == 'extra':
        for g in ({'A': ['B', 'B', 'C'], 'B': ['C', 'C'], 'C': []}, {'A': ['X', 'B'], 'B': ['Y', 'X']}, {'A': ['A']}, {'A': ['B', 'C', 'D'], 'B': ['E'], 'C': ['E', 'B'], 'D': ['C'], 'E': []},
                  {f'N{i}': [f'N{i + 1}', f'N{i + 2}'] for i in range(60)}, {f'N{i}': [f'N{i - 1}'] if i else [] for i in range(200)}):
            for k in (1, 2, 3):
                for roots in itertools.permutations(list(g)[:3] + list(g)[-2:], k):
                    if len(set(roots)) == k:
                        topo(rec, g, roots)
    elif job[0] == 'pos':
        for p, q in itertools.product(POS[job[1]::4], POS):
            for x, y in itertools.product(TARGETS, repeat=2):
                for info in ({}, {'info': {'package': 'http://a', 'roots': ['A']}}, {'info': {'package': 'http://a', 'exports': ['B', 'Zz']}}, {'info': {'package': 'http://a', 'roots': ['C'], 'exports': ['A']}}):
                    if info and (x, y) not in (('B', 'C'), ('C', 'A'), ('Undefined', 'B')):
                        continue
                    a, b = p(x), q(y)
                    deps(rec, fresh({**info, 'types': [['A', a[0], a[1], '', a[2]], ['B', b[0], b[1], '', b[2]], ['C', 'String', [], '', []]]}))
    else:
        for s in gen.schemas(job):
            deps(rec, s)


if __name__ == '__main__':
    mc.main(globals())

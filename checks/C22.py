"""C22: resolve_imports gives a self-contained schema with exactly the types reachable from the roots."""
import contextlib
import copy
import io
import itertools
import json
import os
import shutil
import tempfile
import mc
import wf
from explore import call, same, fresh
from ref import BUILTIN, parse_opts
import jadn

ID = 'C22'
BOUNDS = ('root package R with types A, B and packages X (B, C) and Y (B, D), names shared between packages: every reference graph with '
          'up to 3 (thorough 5) references in all, as record fields; chains of 3 references: every pair (thorough: triple) of 19 kinds of '
          'reference, forward and back into an importing package; every choice of namespace ids per package from 2 (including the same id for different packages), '
          'namespace list and table form, dropped qualifiers, JADN / JIDL files, the root also present as a file, roots / exports; 4 to 14 (thorough 30) packages that import each other in a chain, star, ring, ladder, tree, join or all, with the same or different namespace ids and type names, in either order')
RULE = 'state = set of packages; transition = resolve_imports; trace = result isomorphic to the part of the import graph reachable from the roots'
ASSUMPTIONS = ['every imported package is present and defines the types imported from it']
EXPECT_OUTCOMES = ('isomorphic',)
PKG = {'R': 'http://t.e/r', 'X': 'http://t.e/x', 'Y': 'http://t.e/y'}
TYPES = [('R', 'A'), ('R', 'B'), ('X', 'B'), ('X', 'C'), ('Y', 'B'), ('Y', 'D')]
IDS = {'R': {'X': 'x', 'Y': 'y'}, 'X': {'R': 'r', 'Y': 'y'}, 'Y': {'R': 'r', 'X': 'x'}}
POS = [
    lambda x: ['Record', [], [[1, 'f', x, ['[0'], 'd']]], lambda x: ['ArrayOf', ['*' + x], []], lambda x: ['ArrayOf', ['*#' + x], []], lambda x: ['ArrayOf', ['*>' + x], []],
    lambda x: ['MapOf', ['+String', '*' + x], []], lambda x: ['MapOf', ['+' + x, '*Integer'], []], lambda x: ['MapOf', ['+#' + x, '*' + x], []], lambda x: ['Enumerated', ['#' + x], []],
    lambda x: ['Enumerated', ['>' + x], []], lambda x: ['Map', ['='], [[3, 'g', 'String', [], ''], [2, 'f', x, ['[0', ']0', 'q'], '']]],
    lambda x: ['Choice', ['CX'], [[1, 'f', x, [], ''], [2, 'g', 'ArrayOf', ['*' + x], '']]], lambda x: ['Array', [], [[1, 'f', x, ['<'], '']]],
    lambda x: ['Record', [], [[1, 'f', 'ArrayOf', ['*#' + x, '{1'], ''], [2, 'g', 'MapOf', ['+' + x, '*>' + x, '[0'], '']]], lambda x: ['Record', [], [[1, 'f', 'Enumerated', ['#' + x], ''], [2, 'g', 'Enumerated', ['>' + x, '[0'], '']]],
    lambda x: ['Record', [], [[1, 'f', x, ['L'], ''], [2, 'k', 'String', ['K', '%^B$'], '']]], lambda x: ['Choice', ['='], [[1, 'f', x, [], x.split(':')[-1]]]],
    lambda x: ['Record', [], [[1, 'c', x, ['&2'], ''], [2, 't', 'Enumerated', ['#' + x], '']]], lambda x: ['MapOf', ['+>' + x, '*String'], []], lambda x: ['Record', ['{1'], [[1, 'b', x, [']2', '[0'], ''], [2, 'e', x, [], '']]],
]


def packages(defs, ids=IDS, table=False, roots=('roots', ['A'])):
    """defs: {(pkg, type): (base, opts, fields) with references as (pkg, type) pairs already spelled}"""
    out = {}
    for p in PKG:
        ns = {i: PKG[q] for q, i in ids[p].items()}
        info = {'package': PKG[p], 'title': p, 'namespaces': [[i, u] for i, u in ns.items()] if table else ns}
        if p == 'R':
            info[roots[0]] = roots[1]
        out[p] = {'info': info, 'types': [[t, d[0], d[1], f'type {p} {t}', d[2]] for (q, t), d in defs.items() if q == p]}
    return {p: s for p, s in out.items() if s['types'] or p == 'R'}


def spell(frm, to, ids=IDS):
    return to[1] if frm[0] == to[0] else f'{ids[frm[0]][to[0]]}:{to[1]}'


LEAF = ('Record', [], [[1, 'z', 'String', [], '']])


def graph(edges, ids=IDS):
    """edges: {type: [types]} -> definitions: a record field for each reference"""
    return {t: ('Record', [], [[n, f'f{n}', spell(t, x, ids), ['[0'], x[0] + x[1]] for n, x in enumerate(edges.get(t, []), 1)]) for t in TYPES}


def edge_sets(limit):
    """All sets of up to limit references in which every referring type is reachable from A"""
    every = [(x, y) for x in TYPES for y in TYPES]
    level, out = {frozenset()}, [frozenset()]
    for _ in range(limit):
        level = {s | {e} for s in level for e in every if e not in s and (e[0] == TYPES[0] or any(e[0] == y for _, y in s))}
        out += sorted(level, key=sorted)
    return [sorted(s) for s in out]


def positions(path, pos, ids=IDS):
    defs = {t: LEAF for t in TYPES}
    for n, p in enumerate(pos):
        defs[path[n]] = tuple(fresh(p(spell(path[n], path[n + 1], ids))))
    return defs


def refs(t):
    """All references of a type definition, in order"""
    out = []

    def opts(o):
        for x in sorted(o):
            if x[0] in '*+#>':
                y = x[2:] if x[1:2] in ('#', '>') else x[1:]
                if y not in BUILTIN:
                    out.append(y)
    opts(t[2])
    for f in t[4] if t[1] not in ('Enumerated',) else []:
        if f[2] not in BUILTIN:
            out.append(f[2])
        opts(f[3])
    return out


def blank(t):
    """A type definition without its name and the names it refers to"""
    def opts(o):
        return [x[:2] if x[1:2] in ('#', '>') and x[0] in '*+' else x[0] if x[0] in '*+#>' and x[1:] not in BUILTIN else x for x in sorted(o)]
    return [t[1], opts(t[2]), t[3], [f if t[1] == 'Enumerated' else [f[0], f[1], f[2] if f[2] in BUILTIN else '', opts(f[3]), f[4]] for f in t[4]]]


def check(pk, roots, res):
    """None if res is the reachable part of the packages, with consistently renamed types"""
    ns = {p: dict(s['info'].get('namespaces', {})) for p, s in pk.items()}
    name = {s['info']['package']: p for p, s in pk.items()}
    tx = {(p, t[0]): t for p, s in pk.items() for t in s['types']}
    out = {t[0]: t for t in res['types']}
    if len(out) != len(res['types']):
        return f'duplicate types {[t[0] for t in res["types"]]}'
    m = {('R', r): r for r in roots}
    todo = list(m)
    while todo:
        k = todo.pop()
        n = m[k]
        if n not in out:
            return f'{k} ({n}) is missing'
        if blank(tx[k]) != blank(out[n]):
            return f'{k} changed: {tx[k]} to {out[n]}'
        a, b = refs(tx[k]), refs(out[n])
        if len(a) != len(b):
            return f'references of {k}: {a} to {b}'
        for x, y in zip(a, b):
            i, c, t = x.rpartition(':')
            target = (name[ns[k[0]][i]] if c else k[0], t)
            if ':' in y:
                return f'{n} still refers to {y}'
            if target not in m:
                m[target] = y
                todo.append(target)
            elif m[target] != y:
                return f'{target} is called {m[target]} and {y}'
    if len(set(m.values())) != len(m):
        return f'one name for different types: {m}'
    if any(k[0] == 'R' and n != k[1] for k, n in m.items()):
        return f'type of the root package renamed: {m}'
    if set(m.values()) != set(out):
        return f'extra types {set(out) - set(m.values())}'
    i = dict(pk['R']['info'])
    i.pop('namespaces', None)
    if res['info'] != i:
        return f'information changed: {res["info"]}'
    return None


def resolve(rec, pk, d, label, roots=('A',), no_nsid=(), ext='.jadn', selffile=False, other=False):
    rec.state(label)
    rec.trans()
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    for p, s in pk.items():
        if p != 'R' or selffile:
            with open(os.path.join(d, f'f{p}{ext}'), 'w') as f:
                f.write(json.dumps(s) if ext == '.jadn' else jadn.convert.jidl_dumps(s))
    if other:       # Files of other kinds
        for f in ('README.md', 'a.txt', 'notes', 'f.jadn.bak'):
            with open(os.path.join(d, f), 'w') as fp:
                fp.write('not a schema')
    root = fresh(pk['R'])
    with contextlib.redirect_stdout(io.StringIO()):
        r, res = call(jadn.transform.resolve_imports, root, d, *([no_nsid] if no_nsid else []))
    why = f'failed: {res}' if r != 'ok' else 'argument modified' if not same(root, pk['R']) else check(pk, roots, res)
    if not why and wf.ok(pk['R']) is not False and wf.ok({'types': res['types']}) is False:
        why = 'result is not well-formed'
    if why:
        rec.outcome('differ')
        rec.fail(f'{label}|{why}'[:500], {'packages': pk, 'result': res, 'what': why, 'no_nsid': no_nsid, 'ext': ext},
                 f'import jadn, json, os, tempfile\npk = {pk!r}\nd = tempfile.mkdtemp()\nfor p in pk:\n    if p != "R":\n        json.dump(pk[p], open(os.path.join(d, p + ".jadn"), "w"))\n'
                 f'print(json.dumps(jadn.transform.resolve_imports(pk["R"], d, {no_nsid!r}), indent=1))\n')
    else:
        rec.outcome('isomorphic')
        rec.trace()


def jobs(tier):
    deep = tier == 'thorough'
    return [('graph', n, deep, 64 if deep else 16) for n in range(64 if deep else 16)] + [('pos', n, deep) for n in range(len(POS))] + [('ns', n) for n in range(8)] + [('misc',)] + [('many', n, deep, x) for n in ((14, 11, 7, 5, 4) if not deep else (30, 14, 11, 9, 7, 6, 5, 4)) for x in range(8 if n < 8 else 7)]


def shapes(n):
    """References between n packages: chain, star, ring, ladder, tree, everything, two chains that end in the same"""
    r = range(n)
    yield 'chain', [(i, i + 1) for i in r[:-1]]
    yield 'star', [(0, i) for i in r[1:]]
    yield 'ring', [(i, (i + 1) % n) for i in r]
    yield 'back', [(i, i + 1) for i in r[:-1]] + [(n - 1, i) for i in r[:-1]]
    yield 'ladder', [(i, j) for i in r for j in (i + 1, i + 2) if j < n]
    yield 'tree', [((i - 1) // 2, i) for i in r[1:]]
    yield 'join', [(0, 1), (0, 2)] + [(i, i + 2) for i in r[1:-2]]
    if n < 8:
        yield 'all', [(i, j) for i in r for j in r if i != j]


def many(n, edges, ids, names, kind, order, sys):
    """Packages 0..n-1 (0 is the root); each with the type T (or Tn), which refers to that of the packages it imports, a type only used there, and one not used"""
    tn = [('T' if names == 'same' else f'T{i}') if i else 'A' for i in range(n)]
    out = {}
    for i in range(n):
        to = [j for a, j in edges if a == i]
        if order == 'rev':
            to = to[::-1]
        ns = {{'local': f'n{k}', 'global': f'p{j}', 'one': 'n' if len(to) == 1 else f'n{k}'}[ids]: f'http://t.e/{j}' for k, j in enumerate(to)}
        spelled = [f'{c}:{tn[j]}' for c, j in zip(ns, to)]
        own = 'Local' if names == 'same' else f'Local{i}'
        if kind == 'record':
            t = [tn[i], 'Record', [], f'package {i}', [[1, 'own', own, ['[0'], '']] + [[k, f'f{k}', x, ['[0', ']0'] if k % 3 == 0 else ['[0'], x] for k, x in enumerate(spelled, 2)]]
        elif kind == 'array' and len(to) == 1:
            t = [tn[i], 'ArrayOf', ['*' + spelled[0]], f'package {i}', []]
        else:
            t = [tn[i], 'Choice', [], f'package {i}', [[1, 'own', own, [], '']] + [[k, f'f{k}', 'MapOf', ['+#' + x, '*' + x], x] if k % 2 else [k, f'f{k}', x, [], ''] for k, x in enumerate(spelled, 2)]]
        types = [t, [own, 'Map', [], f'of {i}', [[7, f'z{i}', 'String', ['[0'], ''], [3, 'again', tn[i], ['[0'], '']]], ['Spare', 'String', [], '', []]]
        info = {'package': f'http://t.e/{i}', 'namespaces': ns if i % 2 else [[k, v] for k, v in ns.items()]}
        if not ns:
            del info['namespaces']
        if i == 0:
            info['roots'] = ['A']
            if sys:
                info['config'] = {'$Sys': sys}
        out[f'{n - i:02}' if order == 'rev' and i else f'{i:02}' if i else 'R'] = {'info': info, 'types': types[::-1] if order == 'rev' else types}
    return out


PATHS = [[('R', 'A'), ('X', 'B'), ('Y', 'D'), ('X', 'C')], [('R', 'A'), ('X', 'B'), ('R', 'B'), ('Y', 'B')], [('R', 'A'), ('R', 'B'), ('X', 'C'), ('X', 'B')]]


def run(job, rec):
    d = tempfile.mkdtemp(prefix='c22-')
    try:
        if job[0] == 'graph':
            cases = [c for n, c in enumerate(edge_sets(5 if job[2] else 3)) if n % job[3] == job[1]]
            for c in cases:
                edges = {}
                for x, y in c:
                    edges.setdefault(x, []).append(y)
                pk = packages(graph(edges))
                resolve(rec, pk, d, ('graph', c))
            rec.sample({'references': str(c)})
        elif job[0] == 'pos':
            for q, r in itertools.product(range(len(POS)), range(len(POS)) if job[2] else (0, 6)):
                for path in PATHS:
                    pk = packages(positions(path, (POS[job[1]], POS[q], POS[r])))
                    resolve(rec, pk, d, ('pos', job[1], q, r, path))
        elif job[0] == 'ns':
            for n, c in enumerate(itertools.product(('p', 'q'), repeat=6)):
                if n % 8 != job[1]:
                    continue
                ids = {'R': {'X': c[0], 'Y': c[1]}, 'X': {'R': c[2], 'Y': c[3]}, 'Y': {'R': c[4], 'X': c[5]}}
                if any(len(set(v.values())) < 2 for v in ids.values()):
                    continue
                for path in PATHS:
                    for table in (False, True):
                        for ext in ('.jadn', '.jidl'):
                            resolve(rec, packages(positions(path, (POS[0], POS[1], POS[9]), ids), ids, table), d, ('ns', c, path, table, ext), ext=ext)
                edges = {t: TYPES for t in TYPES}
                resolve(rec, packages(graph(edges, ids), ids), d, ('nsall', c))
        elif job[0] == 'many':
            for (shape, edges), ids, names, kind, order, sys in itertools.product(list(shapes(job[1]))[job[3]:job[3] + 1], ('local', 'global', 'one'), ('same', 'own'), ('record', 'array', 'choice'), ('as is', 'rev'), ('', '-') if job[2] else ('',)):
                resolve(rec, many(job[1], edges, ids, names, kind, order, sys), d, ('many', job[1], shape, ids, names, kind, order, sys), other=order == 'rev')
            rec.sample({'packages': job[1], 'references': edges})
        else:
            edges = {('R', 'A'): [('X', 'C')], ('X', 'C'): [('Y', 'D')], ('Y', 'D'): [('R', 'B')]}
            for pos in POS:
                pk = packages(graph(edges))
                for no in (('x',), ('y',), ('x', 'y')):
                    resolve(rec, pk, d, ('no_nsid', no), no_nsid=no)
                for roots in (['A'], ['B'], ['A', 'B']):
                    for k in ('roots', 'exports'):
                        for sf in (False, True):
                            resolve(rec, packages(graph(edges), roots=(k, roots)), d, ('roots', k, roots, sf), roots=roots, selffile=sf)
                # only one imported package; none
                resolve(rec, packages(positions(PATHS[0][:2], (pos,))), d, ('one', POS.index(pos)))
                local = {t: LEAF for t in TYPES[:2]}
                local['R', 'A'] = tuple(fresh(pos('B')))
                pk = packages(local)
                resolve(rec, pk, d, ('local', POS.index(pos)))
                del pk['R']['info']['namespaces']
                resolve(rec, pk, d, ('nons', POS.index(pos)))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    mc.main(globals())

"""C28: pipelines of schema operations: every schema reachable by any sequence of transformations and document round trips is
well formed and keeps the language, the types and (until stripped) the descriptions of the original."""
import io
import itertools
import json
import os
import sys
import tempfile
import mc
import wf
from C13 import EXT, extensions, pools
from explore import call, model, same, fresh, MODES, MODE_NAME
from zoo import SETTYPES, combine
import jadn
from jadn.codec import Codec
from jadn.utils import list_type_schema, object_type_schema

ID = 'C28'
BOUNDS = ('every schema fragment with extensions (22 kinds; thorough: every pair) as initial state; transitions: canonicalize, unfolding of each single extension and of all, '
          'stripping and truncating descriptions, resolve_imports, object form, and writing and reading back as JSON, JIDL, HTML; all reachable states up to the fixpoint, that is '
          'pipelines of every length and order; in every state: check accepts, a codec gives the results of the original schema for all sample values, '
          'their encodings, single edits of both and junk values in 4 modes')
RULE = ('state = schema reached from an initial schema; transition = operation applied to a state; trace = reachable state in which the invariant holds for the real code')
ASSUMPTIONS = ['states in which an unfolded pointer makes a path the name of a field are not written as documents (such names are not well formed)', 'results of a fixpoint exploration: no bound on the length of pipelines']
EXPECT_OUTCOMES = ('jidl', 'html', 'canon', 'resolve', 'unfold', 'invariant')
JOB_LIMIT_S = 800


def resolve(s):
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        with tempfile.TemporaryDirectory(prefix='c28-') as empty:
            return jadn.transform.resolve_imports(s, empty)
    finally:
        sys.stdout = out


OPS = {
    'canon': jadn.canonicalize,
    **{f'unfold {e}': lambda s, e=e: jadn.transform.unfold_extensions(s, {e}) for e in EXT},
    'unfold': jadn.transform.unfold_extensions,
    'strip': jadn.transform.strip_comments,
    'strip6': lambda s: jadn.transform.strip_comments(s, 6),
    'resolve': resolve,
    'objects': lambda s: list_type_schema(object_type_schema(s)),
    'json': lambda s: json.loads(jadn.dumps(s)),
    'jidl': lambda s: jadn.convert.jidl_loads(jadn.convert.jidl_dumps(s)),
    'html': lambda s: jadn.convert.html_loads(jadn.convert.html_dumps(s)),
}


def jobs(tier):
    n = 2 if tier == 'thorough' else 1
    return [('from', c) for k in range(1, n + 1) for c in itertools.combinations(SETTYPES, k)]


def norm(v):
    return [norm(x) for x in v] if isinstance(v, (list, tuple)) else {k: norm(x) for k, x in v.items()} if isinstance(v, dict) else v


def descs(s):
    return [(t[0], t[3]) for t in s['types']] + [(t[0], f[0], f[-1]) for t in s['types'] for f in t[4]]


def run(job, rec):
    s0, vals = combine(job[1], {'package': 'http://a.b/c', 'title': 'ti', 'roots': ['A']})
    s0['info']['roots'] = [t[0] for t in s0['types']]
    s0['types'].append(['Unused', 'String', ['{1', '}3'], 'last', []])
    if wf.ok(s0) is not True:           # 'unique' on a multi-valued builtin: not well formed
        return rec.outcome('not well formed')
    m, pool = pools(rec, s0, vals)
    pool = {t: (a[:60], w[:90]) for t, (a, w) in pool.items()}
    want = {}
    for mode in MODES:
        want[mode] = [(t, op, v, model(getattr(m, op), t, v, mode)) for t, vv in pool.items() for op, v in [('encode', x) for x in vv[0]] + [('decode', x) for x in vv[1]]]
    names0 = [t[0] for t in s0['types']]
    desc0 = dict((d[:-1], d[-1]) for d in descs(s0))
    seen = {}
    todo = [(norm(s0), (), False)]
    rec.sample({'fragments': job[1], 'operations': list(OPS)})

    def bad(path, why, s, more=None):
        rec.fail(f'{"+".join(job[1])}|{" > ".join(path)}|{why}'[:300], {'schema': s0, 'pipeline': path, 'result': s, 'what': why, 'detail': repr(more)[:1500]},
                 f'import jadn, json, sys, io\nfrom jadn.utils import list_type_schema, object_type_schema\ns = {s0!r}\npath = {path!r}\nprint("apply to s in order:", path, "->", {why!r})\n')

    nfail = 0
    while todo and nfail < 20:
        s, path, stripped = todo.pop(0)
        k = (repr(s), stripped)
        if k in seen:
            continue
        seen[k] = path
        rec.state(job[1], k)
        # invariant
        why = more = None
        names = [t[0] for t in s['types']]
        kept = [n for n in names if n in names0]
        resolved = 'resolve' in path
        formed = not any('/' in str(f[1]) for t in s['types'] if t[1] != 'Enumerated' for f in t[4])
        if len(set(names)) != len(names):
            why = 'duplicate types'
        elif sorted(kept) != sorted(n for n in names0 if n != 'Unused' or n in names) or not resolved and kept != names0:
            why = f'types lost or moved: {names}'
        elif not resolved and 'Unused' not in names:
            why = 'unreferenced type lost'
        elif s.get('info', {}).get('package') != 'http://a.b/c' or s['info'].get('title') != 'ti' or s['info'].get('roots') != s0['info']['roots']:
            why = f'information changed: {s.get("info")}'
        elif not stripped and any(d[:-1] in desc0 and desc0[d[:-1]] != d[-1] for d in descs(s)):
            why = 'descriptions changed'
        elif any(d[:-1] in desc0 and d[-1] not in ('', desc0[d[:-1]], desc0[d[:-1]][:4] + '..') for d in descs(s)):
            why = 'descriptions invented'
        elif any(len(t) != 5 for t in s['types']):
            why = 'columns missing'
        if not why and formed:
            r, c = call(jadn.check, fresh(s))
            rec.trans()
            if r != 'ok' or not same(norm(c), s):
                why, more = 'check does not accept the result unchanged', c
        if not why:
            for mode in MODES:
                r, c = call(Codec, fresh(s), *mode)
                if r != 'ok':
                    why, more = 'no codec can be built', c
                    break
                for t, op, v, w in want[mode]:
                    if w[0] == 'undef':
                        continue
                    g = call(getattr(c, op), t, v)
                    rec.trans()
                    if g[0] != w[0] or w[0] == 'ok' and not same(g[1], w[1]):
                        why, more = f'{MODE_NAME[mode]} {op} {t} {v!r}', (w, g)
                        break
                if why:
                    break
        if why:
            nfail += 1
            bad(path, why, s, more)
            continue
        rec.outcome('invariant')
        rec.trace()
        ext = extensions(s)
        for op, f in OPS.items():
            if not formed and op in ('jidl', 'html', 'resolve'):
                continue
            arg = fresh(s)
            r, u = call(f, arg)
            rec.trans()
            rec.outcome(op.split(' ')[0])
            p = path + (op,)
            if r != 'ok':
                nfail += 1
                bad(p, 'operation fails', s, u)
                continue
            u = norm(u)
            left = extensions(u)
            if norm(arg) != s:
                nfail += 1
                bad(p, 'argument modified', s)
            elif op == 'unfold' and left or not op.startswith('unfold') and left != ext or op.startswith('unfold ') and left - ext - {'MapOfEnum'}:
                nfail += 1
                bad(p, f'extensions {sorted(ext)} become {sorted(left)}', u)
            else:
                todo.append((u, p, stripped or op.startswith('strip')))
    rec.outcome('fixpoint')


if __name__ == '__main__':
    mc.main(globals())

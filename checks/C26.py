"""C26: schema operations are pure and deterministic: results do not depend on earlier calls, hash seeds or the order of types."""
import copy
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import mc
import gen
from explore import call, fresh
from zoo import combine, SETTYPES
import jadn
import jadn.translate
from jadn.codec import Codec

ID = 'C26'
BOUNDS = ('39 operations (check, analyze, dependencies, canonicalize, strip, unfold with subsets, import resolution, writers with styles and readers of every format, codec '
          'construction and use) on 3 schemas: every sequence of 2 (thorough 3) operations; results compared with those of a fresh process in which the operation is the first one; '
          'every operation on every fragment schema under 6 (thorough 24) hash seeds; styles and results modified by the caller in between')
RULE = 'state = history of operations; transition = operation; trace = history in which every result equals that of the operation on its own and no argument changed'
EXPECT_OUTCOMES = ('equal', 'seed')
INFO = {'package': 'http://a.b/c', 'title': 't', 'roots': ['R1'], 'exports': ['R1'], 'namespaces': {'n': 'http://n.e/s'}, 'config': {'$MaxString': 300, '$MaxBinary': 300, '$MaxElements': 300}}
VAL = {'f': 5, 't': 'a'}


def schemas():
    a = combine(['plain', 'mul', 'anon', 'enumref'], INFO)[0]
    b = combine(['ptrref', 'moe', 'key', 'plain'], {**INFO, 'config': {'$MaxString': 999}, 'roots': ['L2', 'R1']})[0]
    c = combine(['plain'])[0]
    c['types'][0][4].append([3, 'imp', 'A1', ['[0'], ''])
    c['types'][:0] = [['A1', 'Record', ['X'], 'first', [[1, 'a', 'Number', ['y0', 'z1.5', '[0'], ''], [2, 'b', 'String', ['%^a'], 'x']]]]
    return [jadn.check(fresh(s)) for s in (a, b, c)]


IMPORT = {'info': {'package': 'http://n.e/s'}, 'types': [['N', 'Record', [], '', [[1, 'x', 'M', ['[0'], '']]], ['M', 'String', [], '', []], ['R1', 'Integer', [], '', []]]}


def ops(tmp):
    """name -> function of (schema); each builds its other arguments itself"""
    o = {}
    st = {'jidl': [{}, {'id': 9, 'name': 0, 'desc': 20}, {'type': 0, 'info': 3}], 'md': [{}, {'links': False}],
          'dg': [{}, {'format': 'graphviz', 'detail': 'information', 'attributes': True}, {'format': 'graphviz', 'edge_label': False}, {'detail': 'logical', 'links': False}]}
    o['check'] = lambda s: jadn.check(fresh(s))
    o['analyze'] = jadn.analyze
    o['deps'] = jadn.build_deps
    o['topo'] = lambda s: jadn.topo_sort({k: [x.lstrip('#>') for x in v] for k, v in jadn.build_deps(s).items()}, [t[0] for t in s['types']][:2])
    o['canon'] = jadn.canonicalize
    o['strip'] = jadn.transform.strip_comments
    o['strip5'] = lambda s: jadn.transform.strip_comments(s, 5)
    o['unfold'] = jadn.transform.unfold_extensions
    for n, e in enumerate(({'AnonymousType', 'Multiplicity'}, {'DerivedEnum', 'MapOfEnum'}, {'Link'}, set())):
        o[f'unfold{n}'] = lambda s, e=e: jadn.transform.unfold_extensions(s, e)
    o['dumps'] = jadn.dumps
    o['dumps1'] = lambda s: jadn.dumps(s, strip=True)
    o['loads'] = lambda s: jadn.loads(json.dumps(s))
    for n, x in enumerate(st['jidl']):
        o[f'jidl{n}'] = lambda s, x=x: jadn.convert.jidl_dumps(s, x)
    o['jidl'] = jadn.convert.jidl_dumps
    o['unjidl'] = lambda s: jadn.convert.jidl_loads(jadn.convert.jidl_dumps(s))
    o['html'] = jadn.convert.html_dumps
    o['unhtml'] = lambda s: jadn.convert.html_loads(jadn.convert.html_dumps(s))
    for n, x in enumerate(st['md']):
        o[f'md{n}'] = lambda s, x=x: jadn.convert.markdown_dumps(s, x)
    o['md'] = jadn.convert.markdown_dumps
    for n, x in enumerate(st['dg']):
        o[f'dg{n}'] = lambda s, x=x: jadn.convert.diagram_dumps(s, x)
    o['dg'] = jadn.convert.diagram_dumps
    for n, k in enumerate(({}, {'verbose': False}, {'enum_style': 'const'}, {'enum_style': 'regex', 'import_style': 'ref'})):
        o[f'js{n}'] = lambda s, k=k: jadn.translate.json_schema_dumps(s, **k)

    def resolve(s):
        with open(os.path.join(tmp, 'n.jadn'), 'w') as f:
            json.dump(IMPORT, f)
        r = fresh(s)
        r['types'].insert(0, ['Zz', 'Record', [], '', [[1, 'i', 'n:N', [], ''], [2, 'j', 'n:R1', ['[0'], ''], [3, 'k', 'R1', ['[0'], '']]])
        r['info'] = {**s.get('info', {'package': 'http://a.b/r'}), 'roots': ['Zz'], 'namespaces': {'n': 'http://n.e/s'}}
        with open(os.devnull, 'w') as z:
            out, sys.stdout = sys.stdout, z
            try:
                return jadn.transform.resolve_imports(r, tmp)
            finally:
                sys.stdout = out
    o['resolve'] = resolve

    def codec(s, v=True, c=True):
        c = Codec(s, v, c)
        e = c.encode('R1', VAL)
        return [e, c.decode('R1', e), call(c.decode, 'R1', [1, 2, 3]), call(c.encode, 'R2', [])]
    o['codec'] = codec
    o['codec0'] = lambda s: codec(s, False, False)
    # the caller edits what it got or the defaults it was given

    def edit(v):
        if isinstance(v, dict):
            for k in list(v):
                edit(v[k])
            v['zz'] = 'edited'
        elif isinstance(v, list):
            for x in v:
                edit(x)
            v.append('edited')

    def vandal(s):
        for x in (jadn.convert.jidl_style(), jadn.convert.markdown_style(), jadn.convert.diagram_style(), jadn.get_config({}), jadn.get_config(fresh(s.get('info'))), jadn.canonicalize(s), jadn.build_deps(s),
                  jadn.transform.unfold_extensions(s), jadn.transform.strip_comments(s), jadn.check(fresh(s)), jadn.analyze(s), jadn.topts_s2d(['=', '*String']), jadn.typestr2jadn('String{1..2}')):
            edit(x)
        for f, k in ((jadn.convert.diagram_style, 'header'), (jadn.convert.diagram_style, 'format')):
            f().pop(k)
        return 'done'
    o['vandal'] = vandal
    return o, st


def digest(v):
    return hashlib.blake2b(repr(v).encode('utf8', 'backslashreplace'), digest_size=12).hexdigest()


def baseline(which):
    """Results of every operation on every schema; run in a fresh process: the operation is the only one"""
    tmp = tempfile.mkdtemp(prefix='c26-')
    try:
        out = {}
        ss = schemas() if which == 'main' else [combine([n, 'plain'] if n != 'plain' else [n], INFO)[0] for n in SETTYPES]
        for k, s in enumerate(ss):
            o, _ = ops(tmp)
            for name, f in o.items():
                pid = os.fork() if which == 'main' else -1
                if pid == -1:
                    out[f'{k}/{name}'] = digest(call(f, fresh(s)))
                elif pid == 0:
                    with open(os.path.join(tmp, 'out'), 'w') as fp:
                        fp.write(digest(call(f, fresh(s))))
                    os._exit(0)
                else:
                    os.waitpid(pid, 0)
                    with open(os.path.join(tmp, 'out')) as fp:
                        out[f'{k}/{name}'] = fp.read()
        return out
    finally:
        shutil.rmtree(tmp)


BASE = {}


def prepare(tier):
    BASE['main'] = baseline('main')         # before any worker has run an operation: forked children run one each
    BASE['frag'] = child('0', 'frag')


def child(seed, which):
    env = {**os.environ, 'PYTHONHASHSEED': seed}
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), '--baseline', which], env=env, capture_output=True, text=True, check=True)
    return json.loads(p.stdout)


def jobs(tier):
    deep = tier == 'thorough'
    names = list(ops('')[0])
    return [('seed', str(n)) for n in range(1, 25 if deep else 7)] + [('seq', k, n, 3 if deep else 2) for k in range(3) for n in names] + [('order', n) for n in range(4)]


def run(job, rec):
    if job[0] == 'seed':
        got = child(job[1], 'frag')
        for k, v in BASE['frag'].items():
            rec.state(job[1], k)
            rec.trans()
            if got.get(k) != v:
                n, op = k.split('/')
                rec.fail(f'hash seed|{op}|{SETTYPES[int(n)]}', {'operation': op, 'schema': f'fragments {SETTYPES[int(n)]} + plain', 'what': f'result differs between hash seeds 0 and {job[1]}'})
            else:
                rec.outcome('seed')
        rec.trace()
        return
    tmp = tempfile.mkdtemp(prefix='c26-')
    try:
        o, st = ops(tmp)
        st0 = copy.deepcopy(st)
        if job[0] == 'order':
            return order(job[1], rec)
        _, k, first, depth = job
        every = [(j, n) for j in range(3) for n in o]
        for rest in itertools.product(every, repeat=depth - 1):
            if depth == 3 and rest[0][0] != k and rest[1][0] not in (k, rest[0][0]):
                continue
            hist = ((k, first),) + rest
            ss = [fresh(s) for s in SS]
            before = repr(ss)
            for n, (j, name) in enumerate(hist):
                rec.trans()
                got = digest(call(o[name], ss[j]))
                why = 'result differs' if got != BASE['main'][f'{j}/{name}'] else 'schema modified' if repr(ss) != before else 'style modified' if st != st0 else None
                if why:
                    rec.fail(f'{hist[:n + 1]}|{why}', {'history': hist[:n + 1], 'schemas': before[:3000], 'what': f'{why} after these operations on schemas'})
                    o, st = ops(tmp)
                    break
            else:
                rec.state(hist)
                rec.outcome('equal')
                rec.trace()
        rec.sample({'history': [f'{n} on schema {j}' for j, n in hist]})
    finally:
        shutil.rmtree(tmp)


def order(part, rec):
    """topo_sort gives the same order for every order of the types"""
    for n, names in enumerate(itertools.combinations(SETTYPES, 2)):
        if n % 4 != part:
            continue
        s = combine(names)[0]
        base = None
        types = s['types']
        for perm in [types, types[::-1], *[types[i:] + types[:i] for i in range(1, len(types))], sorted(types), *[types[:i] + [types[i + 1], types[i]] + types[i + 2:] for i in range(len(types) - 1)]]:
            d = {k: [x.lstrip('#>') for x in v] for k, v in jadn.build_deps({'types': perm}).items()}
            roots = sorted(set(d) - {x for v in d.values() for x in v}) or sorted(d)[:1]
            r = call(jadn.topo_sort, d, roots)
            rec.trans()
            rec.state(names, [t[0] for t in perm])
            base = base or r
            if r != base:
                rec.fail(f'order|{names}|{[t[0] for t in perm]}', {'what': 'topological order depends on the order of the types', 'one': repr(base), 'other': repr(r)})
            rec.outcome('order')
        rec.trace()


SS = [] if '--baseline' in sys.argv else schemas()

if __name__ == '__main__':
    if '--baseline' in sys.argv:
        print(json.dumps(baseline(sys.argv[-1])))
    else:
        mc.main(globals())

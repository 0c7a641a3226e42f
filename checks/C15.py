"""C15: the configuration in a schema (info.config) governs its names, generated names and default sizes."""
import itertools
import re
import tempfile
import os
import io
import sys
import json
import mc
import wf
from C13 import EXT, pools, table, extensions
from explore import call, model, same, fresh, MODES, MODE_NAME
from ref import Model
from zoo import SETTYPES, combine
import jadn
from jadn.codec import Codec

ID = 'C15'
BOUNDS = ('$TypeName, $FieldName and $NSID: 9 patterns and 5 without anchors each (and the defaults, and all pairs of patterns for type references) x 40 names in every place where such a name occurs (types, fields, field types, '
          'roots, exports, both forms of namespaces); $Sys: 4 characters x every schema fragment with extensions x unfolding of all, each single and no extension, and import resolution; '
          '$MaxString, $MaxBinary, $MaxElements: all values 1-4, 255-257 in the schema, in the config argument of the codec and both x sizes around them x types, fields and modes; every configuration repeated after another one')
RULE = 'state = (configuration, name or value, place); transition = check, unfold, resolve, encode or decode compared with the expectation; trace = agreement'
ASSUMPTIONS = ['patterns follow the rules of Python, except that $ matches at the end only; patterns that exclude the names of builtin types are not judged for schemas that use these in fields', 'patterns are single expressions without top-level alternatives unless parenthesised', 'configured sizes below the size of the schema itself are judged for codecs only: check applies them to the text of the schema',
               'configured names are not written as JIDL or HTML documents unless they match the default patterns']
EXPECT_OUTCOMES = ('name-ok', 'name-rej', 'sys', 'size-ok', 'size-rej', 'many')
DEFAULT = {'$TypeName': '^[$A-Z][-$A-Za-z0-9]{0,63}$', '$FieldName': '^[$a-z][_$A-Za-z0-9]{0,63}$', '$NSID': '^([A-Za-z][A-Za-z0-9]{0,7})?$'}
PATS = ['^[a-z]{1,3}$', '^[A-Z][a-z]*$', '^[a-zA-Z0-9_]+$', '^[^:]{1,5}$', '^(ab|AB)$', '^x?$', '^.{2}$', '^[-.A-Z]+$', '^T[0-9]$']
UNANCHORED = ['[a-z]{1,3}', '(ab|AB)', '^[A-Z][a-z]*', '[A-Za-z]+$', 'T[0-9]']
NAMES = ['', 'a', 'A', 'x', 'xx', 'ab', 'AB', 'Ab', 'abc', 'abcd', 'T1', 'T12', 't1', '1', '_', '_a', 'a_b', 'A-B', 'A.B', '-', '.', '$', '$A', '$a', 'A$b', 'a b', 'é', 'Ab1', 'aB', 'A' * 8, 'a' * 8, 'A' * 9, 'a' * 9, 'A' * 64, 'A' * 65,
         'a' * 64, 'a' * 65, 'a:b', ' a', 'a\n', 'A\n', 'ab\n', 'T1\n', '\n']


def full(p, s):
    return re.fullmatch(p.removeprefix('^').removesuffix('$'), s) is not None


def loose(p, s):
    """An expression without anchors: whether a longer text that starts with a match is a name is not judged"""
    return full(p, s) or not (p[0] == '^' and p[-1] == '$') and re.match(p, s) is not None


def places(var, n):
    """Schemas in which the name occurs once"""
    T = ['T1', 'Record', [], '', [[1, 'ab', 'String', [], '']]]
    if var == '$TypeName':
        yield 'type', {'types': [[n, 'String', [], '', []]]}
        yield 'root', {'info': {'roots': [n]}, 'types': []}
        yield 'roots', {'info': {'roots': [n, n]}, 'types': []}
        yield 'export', {'info': {'exports': [n]}, 'types': []}
        for b in ('Array', 'Choice', 'Map'):
            yield f'{b} type', {'types': [[n, b, [], '', [[1, 'ab', 'String', [], '']]]]}
    elif var == '$FieldName':
        for b in ('Array', 'Choice', 'Map', 'Record'):
            yield f'{b} field', {'types': [['T1', b, [], '', [[1, n, 'String', [], '']]]]}
        yield 'second', {'types': [['T1', 'Record', [], '', [[1, 'zzz', 'String', [], ''], [2, n, 'Integer', ['[0'], '']]]]}
    else:
        yield 'prefix', {'info': {'namespaces': [[n, 'http://a.b/c']]}, 'types': []}
        yield 'prefixes', {'info': {'namespaces': [['', 'http://a.b/d'], [n, 'http://a.b/c']]}, 'types': []}
        yield 'key', {'info': {'namespaces': {n: 'http://a.b/c'}}, 'types': []}


def jobs(tier):
    deep = tier == 'thorough'
    out = [('name', v, p) for v in DEFAULT for p in PATS + UNANCHORED + [None]]
    out += [('ref', a, b) for a in PATS + UNANCHORED + [None] for b in PATS + UNANCHORED + [None]]
    out += [('sys', f, c, deep) for f in SETTYPES for c in '$._~'[:None if deep else 3]]
    out += [('size', b, w) for b in ('String', 'Binary', 'ArrayOf', 'MapOf', 'Map', 'Record', 'Array', 'multi') for w in ('schema', 'arg', 'both')]
    out += [('many',), ('resolve',)]
    return out


def accepts(rec, key, s, want, detail):
    arg = fresh(s)
    r = call(jadn.check, arg)
    got = r[0] == 'ok'
    rec.trans()
    rec.state(key)
    rec.outcome('name-ok' if want else 'name-rej')
    if got != want:
        rec.fail(f'{key}'[:300], {'schema': s, 'what': f'check should {"accept" if want else "reject"} {detail}', 'got': repr(r)[:300]}, f'import jadn\nprint(jadn.check({s!r}))\n')
        return False
    rec.trace()
    return True


def names(job, rec):
    _, var, p = job
    pat = p or DEFAULT[var]
    cfgs = [{}] if p is None else [{var: p}]
    if p:       # a name of the schema itself must match
        other = {'$TypeName': DEFAULT['$TypeName'], '$FieldName': DEFAULT['$FieldName'], '$NSID': DEFAULT['$NSID']}
    rec.sample({'variable': var, 'pattern': pat})
    for n in NAMES:
        for place, s in places(var, n):
            s = fresh(s)
            ok = full(pat, n)
            fixed = [t[0] for t in s['types'] if t[0] != n] if var == '$TypeName' else [f[1] for t in s['types'] for f in t[4] if f[1] != n] if var == '$FieldName' else [x[0] for x in s.get('info', {}).get('namespaces', []) if isinstance(x, list) and x[0] != n]
            ok = ok and all(full(pat, x) for x in fixed)
            if ok != (loose(pat, n) and all(loose(pat, x) for x in fixed)):
                continue
            if var == '$TypeName' and any(not full(pat, f[2]) for t in s['types'] for f in t[4]):
                continue        # the pattern excludes builtin types as well
            info = {'package': 'http://x.y/z', **s.get('info', {})}
            for c in cfgs:
                s2 = {'info': {**info, **({'config': c} if c else {})}, 'types': s['types']}
                accepts(rec, f'{var}|{pat}|{place}|{n!r}', s2, ok, f'{n!r} as {place} when {var} is {pat}')


def refs(job, rec):
    """Type references: optional prefix and type name"""
    _, ns, tn = job
    pn, pt = ns or DEFAULT['$NSID'], tn or DEFAULT['$TypeName']
    cfg = {k: v for k, v in (('$NSID', ns), ('$TypeName', tn)) if v}
    for pre in (None, '', 'a', 'x', 'ab', 'AB', 'T1', 'a' * 9, '_', '-'):
        for n in ('A', 'x', 'ab', 'AB', 'T1', 'T12', 'a b', 'Ab', '', 'ab\n', 'T1\n', 'A\n'):
            ref = n if pre is None else f'{pre}:{n}'
            if ref in wf.ALLOWED:
                continue
            tname = next(x for x in ('T1', 'ab', 'AB', 'Ab', 'x', 'A') if full(pt, x))
            s = {'info': {'package': 'http://x.y/z', **({'config': cfg} if cfg else {})}, 'types': [[tname, 'Choice', [], '', [[1, 'ab', ref, [], '']]]]}
            want = any((m == '' or m.endswith(':') and full(pn, m[:-1])) and full(pt, ref[len(m):]) for m in {ref[:i] for i in range(len(ref) + 1)})
            if not want and {pn, pt} & set(UNANCHORED):
                continue
            # the names of builtin types are references too and must match the pattern
            accepts(rec, f'ref|{pn}|{pt}|{ref!r}', s, want, f'field type {ref!r} when $NSID is {pn} and $TypeName is {pt}')


def gensys(job, rec):
    _, frag, c, deep = job
    info = {'package': 'http://a.b/c', 'config': {'$Sys': c, '$TypeName': f'^[$A-Z][-$A-Za-z0-9{c}]{{0,63}}$'}} if c != '$' else None
    s, vals = combine([frag], info)
    plain = combine([frag])[0]
    m, pool = pools(rec, s, vals)
    want = table(m, {t: (a[:40], w[:40]) for t, (a, w) in pool.items()})
    names0 = {t[0] for t in s['types']}
    for ext in [set(EXT), set()] + [{e} for e in EXT]:
        r, u = call(jadn.transform.unfold_extensions, fresh(s), ext)
        rec.trans()
        rec.state(frag, c, sorted(ext))
        key = f'sys|{frag}|{c}|{sorted(ext)}'
        if r != 'ok':
            rec.fail(key, {'schema': s, 'extensions': sorted(ext), 'got': u})
            continue
        r, p = call(jadn.transform.unfold_extensions, fresh(plain), ext)
        new = [t[0] for t in u['types'] if t[0] not in names0]
        ref = [t[0] for t in p['types'] if t[0] not in names0]
        why = None
        if any(c not in n for n in new) or [n.replace(c, '$') for n in new] != ref:
            why = f'generated names {new} should be those with the default character, {ref}, with {c} instead'
        elif repr(u['types']).replace(c, '$') != repr(p['types']).replace(c, '$'):
            why = 'the result differs in more than the character in generated names'
        elif wf.ok(s) is True and not any('/' in f[1] for t in u['types'] for f in t[4]) and call(jadn.check, fresh(u))[0] != 'ok':
            why = f'result is not well formed: {call(jadn.check, fresh(u))[1]}'
        else:
            mu = Model(fresh({'types': u['types']}))
            for t, mode, op, v, w in want:
                g = model(getattr(mu, op), t, v, mode)
                rec.trans()
                if 'undef' not in (w[0], g[0]) and (w[0] != g[0] or w[0] == 'ok' and not same(w[1], g[1])):
                    why = f'{MODE_NAME[mode]} {op} {t} {v!r}: {w} became {g}'
                    break
            else:
                for mode in MODES if deep else (MODES[0], MODES[-1]):
                    cd = Codec(fresh(s), *mode)
                    for t, md, op, v, w in want:
                        if md == mode and w[0] != 'undef':
                            g = call(getattr(cd, op), t, v)
                            rec.trans()
                            if w[0] != g[0] or w[0] == 'ok' and not same(w[1], g[1]):
                                why = f'codec {MODE_NAME[mode]} {op} {t} {v!r}: {w} became {g}'
        if why:
            rec.fail(f'{key}|{why}'[:300], {'schema': s, 'extensions': sorted(ext), 'result': u, 'what': why}, f'import jadn, json\nprint(json.dumps(jadn.transform.unfold_extensions({s!r}, {ext!r})))\n')
        else:
            rec.outcome('sys')
            rec.trace()


def sizes(job, rec):
    _, b, where = job
    var = '$Max' + (b if b in ('String', 'Binary') else 'Elements')
    for limit in (1, 2, 3, 4, 255, 256, 257):
        info = {'package': 'http://x.y/z', 'config': {var: limit}}
        decoy = {'package': 'http://x.y/w', 'config': {var: limit + 3}}
        nf = limit + 2 if b in ('Map', 'Record', 'Array') else 1
        if nf > 120:
            continue
        fields = [[i, f'f{i}', 'Integer', ['[0'], ''] for i in range(1, nf + 1)]
        opts = {'ArrayOf': ['*Integer'], 'MapOf': ['+Integer', '*Integer']}.get(b, [])
        if b == 'multi':
            types = [['T', 'Record', [], '', [[1, 'f', 'Integer', ['[0', ']0'], '']]]]
        else:
            types = [['T', b, opts, '', fields if nf > 1 else []]]
            if b in ('Map', 'Record', 'Array'):
                types.append(['N', 'Record', [], '', [[1, 'f', 'T', [], '']]])
            else:
                types.append(['N', 'Record', [], '', [[1, 'f', b, opts, '']]])     # anonymous type without options: builtin
        def val(n):
            return {'String': lambda: 'é' * n, 'Binary': lambda: b'\0' * n, 'ArrayOf': lambda: list(range(n)), 'MapOf': lambda: {i: i for i in range(n)}, 'Map': lambda: {f'f{i + 1}': i for i in range(n)},
                    'Record': lambda: {f'f{i + 1}': i for i in range(n)}, 'Array': lambda: list(range(n)), 'multi': lambda: {'f': list(range(n))}}[b]()
        for mode in MODES:
            s = {'info': info, 'types': types} if where == 'schema' else {'info': decoy, 'types': types} if where == 'both' else {'types': types}
            cd = Codec(fresh(s), *mode, **({} if where == 'schema' else {'config': {'info': info, 'types': []}}))
            mm = Model(fresh({'info': info, 'types': types}))
            for n in sorted({max(1 if b == 'multi' else 0, limit - 1), limit, limit + 1, limit + 2}):
                if b in ('Map', 'Record', 'Array') and n > nf:
                    continue
                for t, v in (('T', val(n)), ('N', {'f': val(n)}))[:1 if b == 'multi' else 2]:
                    w = model(mm.encode, t, v, mode)
                    g = call(cd.encode, t, v)
                    rec.trans()
                    rec.state(b, where, limit, n, t, mode)
                    if t == 'T' and (w[0] == 'ok') != (n <= limit):
                        rec.fail(f'model|{b}|{limit}|{n}', {'what': 'reference model disagrees with the plain rule'})
                    rec.outcome('size-ok' if w[0] == 'ok' else 'size-rej')
                    bad = w[0] != 'undef' and (w[0] != g[0] or w[0] == 'ok' and not same(w[1], g[1]))
                    if not bad and w[0] == 'ok':
                        d = call(cd.decode, t, w[1])
                        bad = d[0] != 'ok' or not same(d[1], v)
                    elif not bad and w[0] == 'rej':
                        big = Codec({'info': {'config': {var: 1000}}, 'types': fresh(types)}, *mode)
                        d = call(cd.decode, t, big.encode(t, v))
                        bad = d[0] != 'rej'
                    if bad:
                        rec.fail(f'size|{b}|{where}|{limit}|{n}|{t}|{MODE_NAME[mode]}', {'schema': s, 'config': info, 'type': t, 'size': n, 'want': repr(w)[:200], 'got': repr(g)[:200]})
                    else:
                        rec.trace()


def many(rec):
    """Limits above the defaults apply to the text of the schema too: more fields, items and longer texts"""
    for n in (99, 100, 101, 150):
        for what in ('items', 'fields', 'option', 'title'):
            for cfg in (None, {'$MaxElements': 200, '$MaxString': 600}):
                s = {'info': {'package': 'http://x.y/z', 'title': 't'}, 'types': [['T', 'String', [], '', []]]}
                if cfg:
                    s['info']['config'] = cfg
                if what == 'items':
                    s['types'] = [['T', 'Enumerated', [], '', [[i, f'i{i}', ''] for i in range(n)]]]
                elif what == 'fields':
                    s['types'] = [['T', 'Record', [], '', [[i + 1, f'i{i}', 'String', [], ''] for i in range(n)]]]
                elif what == 'option':
                    s['types'] = [['T', 'String', ['%^' + 'a' * (n * 2 + 53) + '$'], '', []]]         # 252 .. 356
                else:
                    s['info']['title'] = 't' * (n * 2 + 54)
                small = n <= 100 if what in ('items', 'fields') else n * 2 + 56 <= 255 if what == 'option' else n * 2 + 54 <= 255
                if cfg or small:
                    r = call(jadn.check, fresh(s))
                    rec.trans()
                    rec.state('many', n, what, bool(cfg))
                    if r[0] != 'ok':
                        rec.fail(f'many|{n}|{what}|{bool(cfg)}', {'schema': repr(s)[:500], 'what': 'schema within the configured limits is rejected', 'got': r[1]})
                    else:
                        rec.outcome('many')
                        rec.trace()
    # limits of one schema do not apply to the next
    s = {'info': {'package': 'http://x.y/z', 'config': {'$TypeName': '^[a-z]+$', '$FieldName': '^[A-Z]+$', '$NSID': '^[0-9]$'}}, 'types': [['abc', 'Choice', [], '', [[1, 'AB', '1:abc', [], '']]]]}
    p = {'info': {'package': 'http://x.y/z'}, 'types': [['Abc', 'Choice', [], '', [[1, 'ab', 'n1:Abc', [], '']]]]}
    for order in itertools.product((0, 1, 2), repeat=4):
        got, want = [], []
        for k in order:
            x = (s, p, {**s, 'types': p['types']})[k]
            got.append(call(jadn.check, fresh(x))[0] == 'ok')
            want.append(k != 2)
            rec.trans()
        rec.state('order', order)
        if got != want:
            rec.fail(f'order|{order}', {'what': 'result of check depends on the configuration of schemas checked before', 'order': order, 'accepted': got})
        else:
            rec.trace()


def resolve(rec):
    """Generated names of imported types use the character of the root schema"""
    for c in (None, '.', '_'):
        cfg = {'config': {'$Sys': c, '$TypeName': f'^[$A-Z][-$A-Za-z0-9{c}]{{0,63}}$'}} if c else {}
        for other in (None, '~'):
            ocfg = {'config': {'$Sys': other, '$TypeName': '^[$A-Z][-$A-Za-z0-9~]{0,63}$'}} if other else {}
            root = {'info': {'package': 'http://a.b/r', 'roots': ['T'], 'namespaces': [['n', 'http://a.b/n']], **cfg}, 'types': [['T', 'Record', [], '', [[1, 'a', 'n:T', [], ''], [2, 'b', 'n:U', [], '']]]]}
            imp = {'info': {'package': 'http://a.b/n', 'roots': ['T'], **ocfg}, 'types': [['T', 'ArrayOf', ['*U'], '', []], ['U', 'String', [], '', []]]}
            out, sys.stdout = sys.stdout, io.StringIO()
            try:
                with tempfile.TemporaryDirectory(prefix='c15-') as d:
                    with open(os.path.join(d, 'n.jadn'), 'w') as f:
                        json.dump(imp, f)
                    r = call(jadn.transform.resolve_imports, fresh(root), d)
            finally:
                sys.stdout = out
            rec.trans()
            rec.state('resolve', c, other)
            names = sorted(t[0] for t in r[1]['types']) if r[0] == 'ok' else r
            k = c or '$'
            if names != sorted(['T', f'T{k}n', f'U{k}n']) or call(jadn.check, fresh(r[1]))[0] != 'ok':
                rec.fail(f'resolve|{c}|{other}', {'root': root, 'imported': imp, 'what': f'types of the resolved schema should be T, T{k}n, U{k}n', 'got': repr(r)[:800]})
            else:
                rec.trace()
                rec.outcome('sys')


def run(job, rec):
    {'name': names, 'ref': refs, 'sys': gensys, 'size': sizes}.get(job[0], lambda j, r: (many if j[0] == 'many' else resolve)(r))(job, rec)


if __name__ == '__main__':
    mc.main(globals())

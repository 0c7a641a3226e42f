"""C13: unfold_extensions removes exactly the named extensions and preserves the language of every type."""
import copy
import itertools
import gen
import mc
import wf
from explore import call, model, same, fresh, uniq, mutations, key, JUNK, MODES, MODE_NAME
from ref import Model, BUILTIN, parse_opts
from zoo import FRAG, SETTYPES, combine
import jadn
from jadn.codec import Codec

ID = 'C13'
EXT = ('AnonymousType', 'DerivedEnum', 'Link', 'MapOfEnum', 'Multiplicity')
SUBSETS = [frozenset(s) for n in range(6) for s in itertools.combinations(EXT, n)]
BOUNDS = ('17 schema fragments covering every extension and their combinations: every sequence of up to 2 (thorough 3) fragments in '
          'every order x every subset of the five extensions; for each type of the original schema: all its sample values, the '
          'encodings of these in 4 modes, every single edit of those and 27 junk values are encoded / decoded under the original '
          'and the unfolded schema in 4 modes; fragments whose types are renamed with a suffix $0, $Enum or -$, next to the original ones; all field option combinations of a single field up to 4 options; wire language of '
          'the real codec for the unfolded schema')
RULE = ('state = (schema, extension subset, mode, value); transition = one comparison of the original with the unfolded schema; '
        'trace = (schema, subset) with all comparisons equal and all structural conditions satisfied')
ASSUMPTIONS = ['the reference model (bound to the codec by C01-C11) gives the language of both schemas']
EXPECT_OUTCOMES = ('ok', 'rej')


def jobs(tier):
    deep = tier == 'thorough'
    out = [('seq', c, deep) for n in (1, 2) for c in itertools.permutations(SETTYPES, n)]
    if deep:
        out += [('seq', c, False) for c in itertools.permutations(SETTYPES, 3)]
    out += [('ren', f, deep) for f in SETTYPES]
    out += [('field', b, ft, deep) for b in ('Record', 'Choice', 'Map') for ft in FT]
    return out


FT = {
    'String': ([], ['{1', '}2', '%^a$', '/email'], ['', 'a', 'ab', 'a@b.cd']),
    'Integer': ([], ['{0', '}3', '/i8'], [0, 3, 5, -1]),
    'Binary': ([], ['{1', '}2', '/x', '/ipv4-addr'], [b'', b'a', b'ab', b'abcd']),
    'Enumerated': ([['#T0'], ['>T0'], ['#E0'], ['#T0', '=']], [], ['p', 'q', 'q/a', 1, 2]),
    'ArrayOf': ([['*T0'], ['*#T0'], ['*String']], ['{1', '}2', 'q', 's'], [[], ['p'], ['q', 'p'], [{'p': 'z'}], ['p', 'p']]),
    'MapOf': ([['+E0', '*String'], ['+String', '*#T0'], ['+#T0', '*T0']], ['{1', '}2'], [{}, {'a': 'p', 'b': 'q'}, {'p': {'p': ''}, 'q': {'p': 'z'}}, {'k': 'p'}]),
    'T0': ([], [], [{'p': ''}, {'p': 'a', 'q': {'a': 1}}]),
    'E0': ([], [], ['a', 'b']),
    'n:V': ([], [], []),
}
BASE = [['T0', 'Record', [], '', [[1, 'p', 'String', [], ''], [2, 'q', 'T1', ['<', '[0'], '']]], ['T1', 'Map', [], '', [[1, 'a', 'Integer', [], '']]],
        ['E0', 'Enumerated', [], '', [[4, 'a', ''], [1, 'b', '']]]]
MULT = [[], ['[0'], [']0'], ['[0', ']0'], [']2'], ['[2', ']3'], ['[0', ']2', 'q'], [']0', 'q'], ['[0', ']1'], ['[2', ']2'], ['[3', ']3', 'q'], ['[2', ']0']]


def field_schemas(b, ft, deep):
    req, opts, vals = FT[ft]
    for r in req or [[]]:
        for n in range(0, 4 if deep else 3):
            for o in itertools.combinations(opts, n):
                for m in MULT:
                    if 'q' in o and 'q' in m:
                        continue
                    for kl in ([], ['K']):
                        fo = r + list(o) + m + kl
                        s = {'types': [['A', b, [], '', [[1, 'f', ft, fo, 'fd'], [2, 'g', 'Integer', ['[0'] if b != 'Choice' else [], '']]]] + BASE}
                        if kl:
                            s['types'].append(['B', 'Record', [], '', [[1, 'l', 'A', ['L', '[0'], ''], [2, 'm', 'A', ['L', '[0', ']0'], '']]])
                        if wf.ok(s) is not True or kl and (b == 'Choice' or m not in ([], ['[0'])):
                            continue
                        vv = [{'f': x} for x in vals] + [{'f': [x]} for x in vals] + [{'f': [x, y]} for x in vals for y in vals[:2]] + [{'g': 1}]
                        pool = {'A': vv}
                        if kl:
                            pool['B'] = [{'l': x} for x in vals] + [{'m': [x]} for x in vals]
                        yield fresh(s), pool if ft != 'n:V' else {}     # the structure only


def extensions(schema):
    """Extensions used by a schema, by the definition of each"""
    out = set()
    enums = {t[0] for t in schema['types'] if t[1] == 'Enumerated'}
    for t in schema['types']:
        to = parse_opts(t[2])[0]
        if {'enum', 'pointer'} & set(to):
            out.add('DerivedEnum')
        if any(str(to.get(k, '-'))[0] in '#>' for k in ('ktype', 'vtype')):
            out.add('DerivedEnum')
        if t[1] == 'MapOf' and to['ktype'] in enums:
            out.add('MapOfEnum')
        for f in t[4] if t[1] != 'Enumerated' and len(t) > 4 else []:
            ft, fo = parse_opts(f[3])
            if ft:
                out.add('AnonymousType')
            if {'enum', 'pointer'} & set(ft) or any(str(ft.get(k, '-'))[0] in '#>' for k in ('ktype', 'vtype')):
                out.add('DerivedEnum')
            if ft.get('ktype') in enums:
                out.add('MapOfEnum')
            if fo.get('maxc', 1) != 1:
                out.add('Multiplicity')
            if {'key', 'link'} & set(fo):
                out.add('Link')
    return out


def refs(schema):
    for t in schema['types']:
        to = parse_opts(t[2])[0]
        for k in ('ktype', 'vtype', 'enum', 'pointer'):
            if k in to:
                yield t[0], to[k].lstrip('#>')
        for f in t[4] if t[1] != 'Enumerated' and len(t) > 4 else []:
            yield t[0], f[2]
            ft = parse_opts(f[3])[0]
            for k in ('ktype', 'vtype', 'enum', 'pointer'):
                if k in ft:
                    yield t[0], ft[k].lstrip('#>')


def structure(s, u, ext, before):
    """Structural conditions on the result"""
    if set(u) != set(s) or any(u[k] != s[k] for k in s if k != 'types'):
        return 'other parts of the schema changed'
    names = [t[0] for t in u['types']]
    if len(set(names)) != len(names):
        return f'duplicate types {names}'
    if [n for n in names if n in {t[0] for t in s['types']}] != [t[0] for t in s['types']]:
        return f'original types missing or reordered: {names}'
    if any('$' not in n for n in names if n not in {t[0] for t in s['types']}):
        return f'generated names: {names}'
    if bad := [r for r in refs(u) if r[1] not in names and r[1] not in BUILTIN and r[1] != 'n:V']:
        return f'undefined references {bad}'
    if wf.ok(s) is True and wf.ok(u) is not True and not any('/' in f[1] for t in u['types'] for f in t[4]):     # paths are not field names
        return 'result is not a well-formed schema'
    left = extensions(u)
    if ext >= set(EXT) or not ext:
        if left:
            return f'extensions left: {left}'
    else:
        gone = set(ext)
        if 'AnonymousType' not in ext:
            gone -= {'DerivedEnum'} if any('#' in o or '>' in o for t in s['types'] if t[1] != 'Enumerated' and len(t) > 4 for f in t[4] for o in f[3]) else set()
            gone -= {'MapOfEnum'}
        if 'DerivedEnum' not in ext:
            gone -= {'MapOfEnum'}
        if 'Link' not in ext:
            gone -= {'Multiplicity'}
        if left & gone:
            return f'extensions left: {left & gone}'
        if left - before - {'MapOfEnum'}:
            return f'extensions introduced: {left - before}'
    by = {t[0]: t for t in u['types']}
    for t in s['types']:
        n = by[t[0]]
        if n[3] != t[3]:
            return f'description of {t[0]} changed'
        if t[1] not in ('Enumerated', 'MapOf'):
            if n[1] != t[1] or [o for o in n[2] if o[0] not in '*+'] != [o for o in t[2] if o[0] not in '*+']:
                return f'type {t[0]} changed to {n[:3]}'
            a, b = (x[4] if len(x) > 4 else [] for x in (t, n))
            if [[f[0], f[1], f[-1]] for f in a] != [[f[0], f[1], f[-1]] for f in b]:
                return f'fields of {t[0]} changed'
    return None


def pools(rec, s, vals):
    """{type: (API values, wires)}"""
    m = Model(copy.deepcopy(s))
    out = {}
    for t, vv in vals.items():
        av = list(vv) + [x for v in vv[:2] for x in mutations(v)] + list(JUNK[::2])
        wv = list(JUNK[1::2])
        for v in vv:
            for mode in MODES:
                w = model(m.encode, t, v, mode)
                if w[0] == 'ok':
                    wv.append(w[1])
                    if v in vv[:3]:
                        wv += list(mutations(w[1]))
        out[t] = uniq(av), uniq(wv)
    return m, out


def table(m, pool):
    out = []
    for mode in MODES:
        for t, (av, wv) in pool.items():
            out += [(t, mode, 'encode', v, model(m.encode, t, v, mode)) for v in av]
            out += [(t, mode, 'decode', v, model(m.decode, t, v, mode)) for v in wv]
    return out


def explore(rec, s, vals, label, subsets, real):
    m, pool = pools(rec, s, vals)
    want = table(m, pool)
    used = extensions(s)
    done = {}
    for ext in subsets:
        arg = copy.deepcopy(s)
        rep = f'import jadn, json\ns = {s!r}\nprint(json.dumps(jadn.transform.unfold_extensions(s, {set(ext)!r}), indent=1))\n'
        k = f'{label}|{",".join(sorted(ext))}'
        r, u = call(jadn.transform.unfold_extensions, arg, set(ext))
        rec.trans()
        if r != 'ok':
            rec.fail(k, {'schema': s, 'extensions': sorted(ext), 'got': [r, u]}, rep)
            continue
        why = 'input modified' if not same(arg, s) else structure(s, u, ext, used)
        if not why:
            again = call(jadn.transform.unfold_extensions, copy.deepcopy(u), set(ext))
            if again[0] != 'ok' or not same(again[1], u):
                why = f'unfolding again gives {again}'[:600]
        if why:
            rec.fail(f'{k}|{why}'[:400], {'schema': s, 'extensions': sorted(ext), 'result': u, 'what': why}, rep)
            continue
        uk = repr(u)
        if uk in done:
            rec.trace()
            continue
        done[uk] = ext
        mu = Model(copy.deepcopy(u))
        good = True
        for t, mode, op, v, w in want:
            rec.states.add(hash((uk, t, mode, op, repr(v))))
            g = model(getattr(mu, op), t, v, mode)
            rec.trans()
            rec.outcome(w[0])
            if 'undef' not in (w[0], g[0]) and (w[0] != g[0] or w[0] == 'ok' and not same(w[1], g[1])):
                good = False
                rec.fail(f'{k}|{t}|{MODE_NAME[mode]}|{op}|{v!r}'[:400], {'schema': s, 'extensions': sorted(ext), 'unfolded': u, 'type': t, 'mode': MODE_NAME[mode],
                                                                      'op': op, 'value': repr(v), 'original': repr(w), 'after': repr(g)}, rep)
                break
        if good and real and ext in (frozenset(), frozenset(EXT)):
            cs = {mode: Codec(copy.deepcopy(u), *mode) for mode in MODES}
            for t, mode, op, v, w in want:
                g = call(getattr(cs[mode], op), t, copy.deepcopy(v))
                rec.trans()
                if w[0] != 'undef' and (w[0] != g[0] or w[0] == 'ok' and not same(w[1], g[1])):
                    good = False
                    rec.fail(f'{k}|codec|{t}|{MODE_NAME[mode]}|{op}|{v!r}'[:400], {'schema': s, 'unfolded': u, 'type': t, 'mode': MODE_NAME[mode], 'op': op, 'value': repr(v),
                                                                                'original': repr(w), 'codec': repr(g)}, rep)
                    break
        if good:
            rec.trace()


def run(job, rec):
    if job[0] == 'seq':
        s, vals = combine(job[1])
        rec.sample({'fragments': job[1]})
        if len(job[1]) > 1 and not job[2]:
            # single fragments are explored with every type; here only those that could interfere
            vals = {t: v for t, v in vals.items()}
        explore(rec, s, vals, '+'.join(job[1]), SUBSETS if len(job[1]) == 1 or job[2] else [frozenset(), frozenset(EXT)] + SUBSETS[1:6], len(job[1]) == 1)
    elif job[0] == 'ren':           # type names that contain the character used for generated names, next to the same without
        s, vals = combine((job[1],))
        for first in (True, False):
            for suf in ('$0', '$a-b', '-$'):
                r = {'types': gen.rename(s, suf)}
                u = fresh({'types': r['types'] + s['types'] if first else s['types'] + r['types']})
                if wf.ok(u) is True:
                    explore(rec, u, {**vals, **{t + suf: v for t, v in vals.items()}}, f'{job[1]}{suf}{first}', SUBSETS if job[2] else [frozenset(), frozenset(EXT)] + SUBSETS[1:6], False)
    else:
        for n, (s, vals) in enumerate(field_schemas(*job[1:])):
            if n == 0:
                rec.sample({'schema': s['types'][0]})
            explore(rec, s, vals, repr(s['types'][0]), SUBSETS if job[3] else [frozenset(), frozenset({'Multiplicity'}), frozenset({'AnonymousType'}), frozenset({'AnonymousType', 'Link'})], False)


if __name__ == '__main__':
    mc.main(globals())

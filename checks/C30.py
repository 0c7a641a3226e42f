"""C30: every schema that is well formed can be used: the codec built from it implements it, for every type it defines."""
import itertools
import json
import mc
import gen
import wf
from explore import Explorer, call, fresh, same, model, mutations, uniq, MODES, MODE_NAME
from ref import Model, parse_opts, BUILTIN, Rej
from values import Values
from jadn.codec import Codec

ID = 'C30'
BOUNDS = ('every schema of the enumerated families: types x all well-formed sets of up to 4 options, fields (every type x option sets x multiplicities x dir/key/link/tag, every container), numeric limits, names, references, '
          'configurations, combinations of fragments, for every type up to 4 values generated from the reference model, their encodings, single edits (quick: of the first value) and junk, in 4 modes')
RULE = 'state = (schema, type, mode, API value or serialized value); transition = encode or decode call compared with the reference model; trace = value whose whole encode, decode, JSON text round trip agrees'
ASSUMPTIONS = ['types that depend on types of other packages are only required not to prevent the use of the rest', 'fields without a defined meaning (multi-valued keys, tags that do not select an alternative of a Choice, links to types without key) are not judged']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej', 'schema')
COMPLEX = ('Choice', 'Array', 'Map', 'Record')
SIZE = {'types': 24, 'fields:Record': 24, 'fields:Map': 24, 'fields:Choice': 24, 'fields:Array': 24}
STRIDE = {'fields:Record': 5, 'types': 3, 'refs': 2, 'combos': 3}       # quick: every n-th schema


def refs(t):
    """Types a definition depends on"""
    def opts(o):
        for x in o:
            if x[0] in '*+#>':
                yield x[1:].lstrip('#>')
    yield from opts(t[2])
    if t[1] in COMPLEX:
        for f in t[4]:
            yield f[2]
            yield from opts(f[3])


def closed(s):
    """Names of the types all of whose dependencies are defined"""
    good = {t[0]: set(refs(t)) for t in s['types']}
    while True:
        bad = {n for n, r in good.items() if any(x not in BUILTIN and x not in good for x in r)}
        if not bad:
            return set(good)
        good = {n: r for n, r in good.items() if n not in bad}


def defined(s, t):
    """A definition has a meaning (see Assumptions)"""
    types = {x[0]: x for x in s['types']}
    if t[1] in COMPLEX:
        for f in t[4]:
            to, fo = parse_opts(f[3])
            multi = fo.get('maxc', 1) != 1
            if 'key' in fo and multi:
                return False
            if fo.get('minc', 1) == 0 and t[1] == 'Choice':
                return False
            if 'tagid' in fo:
                if multi or t[1] == 'Choice' or f[2] not in types or types[f[2]][1] != 'Choice' or any(o[0] == 'C' for o in types[f[2]][2]):
                    return False
            if 'link' in fo:
                x = types.get(f[2])
                if x is None or not (x[1] == 'MapOf' or x[1] in COMPLEX and any('K' in g[3] for g in x[4])):
                    return False
    if t[1] == 'Array' and 'format' in parse_opts(t[2])[0]:
        return False            # needs the fields of the format: C02
    if t[1] == 'MapOf':
        k = parse_opts(t[2])[0].get('ktype', '')
        if k in types and types[k][1] in COMPLEX + ('ArrayOf', 'MapOf'):
            return False
    return True


def meaningful(s):
    ok = closed(s)
    good = {t[0]: {x for x in refs(t)} for t in s['types'] if t[0] in ok and defined(s, t)}
    while True:
        bad = {n for n, r in good.items() if any(x not in BUILTIN and x not in good for x in r)}
        if not bad:
            return [t[0] for t in s['types'] if t[0] in good]
        good = {n: r for n, r in good.items() if n not in bad}


def jobs(tier):
    deep = tier == 'thorough'
    return gen.jobs(deep, [f for f in gen.FAMILIES if f not in ('desc', 'items', 'patterns')])


def linked(s):
    """Links need a key in the type they refer to (a codec refuses others): give T0 one, drop the rest"""
    s = fresh(s)
    types = {x[0]: x for x in s['types']}
    for t in s['types']:
        for f in t[4] if t[1] in COMPLEX else []:
            if 'L' in f[3]:
                x = types.get(f[2])
                if f[2] == 'T0':
                    x[4][0] = [1, 'p', 'String', ['K'], '']
                elif x is None or not (x[1] == 'MapOf' or x[1] in COMPLEX and any('K' in g[3] for g in x[4])):
                    return None
    return s


def packs(job):
    _, f, part, deep = job
    n = 1 if deep else STRIDE.get(f, 1 if not f.startswith('fields') else 3)
    group = []
    for s in itertools.islice(gen.schemas(job), 0, None, n):
        s = linked(s)
        if s is None:
            continue
        if f in SIZE:
            group.append(s)
            if len(group) < SIZE[f]:
                continue
            yield {'types': [t for k, g in enumerate(group) for t in gen.rename(g, str(k))]}, 'A'
            group = []
        else:
            yield s, ''
    if group:
        yield {'types': [t for k, g in enumerate(group) for t in gen.rename(g, str(k))]}, 'A'


def run(job, rec):
    seen = set()
    for s, prefix in packs(job):
        rec.outcome('schema')
        s = fresh(s)
        label = f'{job[1]}|{json.dumps([t for t in s["types"] if t[0][:1] == "A"] or s)[:150]}'
        x = Explorer(rec, s, label)
        if len(x.codecs) < 4:
            continue
        gen_ = Values(x.model)
        for t in meaningful(s):
            if prefix and not t.startswith(prefix):
                d = json.dumps([u for u in s['types'] if u[0] == t][0][1:])
                if (t[:2], d[:40]) in seen:
                    continue
                seen.add((t[:2], d[:40]))
            vals = gen_.of(t, 3, 6 if job[3] else 4)
            for mode in MODES:
                pool = []
                for n, v in enumerate(vals):
                    w = x.encode(t, v, mode)
                    if w[0] == 'ok' and (n == 0 or job[3]):
                        pool += list(mutations(w[1]))
                        for e in mutations(v):
                            x.encode(t, e, mode)
                for v in (None, 5, 'zz', [], {}):
                    x.encode(t, v, mode)
                    pool.append(v)
                for w in uniq(pool):
                    x.decode(t, w, mode)


if __name__ == '__main__':
    mc.main(globals())

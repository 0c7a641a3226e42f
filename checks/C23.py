"""C23: the JSON Schema generated for a schema accepts the verbose messages the schema allows and rejects the others."""
import copy
import itertools
import json
import os
import re
import shutil
import tempfile
import jsonschema
import mc
import compose
import gen
import zoo
from explore import call, same, fresh, uniq, mutations, JUNK
from ref import Model, Rej, Undef, parse_opts, BUILTIN
import jadn
import jadn.translate

ID = 'C23'
BOUNDS = ('the enumerated schemas of C16 (base types x option sets, field types x option sets x multiplicities in every container), all chains of 1-2 (thorough 3) type constructors above '
          'all leaf types, the extension fragments, each as written and unfolded; for each type: up to 12 generated valid messages, every single edit of them and 27 junk values; enum styles; '
          'import styles; annotations; all ordered choices of 0-3 roots with all messages of up to 4 members')
RULE = 'state = (schema, style, type, message); transition = validation; trace = (schema, style) whose JSON Schema is valid, closed and agrees with the reference model on every message'
ASSUMPTIONS = ['verbose messages', 'content of text formats and sizes of Binary are not expressible in the generated JSON Schema and are not required to be rejected',
               'patterns start with ^', 'null members and integral floating point numbers are not judged']
EXPECT_OUTCOMES = ('accept', 'reject')
V = (True, True)
TEXTS = ('', 'a', 'ab', 'abc', 'aa', 'aaaa', 'ma', '10.0.0.1', '10.0.0.0/8', '::1', 'fe80::/10', 'a@b.cd', '2020-01-01', '12:00:00Z', '2020-01-01T00:00:00Z', 'http://a.b/c', '00-11-22-33-44-55', 'YQ', 'YWI', '0A', 'FFFF',
         'a-9c7ffb40-5ba1-4b9e-a9e1-7b5a3c1b8c11', 'P1D', '1970-01-02T00:00:00+00:00', 'x' * 255)
INTS = (0, 1, -1, 2, 3, 5, -7, 12, 13, 31, 100, 1000, 32767, 32768)
BOUNDS_OF = {'/i8': (-128, 127), '/i16': (-32768, 32767), '/i32': (-2 ** 31, 2 ** 31 - 1)}


def relax(s):
    """The schema without what JSON Schema cannot express"""
    def typ(base, opts):
        if base == 'Binary' or base == 'Array' and any(o[0] == '/' for o in opts):
            return 'String', [o for o in opts if o[0] in '[]&<KL'] + ['{0', '}100000']
        if base == 'Integer' and '/datetime-ms' in opts:
            return 'String', [o for o in opts if o[0] in '[]&<KL'] + ['{0', '}100000']
        if base == 'Array':
            return base, [o for o in opts if o[0] not in '{}']
        return base, [o[0] + 'String' if o in ('*Binary', '+Binary') else o for o in opts if o[0] != '/' or base == 'Integer']
    out = []
    for t in s['types']:
        b, o = typ(t[1], t[2])
        fields = t[4] if b == t[1] else []
        if b not in ('Enumerated', 'String'):
            fields = [[f[0], f[1], *typ(f[2], f[3]), f[4]] for f in fields]
        out.append([t[0], b, o, t[3], fields])
    return {**s, 'types': out}


class Many(Exception):
    pass


def good(m, d, depth=0):
    """Some verbose messages of a type: at least the extremes of its structure"""
    b, o = d.base, d.opts
    leaf = {'Boolean': (True, False), 'Integer': INTS + TEXTS, 'Number': (0, 0.5, -1.5, 1.5, 100.25), 'String': TEXTS, 'Binary': TEXTS, 'Enumerated': b == 'Enumerated' and [x for f in d.fields for x in f]}.get(b)
    if b == 'Array' and 'format' in o:
        leaf = TEXTS
    if leaf is not None:
        return filt(m, d, leaf)[:12 if not depth else 2]
    if depth > 4:
        return []
    if b == 'Choice':
        if 'combine' in o:
            return filt(m, d, uniq([x for f in d.fields for x in good(m, f.desc, depth + 1)] + list(TEXTS[:6]) + list(INTS[:6])))[:4]
        return [{str(f.id) if 'id' in o else f.name: x} for f in d.fields for x in good(m, f.desc, depth + 1)[:2 if depth < 2 else 1]][:6 if depth < 2 else 2]
    if b in ('ArrayOf', 'MapOf'):
        vals = good(m, m.elemtype(d), depth + 1) or [None]
        lo, hi = o.get('minv', 0), o.get('maxv') or 3
        sizes = uniq([lo, lo + 1, hi, 1]) if not depth else [max(lo, min(1, hi))]
        if b == 'ArrayOf':
            return filt(m, d, [(vals * (n + 1))[:n] for n in sizes if n < 20] + [vals[:n] for n in sizes if n < 20])
        kt = m.type(o['ktype'])
        keys = good(m, kt, 0)
        return filt(m, d, [dict(zip(map(str, keys[:n]), vals * (n + 1))) for n in sizes if n < 20])
    if b in ('Map', 'Record'):
        out = []
        fs = [(str(f.id) if 'id' in o else f.name, f, good(m, f.desc, depth + 1) if f.tag is None else None) for f in d.fields]
        full, req = {}, {}
        for k, f, g in fs:
            if g:
                full[k] = g[0]
                if not f.optional:
                    req[k] = g[0]
        out = [req, full]
        for k, f, g in fs if depth < 2 else []:
            for x in g or []:
                out += [{**req, k: x}, {**full, k: x}]
        for k, f, g in fs:
            if f.tag is not None:           # the alternative selected by the tag
                tk = next(k2 for k2, f2, _ in fs if f2.id == f.tag)
                for v in list(out):
                    for alt in good(m, f.desc, depth + 1) if 'combine' not in f.desc.opts else []:
                        (tag, x), = alt.items()
                        out.append({**v, tk: tag if 'id' not in f.desc.opts else int(tag), k: x})
        return filt(m, d, uniq(out))[:14 if not depth else 3]
    if b == 'Array':
        gs = [good(m, f.desc, depth + 1) or [None] for f in d.fields]
        full = [g[0] for g in gs]
        out = [full, [None if f.optional else g[0] for f, g in zip(d.fields, gs)]]
        for n in range(len(full)):
            out += [full[:n], full[:n] + [None] + full[n + 1:], full[:n] + [gs[n][-1]] + full[n + 1:]]
        return filt(m, d, uniq(out))[:10 if not depth else 3]
    raise AssertionError(b)


def verdict(m, d, v):
    try:
        m.dec(d, v, V)
        return 'ok'
    except Rej:
        return 'rej'
    except Undef:
        return 'undef'


def filt(m, d, vals):
    return [v for v in vals if verdict(m, d, v) == 'ok']


def js(v):
    """As JSON: keys are strings; None if it contains what is not judged"""
    try:
        return json.loads(json.dumps(v))
    except TypeError:
        return ...


def judged(v):
    if isinstance(v, (list, dict)):
        if isinstance(v, dict) and None in v.values():
            return False
        return all(judged(x) for x in (v.values() if isinstance(v, dict) else v))
    return not (isinstance(v, float) and v == int(v)) and v != 10 ** 12


STYLES = [{}, {'enum_style': 'const'}, {'enum_style': 'regex', 'import_style': 'ref'}]


def boundaries(d):
    """Values at and next to the bounds of an Integer, Number or String"""
    o, out = d.opts, []
    if d.base == 'Integer':
        for b in (o.get('minv'), o.get('maxv'), *BOUNDS_OF.get('/' + o.get('format', ''), ())):
            out += [b - 1, b, b + 1] if b is not None else []
    elif d.base == 'Number':
        for b in (o.get('minf'), o.get('maxf')):
            out += [b - 0.25, b, b + 0.25] if b is not None else []
    elif d.base == 'String':
        for b in (o.get('minv', 0), o.get('maxv') or 255):
            out += ['a' * n for n in (b - 1, b, b + 1) if 0 <= n < 2000]
    return out


def notes(doc, s, style):
    """What the annotations of the document should say and do not"""
    info = s.get('info', {})
    for k, j in [('package', '$id')] + [(k, k) for k in ('title', 'version', 'description', 'comments', 'copyright', 'license')]:
        if doc.get(j) != info.get(k):
            return f'{j} is {doc.get(j)!r}'
    for t in s['types']:
        d = doc['definitions'][t[0]]
        o = parse_opts(t[2])[0]
        if d.get('title') != t[0].replace('-', ' ').replace('_', ' '):
            return f'title of {t[0]} is {d.get("title")!r}'
        if d.get('description', '') != t[3]:
            return f'description of {t[0]} is {d.get("description")!r}'
        if t[1] == 'Binary':
            enc = {'contentEncoding': 'base64url'} if 'format' not in o else {'contentEncoding': 'base16'} if o['format'] == 'x' else {}
            if {k: v for k, v in d.items() if k == 'contentEncoding'} != enc:
                return f'{t[0]} has contentEncoding {d.get("contentEncoding")!r}'
        if t[1] == 'String' and 'format' in o and 'pattern' not in d and d.get('format') != o['format']:
            return f'{t[0]} has format {d.get("format")!r}'
        if t[1] == 'Enumerated' and style.get('enum_style') == 'const' and not any(x[0] in '#>' for x in t[2]):
            if [(x['const'], x['description']) for x in d['oneOf']] != [(f[0], f'{f[1]} - {f[2]}') if '=' in t[2] else (f[1], f[2]) for f in t[4]]:
                return f'items of {t[0]} are {d["oneOf"]!r}'
        for f in t[4] if t[1] in ('Map', 'Record') or t[1] == 'Choice' and 'combine' not in o else []:
            x = d['properties'][str(f[0]) if '=' in t[2] else f[1]]
            if x.get('description', '') != f[4]:
                return f'description of {t[0]}.{f[1]} is {x.get("description")!r}'


def variants(s, styles):
    """The schema as written, if its meaning is the same, and with its extensions unfolded"""
    u = jadn.transform.unfold_extensions(s)
    if not any('q' in f[3] and f[2] in BUILTIN and any(o[0] == ']' for o in f[3]) for t in s['types'] if t[1] != 'Enumerated' for f in t[4]):
        yield s, styles
    if not same(u, s):
        yield u, styles[:1]


def explore(rec, s, label, styles=STYLES, types=None, edited=99):
    u = jadn.transform.unfold_extensions(s)
    if any(t[1] == 'Enumerated' and not t[4] and not any(o[0] in '#>' for o in t[2]) for t in u['types']):
        return                  # a type without values
    if len({t[0] for t in u['types']}) < len(u['types']):
        return                  # a name collides with a generated one
    orig, s = s, u
    m, mr = Model(s), Model(relax(s))
    messages = []
    names = [t[0] for t in s['types']]
    for t in types or names:
        if any(':' in r for r in refs(s, t, set())):
            continue
        d, dr = m.type(t), mr.type(t)
        tagged = '&' in repr([f[3] for x in s['types'] if x[0] in refs(s, t, set()) and x[1] != 'Enumerated' for f in x[4]])     # that the tag selects the alternative is not expressible
        g = good(m, d)
        cand = uniq([js(x) for n, v in enumerate(g) for x in [v] + list(mutations(v) if n < edited else [])] + [js({**a, **b}) for a, b in itertools.permutations([x for x in g if isinstance(x, dict)][:6], 2)] + [js(x) for x in [*JUNK, *boundaries(d)]] + [0, 2 ** 40, '3', {'1': 1}, {'a': None}])
        for v in cand:
            if v is ... or not judged(v):
                continue
            a, r = verdict(m, d, v), verdict(mr, dr, v)
            if 'undef' in (a, r) or a == 'rej' and (r == 'ok' or tagged):
                continue
            messages.append((t, v, a))
    for s, style in [(x, style) for x, ss in variants(orig, styles) for style in ss]:
        names = [t[0] for t in s['types']]
        arg = copy.deepcopy(s)
        rec.trans()
        rec.state(label, repr(style))
        r, text = call(lambda: jadn.translate.json_schema_dumps(arg, **style))
        bad = why = None
        if r != 'ok':
            why = f'failed: {text}'
        elif not same(arg, s):
            why = 'argument modified'
        else:
            doc = json.loads(text)
            try:
                jsonschema.Draft7Validator.check_schema(doc)
            except jsonschema.SchemaError as e:
                why = f'not a valid JSON Schema: {e.message}'
            if set(doc.get('definitions', {})) != set(names):
                why = f'definitions {list(doc["definitions"])}'
            if dang := dangling(doc):
                why = f'undefined references {dang}'
            why = why or notes(doc, s, style)
        if not why:
            body = {k: doc[k] for k in ('definitions', 'imports') if k in doc}
            val = {}
            for t, v, a in messages:
                if t not in doc['definitions']:
                    continue            # generated by unfolding
                if t not in val:
                    val[t] = jsonschema.Draft7Validator({'$ref': f'#/definitions/{t}', **body})
                rec.trans()
                try:
                    ok = val[t].is_valid(v)
                except Exception as e:
                    ok, why = None, f'validation failed: {e!r}'[:200]
                if ok != (a == 'ok'):
                    bad = (t, v, a)
                    why = why or f'{t} {"accepts" if ok else "rejects"} {v!r}'[:300]
                    rec.fail(f'{label}|{style}|{why}'[:400], {'schema': s, 'style': style, 'what': why, 'model': a, 'definition': doc['definitions'][t], 'message': v}, repro(s, style, t, v))
                    break
                rec.outcome('accept' if ok else 'reject')
        elif why:
            rec.fail(f'{label}|{style}|{why}'[:400], {'schema': s, 'style': style, 'what': why}, repro(s, style))
        if not why:
            rec.trace()


def repro(s, style, t=None, v=None):
    return (f'import json, jadn, jadn.translate, jsonschema\ns = {s!r}\nd = json.loads(jadn.translate.json_schema_dumps(s, **{style!r}))\nprint(json.dumps(d, indent=1))\n'
            + (f'print(jsonschema.Draft7Validator({{"$ref": "#/definitions/{t}", "definitions": d["definitions"]}}).is_valid({v!r}))\n' if t else ''))


def dangling(doc):
    out = []

    def walk(v):
        if isinstance(v, dict):
            if isinstance(r := v.get('$ref'), str) and r.startswith('#/'):
                x = doc
                for p in r[2:].split('/'):
                    x = x.get(p) if isinstance(x, dict) else None
                if x is None:
                    out.append(r)
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk(doc)
    return out


def refs(s, t, seen):
    """All types reachable from t"""
    if t in seen:
        return seen
    seen.add(t)
    td = next((x for x in s['types'] if x[0] == t), None)
    for o, ft in ([(td[2], '')] + [(f[3], f[2]) for f in (td[4] if td[1] != 'Enumerated' else [])]) if td else []:
        d = parse_opts(o)[0]
        for r in (d.get('ktype'), d.get('vtype'), ft):
            if r and r not in BUILTIN:
                refs(s, r, seen)
    return seen


def regex(p):
    try:
        return re.compile(p)
    except re.error:
        return None


def supported(s):
    keyed = [t[0] for t in s['types'] if t[1] in ('Array', 'Map', 'Record') and any('K' in f[3] for f in t[4])]
    structured = [t[0] for t in s['types'] if t[1] in ('Array', 'ArrayOf', 'Choice', 'Map', 'MapOf', 'Record')]
    choices = [t[0] for t in s['types'] if t[1] == 'Choice']
    for t in s['types']:
        if t[1] in ('Enumerated', 'Choice') and not t[4] and not any(o[0] in '#>' for o in t[2]):
            return False                # a type without values
        for o in [t[2]] + [f[3] for f in t[4] if t[1] != 'Enumerated']:
            if any(x[0] == '%' and (x[1] != '^' or not regex(x[1:])) for x in o):
                return False
        for b, o in [(t[1], t[2])] + [(f[2], f[3]) for f in t[4] if t[1] != 'Enumerated']:
            if b == 'MapOf' and next((x[1:] for x in o if x[0] == '+')) in structured:
                return False                # a structured value cannot be a member name
            if '}0' in o and b not in ('Integer', 'Number') or 'L' in o and b not in keyed:
                return False
            if any(x[0] == '&' for x in o) and (b not in choices or t[1] == 'Choice' or any(x[0] == ']' for x in o)) or 'K' in o and any(x[0] == ']' for x in o) or b == 'Enumerated' and b is not t[1] and not any(x[0] in '#>' for x in o):
                return False
    return True


def jobs(tier):
    deep = tier == 'thorough'
    out = gen.jobs(deep, ['types', 'fields:Record', 'fields:Map', 'fields:Choice', 'fields:Array', 'numbers', 'names', 'refs', 'patterns', 'wide'])
    out += [('chain', leaf, deep) for leaf in compose.LEAVES] + [('frag', n) for n in zoo.SETTYPES] + [('items', n, deep) for n in range(4)] + [('root', 0), ('roots', 0), ('file', 0), ('bytes', 0)]
    return out


def run(job, rec):
    if job[0] == 'gen':
        for s in gen.schemas(job):
            if not supported(s):
                continue
            s = {'info': {'package': 'http://a/b', 'namespaces': {'n': 'http://n/n', 'nsId': 'http://n/m'}}, **s}
            names = [t[0] for t in s['types']]
            explore(rec, s, repr(s['types'][:2]), STYLES if job[3] or job[1] == 'types' and len(repr(s['types'][0])) < 60 else STYLES[:1], names[:-3] if names[-3:] == ['T0', 'T1', 'E0'] else None, 99 if job[3] else 5)
        rec.sample({'schema': repr(s)[:300]})
    elif job[0] == 'chain':
        for n in (0, 1, 2, 3) if job[2] else (0, 1, 2):
            for c in compose.chains(n):
                s, t, _ = compose.build(c, job[1])
                explore(rec, s, f'{c}/{job[1]}', STYLES if n == 0 or n == 1 and job[2] else STYLES[:1], [t])
    elif job[0] == 'frag':
        for other in [()] + [(x,) for x in zoo.SETTYPES if x != job[1]]:
            s, vals = zoo.combine((job[1],) + other, {'package': 'http://a/b'})
            explore(rec, s, str((job[1],) + other), STYLES[:1] if other else STYLES, list(vals) if other else None)
    elif job[0] == 'items':
        for n, t in enumerate([*gen.itemnames(False), '', ' ', ' a', 'a ', '\n', 'a\n', '\ta', ' a b ', '\u2028', '\xa0a']):
            if n % 4 == job[1] and (len(t) < 3 or t != t.strip()):
                s = {'types': [['A', 'Enumerated', [], '', [[1, t, t], [2, 'zz', 'd'], [3, t + 'zzz', '']]], ['B', 'Enumerated', ['='], '', [[1, t, t], [20, 'zz', 'd']]]]}
                explore(rec, s, t)
    elif job[0] == 'roots':         # every ordered choice of 0-3 roots, every set of other information
        types = [['A', 'Integer', [], 'first', []], ['B-b', 'String', ['{1'], '', []], ['C-C_c', 'Record', ['{1'], 'third', [[1, 'a', 'A', ['[0'], 'x'], [2, 'b', 'B-b', ['[0'], '']]], ['D', 'Boolean', [], '', []]]
        names = [t[0] for t in types]
        prop = [n.lower().replace('-', '_') for n in names]
        vals = {'A': [1, 'x'], 'B-b': ['x', ''], 'C-C_c': [{'a': 1}, {}, {'z': 1}], 'D': [True, 'x']}
        keys = ('title', 'version', 'description', 'comments', 'copyright', 'license')
        for k in ('roots', 'exports'):
            for n in range(4):
                for roots in itertools.permutations(names, n):
                    s = {'info': {'package': 'http://a/b', k: list(roots)}, 'types': types}
                    doc = json.loads(jadn.translate.json_schema_dumps(fresh(s)))
                    rec.state(k, roots)
                    rec.trans()
                    val = jsonschema.Draft7Validator({k: v for k, v in doc.items() if k != '$id'})
                    if n == 1:
                        continue            # compared in another job
                    for m in range(5):
                        for sub in itertools.combinations(range(4), m):
                            for vs in itertools.product(*[vals[names[x]] for x in sub]):
                                v = dict(zip([prop[x] for x in sub], vs))
                                want = all(names[x] in roots and y == vals[names[x]][0] for x, y in zip(sub, vs))
                                rec.trans()
                                rec.outcome('accept' if want else 'reject')
                                if val.is_valid(v) != want:
                                    rec.fail(f'roots {k} {roots}: {v!r}', {'schema': s, 'message': v, 'what': f'the document {"rejects" if want else "accepts"} {v!r}'}, repro(s, {}))
                    rec.trace()
        for n in range(len(keys) + 1):
            for sub in itertools.combinations(keys, n):
                for pk in ({}, {'package': 'http://a/b'}):
                    s = {'info': {**pk, **{x: f'The {x} "of" this' for x in sub}}, 'types': types}
                    doc = json.loads(jadn.translate.json_schema_dumps(fresh(s)))
                    rec.state(sub, repr(pk))
                    rec.trans()
                    if why := notes(doc, s, {}):
                        rec.fail(f'info {sub} {pk}: {why}', {'schema': s, 'what': why}, repro(s, {}))
                    rec.trace()
    elif job[0] == 'file':          # the file is the schema, with a comment about its source
        d = tempfile.mkdtemp()
        for frag, (tdefs, vals) in {**zoo.FRAG, 'none': ([], {})}.items():
            s = {'info': {'package': 'http://a/b'}, 'types': fresh(zoo.BASE) + fresh(tdefs)}
            for src in (None, '', 'a.jadn', 'a "b" */ \\c'):
                for style in ({}, *STYLES):
                    rec.trans()
                    rec.state(frag, src, repr(style))
                    fn = os.path.join(d, 'f.json')
                    r, e = call(lambda: jadn.translate.json_schema_dump(fresh(s), fn, src, **style))
                    try:
                        doc = json.load(open(fn, encoding='utf8'))
                        want = json.loads(jadn.translate.json_schema_dumps(fresh(s), **{'import_style': 'ref', **style}))
                        note = doc.pop('$comment', '')
                        why = None if r == 'ok' and doc == want and (src or '') in note else f'{r} {e}: the file is not the schema'
                    except ValueError as x:
                        why = f'not JSON: {x}'
                    if why:
                        rec.fail(f'file {frag} {src!r} {style}', {'schema': s, 'source': src, 'style': style, 'what': why}, f'import json, jadn\njadn.translate.json_schema_dump({s!r}, "/tmp/x.json", {src!r})\nprint(json.load(open("/tmp/x.json")))\n')
                    else:
                        rec.trace()
        shutil.rmtree(d)
    elif job[0] == 'bytes':         # every form of binary text: which groups are zero, all prefix lengths
        words = [b'\x00\x00', b'\x00\x01', b'\xab\xcd', b'\xff\xff']
        v6 = [b''.join(g) for g in itertools.product(words[::2], repeat=8)] + [b''.join(g) + b'\0' * 8 + t for g in itertools.product(words, repeat=2) for t in words + [bytes(4)]]
        v6 = [v for v in v6 if len(v) == 16] + [bytes(10) + p + bytes(q) for p in words for q in itertools.product((0, 9, 10, 99, 100, 199, 255), repeat=4)]
        v4 = [bytes(q) for q in itertools.product((0, 9, 10, 99, 100, 199, 200, 249, 250, 255), repeat=4)]
        hexes = [bytes([n]) for n in range(256)] + [bytes([n, m]) for n in range(0, 256, 5) for m in range(0, 256, 15)]
        forms = {'/ipv6-addr': v6, '/ipv4-addr': v4, '/x': hexes, '/eui': [h * 6 for h in hexes[:256]] + [h * 8 for h in hexes[:256]], '': hexes,
                 '/ipv6-net': [(v, n) for v in v6[:300:7] for n in range(129)], '/ipv4-net': [(v, n) for v in v4[::97] for n in range(33)]}
        for fmt, vals in forms.items():
            s = {'types': [['A', 'Array' if 'net' in fmt else 'Binary', [fmt] if fmt else [], '', [[1, 'a', 'Binary', [], ''], [2, 'p', 'Integer', [], '']] if 'net' in fmt else []]]}
            codec = jadn.codec.Codec(fresh(s), True, True)
            val = jsonschema.Draft7Validator(json.loads(jadn.translate.json_schema_dumps(s)))
            val = jsonschema.Draft7Validator({**val.schema, '$ref': '#/definitions/A'})
            for v in vals:
                r, t = call(lambda: codec.encode('A', list(v) if isinstance(v, tuple) else v))
                rec.trans()
                rec.state(fmt, repr(v))
                if r != 'ok' or not val.is_valid(t):
                    rec.fail(f'{fmt}|{v!r}|{t!r}', {'schema': s, 'what': f'the encoding {t!r} of {v!r} is rejected'}, repro(s, {}, 'A', t))
                rec.outcome('accept')
            rec.trace()
    else:
        for k in ('roots', 'exports'):
            for frag, vals in zoo.FRAG.values():
                for root in frag:
                    s = jadn.transform.unfold_extensions(zoo.combine([n for n, f in zoo.FRAG.items() if f[0] is frag], {'package': 'http://a/b', k: [root[0]]})[0])
                    doc = json.loads(jadn.translate.json_schema_dumps(s))
                    d1, d2 = jsonschema.Draft7Validator({k: v for k, v in doc.items() if k != '$id'}), jsonschema.Draft7Validator({**doc, '$ref': f'#/definitions/{root[0]}', '$id': ''})
                    m = Model(s)
                    for v in good(m, m.type(root[0])) + [x for x in JUNK if js(x) is not ...]:
                        v = js(v)
                        rec.trans()
                        rec.state('root', k, root[0], repr(v))
                        if d1.is_valid(v) != d2.is_valid(v):
                            rec.fail(f'root|{k}|{root[0]}|{v!r}'[:300], {'schema': s, 'what': f'whole document differs from the definition of {root[0]}', 'message': v}, repro(s, {}, root[0], v))
                    rec.trace()


if __name__ == '__main__':
    mc.main(globals())

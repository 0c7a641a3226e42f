"""C32: the bundled metaschemas describe every well-formed schema, themselves included."""
import json
import os
import re
import jsonschema
import mc
import gen
import wf
from explore import call, same, fresh, MODES, MODE_NAME, mutations
import jadn
from jadn.codec import Codec

ID = 'C32'
BOUNDS = ('every schema of the enumerated families (types x option sets, fields x options x multiplicities, descriptions, items, patterns, numbers, names, references, information, combinations of fragments), the two metaschemas '
          'themselves, and configurations that replace the name patterns; as messages of the 1.1 metaschema in 4 modes (read from file, from JIDL, after unfolding), of the JSON Schema generated from it and of the bundled one; '
          'structure edits of schemas: 1.1 codec, generated and bundled JSON Schema')
RULE = 'state = schema as a message; transition = encode, decode or JSON Schema validation of it; trace = all modes and validators agree that it is a Schema and return it unchanged'
ASSUMPTIONS = ['type definitions are written with all five columns', 'the generated JSON Schema has the name patterns of the metaschema configured in it (no $ inside field names)', 'for edited schemas only those that the codec accepts are judged by the JSON Schemas (these cannot relate the base type of a definition to the form of its fields)']
EXPECT_OUTCOMES = ('schema', 'edit-ok', 'edit-rej', 'meta')



def meta(v):
    return json.load(open(os.path.join(jadn.data_dir(), f'jadn_v{v}_schema.jadn'), encoding='utf8'))


def bundled(v):
    return json.load(open(os.path.join(jadn.data_dir(), f'jadn_v{v}_schema.json'), encoding='utf8'))


_M = {}


def setup():
    if not _M:
        m = meta('1.1')
        _M['m'] = m
        _M['variants'] = {'file': m, 'jidl': jadn.convert.jidl_loads(jadn.convert.jidl_dumps(fresh(m))), 'html': jadn.convert.html_loads(jadn.convert.html_dumps(fresh(m))),
                          'unfold': jadn.transform.unfold_extensions(fresh(m)), 'canon': jadn.canonicalize(fresh(m)), 'strip': jadn.transform.strip_comments(fresh(m))}
        _M['js'] = {}
        for n, s in (('generated', jadn.translate.json_schema_dumps(fresh(m))), ('unfolded', jadn.translate.json_schema_dumps(fresh(_M['variants']['unfold'])))):
            j = json.loads(s)
            jsonschema.Draft7Validator.check_schema(j)
            _M['js'][n] = jsonschema.Draft7Validator(j)
        _M['js']['bundled'] = jsonschema.Draft7Validator(bundled('1.1'))
    return _M


def describes(rec, s, label, full, deep=True):
    """s is a Schema message of the metaschema (full: and of what conversions make of it) in every mode"""
    M = setup()
    rec.state(json.dumps(s, sort_keys=True))
    for name, m in M['variants'].items():
        if not full and name != 'file':
            continue
        for mode in MODES if deep or name == 'file' else MODES[:1]:
            c = Codec(fresh(m), *mode, config=fresh(s))
            w = call(c.encode, 'Schema', fresh(s))
            rec.trans(2)
            if w[0] != 'ok' or mode == (True, True) and not same(w[1], s):
                rec.fail(f'encode|{label}|{name}|{MODE_NAME[mode]}'[:300], {'schema': s, 'mode': mode, 'want': 'accepted', 'got': w})
                return False
            t = call(lambda: json.loads(json.dumps(w[1])))
            r = call(c.decode, 'Schema', t[1])
            if r[0] != 'ok' or not same(r[1], s):
                rec.fail(f'decode|{label}|{name}|{MODE_NAME[mode]}'[:300], {'schema': s, 'mode': mode, 'message': t, 'want': s, 'got': r})
                return False
    return True


def valid(rec, s, label, full=True):
    for name, v in setup()['js'].items():
        if not full and name == 'unfolded' or name != 'bundled' and any('$' in f[1][1:] for t in s['types'] if t[1] in ('Array', 'Choice', 'Map', 'Record') for f in t[4]):
            continue
        rec.trans()
        e = next(v.iter_errors(s), None)
        if e is not None:
            rec.fail(f'js|{label}|{name}'[:300], {'schema': s, 'validator': name, 'want': 'valid', 'error': str(e)[:1000]})
            return False
    return True


def jobs(tier):
    deep = tier == 'thorough'
    return gen.jobs(deep) + [('meta',)] + [('edit', n, deep) for n in range(8)] + [('config', n) for n in range(4)]




def edits(s, deep):
    """Schemas that differ from s in one place"""
    def walk(x, path):
        yield path, x
        if isinstance(x, dict):
            for k in x:
                yield from walk(x[k], path + (k,))
        elif isinstance(x, list):
            for k in range(len(x)):
                yield from walk(x[k], path + (k,))

    def put(path, v):
        t = fresh(s)
        o = t
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = v
        return t
    for path, x in walk(s, ()):
        if not path:
            continue
        for v in (None, 0, -1, 1, 1.5, True, '', 'x', 'X', 'String', 'a b', [], [[]], {}, {'a': 1}, [x], [x, x]):
            if not (isinstance(v, bool) or v == 1) or not isinstance(x, (int, bool)):
                yield put(path, v)
        o = s
        for k in path[:-1]:
            o = o[k]
        t = fresh(s)
        q = t
        for k in path[:-1]:
            q = q[k]
        del q[path[-1]]
        yield t
        if isinstance(x, list):
            yield put(path, x[::-1])
            yield put(path, x + x[:1])
            yield put(path, x + [None])
        if isinstance(x, dict):
            yield put(path, {**x, 'extra': 1})
        if isinstance(x, str):
            yield put(path, x + '\u20ac')
            yield put(path, x * 300)


EDIT = [{'info': {'package': 'http://a.b/c', 'version': '1', 'roots': ['R'], 'namespaces': [['x', 'http://a.b/d']], 'config': {'$MaxString': 300}},
         'types': [['R', 'Record', ['X'], 'words', [[1, 'f', 'String', ['%^a$', '[0'], 'd'], [2, 'g', 'x:E', [']0'], '']]], ['E', 'Enumerated', ['='], '', [[3, 'a b', 'i'], [0, 'c', '']]]]},
        {'info': {'package': 'http://a.b/c', 'namespaces': {'x': 'http://a.b/d'}, 'exports': ['L', 'C']},
         'types': [['L', 'ArrayOf', ['*C', '{1', '}3', 'q'], '', []], ['C', 'Choice', ['CX'], 'cc', [[4, 'p', 'L', ['<'], ''], [2, 'i', 'Integer', ['/i16'], '']]], ['N', 'Number', ['y0.5'], '', []]]}]


def run(job, rec):
    if job[0] == 'gen':
        for k, (s, group) in enumerate(gen.packs(job, 60)):
            full = job[3] or k % 10 == 0
            if not all('types' in g and all(len(t) == 5 for t in g['types']) for g in group):
                continue
            label = f'{job[1]}|{json.dumps(s["types"])[:160]}'
            if len(group) > 1 and (len(s['types']) > 1000):
                continue
            rec.outcome('schema')
            if wf.ok({'types': s['types']}) is not True or 'info' in s and wf.ok(s) is False:
                continue
            if call(jadn.check, fresh(s))[0] != 'ok':
                continue        # judged by C12
            if describes(rec, s, label, full, job[3]) and valid(rec, s, label, full):
                rec.trace()
    elif job[0] == 'meta':
        for v in ('1.0', '1.1'):
            m = meta(v)
            c = call(jadn.check, fresh(m))
            if c[0] != 'ok':
                rec.fail(f'check|metaschema {v}', {'want': 'accepted', 'got': c})
            rec.outcome('meta')
            for name, s in (('itself', m), ('canonical', jadn.canonicalize(fresh(m))), ('unfolded', jadn.transform.unfold_extensions(fresh(m))), ('stripped', jadn.transform.strip_comments(fresh(m)))):
                if describes(rec, s, f'metaschema {v} {name}', True) and valid(rec, s, f'metaschema {v} {name}'):
                    rec.trace()
            if v == '1.0':
                for mode in MODES:          # by its own rules
                    c = Codec(fresh(m), *mode, config=fresh(m))
                    w = call(c.encode, 'Schema', fresh(m))
                    r = call(c.decode, 'Schema', w[1]) if w[0] == 'ok' else w
                    rec.trans(2)
                    if r[0] != 'ok' or not same(r[1], m):
                        rec.fail(f'v1.0|{MODE_NAME[mode]}', {'want': 'describes itself', 'got': r})
                e = next(jsonschema.Draft7Validator(bundled('1.0')).iter_errors(m), None)
                if e is not None:
                    rec.fail('js|v1.0', {'want': 'valid', 'error': str(e)[:500]})
    elif job[0] == 'edit':
        _, n, deep = job
        m = setup()
        for k, s in enumerate(EDIT):
            for i, t in enumerate(edits(s, deep)):
                if i % 8 != n:
                    continue
                if not isinstance(t, dict):
                    continue
                base = {x: v for x, v in (t.get('info') or {}).items()} if isinstance(t.get('info'), dict) else {}
                cfg = {'info': {'config': base['config']}} if isinstance(base.get('config'), dict) and base['config'] == s['info'].get('config') else {}
                r = [call(Codec(fresh(m['m']), *mode, config=cfg).encode, 'Schema', fresh(t)) for mode in MODES]
                rec.trans(4)
                rec.state('edit', json.dumps(t, sort_keys=True))
                if len({x[0] for x in r}) > 1:
                    rec.fail(f'edit modes|{k}|{i}', {'schema': t, 'want': 'same verdict in all modes', 'got': r})
                    continue
                ok = r[0][0] == 'ok'
                rec.outcome('edit-ok' if ok else 'edit-rej')
                if wf.ok(t) is True and not ok and all(len(d) == 5 for d in t['types']):
                    rec.fail(f'edit wf|{k}|{i}', {'schema': t, 'want': 'accepted', 'got': r[0]})
                if ok and not cfg:
                    if not all(len(d) == 5 for d in t['types']):
                        continue
                    if valid(rec, t, f'edit {k} {i}'):
                        rec.trace()
    else:
        # name patterns of the schema's configuration decide what the metaschema accepts
        n = job[1]
        for i, (tp, fp) in enumerate((a, b) for a in (None, '^[a-z]{1,3}$', '^T[0-9]$', '^[^:]{1,5}$', '[A-Z][A-Za-z0-9]*') for b in (None, '^[A-Z]$', '^x?$', '^.{2}$')):
            if i % 4 != n:
                continue
            cfg = {k: v for k, v in (('$TypeName', tp), ('$FieldName', fp)) if v}
            if not cfg:
                continue
            tps = tp or '^[$A-Z][-$A-Za-z0-9]{0,63}$'
            fps = fp or '^[$a-z][_$A-Za-z0-9]{0,63}$'
            for tn in ('T1', 'ab', 'a', 'T12', 'Abcdef', 'a:b', 'A'):
                for fn in ('A', 'x', '', 'xx', 'a-', 'AB', 'xyz'):
                    s = {'info': {'package': 'http://a.b/c', 'config': cfg}, 'types': [[tn, 'Record', [], '', [[1, fn, 'String', [], '']]]]}
                    good = re.fullmatch(tps.removeprefix('^').removesuffix('$'), tn) is not None and re.fullmatch(fps[1:-1], fn) is not None
                    if re.fullmatch(tps.removeprefix('^').removesuffix('$'), 'String') is None:
                        s['types'][0][4][0][2] = tn
                    for mode in MODES:
                        c = Codec(fresh(setup()['m']), *mode, config=fresh(s))
                        w = call(c.encode, 'Schema', fresh(s))
                        rec.trans()
                        rec.state('config', tp, fp, tn, fn, mode)
                        if (w[0] == 'ok') != good:
                            rec.fail(f'config|{cfg}|{tn}|{fn}|{MODE_NAME[mode]}', {'schema': s, 'want': good, 'got': w})
                        elif good:
                            r = call(c.decode, 'Schema', w[1])
                            if r[0] != 'ok' or not same(r[1], s):
                                rec.fail(f'config decode|{cfg}|{tn}|{fn}|{MODE_NAME[mode]}', {'schema': s, 'got': r})
                            else:
                                rec.trace()


if __name__ == '__main__':
    mc.main(globals())

"""C09: whatever is passed in, encode and decode either return or raise ValueError/TypeError; they never modify their
argument, and building and using a Codec never modifies the schema it was given."""
import copy
import itertools
import mc
from explore import call, same, MODES, MODE_NAME, fresh
from compose import build, chains, LEAVES, CONS
from jadn.codec import Codec

ID = 'C09'
BOUNDS = ('a zoo of types: every leaf, every chain of 1-2 constructors, every format keyword, unions, empty types; arguments: '
          'every tree of depth up to 2 (thorough: 3) with up to two children over 24 atoms including bytes, tuples, sets, huge '
          'integers, NaN, plus valid values with one node replaced by each atom; arguments of up to 20000 levels and arguments that contain '
          'themselves, for every recursive container and union; 4 modes, encode and decode')
RULE = 'state = (schema, mode, direction, argument); transition = call; trace = argument explored in all modes without escape'
ASSUMPTIONS = []
EXPECT_OUTCOMES = ('ok', 'rej')


class Opaque:
    def __repr__(self):
        return 'Opaque()'


ATOMS = [None, True, False, 0, 1, 2, -1, 2 ** 70, 1.5, float('inf'), float('nan'), '', 'a', '1', 'f', 'x\n', 'é', b'', b'\xff',
         (), (1,), {1}, Opaque(), range(2), 'A' * 300, '2000-13-45', '1.2.3.4/99', '/', '-', '.']
KEYS = ['', 'a', 'f', 'g', '1', '01', 'o', 1, 2, None, True, 1.5, b'k', (1,), 4, 'x', 't', 'id']


def trees(depth):
    out = list(ATOMS) + [[], {}]
    lists = [[a] for a in ATOMS] + [[a, b] for a in ATOMS[::3] for b in ATOMS[::2]]
    dicts = [{k: a} for k in KEYS for a in ATOMS[::2]] + [{'f': a, 'g': b} for a in ATOMS[::3] for b in ATOMS[::4]] + \
            [{'f': a, 't': b} for a in ATOMS[::4] for b in ATOMS[::2]]
    out += lists + dicts
    if depth > 1:
        some = lists[:len(ATOMS):2] + dicts[:len(KEYS) * 3:3]
        out += [[x] for x in some] + [{k: x} for k in KEYS[:12] for x in some] + [[x, x] for x in some]
    if depth > 2:
        out += [[[x]] for x in some] + [{k: {j: x}} for k in KEYS[:9] for j in KEYS[:9] for x in some[::2]]
    return out


def replaced(v):
    """v with each node replaced by each atom"""
    for a in ATOMS:
        yield a
    if isinstance(v, list):
        for n in range(len(v)):
            for x in replaced(v[n]):
                yield v[:n] + [x] + v[n + 1:]
    elif isinstance(v, dict):
        for k in v:
            for x in replaced(v[k]):
                yield {j: x if j == k else y for j, y in v.items()}
        for k in KEYS:
            if k not in v:
                yield {**v, k: 1}


FORMATS = [('String', f) for f in ('date-time', 'date', 'time', 'duration', 'email', 'idn-email', 'hostname', 'idn-hostname', 'ipv4', 'ipv6', 'uri',
                                   'uri-reference', 'iri', 'iri-reference', 'uri-template', 'json-pointer', 'relative-json-pointer', 'regex')] + \
          [('Binary', f) for f in ('eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b', 'x', 'X')] + \
          [('Integer', f) for f in ('datetime-ms', 'i8', 'i16', 'i32', 'i64')] + [('Number', f) for f in ('f16', 'f32', 'f64')]


def zoo_formats():
    for b, f in FORMATS:
        yield {'types': [['T', b, ['/' + f], '', []], ['U', 'Choice', ['CX'], '', [[1, 'f', 'T', [], ''], [2, 'g', 'Boolean', [], '']]],
                         ['R', 'Record', [], '', [[1, 'f', b, ['/' + f], '']]], ['M', 'MapOf', ['+T', '*T'], '', []]]}
    for f, a, b in (('ipv4-net', ['Binary', ['/ipv4-addr']], ['Integer', []]), ('ipv6-net', ['Binary', ['/ipv6-addr']], ['Integer', []]),
                    ('tag-uuid', ['String', []], ['Binary', ['/uuid']])):
        yield {'types': [['T', 'Array', ['/' + f], '', [[1, 'f', *a, ''], [2, 'g', *b, '']]], ['R', 'Record', [], '', [[1, 'f', 'T', [], '']]],
                         ['L', 'ArrayOf', ['*T', 'q'], '', []]]}
    for base in ('Enumerated', 'Choice', 'Map', 'Record', 'Array'):
        yield {'types': [['T', base, [], '', []], ['R', 'Record', [], '', [[1, 'f', 'T', [], '']]], ['L', 'ArrayOf', ['*T'], '', []]] +
               ([['K', 'MapOf', ['+T', '*T'], '', []]] if base == 'Enumerated' else [['I', base, ['='], '', []]] if base in ('Choice', 'Map') else [])}
    for c in 'OAX':
        yield {'types': [['T', 'Choice', ['C' + c], '', []], ['U', 'Choice', ['C' + c], '', [[1, 'f', 'Integer', ['}5'], ''], [2, 'g', 'Binary', ['/uuid'], '']]]]}
    for q in 'qs':
        yield {'types': [['T', 'ArrayOf', ['*String', q], '', []], ['U', 'ArrayOf', ['*T', q], '', []], ['R', 'Record', [], '', [[1, 'f', 'Integer', [']0', 'q'], '']]]]}
    yield {'types': [['T', 'String', ['%^a(b|c)$'], '', []], ['N', 'Number', ['y0', 'z1'], '', []], ['R', 'Array', ['{1', '}1'], '', [[1, 'f', 'T', ['[0'], ''], [2, 'g', 'N', ['[0'], '']]]]}


CHAINED = {'types': [['R', 'Record', [], '', [[1, 'f', 'R', ['[0'], ''], [2, 'g', 'Integer', ['[0'], '']]], ['M', 'Map', ['='], '', [[1, 'f', 'M', ['[0'], '']]],
                     ['A', 'Array', [], '', [[1, 'f', 'A', ['[0'], '']]], ['L', 'ArrayOf', ['*L'], '', []], ['LQ', 'ArrayOf', ['*LQ', 'q'], '', []],
                     ['MO', 'MapOf', ['+String', '*MO'], '', []], ['C', 'Choice', [], '', [[1, 'f', 'C', [], ''], [2, 'g', 'Integer', [], '']]],
                     ['RQ', 'Record', [], '', [[1, 'f', 'RQ', ['[0', ']0', 'q'], '']]], ['I', 'Integer', [], '', []], ['E', 'Enumerated', [], '', [[1, 'f', '']]]] +
           [x for c in 'OAX' for x in (['U' + c, 'Choice', ['C' + c], '', [[1, 'f', 'UL' + c, [], ''], [2, 'h', 'UM' + c, [], ''], [3, 'g', 'Integer', [], '']]],
                                       ['UL' + c, 'ArrayOf', [f'*U{c}', '{1'], '', []], ['UM' + c, 'Map', ['{1'], '', [[1, 'f', 'U' + c, [], '']]])]}


def chain(kind, depth):
    """-> argument of that many levels; 0: one that contains itself"""
    v = {} if kind in 'dk' else []
    top = v
    for _ in range(depth):
        v = {'f': v} if kind == 'd' else {1: v} if kind == 'k' else [v]
    if not depth:
        top.update({'f' if kind == 'd' else 1: top}) if kind in 'dk' else top.append(top)
    return v


def shape(v, depth):
    out = []
    for _ in range(depth or 3):
        out.append((type(v), *(v if isinstance(v, dict) else [len(v)])))
        v = next(iter(v.values() if isinstance(v, dict) else v), None)
        if v is None:
            break
    return out


def run_deep(job, rec):
    _, kind, depth = job
    rec.sample({'levels': depth, 'kind': kind})
    for mode in MODES:
        c = Codec(fresh(CHAINED), *mode)
        v = chain(kind, depth)
        b = shape(v, depth)
        for t in CHAINED['types']:
            for op in ('encode', 'decode'):
                r, got = call(getattr(c, op), t[0], v)
                got = got if r != 'ok' else ''
                rec.trans()
                rec.outcome(r)
                if r == 'crash' or shape(v, depth) != b:
                    rec.fail(f'deep {kind} {depth} {t[0]} {op} {MODE_NAME[mode]}', {'schema': CHAINED, 'type': t[0], 'mode': MODE_NAME[mode], 'op': op, 'levels': depth, 'kind': kind, 'got': [r, got]},
                             f'from jadn.codec import Codec\nc = Codec({CHAINED!r}, {mode[0]}, {mode[1]})\nv = {{}} if {kind!r} in "dk" else []\n'
                             f'if not {depth}:\n    v.update({{"f" if {kind!r} == "d" else 1: v}}) if {kind!r} in "dk" else v.append(v)\n'
                             f'for _ in range({depth}):\n    v = {{"f": v}} if {kind!r} == "d" else {{1: v}} if {kind!r} == "k" else [v]\nc.{op}({t[0]!r}, v)\n')
                else:
                    rec.trace()
                rec.states.add(('deep', kind, depth, t[0], op, mode))


def jobs(tier):
    depth = 3 if tier == 'thorough' else 2
    out = [('zoo', n, depth) for n in range(len(list(zoo_formats())))]
    out += [('deep', k, n) for k in 'dkl' for n in (0, 1, 2, 3, 5, 8, 12, 50, 100, 200, 400, 900, 1500, 20000)]
    out += [('ch', (), leaf, depth) for leaf in LEAVES]
    out += [('ch', (a,), leaf, depth if tier == 'thorough' else 2 if leaf in ('Int', 'Enm') else 1) for a in CONS for leaf in LEAVES]
    out += [('ch', c, leaf, 1 if leaf == 'Str' or tier != 'thorough' else 2) for c in chains(2) for leaf in ('Str', 'Net') if leaf == 'Str' or tier == 'thorough']
    return out


def run(job, rec):
    if job[0] == 'deep':
        return run_deep(job, rec)
    vals = []
    if job[0] == 'zoo':
        schema = list(zoo_formats())[job[1]]
        names, depth = [t[0] for t in schema['types']] + ['Integer', 'NoSuch', '', 'String'], job[2]
    else:
        schema, root, vals = build(job[1], job[2])
        names, depth = [root], job[3]
    rec.sample({'schema': schema['types'][:2]})
    schema = fresh(schema)
    before = repr(schema)
    pool = trees(depth)
    extra = [x for v in vals[:3] for x in replaced(v)]
    for mode in MODES[::3] if job[0] == 'zoo' and depth < 3 else MODES:
        c = Codec(schema, *mode)
        for t in names:
            wires = []
            for v in vals:
                r, s = call(c.encode, t, copy.deepcopy(v))
                if r == 'ok':
                    wires += list(replaced(s))
            for op, vv in (('encode', pool + extra), ('decode', pool + wires)):
                fn = getattr(c, op)
                for v in vv:
                    b = repr(v)
                    r, got = call(fn, t, v)
                    rec.trans()
                    rec.outcome(r)
                    if r == 'crash' or repr(v) != b:
                        rec.fail(f'{before}|{t}|{op}|{MODE_NAME[mode]}|{b}'[:500],
                                 {'schema': schema, 'type': t, 'mode': MODE_NAME[mode], 'op': op, 'value': b, 'got': [r, repr(got)], 'after': repr(v)},
                                 f'from jadn.codec import Codec\nc = Codec({schema!r}, {mode[0]}, {mode[1]})\nnan, inf = float("nan"), float("inf")\n'
                                 f'class Opaque: pass\nprint(c.{op}({t!r}, {b}))\n')
                    else:
                        rec.trace()
                for n, v in enumerate(vv):
                    rec.states.add(hash((before, t, op, mode, n)))
    if repr(schema) != before:
        rec.fail(f'schema:{before}'[:400], {'what': 'schema modified', 'before': before, 'after': repr(schema)})


if __name__ == '__main__':
    mc.main(globals())

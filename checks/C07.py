"""C07: encode then decode is the identity on accepted values, directly and through JSON text, in all modes, for every
nesting of types."""
import copy
import json
import mc
import wide
from explore import call, same, jsonable, MODES, MODE_NAME, fresh
from compose import build, chains, LEAVES, CONS, RECURSIVE
from jadn.codec import Codec

ID = 'C07'
BOUNDS = ('every chain of 1-3 (quick: 3 over 3 leaves) / 1-4 (thorough) of 16 constructors above each of 11 leaf types, 2-7 '
          'values per type; five recursive schemas with values up to depth 40 (thorough 80); containers of 9-70 fields with ids in six orders; numbers at powers of two and ten and the limits of floating point, one-character texts, networks of every prefix length, binary formats with every byte, in every kind of container; 4 modes; a value is decoded from what was '
          'encoded and from its JSON text')
RULE = 'state = (schema, mode, value); transition = encode, decode or JSON text decode; trace = complete round trip'
ASSUMPTIONS = ['values are in the normal form a decoder returns (arrays without trailing nulls)']
EXPECT_OUTCOMES = ('roundtrip',)


def jobs(tier):
    deep = tier == 'thorough'
    out = [('rec', n, 80 if deep else 40) for n in range(len(RECURSIVE))] + [('extreme', k) for k in range(9)]
    for leaf in LEAVES:
        out += [('ch', (a,), leaf, deep) for a in CONS]
        out += [('ch', (a, b), leaf, deep) for a in CONS for b in CONS]
    for leaf in LEAVES if deep else ('Enm', 'Hex', 'Net'):
        out += [('ch', c, leaf, deep) for c in chains(3)]
    if deep:
        out += [('ch', c, 'Enm', deep) for c in chains(4)]
    out += [('wide', b, o, n, order) for b, o in (('Record', []), ('Array', []), ('Map', []), ('Map', ['='])) for n in wide.SIZES for order in (wide.ORDERS if b == 'Map' else ('asc',))]
    return out


def roundtrip(rec, schema, root, vals, label):
    for mode in MODES:
        c = Codec(fresh(schema), *mode)
        for v in vals:
            rec.state(label, mode, repr(v))
            rec.trans()
            r, s = call(c.encode, root, copy.deepcopy(v))
            why = None
            if r != 'ok':
                why = f'valid value not encoded: {s}'
            else:
                rec.trans()
                r, w = call(c.decode, root, copy.deepcopy(s))
                if r != 'ok' or not same(w, v):
                    why = f'encoded as {s!r}, decoded as {w!r}'
                elif not jsonable(s):
                    why = f'encoded as {s!r}, which is not JSON'
                else:
                    text = json.dumps(s)
                    rec.trans()
                    r, w = call(c.decode, root, json.loads(text))
                    if r != 'ok' or not same(w, v):
                        why = f'JSON text {text}, decoded as {w!r}'
            if why:
                rec.outcome('lost')
                rec.fail(f'{label}|{MODE_NAME[mode]}|{v!r}'[:400], {'schema': schema, 'type': root, 'value': repr(v), 'what': why},
                         f'import json\nfrom jadn.codec import Codec\nc = Codec({schema!r}, {mode[0]}, {mode[1]})\nv = {v!r}\n'
                         f's = c.encode({root!r}, v)\nprint(json.dumps(s))\nassert c.decode({root!r}, s) == v\n'
                         f'assert c.decode({root!r}, json.loads(json.dumps(s))) == v\n')
            else:
                rec.outcome('roundtrip')
                rec.trace()


def extremes(k):
    """Leaf values at the limits of their representation"""
    ints = [s * 2 ** n + d for n in (7, 8, 15, 24, 31, 32, 52, 53, 54, 62, 63, 64, 100) for s in (1, -1) for d in (-1, 0, 1)] + [s * 10 ** n for n in (15, 16, 17, 22, 23, 100, 400) for s in (1, -1)]
    if k == 0:
        return 'Integer', ints + [0, 1, -1]
    if k == 1:
        return 'Number', [x for x in ints if abs(x) < 10 ** 300] + [0, 0.0, 0.1, -0.1, 1 / 3, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e16, 1e22, 123456789.12345678, 0.30000000000000004, 1e-7]
    if k > 2:
        b4 = [bytes(4), b'\xff' * 4, b'\x01\x02\x03\x04', b'\x7f\0\0\x01']
        b6 = [bytes(16), b'\xff' * 16, bytes(15) + b'\1', bytes(10) + b'\xff\xff' + b4[2], bytes(range(16)), b'\xfe\x80' + bytes(14), b'\0\1' * 8, bytes(12) + b4[2], b'\1' + bytes(13) + b'\1\0']
        net = lambda n: [[1, 'a', 'Binary', [f'/ipv{n}-addr'], ''], [2, 'n', 'Integer', [], '']]
        return (('Array', [[a, n] for a in b4 for n in range(33)], ['/ipv4-net'], net(4)), ('Array', [[a, n] for a in b6 for n in range(129)], ['/ipv6-net'], net(6)),
                ('Binary', b6 + [bytes(n) + b'\x12' + bytes(15 - n) for n in range(16)] + [b'\x12' * n + bytes(16 - n) for n in range(16)], ['/ipv6-addr'], []),
                ('Binary', [bytes([a]) + bytes([b]) * n for a in (0, 1, 15, 16, 127, 128, 255) for b in (0, 10, 255) for n in range(4)] + [bytes([n]) for n in range(256)], ['/x'], []),
                ('Binary', [bytes([a]) + bytes([b]) * n for a in (0, 1, 62, 63, 250, 251, 255) for b in (0, 0xef, 255) for n in range(5)] + [bytes([n, 255 - n]) for n in range(256)], [], []),
                ('Binary', [bytes([n]) * k for n in (0, 1, 9, 10, 15, 16, 160, 255) for k in (6, 8)] + [bytes([n] + [0] * 5) for n in range(256)] + [bytes([0] * 7 + [n]) for n in range(256)], ['/eui'], []))[k - 3]
    return 'String', [chr(n) for n in (*range(256), 0x130, 0x131, 0x2028, 0x2029, 0x212a, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff)] + ['a\u0301', '\u00e1', ' a ', '\r\n', '\ufeffa', '1', 'null', 'true', '{}', '"', "\\n"]


def formatted(rec, leaf, vals, opts, fields):
    types = [['T', leaf, opts, '', fields], ['R', 'Record', [], '', [[1, 'a', 'Boolean', ['[0'], ''], [2, 'b', 'T', [], ''], [3, 'c', 'T', ['[0', ']0'], '']]], ['U', 'Choice', ['CX'], '', [[1, 'a', 'Boolean', [], ''], [2, 'b', 'T', [], '']]],
             ['M', 'Map', [], '', [[7, 'a', 'T', [], '']]], ['L', 'ArrayOf', ['*T', '{2', '}2'], '', []], ['C', 'Choice', [], '', [[4, 'a', 'T', [], ''], [1, 'b', 'Boolean', [], '']]]]
    wrap = {'T': lambda v: v, 'R': lambda v: {'b': v, 'c': [v, v]}, 'U': lambda v: v, 'M': lambda v: {'a': v}, 'L': lambda v: [v, v], 'C': lambda v: {'a': v}}
    if leaf == 'Binary':
        types += [['K', 'MapOf', ['+T', '*Integer'], '', []], ['A', 'Array', [], '', [[1, 'a', leaf, opts, ''], [2, 'b', leaf, [*opts, '[0', ']3'], '']]]]
        wrap |= {'K': lambda v: {v: 5}, 'A': lambda v: [v, [v, v, v]]}
    for t, w in wrap.items():
        roundtrip(rec, {'types': types}, t, [w(v) for v in vals], f'formatted {leaf} {opts} in {t}')


def run(job, rec):
    if job[0] == 'extreme':
        leaf, vals, fo, ff = (*extremes(job[1]), [], [])[:4]
        if fo or leaf == 'Binary':
            return formatted(rec, leaf, vals, fo, ff)
        types = [['T', leaf, [], '', []], ['R', 'Record', [], '', [[1, 'a', leaf, [], ''], [2, 'b', 'T', ['[0', ']0'], '']]], ['L', 'ArrayOf', [f'*{leaf}'], '', []],
                 ['C', 'Choice', [], '', [[1, 'a', leaf, [], ''], [2, 'b', 'T', [], '']]], ['U', 'Choice', ['CX'], '', [[1, 'a', 'T', [], ''], [2, 'b', 'Boolean', [], '']]], ['A', 'Array', [], '', [[1, 'a', leaf, [], ''], [2, 'b', 'T', [], '']]]]
        wrap = {'T': lambda v: v, leaf: lambda v: v, 'R': lambda v: {'a': v, 'b': [v, v]}, 'L': lambda v: [v], 'C': lambda v: {'b': v}, 'U': lambda v: v, 'A': lambda v: [v, v]}
        if leaf != 'Number':
            types.append(['M', 'MapOf', [f'+{leaf}', f'*{leaf}'], '', []])
            wrap['M'] = lambda v: {v: v}
        for t, w in wrap.items():
            roundtrip(rec, {'types': types}, t, [w(v) for v in vals], f'extreme {leaf} in {t}')
        return
    if job[0] == 'rec':
        name, schema, fn = RECURSIVE[job[1]]
        roundtrip(rec, schema, 'T', [fn(d) for d in range(job[2] + 1)], name)
        return
    if job[0] == 'wide':
        _, base, opts, n, order = job
        types, names, _, good, req = wide.container(base, opts, n, order, 'none')
        vals = []
        for r in wide.rows(good, req):
            if [None, 1.5] not in r:
                v = [None if x is wide.ABSENT else x for x in r] if base == 'Array' else {k: x for k, x in zip(names, r) if x is not wide.ABSENT}
                while base == 'Array' and v and v[-1] is None:
                    v.pop()
                vals.append(v)
        roundtrip(rec, {'types': types}, 'T', vals, f'{job}')
        return
    _, chain, leaf, deep = job
    schema, root, vals = build(chain, leaf)
    rec.sample({'nesting': chain, 'leaf': leaf, 'values': [repr(v) for v in vals[:2]]})
    roundtrip(rec, schema, root, vals, f'{">".join(chain)}>{leaf}')


if __name__ == '__main__':
    mc.main(globals())

"""Enumeration of nested type expressions with values: every chain of constructors above every leaf type."""
import itertools

LEAVES = {
    'Int': (['Integer', [], []], (0, -5)),
    'Str': (['String', [], []], ('', 'x"é')),
    'Hex': (['Binary', ['/x'], []], (b'', b'\x00\xff')),
    'B64': (['Binary', [], []], (b'\xfb\xff', b'a')),
    'Bool': (['Boolean', [], []], (False, True)),
    'Num': (['Number', [], []], (0.0, -2.5)),
    'Enm': (['Enumerated', [], [[2, 'p', ''], [7, 'q', '']]], ('p', 'q')),
    'EnmId': (['Enumerated', ['='], [[2, 'p', ''], [7, 'q', '']]], (2, 7)),
    'Date': (['Integer', ['/datetime-ms'], []], (0, 1605834522123)),
    'Net': (['Array', ['/ipv4-net'], [[1, 'a', 'Binary', ['/ipv4-addr'], ''], [2, 'l', 'Integer', [], '']]],
            ([b'\x0a\x00\x00\x00', 8], [b'\x01\x02\x03\x04', 32])),
    'Ip6': (['Binary', ['/ipv6-addr'], []], (b'\0' * 15 + b'\1', bytes(range(16)))),
}
EMPTY = object()


def two(vals):
    return vals[0], vals[-1]


# constructor: name -> function(child type name) -> ([base, opts, fields], value function)
CONS = {
    'Rec': lambda c: (['Record', [], [[1, 'f', c, [], ''], [2, 'g', c, ['[0'], '']]],
                      lambda a, b: [{'f': a}, {'f': b, 'g': a}]),
    'RecSkip': lambda c: (['Record', [], [[1, 'o', 'String', ['[0'], ''], [2, 'f', c, ['[0'], ''], [3, 'p', 'Integer', ['[0'], '']]],
                          lambda a, b: [{}, {'f': a}, {'f': b, 'p': 0}, {'o': '', 'f': b}, {'p': 1}]),
    'Map': lambda c: (['Map', [], [[4, 'g', c, ['[0'], ''], [2, 'f', c, [], '']]],
                      lambda a, b: [{'f': a}, {'g': b, 'f': a}]),
    'MapId': lambda c: (['Map', ['='], [[4, 'g', c, ['[0'], ''], [2, 'f', c, [], '']]],
                        lambda a, b: [{'f': a}, {'g': b, 'f': a}]),
    'Arr': lambda c: (['Array', [], [[1, 'o', 'Boolean', ['[0'], ''], [2, 'f', c, ['[0'], ''], [3, 'g', c, ['[0'], '']]],
                      lambda a, b: [[], [None, a], [True, b, a], [None, None, b]]),
    'Ch': lambda c: (['Choice', [], [[3, 'f', c, [], ''], [1, 'g', c, [], '']]],
                     lambda a, b: [{'f': a}, {'g': b}]),
    'ChId': lambda c: (['Choice', ['='], [[3, 'f', c, [], ''], [1, 'g', c, [], '']]],
                       lambda a, b: [{3: a}, {1: b}]),
    'Lst': lambda c: (['ArrayOf', ['*' + c], []], lambda a, b: [[], [a], [b, a, b]]),
    'MpS': lambda c: (['MapOf', ['+String', '*' + c], []], lambda a, b: [{}, {'k': a, '': b}]),
    'MpI': lambda c: (['MapOf', ['+Integer', '*' + c], []], lambda a, b: [{}, {-1: a, 20: b}]),
    'MpE': lambda c: (['MapOf', ['+KEnum', '*' + c], []], lambda a, b: [{'u': a, 'v': b}]),
    'MpH': lambda c: (['MapOf', ['+KHex', '*' + c], []], lambda a, b: [{b'': a, b'\x01': b}]),
    'Mul': lambda c: (['Record', [], [[1, 'f', c, ['[0', ']0'], ''], [2, 'g', c, [']3'], '']]],
                      lambda a, b: [{'g': [a]}, {'f': [a, b], 'g': [b, b]}]),
    'Anon': lambda c: (['Map', [], [[1, 'f', 'ArrayOf', ['*' + c], ''], [2, 'g', 'MapOf', ['+Integer', '*' + c, '[0'], '']]],
                       lambda a, b: [{'f': [a, b]}, {'f': [], 'g': {3: b}}]),
    'Tag': lambda c: (['Record', [], [[1, 'f', 'TCh' + c, ['&2'], ''], [2, 't', 'Enumerated', ['#TCh' + c], '']]],
                      lambda a, b: [{'f': a, 't': 'x'}, {'f': 5, 't': 'y'}, {'f': b, 't': 'x'}]),
    'Key': lambda c: (['Record', [], [[1, 'id', 'String', ['K'], ''], [2, 'f', c, [], ''], [3, 'up', None, ['L', '[0'], '']]],
                      lambda a, b: [{'id': 'i', 'f': a}, {'id': '', 'f': b, 'up': 'i'}]),
}
AUX = [['KEnum', 'Enumerated', [], '', [[5, 'u', ''], [3, 'v', '']]], ['KHex', 'Binary', ['/x'], '', []]]


def build(chain, leaf):
    """chain: constructor names from the outside in.  -> (schema, root type, values)"""
    d, vals = LEAVES[leaf]
    types = [['T0', d[0], d[1], '', d[2]]]
    vals = list(vals)
    for n, cn in enumerate(reversed(chain), 1):
        c, name = f'T{n - 1}', f'T{n}'
        (base, opts, fields), fn = CONS[cn](c)
        fields = [[f[0], f[1], name if f[2] is None else f[2], f[3], f[4]] for f in fields]
        if cn == 'Tag':
            types.append(['TCh' + c, 'Choice', [], '', [[4, 'x', c, [], ''], [9, 'y', 'Integer', [], '']]])
        types.append([name, base, opts, '', fields])
        nv = fn(vals[0], vals[-1])
        if len(vals) > 2:
            nv += fn(vals[1], vals[len(vals) // 2])[-1:]
        vals = nv
    return {'types': types[::-1] + AUX}, f'T{len(chain)}', vals


def chains(depth):
    return itertools.product(CONS, repeat=depth)


RECURSIVE = [
    ('list', {'types': [['T', 'Record', [], '', [[1, 'v', 'Integer', [], ''], [2, 'n', 'T', ['[0'], '']]]]},
     lambda d: {'v': d} if d == 0 else {'v': d, 'n': RECURSIVE[0][2](d - 1)}),
    ('tree', {'types': [['T', 'ArrayOf', ['*T'], '', []]]}, lambda d: [] if d == 0 else [RECURSIVE[1][2](d - 1), []]),
    ('choice', {'types': [['T', 'Choice', [], '', [[2, 'leaf', 'Boolean', [], ''], [5, 'pair', 'P', [], '']]],
                          ['P', 'Array', [], '', [[1, 'l', 'T', [], ''], [2, 'r', 'T', ['[0'], '']]]]},
     lambda d: {'leaf': True} if d == 0 else {'pair': [RECURSIVE[2][2](d - 1), {'leaf': False}] if d % 2 else [RECURSIVE[2][2](d - 1)]}),
    ('dir', {'types': [['T', 'Map', ['='], '', [[3, 'name', 'String', [], ''], [1, 'sub', 'T', ['[0', ']0'], '']]]]},
     lambda d: {'name': 'n'} if d == 0 else {'name': '', 'sub': [RECURSIVE[3][2](d - 1), {'name': 'x'}]}),
    ('mutual', {'types': [['T', 'MapOf', ['+Integer', '*U'], '', []], ['U', 'Record', [], '', [[1, 'a', 'T', ['[0'], ''], [2, 'b', 'String', ['[0'], '']]]]},
     lambda d: {} if d == 0 else {d: {'a': RECURSIVE[4][2](d - 1)}, -d: {'b': 'q'}, 100: {}}),
]

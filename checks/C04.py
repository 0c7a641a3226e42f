"""C04: untagged unions: anyOf encodes/decodes by the first matching alternative, allOf requires all, oneOf exactly one."""
import itertools
import mc
from explore import Explorer, MODES, JUNK

ID = 'C04'
BOUNDS = ('every ordered selection of 1-3 alternatives (4 in thorough) out of 13 overlapping types x anyOf/allOf/oneOf, '
          'every value of a 40-value pool, 4 modes, encode and decode; as a type, a field, an element, nested union')
RULE = 'as C01'
ASSUMPTIONS = ['allOf / oneOf unions whose alternatives give different representations of one value are not judged']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej')
TYPES = [['I', 'Integer', ['{0', '}5'], '', []], ['J', 'Integer', ['{3'], '', []], ['N', 'Number', ['z2.5'], '', []],
         ['S', 'String', ['{1', '}2'], '', []], ['P', 'String', ['%^a*$'], '', []], ['X', 'Binary', ['/x', '}2'], '', []],
         ['E', 'Enumerated', [], '', [[1, 'a', ''], [4, 'b', '']]], ['EI', 'Enumerated', ['='], '', [[1, 'a', ''], [4, 'b', '']]],
         ['R', 'Record', [], '', [[1, 'u', 'Integer', [], ''], [2, 'v', 'I', ['[0'], '']]],
         ['M', 'Map', [], '', [[1, 'u', 'Integer', [], ''], [3, 'w', 'String', ['[0'], '']]],
         ['L', 'ArrayOf', ['*I', '}2', 'q'], '', []], ['A', 'Array', [], '', [[1, 'x', 'Integer', [], ''], [2, 'y', 'J', ['[0'], '']]],
         ['O', 'MapOf', ['+String', '*Integer'], '', []], ['B', 'Boolean', [], '', []]]
ALTS = [t[0] for t in TYPES]
VALUES = (0, 1, 3, 4, 5, 6, -1, 2.5, 2.75, 1.0, 'a', 'b', 'aa', 'aaa', '', 'zz', 'u', b'', b'a', b'abc', True, False, None, [], [1],
          [1, 1], [1, 2], [3, 4], [9, 4], [9, 2], ['a'], {}, {'u': 1}, {'u': 1, 'v': 2}, {'u': 1, 'v': 9}, {'u': 1, 'w': 'q'},
          {'k': 1}, {1: 1}, {'1': 1}, {'u': 'a'}, {'u': None})
WIRES = ('61', '0a', '6162', [1, 2], [1, 9], [1, None], {1: 1}, {'1': 1}, {1: 1, 3: 'q'}, {3: 'q'})


def jobs(tier):
    n = 4 if tier == 'thorough' else 3
    out = []
    for k in range(1, n + 1):
        for a in itertools.permutations(range(len(ALTS)), k):
            if k < 3 or (k == 3 and (tier == 'thorough' or len({x % 5 for x in a}) > 1)) or (k == 4 and a[0] < a[1] and a[2] < a[3]):
                out.append(a)
    size = 24
    return [(out[i:i + size], tier == 'thorough') for i in range(0, len(out), size)]


def run(job, rec):
    sels, deep = job
    for sel in sels:
        for comb in 'OAX':
            alts = [ALTS[i] for i in sel]
            u = ['U', 'Choice', ['C' + comb], '', [[n, f'f{n}', a, [], ''] for n, a in enumerate(alts, 1)]]
            types = [u] + TYPES
            few = len(sel) < 3
            if few:
                types = types + [['Rec', 'Record', [], '', [[1, 'f', 'U', [], ''], [2, 'g', 'U', ['[0', ']2'], '']]],
                                 ['Lst', 'ArrayOf', ['*U'], '', []],
                                 ['UU', 'Choice', ['CO'], '', [[1, 'p', 'U', [], ''], [2, 'q', 'Integer', [], '']]],
                                 ['UX', 'Choice', ['CX'], '', [[1, 'p', 'U', [], ''], [2, 'q', 'String', ['}1'], '']]]]
            modes = MODES if few or deep else MODES[::3]
            e = Explorer(rec, {'types': types}, f'{comb}:{",".join(alts)}', modes)
            e.explore('U', VALUES, VALUES + WIRES, junk=[], mutate=few and deep)
            if few:
                e.explore('Rec', [{'f': v} for v in VALUES] + [{'f': 1, 'g': [v, v]} for v in VALUES], [], junk=[], mutate=False)
                e.explore('Lst', [[v] for v in VALUES], [], junk=[], mutate=False)
                e.explore('UU', VALUES, VALUES, junk=[], mutate=False)
                e.explore('UX', VALUES, VALUES, junk=[], mutate=False)
            rec.sample({'combine': comb, 'alternatives': alts})


if __name__ == '__main__':
    mc.main(globals())

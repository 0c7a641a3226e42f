"""Schema fragments that use every JADN extension, with values, to be combined into schemas."""
from explore import fresh

BASE = [
    ['P', 'Record', [], 'point', [[1, 'x', 'Integer', [], 'ex'], [2, 'y', 'Q', ['[0', '<'], ''], [3, 'z', 'String', ['[0'], 'zed']]],
    ['Q', 'Map', ['='], '', [[4, 'u', 'Boolean', [], ''], [2, 'v', 'W', ['<', '[0'], ''], [7, 'w', 'E', ['<', '[0'], '']]],
    ['W', 'Array', [], '', [[1, 'm', 'String', [], 'em'], [2, 'n', 'Integer', ['[0'], '']]],
    ['S', 'Choice', [], '', [[3, 'a', 'Integer', [], 'ay'], [1, 'b', 'String', [], ''], [9, 'c', 'E', [], '']]],
    ['E', 'Enumerated', [], '', [[5, 'r', 'red'], [0, 'g', ''], [2, 'b', '']]],
    ['J', 'Enumerated', ['='], '', [[5, 'r', ''], [6, 'g', '']]],
]
P1 = {'x': 1, 'z': 'q'}
# name: (types, root, values)
FRAG = {
    # Multiplicity
    'mul': ([['A1', 'Record', [], '', [[1, 'f', 'String', ['[0', ']0'], 'd'], [2, 'g', 'P', [']2'], '']]]], {'A1': [{'g': [P1]}, {'f': ['a', ''], 'g': [P1, P1]}]}),
    'mulu': ([['A2', 'Map', ['='], '', [[3, 'f', 'Integer', ['[2', ']3', 'q'], ''], [1, 'g', 'E', ['[0', ']2', 'q'], 'e']]]], {'A2': [{'f': [1, 2]}, {'f': [1, 2, 3], 'g': ['r', 'g']}]}),
    'mulopt': ([['A3', 'Array', [], '', [[1, 'f', 'String', ['{1', '}2', '[0', ']0'], ''], [2, 'g', 'Integer', ['{0', '}9', ']3'], '']]]], {'A3': [[None, [0]], [['a', 'bb'], [9, 9]]]}),
    'mulbin': ([['A4', 'Choice', [], '', [[1, 'f', 'Binary', ['/x', ']2'], ''], [4, 'g', 'Number', ['y0', 'z1.5', '[2', ']0'], '']]]], {'A4': [{'f': [b'\x01']}, {'g': [0.5, 1]}]}),
    # Anonymous types
    'anon': ([['B1', 'Record', [], '', [[1, 'f', 'String', ['{2', '}3'], ''], [2, 'g', 'Integer', ['{1', '}5', '[0'], ''], [3, 'h', 'String', ['%^a+$', '[0'], 'pat']]]],
             {'B1': [{'f': 'ab'}, {'f': 'abc', 'g': 5, 'h': 'aa'}]}),
    'anoncont': ([['B2', 'Map', [], '', [[2, 'f', 'ArrayOf', ['*P', '{1'], ''], [1, 'g', 'MapOf', ['+String', '*E', '[0', '}2'], '']]]],
                 {'B2': [{'f': [P1]}, {'f': [P1, {'x': 0}], 'g': {'k': 'r', 'l': 'b'}}]}),
    'anonfmt': ([['B3', 'Array', [], '', [[1, 'f', 'Binary', ['/ipv4-addr'], ''], [2, 'g', 'Integer', ['/datetime-ms', '[0'], ''], [3, 'h', 'Binary', ['{1', '}2', '[0'], '']]]],
                {'B3': [[b'\1\2\3\4'], [b'\1\2\3\4', 86400000], [b'\1\2\3\4', None, b'ab']]}),
    'anonset': ([['B4', 'Record', [], '', [[1, 'f', 'ArrayOf', ['*Integer', 's', '[0'], ''], [2, 'g', 'ArrayOf', ['*E', 'q', '[0', ']2'], ''], [3, 'h', 'MapOf', ['+J', '*Integer', '[0'], '']]]],
                {'B4': [{'f': [1, 2]}, {'g': [['r'], ['g']]}, {'f': [], 'g': [['b', 'r']]}]}),
    # Derived enumerations
    'enum': ([['C1', 'Enumerated', ['#P'], 'fields', []], ['C2', 'Enumerated', ['#S', '='], '', []], ['C3', 'ArrayOf', ['*C1'], '', []], ['C4', 'MapOf', ['+C2', '*String'], '', []]],
             {'C1': ['x', 'z'], 'C2': [3, 9], 'C3': [['x', 'y']], 'C4': [{'a': 'p', 'b': '', 'c': 'r'}]}),
    'enumref': ([['D1', 'ArrayOf', ['*#P'], '', []], ['D2', 'MapOf', ['+#S', '*Integer'], '', []], ['D3', 'MapOf', ['+String', '*#P'], '', []]],
                {'D1': [['x', 'z'], []], 'D2': [{'a': 1, 'b': 2, 'c': 3}], 'D3': [{'k': 'y'}]}),
    'enumfld': ([['F1', 'Record', [], '', [[1, 'f', 'Enumerated', ['#P'], 'dd'], [2, 'g', 'Enumerated', ['#P', '=', '[0'], ''], [3, 'h', 'Enumerated', ['#E', '[0', ']2'], '']]]],
                {'F1': [{'f': 'x'}, {'f': 'y', 'g': 2, 'h': ['r', 'b']}]}),
    'enume': ([['G1', 'Enumerated', ['#C9'], '', []], ['C9', 'Enumerated', ['#Q'], '', []], ['G2', 'ArrayOf', ['*#C9'], '', []], ['G3', 'MapOf', ['+#E', '*#J'], '', []]],
              {'G1': ['u', 'w'], 'C9': ['v'], 'G2': [['u', 'v']], 'G3': [{'r': 'g', 'g': 'r', 'b': 'g'}]}),
    'ptr': ([['H1', 'Enumerated', ['>P'], '', []], ['H2', 'Enumerated', ['>Q', '='], '', []], ['H3', 'ArrayOf', ['*H1'], '', []]], {'H1': ['x', 'y/u', 'y/v/m'], 'H2': [1, 2, 3], 'H3': [['z', 'y/v/n']]}),
    'ptrref': ([['I1', 'ArrayOf', ['*>P'], '', []], ['I2', 'MapOf', ['+>Q', '*Boolean'], '', []], ['I3', 'Choice', [], '', [[1, 'f', 'Enumerated', ['>Q'], ''], [2, 'g', 'Enumerated', ['>W', '='], '']]]],
               {'I1': [['x'], ['y/v/n', 'y/u']], 'I2': [{'u': True, 'v/m': False, 'v/n': True}], 'I3': [{'f': 'v/m'}, {'g': 1}]}),
    # MapOf enumerated keys
    'moe': ([['K1', 'MapOf', ['+E', '*P'], 'moe', []], ['K2', 'MapOf', ['+J', '*K1'], '', []]], {'K1': [{'r': P1, 'g': P1, 'b': {'x': 3}}], 'K2': [{'r': {'r': P1, 'g': P1, 'b': P1}, 'g': {'r': P1, 'g': P1, 'b': P1}}]}),
    'moea': ([['K3', 'Record', [], '', [[1, 'f', 'MapOf', ['+E', '*String', '[0'], ''], [2, 'g', 'MapOf', ['+#P', '*Integer', '[0'], '']]]],
             {'K3': [{}, {'f': {'r': '', 'g': 'a', 'b': 'b'}}, {'g': {'x': 1, 'y': 2, 'z': 3}}]}),
    # Key and link
    'key': ([['L1', 'Record', [], '', [[1, 'id', 'Integer', ['K'], ''], [2, 'up', 'L1', ['L', '[0'], '']]], ['L2', 'Record', [], '', [[1, 'r', 'L1', ['L'], ''], [2, 's', 'L3', ['L', '[0', ']0'], '']]],
             ['L3', 'Map', [], '', [[1, 'k', 'String', ['K', '{2', '}4'], 'kk'], [2, 'l', 'L1', ['L', ']2'], '']]]],
            {'L1': [{'id': 1}, {'id': 1, 'up': 2}], 'L2': [{'r': 5}, {'r': 5, 's': ['ab', 'abcd']}], 'L3': [{'k': 'ab', 'l': [1, 2]}]}),
    'keyref': ([['M0', 'String', ['{3'], '', []], ['M1', 'Record', [], '', [[1, 'a', 'M2', ['L', '[0'], ''], [2, 'b', 'M3', ['L', '[0'], '']]], ['M2', 'Record', [], '', [[1, 'k', 'M0', ['K'], '']]],
                ['M3', 'MapOf', ['+M0', '*M2'], '', []]], {'M1': [{}, {'a': 'abc'}, {'b': 'xyz'}], 'M2': [{'k': 'abc'}], 'M3': [{'abc': {'k': 'abc'}}]}),
    'keyenum': ([['N1', 'Record', [], '', [[1, 'k', 'Enumerated', ['K', '#E'], ''], [2, 'l', 'N1', ['L', '[0'], '']]]], {'N1': [{'k': 'r'}, {'k': 'b', 'l': 'g'}]}),
    # nothing to unfold; tag ids
    'plain': ([['R1', 'Record', ['{1', 'o'], 'keep', [[1, 'f', 'S', ['&2', '[0'], 'tagged'], [2, 't', 'Enumerated', ['#S', '[0'], '']]], ['R2', 'ArrayOf', ['*R1', 'q', '{1', '}3'], '', []],
               ['R3', 'Choice', ['CX'], '', [[1, 'f', 'E', [], ''], [2, 'g', 'Integer', ['{1', '}3'], '']]]],
              {'R1': [{'f': 5, 't': 'a'}, {'t': 'b'}], 'R2': [[{'t': 'b'}]], 'R3': ['r', 2]}),
}
SETTYPES = sorted(FRAG)


def combine(names, info=None):
    """-> (schema, {root type: values}); fragments in the given order, base types last"""
    types, vals = [], {}
    for n in names:
        types += FRAG[n][0]
        vals.update(FRAG[n][1])
    return fresh({**({'info': info} if info else {}), 'types': types + BASE}), vals

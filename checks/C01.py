"""C01: primitive value constraints are enforced exactly, in every context where a type can be used, in both directions
and in every serialization mode."""
import itertools
import math
import mc
from explore import Explorer, words, subsets

ID = 'C01'
BOUNDS = ('Boolean, Integer, Number, String, Binary with every pair of bounds from small sets, patterns, configured and '
          'default maximum sizes; contexts: type, bare field, anonymous field, referenced field, multi-valued field, '
          'ArrayOf, MapOf value and key, Array element, Choice alternative, union alternative, nested two levels; '
          'all values within two of every bound plus every kind of wrong type; 4 modes, encode and decode')
RULE = ('state = (schema, type, mode, direction, value); transition = encode or decode call compared with the model; '
        'trace = encode, decode and JSON text decode of an accepted value all agreeing')
ASSUMPTIONS = ['NaN and infinities are judged for types with a minimum or maximum only', 'size bounds of 0 (no maximum) excluded for String and Binary',
               'patterns are anchored']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej')

TEXTKEY = ('String', 'Integer')


def contexts(base, opts):
    """Schema using the primitive in every context, and a function per type wrapping a value"""
    types = [['P', base, opts, '', []],
             ['Ref', 'Record', [], '', [[1, 'f', 'P', [], ''], [2, 'g', 'P', ['[0'], '']]],
             ['Anon', 'Map', [], '', [[3, 'f', base, opts, '']]],
             ['AnonId', 'Map', ['='], '', [[3, 'f', base, opts + ['[0'], '']]],
             ['Multi', 'Record', [], '', [[1, 'f', 'P', ['[0', ']3'], '']]],
             ['MultiA', 'Record', [], '', [[1, 'f', base, opts + [']0'], '']]],
             ['List', 'ArrayOf', ['*P'], '', []],
             ['Dict', 'MapOf', ['+String', '*P'], '', []],
             ['Arr', 'Array', [], '', [[1, 'x', 'P', ['[0'], ''], [2, 'y', base, opts, '']]],
             ['Ch', 'Choice', [], '', [[1, 'a', 'P', [], ''], [2, 'b', base, opts, '']]],
             ['ChId', 'Choice', ['='], '', [[1, 'a', 'P', [], '']]],
             ['Un', 'Choice', ['CO'], '', [[1, 'a', 'Boolean', [], ''], [2, 'b', 'P', [], '']]],
             ['All', 'Choice', ['CA'], '', [[1, 'a', 'P', [], ''], [2, 'b', base, [], '']]],
             ['Deep', 'Record', [], '', [[1, 'r', 'Ref', [], ''], [2, 'l', 'List', ['[0'], '']]]]
    wrap = {'P': lambda v: v, 'Ref': lambda v: {'f': v}, 'Anon': lambda v: {'f': v}, 'AnonId': lambda v: {'f': v},
            'Multi': lambda v: {'f': [v, v]}, 'MultiA': lambda v: {'f': [v]}, 'List': lambda v: [v, v, v],
            'Dict': lambda v: {'k': v}, 'Arr': lambda v: [v, v], 'Ch': lambda v: {'b': v}, 'ChId': lambda v: {1: v},
            'Un': lambda v: v, 'All': lambda v: v, 'Deep': lambda v: {'r': {'f': v, 'g': v}, 'l': [v]}}
    if base in TEXTKEY:
        types.append(['Key', 'MapOf', ['+P', '*P'], '', []])
        wrap['Key'] = lambda v: {v: v}
    if not opts:
        types.append(['Bare', 'Record', [], '', [[1, 'f', base, [], ''], [2, 'g', base, ['[0', ']0'], '']]])
        types.append(['BareL', 'ArrayOf', ['*' + base], '', []])
        wrap['Bare'] = lambda v: {'f': v, 'g': [v]}
        wrap['BareL'] = lambda v: [v]
    return types, wrap


def ranges(vals, lo, hi):
    for a in vals:
        for b in vals:
            if a is None or b is None or a <= b:
                yield ([f'{lo}{a}'] if a is not None else []) + ([f'{hi}{b}'] if b is not None else [])


def jobs(tier):
    out = [('Boolean', [], None)]
    deep = tier == 'thorough'
    out += [('Integer', o, None) for o in ranges((None, -2, 0, 1, 3) + ((-10 ** 20, 10 ** 20, 2 ** 31) if deep else ()), '{', '}')]
    out += [('Integer', o + ['/i8'], None) for o in ranges((None, -200, 0, 127), '{', '}')]
    out += [('Number', o, None) for o in ranges((None, -1.5, 0.0, 2.0, 2.25) + ((1e300, -1e-9) if deep else ()), 'y', 'z')]
    for a in (2 ** 31, 2 ** 53, 2 ** 63 - 1, 2 ** 64, 10 ** 25):
        out += [('Integer', o, None) for b in (a, -a) for o in ([f'{{{b}'], [f'}}{b}'], [f'{{{b}', f'}}{b}'])]
        out += [('Number', o, None) for b in (float(a), -float(a)) for o in ([f'y{b}'], [f'z{b}'])]
    sizes = (None, 1, 2, 3) + ((4, 5) if deep else ())
    for base in ('String', 'Binary'):
        for cfg in (None, 2, 3) + ((1, 5) if deep else ()):
            out += [(base, o, cfg) for o in ranges(sizes, '{', '}') if cfg is None or len(o) < 2]
        out += [(base, o, None) for o in ([], ['{254'], ['}254'], ['}255'], ['}256'], ['}257'], ['{256', '}300'])]
    pats = ('^a*$', '^[ab]{1,2}$', '^$', '^(a|bb)$', '^a.b$', '^\\w+$', '^[^a]+$', '^a?b?$', '^[a$]+$', '^a\\\\$$', '^(a$|b)')
    if deep:
        pats += ('^(ab)*$', '^a{2,3}$', '^(?!a)b*$', '^[a-b]a*[a-b]$')
    out += [('String', ['%' + p], None) for p in pats]
    out += [('String', ['%$FieldName'], None), ('String', ['%$TypeName'], None)]
    seen, res = set(), []
    for j in out:
        if repr(j) not in seen:
            seen.add(repr(j))
            res.append(j + (deep,))
    return res


def values(base, opts, cfg, deep):
    if base == 'Boolean':
        return [True, False]
    if base == 'Integer':
        v = set(range(-4, 6)) | {10 ** 20, -10 ** 20, 2 ** 63}
        for o in opts:
            if o[0] in '{}':
                v |= {int(o[1:]) + d for d in (-1, 0, 1)}
        return sorted(v | {-129, -128, 127, 128})
    if base == 'Number':
        v = {-2, -1.5, -1, -0.5, 0, 0.0, 0.25, 1, 1.75, 2, 2.0, 2.25, 2.5, 3, 1e10, -1e10}
        for o in opts:
            x = float(o[1:])
            v |= {x + d for d in (-1, -1e-9, 0, 1e-9, 1)} | {math.nextafter(x, -math.inf), math.nextafter(x, math.inf), int(x) - 1, int(x) + 1}
        return sorted(v) + [float('inf'), -float('inf'), float('nan')]
    if base == 'String':
        if opts and opts[0][0] == '%':
            return list(words('ab', 0, 4 if deep else 3)) + (['é'] if '\\w' not in opts[0] else []) + ['a\n', 'aa\n', 'a\n\n', '\n', 'a\r', '\na', 'axb', 'a' * 64, 'A', 'A' * 64, 'A' * 65, 'aA', '$', '']
        n = {0, 1, 2, 3, 4, 5, 254, 255, 256, 257}
        for o in opts:
            n |= {int(o[1:]) + d for d in (-1, 0, 1)}
        return [c * k for k in sorted(n) for c in (('a', '\U0001f600', 'é') if k < 6 else 'a')]
    n = {0, 1, 2, 3, 4, 5, 254, 255, 256, 257}
    for o in opts:
        n |= {int(o[1:]) + d for d in (-1, 0, 1)}
    return [c * k for k in sorted(n) for c in ((b'a', b'\xff') if k < 6 else (b'a',))]


def run(job, rec):
    base, opts, cfg, deep = job
    types, wrap = contexts(base, opts)
    schema = {'types': types}
    if cfg is not None:
        schema = {'info': {'package': 'x', 'config': {'$Max' + base: cfg}}, 'types': types}
    e = Explorer(rec, schema, f'{base}{opts}{cfg}')
    vals = values(base, opts, cfg, deep)
    wrong = [None, True, 1, 0, 1.5, 'a', b'a', [], {}, [1], '1', 1.0]
    rec.sample({'base': base, 'options': opts, 'config': cfg, 'values': len(vals)})
    for tname, w in wrap.items():
        top = tname == 'P'
        vv = []
        for v in vals + wrong:
            try:
                vv.append(w(v))
            except TypeError:
                pass            # unhashable as a key
        e.explore(tname, vv, junk=wrong if top or deep else [], mutate=top or deep)


if __name__ == '__main__':
    mc.main(globals())

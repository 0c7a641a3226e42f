"""C19: canonicalize preserves the meaning of a schema and gives every spelling of it the same form."""
import copy
import itertools
import mc
import gen
import wf
from explore import call, same
import jadn

ID = 'C19'
BOUNDS = ('the enumerated schemas of C16 (all option sets of all base types and fields); for each, all permutations of the options of each type '
          'and field (up to 4 options; rotations and reversal above), and every spelling of the defaults (minimum size 0, multiplicity 1, numbers with '
          'redundant digits); all well-formed sets of up to 3-5 of 28 options of every base type and of every field type in every container')
RULE = 'state = (schema, spelling); transition = canonicalize; trace = schema all of whose spellings have one canonical form with the same meaning'
ASSUMPTIONS = ['schemas with five columns per type, as returned by check']
EXPECT_OUTCOMES = ('same',)
SIZED = ('Binary', 'String', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')


def jobs(tier):
    return gen.jobs(tier == 'thorough', ['types', 'fields:Record', 'fields:Map', 'fields:Choice', 'fields:Array', 'numbers', 'combos', 'names', 'refs', 'infos', 'wide']) + [('pairs', b) for b in wf.ALLOWED] + [('fpairs', c, ft) for c in ('Record', 'Choice', 'Array', 'Map') for ft in (*wf.ALLOWED, 'T0')]


def perms(o):
    if len(o) < 2:
        return [list(o)]
    if len(o) <= 4:
        return [list(p) for p in itertools.permutations(o)]
    return [o[n:] + o[:n] for n in range(len(o))] + [o[::-1]]


def spellings(base, o, field):
    """Other spellings of the same options"""
    out = perms(o)
    have = {x[0] for x in o}
    if base in SIZED and '{' not in have and '%' not in have:
        out += [['{0'] + o, o + ['{0']]
    if field:
        if '[' not in have:
            out += [o + ['[1'], ['[1'] + o]
        if ']' not in have:
            out += [o + [']1'], ['[1', ']1'] + o] if '[' not in have else [[']1'] + o]
    for n, x in enumerate(o):
        if x[0] in 'yz':
            for y in {f'{x[0]}{float(x[1:])!r}', f'{x[0]}{float(x[1:]):.17g}', x[0] + x[1:].replace('.0', '') if x.endswith('.0') else x, x + '0' if '.' in x and 'e' not in x else x}:
                if float(y[1:]) == float(x[1:]):
                    out.append(o[:n] + [y] + o[n + 1:])
    return out


def variants(s):
    for n, t in enumerate(s['types']):
        for o in spellings(t[1], t[2], False):
            v = copy.deepcopy(s)
            v['types'][n][2] = o
            yield v
        if t[1] != 'Enumerated':
            for k, f in enumerate(t[4]):
                if n and k:
                    continue
                for o in spellings(f[2], f[3], True):
                    v = copy.deepcopy(s)
                    v['types'][n][4][k][3] = o
                    yield v


ONE = ['=', '*T0', '*#T0', '+String', '#T0', '>T0', '/email', '/b', '/i8', '/f16', '/ipv4-net', '%^a$', 'y0.5', 'z2.0', '{1', '}5', 'q', 's', 'b', 'o', 'CO', 'X', '[0', ']3', '&2', '<', 'K', 'L']


def allowed(job):
    """All well-formed sets of up to 3 options (4 for lists) of a type or field"""
    for n in range(1, 6):
        for o in itertools.combinations(ONE, n):
            if len({x[0] for x in o}) < n:
                continue
            if n > 3 and job[-1] not in ('ArrayOf', 'MapOf') and not (n == 4 and job[0] == 'fpairs'):
                continue
            t0 = ['T0', 'Record', [], '', [[1, 'z', 'String', [], '']]]
            s = {'types': [['A', job[1], list(o), '', []], t0] if job[0] == 'pairs' else [['A', job[1], [], '', [[1, 'f', job[2], list(o), ''], [2, 'g', 'T0', [], '']]], t0]}
            if wf.ok(copy.deepcopy(s)) is True:
                yield s


def run(job, rec):
    fam = job[1] if job[0] == 'gen' else 'types'
    for n, s in enumerate(gen.schemas(job) if job[0] == 'gen' else allowed(job)):
        if n == 1:
            rec.sample(s)
        if fam in ('types',) or fam.startswith('fields'):
            s = {'types': s['types'][:1]}       # only the first type varies
        r, base = call(jadn.canonicalize, copy.deepcopy(s))
        good = True
        for v in itertools.chain([s], variants(s)):
            rec.states.add(hash(repr(v)))
            rec.trans()
            arg = copy.deepcopy(v)
            r, c = call(jadn.canonicalize, arg)
            why = None
            if r != 'ok':
                why = 'not canonicalized'
            elif not same(arg, v):
                why = 'argument modified'
            elif not same(c, base):
                why = f'canonical form differs from that of the other spelling, {base!r}'
            elif not same(gen.meaning(c), gen.meaning(v)):
                why = 'meaning changed'
            elif not same(jadn.canonicalize(copy.deepcopy(c)), c):
                why = 'not idempotent'
            if why:
                rec.outcome('differ')
                good = False
                rec.fail(f'{v!r}'[:500], {'schema': v, 'canonical': c, 'what': why[:1000]}, f'import jadn\nprint(jadn.canonicalize({v!r}))\nprint(jadn.canonicalize({s!r}))\n')
                break
            rec.outcome('same')
        if good:
            rec.trace()


if __name__ == '__main__':
    mc.main(globals())

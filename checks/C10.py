"""C10: the result of encode/decode depends only on schema, mode and argument: never on what the codec (or another codec
on the same schema) did before, what was rejected, or what the caller did with earlier results."""
import copy
import itertools
import mc
from explore import call, model, same, MODES, MODE_NAME, fresh
from ref import Model
from jadn.codec import Codec
import jadn

ID = 'C10'
BOUNDS = ('two codecs on one schema object (different configured limits and modes); every sequence of up to 3 operations '
          '(thorough: 4) out of 46: set_mode x4 on either codec, accepted and rejected encode/decode calls of every type '
          'class on either codec, caller mutation of the last argument and result, unfold_extensions, check, construction of '
          'further codecs; every operation of a longer list 1100 times (those that take long 73 times), each followed by probes, '
          'in thorough every pair of them 150 times (10 times); after every sequence a battery of probes on both codecs is compared with the model')
RULE = 'state = history; transition = operation compared with the model; trace = history with all operations and probes agreeing'
ASSUMPTIONS = ['the caller does not modify the schema object or internal tables of a codec']
EXPECT_OUTCOMES = ('ok', 'rej')
SCHEMA = {'info': {'package': 'http://x/p', 'config': {'$MaxString': 5, '$MaxElements': 3}}, 'types': [
    ['R', 'Record', [], '', [[1, 'a', 'S', [], ''], [2, 'b', 'E', ['[0'], ''], [3, 'c', 'Integer', ['[0', ']0'], ''], [4, 'd', 'Ch', ['[0'], '']]],
    ['M', 'Map', [], '', [[7, 'p', 'R', ['[0'], ''], [5, 'q', 'X', ['[0'], '']]], ['MI', 'Map', ['='], '', [[7, 'p', 'E', ['[0'], '']]],
    ['S', 'String', ['{1'], '', []], ['X', 'Binary', ['/x'], '', []], ['E', 'Enumerated', [], '', [[1, 'r', ''], [3, 'g', '']]],
    ['Ch', 'Choice', [], '', [[2, 'i', 'Integer', ['{0', '}9'], ''], [4, 'l', 'L', [], '']]], ['L', 'ArrayOf', ['*E', 'q'], '', []],
    ['U', 'Choice', ['CO'], '', [[1, 'x', 'Integer', [], ''], [2, 'y', 'E', [], '']]],
    ['T', 'Record', [], '', [[1, 'k', 'Enumerated', ['#Ch'], ''], [2, 'v', 'Ch', ['&1'], '']]],
    ['A', 'Array', [], '', [[1, 'u', 'E', ['[0'], ''], [2, 'w', 'R', ['[0'], '']]],
    ['K', 'MapOf', ['+E', '*Integer'], '', []], ['D', 'Integer', ['/datetime-ms'], '', []],
    ['N', 'Array', ['/ipv4-net'], '', [[1, 'a', 'Binary', ['/ipv4-addr'], ''], [2, 'n', 'Integer', [], '']]], ['N6', 'Array', ['/ipv6-net'], '', [[1, 'a', 'Binary', ['/ipv6-addr'], ''], [2, 'n', 'Integer', [], '']]],
    ['Tu', 'Array', ['/tag-uuid'], '', [[1, 't', 'String', [], ''], [2, 'u', 'Binary', ['/uuid'], '']]]]}
CONF2 = {'info': {'package': 'x', 'config': {'$MaxString': 2, '$MaxElements': 1}}}
CALLS = [('R', {'a': 'xyz', 'b': 'g', 'c': [1, 2], 'd': {'l': ['r']}}), ('R', {'a': ''}), ('R', {'b': 'g'}), ('M', {'p': {'a': 'q'}, 'q': b'\x01'}),
         ('Ch', {'i': 10}), ('Ch', {'l': ['r', 'g']}), ('L', ['r', 'r']), ('L', ['g']), ('U', 'r'), ('U', []), ('T', {'k': 'i', 'v': 3}), ('A', [None, {'a': 'zz'}]),
         ('MI', {'p': 'r'}), ('K', {'r': 1, 'g': 2}), ('D', 5),
         ('N', [b'\1\2\3\4', 8]), ('N6', [bytes(16), 64]), ('Tu', ['a', bytes(16)])]
PROBE = CALLS + [('R', {'a': 'xyz', 'c': [1]}), ('E', 'g'), ('E', 3), ('X', b'ab'), ('S', 'abcdef'), ('L', ['r', 'g', 'r', 'g'])]
SHORT = (0, 2, 4, 6, 8, 10)


def ops(full):
    out = [('mode', n, m) for n in (0, 1) for m in MODES]
    idx = range(len(CALLS)) if full else SHORT
    out += [('enc', 0, i) for i in idx] + [('dec', 0, i) for i in idx] + [('enc', 1, i) for i in SHORT[:4]] + [('dec', 1, i) for i in SHORT[:4]]
    out += [('junk', 0), ('mutate',), ('new',), ('unfold',), ('check',), ('same',)]
    return out


OPS = [ops(False), ops(True)]


def jobs(tier):
    deep = tier == 'thorough'
    out = [(1, (), 2)] + [(1, (i,), 3 if deep else 2) for i in range(len(OPS[1]))]
    out += [(0, (i,), 3) for i in range(len(OPS[0]))]
    out += [('long', (o,), 1100) for o in OPS[1]]
    if deep:
        out += [('long', p, 150) for p in itertools.permutations(OPS[1], 2)]
        out += [(0, (i, j), 4) for i in range(len(OPS[0])) for j in range(len(OPS[0]))]
    return out


MODELS = []


def setup():
    if not MODELS:
        m2 = copy.deepcopy(SCHEMA)
        m2['info']['config'] = CONF2['info']['config']
        MODELS.extend([Model(fresh(SCHEMA)), Model(m2)])
        for k, m in enumerate(MODELS):
            for mode in MODES:
                for i, (t, v) in enumerate(PROBE):
                    w = model(m.encode, t, v, mode)
                    TABLE[k, mode, i] = (w, w[1] if w[0] == 'ok' else v)
                    TABLE[k, mode, i, 'd'] = model(m.decode, t, TABLE[k, mode, i][1], mode)


TABLE = {}


class World:
    def __init__(self):
        self.schema = fresh(SCHEMA)
        self.codecs = [Codec(self.schema), Codec(self.schema, True, True, config=fresh(CONF2))]
        self.modes = [MODES[0], MODES[3]]
        self.last = []

    def one(self, k, op, i):
        """-> None or a description of the difference"""
        t, v = PROBE[i]
        mode = self.modes[k]
        want, s = TABLE[k, mode, i]
        if op == 'dec':
            want, v = TABLE[k, mode, i, 'd'], s
        arg = copy.deepcopy(v)
        got = call(self.codecs[k].encode if op == 'enc' else self.codecs[k].decode, t, arg)
        self.last = [arg, got[1] if got[0] == 'ok' else None]
        if want[0] != 'undef' and (got[0] != want[0] or (want[0] == 'ok' and not same(got[1], want[1]))):
            return f'{op} {t} {v!r} on codec {k} in {MODE_NAME[mode]} mode: expected {want!r}, got {got!r}'

    def step(self, op):
        o = op[0]
        if o == 'mode':
            self.modes[op[1]] = op[2]
            self.codecs[op[1]].set_mode(*op[2])
        elif o in ('enc', 'dec'):
            return self.one(op[1], o, op[2])
        elif o == 'junk':
            for t in ('R', 'Ch', 'U', 'L', 'T', 'A', 'Nope'):
                for j in (None, {'a': {}}, [[]], {'i': 'x'}, 5):
                    for fn in (self.codecs[0].encode, self.codecs[0].decode):
                        r, e = call(fn, t, j)
                        if r == 'crash':
                            return f'{t} {j!r}: {e}'
        elif o == 'mutate':
            for x in self.last:
                if isinstance(x, list):
                    x.append('changed')
                elif isinstance(x, dict):
                    x['changed'] = 1
                    for y in x.values():
                        if isinstance(y, list):
                            y.clear()
                        elif isinstance(y, dict):
                            y.clear()
        elif o == 'new':
            Codec(self.schema, True, False, config={'info': {'config': {'$MaxString': 1, '$MaxElements': 1}}})
            Codec({'types': [['R', 'Integer', [], '', []], ['E', 'Enumerated', [], '', [[1, 'zz', '']]]]})
        elif o == 'unfold':
            jadn.transform.unfold_extensions(self.schema)
            jadn.transform.strip_comments(self.schema)
        elif o == 'check':
            jadn.check({'types': fresh(SCHEMA['types'])})     # small configured limits would apply to the schema itself
        elif o == 'same':
            self.codecs[0].set_mode(*self.modes[0])


def long(job, rec):
    """The same one or two operations over and over, then every probe"""
    _, hist, n = job
    if any(h[0] in ('new', 'check', 'unfold', 'junk') for h in hist):   # long ones
        n //= 15
    w = World()
    for r in range(n):
        bad = None
        for h in hist:
            rec.trans()
            bad = bad or w.step(h)
        bad = bad or w.one(0, 'enc', 0) or w.one(r % 2, 'enc', r // 2 % len(PROBE)) or w.one(r % 2, 'dec', r // 2 % len(PROBE))
        rec.trans(3)
        if bad:
            break
    for k, i in itertools.product((0, 1), range(len(PROBE))):
        bad = bad or w.one(k, 'enc', i) or w.one(k, 'dec', i)
        rec.trans(2)
    if not bad and not same(w.schema, SCHEMA):
        bad = f'schema modified: {w.schema!r}'
    rec.state('long', n, *hist)
    if not bad:
        return rec.trace()
    rec.fail(f'{hist!r} x {n}'[:400], {'cycle': hist, 'repetitions': n, 'what': bad},
             f'import sys\nsys.path[:0] = ["/verif/lib", "/verif/checks"]\nimport C10\nC10.setup()\nw = C10.World()\n'
             f'for n in range({n}):\n    for op in {hist!r}:\n        r = w.step(op)\n        if r:\n            print(n, op, r)\nprint([w.one(k, o, i) for k in (0, 1) for i in range(len(C10.PROBE)) for o in ("enc", "dec")])\n')


def run(job, rec):
    setup()
    full, prefix, depth = job
    if full == 'long':
        return long(job, rec)
    table = OPS[full]
    battery = range(len(PROBE)) if depth < 3 else (0, 1, 3, 5, 7, 8, 10, 11, 13, 15, 17, 18, 20, 22)
    for n in ((1, 2) if not prefix else (depth,)):
        for tail in itertools.product(range(len(table)), repeat=n - len(prefix)):
            hist = [table[i] for i in prefix + tail]
            if any(o[0] == 'check' for o in hist[:-1]) and depth > 3 and hist[-1][0] == 'check':
                continue
            w = World()
            bad = None
            for h in hist:
                rec.trans()
                bad = w.step(h)
                if bad:
                    break
            if not bad:
                for k in (0, 1):
                    for i in battery:
                        bad = w.one(k, 'enc', i) or w.one(k, 'dec', i)
                        rec.trans(2)
                        if bad:
                            break
                    if bad:
                        break
            if not bad and not same(w.schema, SCHEMA):
                bad = f'schema modified: {w.schema!r}'
            rec.state(*hist)
            if bad:
                rec.fail(repr(hist)[:400], {'history': hist, 'what': bad},
                         f'import sys\nsys.path[:0] = ["/verif/lib", "/verif/checks"]\nimport C10\nC10.setup()\nw = C10.World()\n'
                         f'for op in {hist!r}:\n    print(op, w.step(op))\nprint([w.one(k, o, i) for k in (0, 1) for i in range(len(C10.PROBE)) for o in ("enc", "dec")])\n')
            else:
                rec.trace()
    rec.sample({'prefix': [table[i] for i in prefix], 'depth': depth})
    for v in TABLE.values():
        r = v[0][0] if isinstance(v[0], tuple) else v[0]
        rec.outcome(r)


if __name__ == '__main__':
    mc.main(globals())

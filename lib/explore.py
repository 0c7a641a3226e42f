"""Conformance of the real codec with the reference model over enumerated schemas, values and modes."""
import copy
import itertools
import json
import mc
from ref import Model, Rej, Undef, MODES, MODE_NAME, strict
from jadn.codec import Codec

REJECT = (ValueError, TypeError)
JUNK = (None, True, False, 0, 1, -1, 2, 1.0, 1.5, '', 'a', '1', b'', b'a', [], [1], ['a'], [None], {}, {'a': 1}, {1: 1},
        {'1': 'a'}, (), (1,), [[]], {'a': {}}, 10 ** 12)


def call(fn, *args):
    """-> ('ok', value) | ('rej', exception text) | ('crash', exception text)"""
    try:
        return 'ok', fn(*args)
    except REJECT as e:
        return 'rej', f'{type(e).__name__}: {e}'[:200]
    except Exception as e:
        return 'crash', f'{type(e).__name__}: {e}'[:200]


def model(fn, *args):
    try:
        return 'ok', fn(*args)
    except Rej as e:
        return 'rej', str(e)
    except Undef:
        return 'undef', None


def fresh(v):
    """Copy without shared sub-objects, as if read from a file"""
    return [fresh(x) for x in v] if isinstance(v, list) else {k: fresh(x) for k, x in v.items()} \
        if isinstance(v, dict) else v


def same(a, b):
    return strict(a) == strict(b)


def key(v):
    return repr(strict(v))


def uniq(vals):
    out, seen = [], set()
    for v in vals:
        k = repr(v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def jsonable(v):
    if isinstance(v, (list, tuple)):
        return all(jsonable(x) for x in v)
    if isinstance(v, dict):
        return all(isinstance(k, (str, int)) and not isinstance(k, bool) for k in v) and all(jsonable(x) for x in v.values())
    return v is None or isinstance(v, (str, int, float))


def mutations(s):
    """Near misses of a serialized value: every single structural edit"""
    if isinstance(s, list):
        for n in range(len(s)):
            yield s[:n] + s[n + 1:]
            yield s[:n] + [None] + s[n + 1:]
            yield s[:n + 1] + s[n:]
            for m in mutations(s[n]):
                yield s[:n] + [m] + s[n + 1:]
        yield s + [None]
        yield s + [1]
        yield dict(enumerate(s, 1))
    elif isinstance(s, dict):
        for k, x in s.items():
            yield {a: b for a, b in s.items() if a != k}
            for m in mutations(x):
                yield {a: m if a == k else b for a, b in s.items()}
        yield {**s, 'zz': 1}
        yield {**s, 99: 1}
        yield list(s.values())
    elif isinstance(s, str):
        yield s + 'q'
        yield s[1:]
        yield 5
    elif isinstance(s, bool) or s is None:
        yield 1
    elif isinstance(s, bytes):
        yield s + b'q'
        yield s[1:]
        yield s.decode('latin1')
    else:
        yield s + 1
        yield str(s)
        yield s + 0.5
        yield True


def repro(schema, tname, mode, op, v, expected):
    return (f'# {op} in {MODE_NAME[mode]} mode; reference model: {expected[0]} {expected[1]!r}\n'
            f'from jadn.codec import Codec\nschema = {schema!r}\n'
            f'codec = Codec(schema, verbose_rec={mode[0]}, verbose_str={mode[1]})\n'
            f'print(repr(codec.{op}({tname!r}, {v!r})))\n')


class Explorer:
    """Explores one schema; compares every encode and decode with the model."""

    def __init__(self, rec, schema, label, modes=MODES, json_text=True):
        schema = fresh(schema)
        self.rec, self.schema, self.label, self.json_text = rec, schema, label, json_text
        self.model = Model(copy.deepcopy(schema))
        before = copy.deepcopy(schema)
        self.codecs = {}
        for m in modes:
            r, c = call(Codec, schema, *m)
            if r != 'ok':
                rec.fail(f'{label}|codec', {'schema': schema, 'mode': MODE_NAME[m], 'got': [r, c]},
                         f'from jadn.codec import Codec\nCodec({schema!r}, {m[0]}, {m[1]})\n')
            else:
                self.codecs[m] = c
        if schema != before:
            rec.fail(f'{label}|schema-modified', {'before': before, 'after': schema})

    def bad(self, op, tname, mode, v, want, got, note=''):
        self.rec.fail(f'{self.label}|{tname}|{op}|{MODE_NAME[mode]}|{v!r}'[:400],
                      {'schema': self.schema, 'type': tname, 'mode': MODE_NAME[mode], 'op': op, 'value': repr(v),
                       'expected': repr(want)[:500], 'got': repr(got)[:500], 'note': note},
                      repro(self.schema, tname, mode, op, v, want))

    def compare(self, op, tname, mode, v, want, got):
        self.rec.trans()
        self.rec.outcome(f'{op}-{want[0]}')
        if got[0] == 'crash' or (want[0] != 'undef' and want[0] != got[0]) \
                or (want[0] == 'ok' and not same(want[1], got[1])):
            self.bad(op, tname, mode, v, want, got)
            return False
        return True

    def encode(self, tname, v, mode):
        """Encode one API value, and decode what it gives, directly and through JSON text"""
        rec, c, m = self.rec, self.codecs[mode], self.model
        rec.state(self.label, tname, mode, 'e', repr(v))
        arg = copy.deepcopy(v)
        want = model(m.encode, tname, v, mode)
        got = call(c.encode, tname, arg)
        if not same(arg, v):
            self.bad('encode', tname, mode, v, want, got, f'argument modified to {arg!r}')
        if not self.compare('encode', tname, mode, v, want, got) or want[0] != 'ok':
            return want
        s = got[1]
        if not self.decode(tname, s, mode, self.m_norm(tname, v)):
            return want
        if self.json_text and jsonable(s):
            text = json.loads(json.dumps(s))
            if not same(text, s):
                if not self.decode(tname, text, mode, self.m_norm(tname, v)):
                    return want
        rec.trace()
        return want

    def m_norm(self, tname, v):
        return ('ok', self.model.norm(tname, v))

    def decode(self, tname, s, mode, expect=None):
        rec, c, m = self.rec, self.codecs[mode], self.model
        rec.state(self.label, tname, mode, 'd', repr(s))
        want = model(m.decode, tname, s, mode)
        arg = copy.deepcopy(s)
        got = call(c.decode, tname, arg)
        if not same(arg, s):
            self.bad('decode', tname, mode, s, want, got, f'argument modified to {arg!r}')
        ok = self.compare('decode', tname, mode, s, want, got)
        if ok and expect is not None and want[0] == 'ok' and self.lossless(tname) and not same(got[1], expect[1]):
            self.bad('decode', tname, mode, s, expect, got, 'round trip lost information')
            return False
        return ok

    def lossless(self, tname):
        """Unions may decode to a different alternative that shares the serialized form"""
        return not self.has_union(self.model.type(tname), set())

    def has_union(self, d, seen):
        if id(d) in seen:
            return False
        seen.add(id(d))
        if 'combine' in d.opts:
            return True
        subs = [f.desc for f in d.fields if not isinstance(f, tuple)]
        subs += [d.elem] if d.elem is not None else []
        subs += [self.model.type(d.opts[k]) for k in ('vtype', 'ktype') if k in d.opts and d.elem is None]
        return any(self.has_union(x, seen) for x in subs)

    def explore(self, tname, values, wires=(), junk=JUNK, mutate=True):
        """Every value x every mode; wire values: encodings in every mode, their single edits, given ones, junk"""
        for mode in self.codecs:
            pool = list(wires) + list(junk)
            for v in values:
                self.encode(tname, v, mode)
                for m2 in MODES:
                    w = model(self.model.encode, tname, v, m2)
                    if w[0] == 'ok':
                        pool.append(w[1])
                        if m2 == mode and mutate:
                            pool += list(mutations(w[1]))
            for j in junk:
                self.encode(tname, j, mode)
            for s in uniq(pool):
                self.decode(tname, s, mode)


def subsets(items, lo=0, hi=None):
    items = list(items)
    for n in range(lo, (len(items) if hi is None else hi) + 1):
        yield from itertools.combinations(items, n)


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield ''.join(w)

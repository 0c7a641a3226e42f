"""Values of a type, enumerated from the reference model: accepted ones, smallest and largest first."""
import itertools
from ref import Rej, Undef

SCALARS = {
    'Boolean': (True, False),
    'Integer': (0, 5, -7, 12, 13, -8, 1, 127, 128, 65535, 10 ** 9, -10 ** 9),
    'Number': (0.0, 1.5, -1.5, 2, -0.5, 1e30, -2.5, 100.0),
    'String': ('', 'a', 'aa', 'x', 'abc', 'abcd', 'abcde', 'x' * 8, 'x' * 50, 'a@b.cd', '2020-01-02T03:04:05Z', '12:00:00Z', '2020-01-02', 'P1D', 'a.b', '1.2.3.4', '::1', 'http://a.b/c', '/a', '0'),
    'Binary': (b'', b'a', b'\x00\xff', b'abc', b'\x01\x02\x03\x04', b'\x01' * 6, b'\x02' * 8, b'\x03' * 9, b'\x04' * 16, b'\x05' * 10),
}
NETS = {'ipv4-net': ([b'\x0a\0\0\0', 8], [b'\x01\x02\x03\x04', 32]), 'ipv6-net': ([b'\0' * 15 + b'\1', 128], [b'\x20\x01' + b'\0' * 14, 16]), 'tag-uuid': (['a', b'\1' * 16],)}


class Values:
    def __init__(self, model):
        self.m = model
        self.cache = {}

    def ok(self, d, v):
        try:
            self.m.enc(d, v, (True, True))
            return True
        except (Rej, Undef):
            return False

    def of(self, ref, depth=3, limit=4):
        return self.desc(self.m.type(ref), depth, limit)

    def desc(self, d, depth, limit=4):
        k = id(d), depth, limit
        if k not in self.cache:
            out = []
            for v in self.gen(d, depth):
                if self.ok(d, v) and not any(type(v) is type(x) and v == x for x in out):
                    out.append(v)
                    if len(out) == limit:
                        break
            self.cache[k] = out, d      # keep d alive
        return self.cache[k][0]

    def gen(self, d, depth):
        b, o = d.base, d.opts
        if b in SCALARS:
            yield from SCALARS[b]
            for n in (o.get('minv', 0), o.get('maxv', 0)) if b in ('String', 'Binary') else (o.get('minv'), o.get('maxv')) if b == 'Integer' else (o.get('minf'), o.get('maxf')):
                if n is not None and (b in ('Integer', 'Number') or n <= 1000):
                    yield ('y' * n if b == 'String' else b'y' * n) if b in ('String', 'Binary') else n
            return
        if b == 'Enumerated':
            for i, n in d.fields:
                yield i if 'id' in o else n
            return
        if depth < 0:
            return
        lo, hi = o.get('minv', 0), o.get('maxv', 0) or 3
        if lo > 1000:
            return
        if b == 'Choice':
            per = [(f, self.desc(f.desc, depth - 1, 2)) for f in d.fields]
            for n in (0, 1):
                for f, vs in per:
                    if len(vs) > n:
                        yield vs[n] if 'combine' in o else {f.id if 'id' in o else f.name: vs[n]}
        elif b == 'ArrayOf':
            vs = self.desc(self.m.elemtype(d), depth - 1)
            for n in dict.fromkeys((lo, min(lo + 1, hi), min(hi, lo + 4))):
                yield (vs * n)[:n]
                if vs:
                    yield [vs[-1]] * n
        elif b == 'MapOf' and not self.m.mapenum(d):
            ks, vs = self.desc(self.m.type(o['ktype']), depth - 1), self.desc(self.m.type(o['vtype']), depth - 1)
            ks = [k for k in ks if not isinstance(k, (list, dict))]
            for n in dict.fromkeys((lo, min(lo + 1, hi), min(hi, lo + 4))):
                if vs or not n:
                    yield {k: v for k, v in zip(ks[:n], itertools.cycle(vs or [0]))}
        elif b == 'Array' and o.get('format') in NETS:
            yield from NETS[o['format']]
        else:
            if b == 'MapOf':
                d = self.m.mapenum(d)
            per = []
            for f in d.fields:
                per.append((f, self.desc(f.desc, depth - 1)))
            tags = {f.tag: f for f in d.fields if f.tag is not None}

            def build(present, n):
                out = {}
                for f, vs in per:
                    if f in present and vs and f.tag is None:
                        out[f.id] = vs[n % len(vs)]
                for f, vs in per:
                    if f in present and f.tag is not None:
                        tf = next(x for x in d.fields if x.id == f.tag)
                        if tf.id not in out:
                            out[tf.id] = self.desc(tf.desc, depth - 1)[:1][0] if self.desc(tf.desc, depth - 1) else None
                        alt = next((a for a in f.desc.fields if not isinstance(a, tuple) and out[tf.id] in (a.name, a.id)), None) if f.desc.base == 'Choice' else None
                        av = self.desc(alt.desc, depth - 2) if alt else []
                        if av:
                            out[f.id] = av[n % len(av)]
                if b == 'Array':
                    v = [out.get(f.id) for f in d.fields]
                    while v and v[-1] is None:
                        v.pop()
                    return v
                return {f.name: out[f.id] for f in d.fields if f.id in out}
            req = [f for f in d.fields if not f.optional]
            for n in range(3):
                yield build(d.fields, n)
                yield build(req, n)
            for f in d.fields:
                if f.optional:
                    yield build(req + [f], 0)
                    yield build([x for x in d.fields if x is not f], 1)

"""Reference model of JADN validation and JSON serialization.

Interprets a JADN schema directly - including the extensions (anonymous types, multiplicity, derived enumerations,
MapOf(enum), key/link) that the implementation removes by rewriting the schema first - and defines, for every type,
    enc(type, value, mode)  API value   -> serialized value, or raises Rej
    dec(type, value, mode)  serialized  -> API value,        or raises Rej
mode = (verbose_rec, verbose_str).  Written independently of the implementation: plain recursion over descriptors, no
code shared with jadn.  Raises Undef where JADN does not define the outcome (then nothing is compared).
"""
import re
import fmt

MODES = ((False, False), (False, True), (True, False), (True, True))
MODE_NAME = {(False, False): 'concise', (False, True): 'concise-names', (True, False): 'minified', (True, True): 'verbose'}
BUILTIN = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map',
           'MapOf', 'Record')
FLAG = {'=': 'id', 'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence', 'X': 'extend',
        '<': 'dir', 'K': 'key', 'L': 'link'}
TEXT = {'*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'C': 'combine', '!': 'default'}
INT = {'{': 'minv', '}': 'maxv', '[': 'minc', ']': 'maxc', '&': 'tagid'}
FLOAT = {'y': 'minf', 'z': 'maxf'}
FIELD_OPTS = ('minc', 'maxc', 'tagid', 'dir', 'key', 'link')
INF = float('inf')
DEFAULTS = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100,
            '$TypeName': '^[$A-Z][-$A-Za-z0-9]{0,63}$', '$FieldName': '^[$a-z][_$A-Za-z0-9]{0,63}$',
            '$NSID': '^([A-Za-z][A-Za-z0-9]{0,7})?$', '$Sys': '$'}


def ends(pattern):
    """The pattern with $ matching at the end of the text only, as in ECMAScript (Python: also before a final newline)"""
    out, n, cls = '', 0, False
    while n < len(pattern):
        c = pattern[n]
        if c == '\\':
            c, n = pattern[n:n + 2], n + 1
        elif c in '[]':
            cls = c == '['
        elif c == '$' and not cls:
            c = r'\Z'
        out += c
        n += 1
    return out


class Rej(Exception):
    pass


class Undef(Exception):
    pass


def parse_opts(opts):
    """option strings -> (type options, field options)"""
    t, f = {}, {}
    for o in opts:
        c, v = o[0], o[1:]
        if c in FLAG:
            k, v = FLAG[c], True
        elif c in TEXT:
            k = TEXT[c]
        elif c in INT:
            k, v = INT[c], int(v)
        elif c in FLOAT:
            k, v = FLOAT[c], float(v)
        else:
            raise ValueError(f'unknown option {o}')
        (f if k in FIELD_OPTS else t)[k] = v
    return t, f


class D:
    """Type descriptor"""
    __slots__ = ('base', 'opts', 'fields', 'name', 'bare', 'elem', 'cache')

    def __init__(self, base, opts=None, fields=(), name='', bare=False, elem=None):
        self.base, self.opts, self.fields, self.name, self.bare = base, opts or {}, list(fields), name, bare
        self.elem = elem        # element descriptor of a multi-valued field
        self.cache = None


class Field:
    __slots__ = ('id', 'name', 'desc', 'optional', 'tag')


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def strict(v):
    """Value identity that distinguishes 1, 1.0 and True"""
    if isinstance(v, list):
        return ('L', tuple(strict(x) for x in v))
    if isinstance(v, dict):
        return ('D', frozenset((strict(k), strict(x)) for k, x in v.items()))
    return (type(v).__name__, v)


def loose(v):
    if isinstance(v, list):
        return ('L', tuple(loose(x) for x in v))
    if isinstance(v, dict):
        return ('D', frozenset((loose(k), loose(x)) for k, x in v.items()))
    return ('B', v) if isinstance(v, bool) else v       # as in JSON, 1 and 1.0 are the same number and true is not


class Model:
    def __init__(self, schema):
        self.schema = schema
        self.config = dict(DEFAULTS)
        self.config.update(schema.get('info', {}).get('config', {}))
        self.tdefs = {t[0]: t for t in schema['types']}
        self.types = {}

    # ---- type descriptors -------------------------------------------------------------------------------------
    def type(self, ref):
        if ref in self.types:
            return self.types[ref]
        if ref[0] == '#' or ref[0] == '>':
            d = D('Enumerated', {}, self.derived(ref), ref)
        elif ref in self.tdefs:
            t = self.tdefs[ref]
            opts = self.typeopts(parse_opts(t[2])[0])
            fields = t[4] if len(t) > 4 else []
            d = D(t[1], opts, [], ref)
            self.types[ref] = d
            if t[1] == 'Enumerated':
                src = '#' + opts['enum'] if 'enum' in opts else '>' + opts['pointer'] if 'pointer' in opts else ''
                d.fields = self.derived(src) if src else [(f[0], f[1]) for f in fields]
            else:
                d.fields = [self.field(t, f) for f in fields]
            return d
        elif ref in BUILTIN:
            d = D(ref, bare=True)
        else:
            raise Rej(f'undefined type {ref}')
        self.types[ref] = d
        return d

    def typeopts(self, o):
        """Replace references to configuration variables in options"""
        return {k: self.config[v] if isinstance(v, str) and len(v) > 1 and v[0] == '$' and v in self.config else v
                for k, v in o.items()}

    def derived(self, ref):
        t = self.tdefs[ref[1:]]
        if ref[0] == '#':
            if t[1] == 'Enumerated':
                return list(self.type(t[0]).fields)
            return [(f[0], f[1]) for f in t[4]] if t[1] in ('Choice', 'Array', 'Map', 'Record') else []
        return [(n, p) for n, p in enumerate(self.paths(ref[1:]), 1)]

    def paths(self, tname):
        """All field paths below a type: fields marked as directories are replaced by the paths below them"""
        t = self.tdefs[tname]
        out = []
        for f in t[4] if t[1] in ('Choice', 'Array', 'Map', 'Record') else []:
            if '<' in [o[0] for o in f[3]]:
                if f[2] in self.tdefs:
                    out += [f'{f[1]}/{p}' for p in self.paths(f[2])]
            else:
                out.append(f[1])
        return out

    def keytype(self, tname):
        t = self.tdefs[tname]
        if t[1] == 'MapOf':
            return self.type(parse_opts(t[2])[0]['ktype'])
        kf = [f for f in t[4] if 'key' in parse_opts(f[3])[1]]
        return self.elem(kf[-1])

    def elem(self, f):
        """Descriptor of one value of a field, without multiplicity"""
        to, fo = parse_opts(f[3])
        if 'link' in fo:
            return self.keytype(f[2])
        if fo.get('maxc', 1) != 1:
            to.pop('unique', None)
        if not to:
            d = self.type(f[2])
            return D(d.base) if 'key' in fo and d.bare else d
        to = self.typeopts(to)
        if 'enum' in to or 'pointer' in to:
            return D('Enumerated', to, self.derived('#' + to['enum'] if 'enum' in to else '>' + to['pointer']))
        return D(f[2], to, [])

    def field(self, t, f):
        to, fo = parse_opts(f[3])
        r = Field()
        r.id, r.name, r.tag = f[0], f[1], fo.get('tagid')
        r.optional = fo.get('minc', 1) == 0
        r.desc = self.elem(f)
        maxc = fo.get('maxc', 1)
        if maxc != 1:
            o = {'minv': max(fo.get('minc', 1), 1)}
            if maxc > 1:
                o['maxv'] = maxc
            if 'unique' in to:
                o['unique'] = True
            r.desc = D('ArrayOf', o, elem=r.desc)
        return r

    # ---- shared checks ----------------------------------------------------------------------------------------
    def size(self, d, n):
        lo = d.opts.get('minv', 0)
        hi = d.opts.get('maxv', 0)
        if not hi:
            if d.bare:
                return
            hi = self.config[{'Binary': '$MaxBinary', 'String': '$MaxString'}.get(d.base, '$MaxElements')]
        if not lo <= n <= hi:
            raise Rej(f'size {n} not in {lo}..{hi}')

    @staticmethod
    def need(cond, why='type'):
        if not cond:
            raise Rej(why)

    def scalar(self, d, v):
        """Checks on the API value of a primitive type"""
        o = d.opts
        if d.base == 'Boolean':
            self.need(isinstance(v, bool))
        elif d.base == 'Integer':
            self.need(isint(v))
            self.need(o.get('minv', v) <= v <= o.get('maxv', v), 'range')
        elif d.base == 'Number':
            self.need(isnum(v))
            if (v != v or v in (INF, -INF)) and not {'minf', 'maxf'} & set(o):
                raise Undef()
            self.need(o.get('minf', -INF) <= v <= o.get('maxf', INF), 'range')      # NaN is in no range
        elif d.base == 'String':
            self.need(isinstance(v, str))
            self.size(d, len(v))
            if 'pattern' in o:
                self.need(re.match(ends(o['pattern']), v), 'pattern')
        elif d.base == 'Binary':
            self.need(isinstance(v, bytes))
            self.size(d, len(v))
        if 'format' in o:
            ok = fmt.valid(d.base, o['format'], v)
            if ok is None:
                raise Undef()
            self.need(ok, 'format')

    def dups(self, vals):
        return len({loose(v) for v in vals}) != len(vals)

    # ---- encode -----------------------------------------------------------------------------------------------
    def encode(self, tname, v, mode):
        return self.enc(self.type(tname), v, mode)

    def decode(self, tname, s, mode):
        return self.dec(self.type(tname), s, mode)

    def elemtype(self, d):
        return d.elem if d.elem is not None else self.type(d.opts['vtype'])

    def mapenum(self, d):
        """MapOf with enumerated keys is a Map with one required field per item"""
        k = self.type(d.opts['ktype'])
        if k.base != 'Enumerated':
            return None
        if d.cache is None:
            fields = []
            for i, n in k.fields:
                f = Field()
                f.id, f.name, f.tag, f.optional, f.desc = i, n, None, False, self.type(d.opts['vtype'])
                fields.append(f)
            d.cache = D('Map', {}, fields, d.name)
        return d.cache

    def enc(self, d, v, mode):
        b, o = d.base, d.opts
        if b in ('Boolean', 'Integer', 'Number', 'String', 'Binary'):
            self.scalar(d, v)
            return fmt.to_text(b, o.get('format'), v)
        if b == 'Enumerated':
            return self.enum(d, v, mode, False)
        if b == 'Choice':
            if 'combine' in o:
                return self.union(d, v, mode, self.enc)
            self.need(isinstance(v, dict) and len(v) == 1)
            (k, x), = v.items()
            if isinstance(k, (bool, float)):
                raise Undef()
            for f in d.fields:
                if type(k) is (int if 'id' in o else str) and k == (f.id if 'id' in o else f.name):
                    return {f.name if mode[1] and 'id' not in o else f.id: self.enc(f.desc, x, mode)}
            raise Rej('alternative')
        if b == 'ArrayOf':
            self.need(isinstance(v, list))
            self.size(d, len(v))
            if ('unique' in o or 'set' in o) and self.dups(v):
                raise Rej('duplicate')
            e = self.elemtype(d)
            return [self.enc(e, x, mode) for x in v]
        if b == 'MapOf':
            if m := self.mapenum(d):
                return self.enc(m, v, mode)
            self.need(isinstance(v, dict))
            self.size(d, len(v))
            kt, vt = self.type(o['ktype']), self.type(o['vtype'])
            return {self.enc(kt, k, mode): self.enc(vt, x, mode) for k, x in v.items()}
        if b in ('Map', 'Record'):
            self.need(isinstance(v, dict))
            self.size(d, len(v))
            self.need(not set(v) - {f.name for f in d.fields}, 'unknown field')
            out = []
            for f in d.fields:
                if f.name not in v:
                    self.need(f.optional, 'missing')
                    out.append(None)
                elif f.tag is not None:
                    tf = next(x for x in d.fields if x.id == f.tag)
                    self.need(tf.name in v, 'missing tag')
                    out.append(self.tagged(f, v[tf.name], v[f.name], mode, self.enc))
                else:
                    out.append(self.enc(f.desc, v[f.name], mode))
            if b == 'Record' and not mode[0]:
                return self.strip(out)
            return {f.name if mode[1] and 'id' not in o else f.id: s for f, s in zip(d.fields, out) if s is not None}
        if b == 'Array':
            if o.get('format') in ('ipv4-net', 'ipv6-net', 'tag-uuid'):
                t = fmt.array_to_text(o['format'], v)
                if t is fmt.UNDEF:
                    raise Undef()
                self.need(t is not fmt.BAD, 'format')
                self.array(d, v, mode, self.enc)        # Elements are also values of their field types
                return t
            return self.strip(self.array(d, v, mode, self.enc))
        raise AssertionError(b)

    @staticmethod
    def strip(lst):
        lst = list(lst)
        while lst and lst[-1] is None:
            lst.pop()
        return lst

    def array(self, d, v, mode, fn):
        self.need(isinstance(v, list))
        self.size(d, len([x for x in v if x is not None]))
        self.need(len(v) <= len(d.fields), 'too long')
        v = v + [None] * (len(d.fields) - len(v))
        out = []
        for f, x in zip(d.fields, v):
            if x is None:
                self.need(f.optional, 'missing')
                out.append(None)
            elif f.tag is not None:
                tv = v[f.tag - 1]
                self.need(tv is not None, 'missing tag')
                out.append(self.tagged(f, tv, x, mode, fn))
            else:
                out.append(fn(f.desc, x, mode))
        return out

    def tagged(self, f, tag, x, mode, fn):
        try:
            (_, r), = fn(f.desc, {tag: x}, mode).items()
        except TypeError:
            raise Rej('tag')
        return r

    def enum(self, d, v, mode, decode):
        isid = 'id' in d.opts
        wire_id = isid or not mode[1]
        by_id = wire_id if decode else isid
        if isinstance(v, (bool, float)):
            raise Rej('type')
        for i, n in d.fields:
            if type(v) is (int if by_id else str) and v == (i if by_id else n):
                if decode:
                    return i if isid else n
                return i if wire_id else n
        raise Rej('item')

    def union(self, d, v, mode, fn):
        good, bad = [], 0
        for f in d.fields:
            try:
                good.append(fn(f.desc, v, mode))
                if d.opts['combine'] == 'O':
                    return good[0]
            except Rej:
                bad += 1
        if d.opts['combine'] == 'O' or (d.opts['combine'] == 'A' and bad) or (d.opts['combine'] == 'X' and len(good) != 1):
            raise Rej('union')
        if len({repr(strict(g)) for g in good}) > 1:
            raise Undef()       # allOf alternatives with different representations
        return good[-1]

    # ---- decode -----------------------------------------------------------------------------------------------
    def dec(self, d, s, mode):
        b, o = d.base, d.opts
        if b in ('Boolean', 'Integer', 'Number', 'String', 'Binary'):
            v = fmt.from_text(b, o.get('format'), s)
            if v is fmt.UNDEF:
                raise Undef()
            if v is fmt.BAD:
                raise Rej('text')
            self.scalar(d, v)
            return v
        if b == 'Enumerated':
            return self.enum(d, s, mode, True)
        if b == 'Choice':
            if 'combine' in o:
                return self.union(d, s, mode, self.dec)
            self.need(isinstance(s, dict) and len(s) == 1)
            (k, x), = s.items()
            k = self.wirekey(k, 'id' in o or not mode[1])
            for f in d.fields:
                if k == (f.name if mode[1] and 'id' not in o else f.id):
                    return {f.id if 'id' in o else f.name: self.dec(f.desc, x, mode)}
            raise Rej('alternative')
        if b == 'ArrayOf':
            self.need(isinstance(s, list))
            self.size(d, len(s))
            e = self.elemtype(d)
            v = [self.dec(e, x, mode) for x in s]
            if ('unique' in o or 'set' in o) and self.dups(v):
                raise Rej('duplicate')
            return v
        if b == 'MapOf':
            if m := self.mapenum(d):
                return self.dec(m, s, mode)
            self.need(isinstance(s, dict))
            self.size(d, len(s))
            kt, vt = self.type(o['ktype']), self.type(o['vtype'])
            ks = [int(k) if kt.base == 'Integer' and kt.opts.get('format') != 'datetime-ms' and isinstance(k, str)
                  and re.fullmatch('-?(0|[1-9][0-9]*)', k) else k for k in s]
            m = {self.dec(kt, k, mode): self.dec(vt, x, mode) for k, x in zip(ks, s.values())}
            self.need(len(m) == len(s), 'same key twice')
            return m
        if b in ('Map', 'Record'):
            v = {}
            if b == 'Record' and not mode[0]:
                self.need(isinstance(s, list))
                self.size(d, len([x for x in s if x is not None]))
                self.need(len(s) <= len(d.fields), 'too long')
                wire = dict(zip([f.id for f in d.fields], s))
                key = {f.id: f.id for f in d.fields}
            else:
                self.need(isinstance(s, dict))
                self.size(d, len(s))
                ids = 'id' in o or not mode[1]
                wire = {self.wirekey(k, ids): x for k, x in s.items()}
                self.need(len(wire) == len(s), 'same key twice')
                key = {f.id: f.id if ids else f.name for f in d.fields}
                self.need(not set(wire) - set(key.values()), 'unknown field')
                if None in wire.values():
                    raise Undef()
            for f in d.fields:
                x = wire.get(key[f.id])
                if x is None:
                    self.need(f.optional, 'missing')
                elif f.tag is not None:
                    tv = wire.get(key[f.tag])
                    self.need(tv is not None, 'missing tag')
                    v[f.name] = self.tagged(f, tv, x, mode, self.dec)
                else:
                    v[f.name] = self.dec(f.desc, x, mode)
            return v
        if b == 'Array':
            if o.get('format') in ('ipv4-net', 'ipv6-net', 'tag-uuid'):
                v = fmt.array_from_text(o['format'], s)
                if v is fmt.UNDEF:
                    raise Undef()
                if v is fmt.BAD:
                    raise Rej('text')
                self.array(d, v, mode, self.enc)
                return v
            return self.strip(self.array(d, s, mode, self.dec))
        raise AssertionError(b)

    @staticmethod
    def wirekey(k, ids):
        """Serialized field key; JSON object member names are strings even when they are ids"""
        if not ids:
            return k
        if type(k) is int:
            return k
        if isinstance(k, str) and re.fullmatch('0|[1-9][0-9]*', k):
            return int(k)
        raise Rej('key')        # also other spellings of an integer

    # ---- normal form of an accepted API value: what a decoder returns for it
    def norm(self, tname, v):
        return self._norm(self.type(tname), v)

    def _norm(self, d, v):
        o = d.opts
        if d.base == 'Array' and isinstance(v, list):
            return self.strip(v) if 'format' in o else \
                self.strip([self._tagnorm(f, x) for f, x in zip(d.fields, v)])
        if d.base == 'ArrayOf':
            return [self._norm(self.elemtype(d), x) for x in v]
        if d.base == 'MapOf':
            return {k: self._norm(self.type(o['vtype']), x) for k, x in v.items()}
        if d.base in ('Map', 'Record'):
            return {f.name: self._tagnorm(f, v[f.name]) for f in d.fields if f.name in v}
        if d.base == 'Choice' and 'combine' not in o:
            (k, x), = v.items()
            return {k: self._norm(next(f.desc for f in d.fields if k in (f.id if 'id' in o else f.name,)), x)}
        return v

    def _tagnorm(self, f, v):
        return v if f.tag is not None or v is None else self._norm(f.desc, v)

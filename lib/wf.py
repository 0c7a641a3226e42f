"""Reference definition of a well-formed JADN schema (default configuration): ok(schema) -> True / False / None.
None: not judged.  Written from the JADN rules, shares nothing with jadn."""
import re
from ref import BUILTIN, FLAG, TEXT, INT, FLOAT, FIELD_OPTS

TNAME = re.compile(r'[$A-Z][-$A-Za-z0-9]{0,63}\Z')
FNAME = re.compile(r'[$a-z][_$A-Za-z0-9]{0,63}\Z')
NSID = re.compile(r'([A-Za-z][A-Za-z0-9]{0,7})?\Z')
ALLOWED = {
    'Binary': 'format minv maxv', 'Boolean': '', 'Integer': 'format minv maxv', 'Number': 'format minf maxf',
    'String': 'format pattern minv maxv', 'Enumerated': 'id enum pointer extend', 'Choice': 'id extend combine',
    'Array': 'extend format minv maxv', 'ArrayOf': 'vtype minv maxv unique set unordered',
    'Map': 'id extend minv maxv sequence', 'MapOf': 'ktype vtype minv maxv sequence', 'Record': 'extend minv maxv sequence'}
REQUIRED = {'ArrayOf': {'vtype'}, 'MapOf': {'ktype', 'vtype'}}
STRF = ('date-time date time duration email idn-email hostname idn-hostname ipv4 ipv6 uri uri-reference iri iri-reference '
        'uri-template json-pointer relative-json-pointer regex').split()
FORMATS = {**{f: 'String' for f in STRF},
           **{f: 'Binary' for f in 'eui uuid ipv4-addr ipv6-addr b x X'.split()},
           **{f: 'Array' for f in 'tag-uuid ipv4-net ipv6-net'.split()},
           **{f: 'Integer' for f in 'datetime-ms i8 i16 i32 i64'.split()}, **{f: 'Number' for f in 'f16 f32 f64'.split()}}
COMPLEX = ('Choice', 'Array', 'Map', 'Record')
INFO = 'package version title description comment copyright license namespaces exports config roots'.split()


class No(Exception):
    pass


class Dunno(Exception):
    pass


def need(c, why=''):
    if not c:
        raise No(why)


def isid(v):
    return isinstance(v, int) and not isinstance(v, bool)


def text(v, hi):
    need(isinstance(v, str) and len(v) <= hi, 'text')


def options(opts):
    need(isinstance(opts, list) and len(opts) <= 10, 'options')
    t, f = {}, {}
    for o in opts:
        text(o, 255)
        need(o, 'empty option')
        c, v = o[0], o[1:]
        if c in FLAG:
            if v:
                raise Dunno()
            k, v = FLAG[c], True
        elif c in TEXT:
            k = TEXT[c]
            if not v or (k == 'pattern' and v[0] == '$'):
                raise Dunno()
        elif c in INT:
            k = INT[c]
            need(re.fullmatch('-?[0-9]+', v) or re.search('[0-9]', v), 'int')
            if not re.fullmatch('0|-?[1-9][0-9]*', v):
                need(not re.search('[^-+0-9 _]', v), 'int')
                raise Dunno()
            v = int(v)
        elif c in FLOAT:
            k = FLOAT[c]
            need(re.search('[0-9]', v) or re.search('(?i)inf|nan', v), 'float')
            if not re.fullmatch(r'-?[0-9]+(\.[0-9]+)?', v):
                raise Dunno()
            v = float(v)
        else:
            raise No('unknown option')
        d = f if k in FIELD_OPTS else t
        if k in d:
            raise Dunno()
        d[k] = v
    return t, f


def typeopts(base, o):
    need(not REQUIRED.get(base, set()) - set(o), 'required')
    need(not set(o) - set(ALLOWED[base].split()), 'not allowed')
    need(o.get('maxv', 1) >= o.get('minv', 0) or 'maxv' not in o or 'minv' not in o, 'range')
    need('maxf' not in o or 'minf' not in o or o['maxf'] >= o['minf'], 'range')
    need('pattern' not in o or not {'minv', 'maxv'} & set(o), 'pattern and size')
    need('format' not in o or FORMATS.get(o['format']) == base, 'format')
    need(not ('enum' in o and 'pointer' in o), 'enum and pointer')
    if base != 'Integer' and (o.get('minv', 0) < 0 or o.get('maxv', 0) < 0):
        raise Dunno()
    if o.get('combine', 'O') not in ('O', 'A', 'X'):
        raise Dunno()


def typeref(v):
    text(v, 10000)
    ns, c, n = v.rpartition(':')
    need(TNAME.match(n) and (not c or NSID.match(ns)), 'typeref')


def info(i):
    need(isinstance(i, dict) and 'package' in i and not set(i) - set(INFO), 'info')
    for k, v in i.items():
        if k == 'package':
            uri(v)
        elif k == 'namespaces':
            if isinstance(v, dict):
                v = list(v.items())
            need(isinstance(v, list), 'namespaces')
            if not v:
                need(False, 'namespaces')
            for p in v:
                need(isinstance(p, (list, tuple)) and len(p) == 2 and isinstance(p[0], str) and NSID.match(p[0]), 'nsid')
                uri(p[1])
        elif k in ('exports', 'roots'):
            need(isinstance(v, list) and v and len(v) <= 100, k)
            for t in v:
                need(isinstance(t, str) and TNAME.match(t), 'root')
        elif k == 'config':
            if v != {}:
                raise Dunno()
            need(False, 'empty config')
        else:
            text(v, 255)
            need(v, k)


def uri(v):
    text(v, 255)
    if re.fullmatch(r'https?://[a-z]+(\.[a-z]+)*(/[a-z0-9.]+)*', v):
        return
    need(' ' not in v and ':' in v, 'uri')
    raise Dunno()


def typedef(t):
    need(isinstance(t, list) and 2 <= len(t) <= 5, 'columns')
    name, base, opts, desc, fields = t + [None, None, [], '', []][len(t):]
    need(isinstance(name, str), 'name')
    need(TNAME.match(name) and name not in BUILTIN, 'name')
    need(isinstance(base, str) and base in BUILTIN, 'base')
    to, fo = options(opts)
    need(not fo, 'field option in type')
    typeopts(base, to)
    text(desc, 2048)
    need(isinstance(fields, list), 'fields')
    if base not in COMPLEX + ('Enumerated',):
        need(not fields, 'no fields')
        return
    need(len(fields) <= 100, 'too many')
    need(not fields or not {'enum', 'pointer'} & set(to), 'derived with fields')
    ids, names = [], []
    for n, f in enumerate(fields, 1):
        need(isinstance(f, list) and len(f) == (3 if base == 'Enumerated' else 5), 'field columns')
        need(isid(f[0]) and f[0] >= 0, 'id')
        text(f[1], 255 if base != 'Enumerated' else 1 << 30)
        text(f[-1], 2048)
        ids.append(f[0])
        names.append(f[1])
        if base == 'Enumerated':
            continue
        need(FNAME.match(f[1]), 'field name')
        typeref(f[2])
        if base in ('Array', 'Record'):
            need(f[0] == n, 'ordinal')
        to, fo = options(f[3])
        minc, maxc = fo.get('minc', 1), fo.get('maxc', 1)
        need(minc >= 0 and maxc >= 0 and not 0 < maxc < minc, 'multiplicity')
        need('tagid' not in fo or fo['tagid'] in [x[0] for x in fields if isinstance(x, list) and x], 'tagid')
        need(f[2] not in COMPLEX, 'anonymous structure')
        if f[2] in BUILTIN:
            if maxc != 1 and 'unique' in to:
                raise Dunno()
            typeopts(f[2], to)
            need('dir' not in fo, 'dir')
        else:
            need(not set(to) - ({'unique'} if maxc != 1 else set()), 'type option on reference')
    need(len(set(ids)) == len(ids), 'duplicate id')
    need(len(set(names)) == len(names), 'duplicate name')


def ok(s):
    """All rules are evaluated: a schema that breaks one is ill-formed even if another part is not judged"""
    unsure, bad = False, False

    def run(fn, *a):
        nonlocal unsure, bad
        try:
            fn(*a)
        except No:
            bad = True
        except Dunno:
            unsure = True

    def top():
        need(isinstance(s, dict) and 'types' in s and not set(s) - {'info', 'types'}, 'top')
        need(isinstance(s['types'], list) and len(s['types']) <= 1000, 'types')
        names = [t[0] for t in s['types'] if isinstance(t, list) and t and isinstance(t[0], str)]
        need(len(set(names)) == len(names), 'duplicate type')

    run(top)
    if bad:
        return False
    if 'info' in s:
        run(info, s['info'])
    for t in s['types']:
        run(typedef, t)
    return False if bad else None if unsure else True

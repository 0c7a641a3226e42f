"""Reference semantics of the JADN format keywords (text representation and validity), written from the
definitions of the formats: RFC 4648 base64url/hex, dotted quad, RFC 5952 IPv6 text, RFC 4122 UUIDs, RFC 3339
date-times in UTC, CIDR networks.  Nothing here is shared with jadn."""
import ipaddress
import re

BAD = ('BAD',)
UNDEF = ('UNDEF',)
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
HEX = '0123456789abcdef'


# ---------------------------------------------------------------- binary text
def b64(b):
    bits = ''.join(f'{x:08b}' for x in b)
    bits += '0' * (-len(bits) % 6)
    return ''.join(B64[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))


def unb64(s):
    if '=' in s:
        return UNDEF if re.fullmatch('[-_A-Za-z0-9]*=+', s) else BAD
    if set(s) - set(B64) or len(s) % 4 == 1:
        return BAD
    bits = ''.join(f'{B64.index(c):06b}' for c in s)
    v = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8))
    return v if b64(v) == s else UNDEF


def hexs(b):
    return ''.join(HEX[x >> 4] + HEX[x & 15] for x in b)


def unhex(s, cs):
    """cs: allowed letters"""
    if len(s) % 2 or set(s) - set('0123456789' + cs):
        return BAD
    s = s.lower()
    return bytes(HEX.index(s[i]) * 16 + HEX.index(s[i + 1]) for i in range(0, len(s), 2))


def ip4(b):
    return '.'.join(str(x) for x in b)


def unip4(s):
    p = s.split('.')
    if len(p) != 4 or not all(re.fullmatch('0|[1-9][0-9]{0,2}', x) and int(x) < 256 for x in p):
        return BAD
    return bytes(int(x) for x in p)


def ip6(b):
    g = [b[i] * 256 + b[i + 1] for i in range(0, 16, 2)]
    best = (0, 0)
    for i in range(8):
        n = 0
        while i + n < 8 and g[i + n] == 0:
            n += 1
        if n > best[0] and n > 1:
            best = (n, i)
    n, i = best
    h = [f'{x:x}' for x in g]
    return ':'.join(h) if not n else ':'.join(h[:i]) + '::' + ':'.join(h[i + n:])


def unip6(s):
    if set(s) - set('0123456789abcdefABCDEF:.'):
        return BAD
    try:
        return ipaddress.IPv6Address(s).packed
    except ValueError:
        return BAD


def uuid_ok(b):
    return len(b) == 16 and 1 <= b[6] >> 4 <= 5 and 8 <= b[8] >> 4 <= 11


def uuid(b):
    h = hexs(b)
    return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def unuuid(s):
    if not re.fullmatch('[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}', s):
        return BAD
    v = unhex(s.replace('-', ''), 'abcdefABCDEF')
    return v if uuid_ok(v) else BAD


# ---------------------------------------------------------------- date-time
def civil(days):
    """days since 1970-01-01 -> (y, m, d), proleptic Gregorian"""
    days += 719468
    era, doe = divmod(days, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


def days(y, m, d):
    y -= m <= 2
    era, yoe = divmod(y, 400)
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def mdays(y, m):
    return [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def dt(ms):
    d, r = divmod(ms, 86400000)
    y, m, dd = civil(d)
    if not 1 <= y <= 9999:
        return BAD
    s, f = divmod(r, 1000)
    return f'{y:04}-{m:02}-{dd:02}T{s // 3600:02}:{s // 60 % 60:02}:{s % 60:02}' + (f'.{f:03}' if f else '') + '+00:00'


def undt(s):
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)([Tt ])(\d\d):(\d\d):(\d\d)(\.\d+)?([Zz]|[-+]\d\d:\d\d|)', s, re.ASCII)
    if not m:
        return BAD
    y, mo, d, h, mi, sec = (int(m[n]) for n in (1, 2, 3, 5, 6, 7))
    zone = m[9].upper()
    oh, om = (int(zone[1:3]), int(zone[4:])) if zone not in ('', 'Z') else (0, 0)
    if y < 1 or not 1 <= mo <= 12 or not 1 <= d <= mdays(y, mo) or h > 23 or mi > 59 or sec > 59 or oh > 23 or om > 59:
        return UNDEF if sec == 60 else BAD
    if not zone or m[4] == ' ' or len(m[8] or '') > 4:     # local time, common variant, precision that is not kept
        return UNDEF
    off = (oh * 60 + om) * (-1 if zone[0] == '-' else 1)
    ms = ((days(y, mo, d) * 24 + h) * 60 + mi - off) * 60000 + sec * 1000 + int(((m[8] or '.')[1:] + '000')[:3])
    return UNDEF if dt(ms) is BAD else ms       # an instant in the year 0 or 10000


# ---------------------------------------------------------------- strings
def hostname(s):
    s0 = s
    if s.endswith('.'):
        s = s[:-1]
    return len(s0) <= 253 and all(re.fullmatch('(?!-)[A-Za-z0-9-]{1,63}(?<!-)', x, re.ASCII) for x in s.split('.'))


def email(s):
    """dot-atom addresses; None for anything with quoting or literals"""
    if set(s) & set('"[]\\'):
        return None
    atom = r"[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]+"
    label = '[A-Za-z0-9](?:[A-Za-z0-9-]*[A-Za-z0-9])?'
    return bool(re.fullmatch(fr'{atom}(?:\.{atom})*@(?:{label}\.)+{label}', s, re.ASCII))


def isdate(s):
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)', s, re.ASCII)
    if not m:
        return None if re.fullmatch(r'\d{8}|\d{4}-?W\d\d(-?\d)?', s, re.ASCII) else False
    y, mo, d = (int(x) for x in m.groups())
    return y > 0 and 1 <= mo <= 12 and 1 <= d <= mdays(y, mo)


def isregex(s):
    try:
        re.compile(s)
        return True
    except re.error:
        return False


# Values every validator of the format must accept / reject (validators of the first group are optional packages of
# jsonschema: only acceptance of valid values is required)
STRINGS = {
    'date-time': (('2020-01-01T00:00:00Z', '2020-02-29T23:59:59.5+01:00'), ()),
    'time': (('00:00:00Z', '23:59:59+01:00'), ()),
    'duration': (('P1D', 'PT1H', 'P1Y2M3DT4H5M6S'), ()),
    'idn-hostname': (('a.b', 'example.com'), ()),
    'uri-template': (('http://a/{b}', 'a'), ()),
    'json-pointer': (('', '/a', '/a/0', '/~0~1'), ()),
    'relative-json-pointer': (('0', '1/a', '0#'), ()),
    'idn-email': (('a@b.c', '\u00e9@b.c'), ('a', 'a.b', '')),
    'ipv6': (('::1', '2001:db8::1', '1:2:3:4:5:6:7:8', '::ffff:1.2.3.4'), ('1.2.3.4', '::g', '::1/64', ':', '1:2:3')),
    'uri': (('http://a/b', 'urn:x:y', 'https://a.b:1/c?d#e'), ('a b', '/a', '', 'a')),
    'uri-reference': (('a', '/a', 'http://a/', '#f'), ('a b', 'a\\b')),
    'iri': (('http://\u00e9/', 'http://a/b'), ('a b', 'a')),
    'iri-reference': (('\u00e9', 'a', '/a'), ('a b',)),
}
RANGE = {'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63}
JS = {'hostname': hostname, 'email': email, 'date': isdate, 'regex': isregex,
      'ipv4': lambda s: unip4(s) is not BAD}


def valid(base, f, v):
    """Validity of an API value of the right type under a format: True / False / None (not defined here)"""
    if base == 'String':
        if f in JS:
            return JS[f](v)
        good, bad = STRINGS[f]
        return True if v in good else False if v in bad else None
    if base == 'Integer':
        if f in RANGE:
            return -2 ** RANGE[f] <= v < 2 ** RANGE[f]
        return dt(v) is not BAD
    if base == 'Binary':
        return {'eui': len(v) in (6, 8), 'ipv4-addr': len(v) == 4, 'ipv6-addr': len(v) == 16,
                'uuid': uuid_ok(v)}.get(f, True)
    return True


def to_text(base, f, v):
    """Serialized form of a valid API value"""
    if base == 'Binary':
        return {'x': hexs, 'X': lambda b: hexs(b).upper(), 'eui': lambda b: hexs(b).upper(), 'ipv4-addr': ip4,
                'ipv6-addr': ip6, 'uuid': uuid}.get(f, b64)(v)
    if base == 'Integer' and f == 'datetime-ms':
        return dt(v)
    return v


def from_text(base, f, s):
    """API value of a serialized value; BAD or UNDEF"""
    if base == 'Binary':
        if not isinstance(s, str):
            return BAD
        return {'x': lambda x: unhex(x, 'abcdefABCDEF'), 'X': lambda x: unhex(x, 'ABCDEF'),
                'eui': lambda x: unhex(x, 'ABCDEF'), 'ipv4-addr': unip4, 'ipv6-addr': unip6, 'uuid': unuuid}.get(f, unb64)(s)
    if base == 'Integer' and f == 'datetime-ms':
        return undt(s) if isinstance(s, str) else BAD
    return s


# ---------------------------------------------------------------- composite formats of the Array type
def array_to_text(f, v):
    """Text of [address, prefix length] or [tag, uuid]; BAD or UNDEF"""
    if not isinstance(v, list) or len(v) != 2:
        return BAD
    a, b = v
    if f == 'tag-uuid':
        if not (isinstance(a, str) and isinstance(b, bytes) and uuid_ok(b)):
            return BAD
        return f'{a}-{uuid(b)}'
    n = {'ipv4-net': 4, 'ipv6-net': 16}[f]
    if not (isinstance(a, bytes) and len(a) == n and isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8 * n):
        return BAD
    t = ip4(a) if n == 4 else ip6(a)
    return t if b == 8 * n else f'{t}/{b}'


def array_from_text(f, s):
    if not isinstance(s, str):
        return BAD
    if f == 'tag-uuid':
        u = unuuid(s[-36:]) if s[-37:-36] == '-' else BAD
        return BAD if u is BAD else [s[:-37], u]
    n = {'ipv4-net': 4, 'ipv6-net': 16}[f]
    a, d, p = s.partition('/')
    a = unip4(a) if n == 4 else unip6(a)
    if a is BAD:
        return BAD
    if d and not re.fullmatch('0|[1-9][0-9]*', p, re.ASCII):
        return UNDEF if re.fullmatch('0[0-9]+', p) else BAD
    p = int(p[:9]) if d else 8 * n
    if a is UNDEF:
        return UNDEF
    return [a, p] if 0 <= p <= 8 * n else BAD

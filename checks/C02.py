"""C02: format keywords: exactly the valid values are accepted, with the standard text representation, losslessly."""
import itertools
import mc
import fmt
from explore import Explorer, words

ID = 'C02'
BOUNDS = ('every format keyword; sized integers: every value within 2 of each limit; binary formats: all lengths 0-18, all '
          'one-byte values, all zero-group patterns of IPv6, all version x variant UUIDs; text: all strings over small '
          'alphabets up to length 4-6, all dotted quads over boundary octets, all prefix lengths; dates: Feb 28 - Mar 1 '
          'of every year 1-9999; 4 modes; contexts: type, anonymous field, element, union')
RULE = 'as C01'
ASSUMPTIONS = ['non-canonical text that some readers accept (padding at the end, leading zeros, local times, fractions beyond milliseconds, leap seconds) is not judged',
               'formats whose optional jsonschema package is absent are only required to accept valid values']
EXPECT_OUTCOMES = ('encode-ok', 'encode-rej', 'decode-ok', 'decode-rej')


def schema(base, f):
    return {'types': [['P', base, ['/' + f], '', []],
                      ['Anon', 'Record', [], '', [[1, 'f', base, ['/' + f], ''], [2, 'g', 'P', ['[0', ']0'], '']]],
                      ['List', 'ArrayOf', ['*P'], '', []],
                      ['Un', 'Choice', ['CO'], '', [[1, 'a', 'P', [], ''], [2, 'b', base, [], '']]]]}


WRAP = {'Anon': lambda v: {'f': v, 'g': [v, v]}, 'List': lambda v: [v], 'Un': lambda v: v}


def binaries(f, deep):
    out = [bytes([7]) * n for n in range(19)]
    if f in ('b', 'x', 'X'):
        out += [bytes([n]) for n in range(256)] + [bytes(p) for p in itertools.product((0, 1, 62, 63, 127, 251, 255), repeat=2)]
        out += [bytes(p) for p in itertools.product((0, 63, 255), repeat=3)]
        if deep:
            out += [bytes(p) for p in itertools.product(range(0, 256, 3), repeat=2)]
    if f == 'eui':
        out += [bytes([n, 0, 0x1b, 0xaf, 0xff, n]) for n in range(256)]
    if f == 'ipv4-addr':
        out += [bytes(p) for p in itertools.product((0, 1, 9, 10, 99, 100, 255), repeat=4)][::1 if deep else 1]
    if f == 'ipv6-addr':
        g = (0, 0x1, 0xab0, 0xffff) if deep else (0, 0x10a)
        out += [b''.join(x.to_bytes(2, 'big') for x in p) for p in itertools.product(g, repeat=8)]
    if f == 'uuid':
        out += [bytes([0xab] * 6 + [v * 16 + 3] + [0] + [w * 16 + 5] + [0xcd] * 7) for v in range(16) for w in range(16)]
        out += [u[:i] + bytes([x]) + u[i + 1:] for u in out[-1:] for i in range(16) for x in (0, 1, 0x0f, 0xf0, 0xff)]
        out += [bytes(n) + out[30][n:] for n in range(6)] + [bytes(6) + b'\x40\0\x80' + bytes(7)]
    if f in ('eui', 'ipv6-addr'):       # each byte zero or all others zero
        for n in ((6, 8), (16,))[f == 'ipv6-addr']:
            out += [u[:i] + bytes([x]) + u[i + 1:] for u in (bytes(range(0xa1, 0xa1 + n)), bytes(n)) for i in range(n) for x in (0, 1, 0x0f, 0xf0, 0xff)]
    return out


def texts(f, deep):
    n = 1 if deep else 0
    if f == 'b':
        return list(words('AQw_-+/= \n', 0, 3 + n)) + ['YWJj', 'YWI', 'YW', 'é', 'YWJjYWJj'] + list(words('Q=', 4, 8 + n)) + [f'{a}={b}' for a in ('YW', 'YWI', 'YWJj') for b in ('', '=', 'YW', '=YWJj', '\n')]
    if f in ('x', 'X', 'eui'):
        return list(words('0aAfFgG ', 0, 3 + n)) + ['0aFF' * 3, '0AFF' * 3, '0AFF' * 4, '00:1B:44:11:3A:B7', 'é1']
    if f == 'ipv4-addr':
        return ['.'.join(p) for k in (3, 4, 5) for p in itertools.product(('0', '255', '256', '01', '', 'a', '7'), repeat=k)
                if deep or k < 5 or p[0] == '7'] + ['1.2.3.4 ', ' 1.2.3.4', '1.2.3.4\n', '1.2.3.4/8']
    if f == 'ipv6-addr':
        t = [':'.join(p) for k in range(1, 6 + n) for p in itertools.product(('', '0', 'fF', '12345', 'g'), repeat=k)]
        return t + ['1:2:3:4:5:6:7:8', '1:2:3:4:5:6:7', '::1.2.3.4', '1:2:3:4:5:6:7:8:9', '::1/64', '::1 ', 'fe80::1%eth0', '::1%', '%1', '::%25a', '::1%1%2']
    u = 'abcdef01-2345-4678-9abc-def012345678'
    out = [u, u.upper(), u.replace('-', ''), '{' + u + '}', u + '\n', u[:-1], u + '0', 'urn:uuid:' + u]
    out += [u[:i] + c + u[i + 1:] for i in range(36) for c in '0f-gG']
    return out


def str_values(f, deep):
    n = 1 if deep else 0
    if f == 'hostname':
        return (list(words('aZ9-._', 0, 4 + n)) + ['a' * 63, 'a' * 64, 'a' * 63 + '.b', 'b.' + 'a' * 64, 'é', 'a\n', 'a b', '\u212a',
                '\u0663', 'a.b\n.c'] + ['.'.join(['a' * 49] * 5)[:k] for k in (252, 253)] + [('a' * 62 + '.') * 4 + 'b' * k for k in (0, 1, 2)])
    if f == 'email':
        return list(words('aZ@.- ', 0, 5 + n)) + ['a@b.c', 'a.b@c.d', 'a+b@c.d\n', 'fred@foo.com', 'FRED@Foo.COM', 'a@b', 'é@b.c',
                                                 'a@b.é', 'a@b.c/d', 'x y@b.c', '@b.c', 'a@@b.c', 'a..b@c.d']
    if f == 'ipv4':
        return ['.'.join(p) for k in (3, 4, 5) for p in itertools.product(('0', '255', '256', '01', '', 'a', '7'), repeat=k)
                if deep or k < 5] + ['1.2.3.4/8']
    if f == 'date':
        return [f'{y:04}-{m:02}-{d:02}' for y in (1, 4, 100, 400, 1900, 1999, 2000, 2020, 2021, 2100, 9999) for m in range(0, 14)
                for d in (0, 1, 28, 29, 30, 31, 32)] + ['2020-1-1', '20-01-01', 'x', '', '2020/01/01', '2020-01-01T00:00:00Z', '0000-01-01']
    if f == 'regex':
        return list(words('a(*[)\\|', 0, 4 + n))
    good, bad = fmt.STRINGS[f]
    return list(good) + list(bad)


def nets(f, deep):
    n = 4 if f == 'ipv4-net' else 16
    addrs = [bytes(n), bytes([255]) * n, bytes(range(1, n + 1)), bytes([10] + [0] * (n - 1)), bytes(n - 1) + b'\x01']
    vals = [[a, p] for a in addrs for p in range(-2, 8 * n + 3)]
    vals += [[b'', 8], [bytes(n - 1), 8], [bytes(n + 1), 8], ['1.2.3.4', 8], [bytes(n)], [bytes(n), 8, 8], [], [bytes(n), '8'],
             [bytes(n), True], [bytes(n), 8.0], [bytes(n), None], [None, 8], [8, bytes(n)]]
    a = fmt.ip4(addrs[2]) if n == 4 else fmt.ip6(addrs[2])
    ts = [f'{a}/{p}' for p in list(range(-2, 8 * n + 3)) + ['', 'a', '8 ', '08', '8/8', '+8', ' 8', '0_8', '1_0', '8\n', '\u0663', '8.0', '1e1', '0x8', '-0', '--8', '08 ', '000000', '9' * 5000]] + [a, '/8', '8', 'a/8', '', a + '/']
    return vals, ts


def jobs(tier):
    deep = tier == 'thorough'
    out = [('Integer', f, deep, 0) for f in ('i8', 'i16', 'i32', 'i64')] + [('Number', f, deep, 0) for f in ('f16', 'f32', 'f64')]
    out += [('Array', f, deep, k) for f in ('ipv4-net', 'ipv6-net', 'tag-uuid') for k in (0, 1)]
    out += [('Binary', f, deep, 0) for f in ('b', 'x', 'X', 'eui', 'ipv4-addr', 'ipv6-addr', 'uuid')]
    out += [('String', f, deep, k) for f in (*fmt.JS, *fmt.STRINGS) for k in range(6 if f in ('email', 'hostname', 'ipv4') else 1)]
    out += [('Integer', 'datetime-ms', deep, k) for k in range(17)]
    return out


def run(job, rec):
    base, f, deep, k = job
    rec.sample({'base': base, 'format': f})
    label = f'{base}/{f}'
    if base == 'Array':
        first = {'ipv4-net': ['Binary', ['/ipv4-addr']], 'ipv6-net': ['Binary', ['/ipv6-addr']], 'tag-uuid': ['String', []]}[f]
        second = ['Binary', ['/uuid']] if f == 'tag-uuid' else ['Integer', []]
        s = {'types': [['P', 'Array', ['/' + f], '', [[1, 'a', *first, ''], [2, 'b', *second, '']]],
                       ['Rec', 'Record', [], '', [[1, 'f', 'P', [], ''], [2, 'g', 'P', ['[0', ']0'], '']]],
                       ['List', 'ArrayOf', ['*P'], '', []]]}
        if f == 'tag-uuid':
            us = [b for b in binaries('uuid', deep)]
            vals = [[t, u] for t in ('', 'a', 'action', 'é_1', 'a.b', '-', 'a-b', 'a--', '-a', fmt.uuid(us[-1]), 'a' * 40, '-' * 40) for u in us] + [['a'], ['a', us[-1], 'x'], [us[-1], 'a'], []]
            wires = [x + t for x in ('', 'a-', '-', 'a--', 'a-b-', 'a') for t in texts('uuid', deep)]
        else:
            vals, wires = nets(f, deep)
        if k:       # fields of the array that restrict it further
            firsts = [[first[0], first[1] + o] for o in ([], ['[0'])] + ([['String', o] for o in (['{2', '}4'], ['%^[a-b]+$'])] if f == 'tag-uuid' else [['Binary', []], ['Binary', ['{4', '}4']], ['Binary', ['{16', '}16']]])
            seconds = [[second[0], second[1] + o] for o in ([], ['[0'])] + ([] if f == 'tag-uuid' else [['Integer', o] for o in (['{8'], ['}24'], ['{0', '}32'], ['{8', '}24'], ['/i8'], ['}24', '[0'])])
            vals, wires = vals[::3] + vals[-13:], wires[::3]
            for x in firsts:
                for y in seconds:
                    for opts in ([], ['{2'], ['}2']):
                        s['types'][0] = ['P', 'Array', ['/' + f] + opts, '', [[1, 'a', *x, ''], [2, 'b', *y, '']]]
                        Explorer(rec, s, f'{label} of {x}, {y} {opts}').explore('P', vals, wires, mutate=False)
            return
        e = Explorer(rec, s, label)
        e.explore('P', vals, wires)
        e.explore('Rec', [{'f': v, 'g': [v]} for v in vals], [], junk=[], mutate=False)
        e.explore('List', [[v, v] for v in vals], [], junk=[], mutate=False)
        return
    e = Explorer(rec, schema(base, f), label)
    wires = []
    if base == 'Integer' and f != 'datetime-ms':
        n = 2 ** fmt.RANGE[f]
        vals = [s * n + d for s in (-1, 1) for d in range(-2, 3)] + [0, 1, -1] + \
               [s * 2 ** i + d for i in (7, 8, 15, 16, 31, 32, 63, 64) for s in (-1, 1) for d in (-1, 0, 1)]
    elif base == 'Integer':
        if k == 0:
            lo, hi = fmt.days(1, 1, 1) * 86400000, fmt.days(9999, 12, 31) * 86400000 + 86399999
            vals = [lo + d for d in range(-3, 4)] + [hi + d for d in range(-3, 4)] + [lo * 10, hi * 10, 10 ** 30, -10 ** 30]
            vals += list(range(-2002, 2003, 1 if deep else 7)) + [n * 1000 + d for n in (1, 59, 60, 3599, 3600, 86399, 86400) for d in (-1, 0, 1, 10, 100)]
            vals += [1605834522123 + d for d in range(0, 2000, 13)] + [2 ** 53 + d for d in (-1, 0, 1)]
            wires = [f'{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{fr}{z}' for y in (0, 1, 1969, 1970, 2000, 2100, 9999)
                     for m, d in ((0, 1), (1, 0), (1, 1), (2, 28), (2, 29), (2, 30), (4, 31), (12, 31), (13, 1))
                     for h, mi, s in ((0, 0, 0), (23, 59, 59), (25, 0, 0), (0, 60, 0), (0, 0, 61)) for fr in ('', '.001', '.999') for z in ('Z', '+00:00')]
            wires += ['', 'x', 'T', 'Z', '2020', '2020-01-01', '12:00:00Z', 'now', '20200102T030405Z', '2020-W01-1T00:00:00Z', '2020-01-01T00Z', '2020-01-01T00:00Z', '2020-001T00:00:00Z']
            wires += [f'2020-02-29T23:59:5{s}{fr}{z}' for s in '09' for fr in ('', '.', '.1', '.12', '.120', '.1239', ',5', '.1.2') for z in ('', 'Z', 'z', '+00:00', '-00:00', '+01:30', '-23:59', '+24:00', '+00:60', '+0100', '+01', '+00:00:30', 'ZZ', ' Z', '+1:00', 'UTC', 'A')]
            wires += [f'{d}T00:00:00{z}' for d in ('0001-01-01', '9999-12-31') for z in ('+23:59', '-23:59', 'Z')]
            for t in ('2020-01-23T12:34:56Z', '1969-12-31t23:59:59.123+05:30'):     # every character replaced, removed or doubled
                wires += [t[:i] + c + t[i + 1:] for i in range(len(t)) for c in ('', *'0129-:.TZtz +,WéX\n\u0663', t[i] * 2)] + [t + '\n', ' ' + t]
        else:
            ys = range((k - 1) * 625 + 1, min(k * 625, 9999) + 1)
            step = 1 if deep else 5
            vals = [(fmt.days(y, m, d) * 86400 + s) * 1000 + ms for y in ys if deep or y % step == k % step or y % 100 == 0
                    for m, d, s, ms in ((2, 28, 86399, 999), (3, 1, 0, 0), (1, 1, 0, 1), (12, 31, 45296, 120))]
            for mode in ((False, False), (True, True)):
                for v in vals:
                    e.encode('P', v, mode)
            return
    elif base == 'Number':
        vals = [0.0, 1.5, -1.5, 1e300, 65504.0, 65520.0, 3, 10 ** 20]
    elif base == 'Binary':
        vals, wires = binaries(f, deep), texts(f, deep)
    else:
        n = 6 if f in ('email', 'hostname', 'ipv4') else 1
        vals = str_values(f, deep)[k::n]
        wires = vals
    big = len(vals) > 300
    e.explore('P', vals, wires, mutate=not big)
    for t, w in WRAP.items():
        e.explore(t, [w(v) for v in (vals[::7] if big and not deep else vals)], [], junk=[], mutate=False)


if __name__ == '__main__':
    mc.main(globals())

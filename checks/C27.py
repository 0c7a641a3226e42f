"""C27: option strings, option dictionaries, type strings and field texts convert into each other without loss."""
import copy
import itertools
import mc
import gen
import wf
from explore import call, same, fresh
import jadn
from jadn.definitions import is_builtin, has_fields

ID = 'C27'
BOUNDS = ('every base type with every well-formed set of up to 5 options and all orders of up to 4 of them; every field type x option set x 11 multiplicities x dir/key/link/tag in every container; for each: '
          'parsing to a dictionary, writing, sorting, looking up and deleting each of the 24 options, type string and field text both ways; multiplicities 0-12 and unlimited; every single character as an option identifier; '
          'tag references by name and id in all orders of 4 fields')
RULE = 'state = (option list, order); transition = conversion compared with an independent table of options; trace = option list for which all conversions agree'
ASSUMPTIONS = ['option lists that check accepts; a minimum size of 0 and explicit multiplicities of 1 are the defaults and need not be kept in texts']
EXPECT_OUTCOMES = ('type', 'field', 'unknown', 'tag')

# id -> (name, kind), from the JADN specification
TYPE = {'=': ('id', bool), '*': ('vtype', str), '+': ('ktype', str), '#': ('enum', str), '>': ('pointer', str), '/': ('format', str), '%': ('pattern', str), 'y': ('minf', float), 'z': ('maxf', float),
        '{': ('minv', int), '}': ('maxv', int), 'q': ('unique', bool), 's': ('set', bool), 'b': ('unordered', bool), 'o': ('sequence', bool), 'C': ('combine', str), 'X': ('extend', bool), '!': ('default', str)}
FIELD = {'[': ('minc', int), ']': ('maxc', int), '&': ('tagid', None), '<': ('dir', bool), 'K': ('key', bool), 'L': ('link', bool)}
NAMES = {v[0]: k for k, v in {**TYPE, **FIELD}.items()}


def parse(olist):
    fo, to = {}, {}
    for o in olist:
        n, kind = {**TYPE, **FIELD}[o[0]]
        v = True if kind is bool else kind(o[1:]) if kind else int(o[1:]) if o[1:].lstrip('-').isdigit() else o[1:]
        (fo if o[0] in FIELD else to)[n] = v
    return fo, to


def jobs(tier):
    deep = tier == 'thorough'
    return [('type', b, deep) for b in gen.TOPTS] + [('field', c, ft, deep) for c in ('Record', 'Map', 'Choice', 'Array') for ft in list(gen.TOPTS) + ['T0', 'T1', 'n:V', 'A']] + [('misc',), ('tag',), ('chars',), ('num',)]


class Bad(Exception):
    pass


def eq(what, want, got):
    if got[0] != 'ok' or not same(got[1], want):
        raise Bad(f'{what}: want {want!r}, got {got!r}')


def perms(o, deep):
    o = list(o)
    if len(o) <= (5 if deep else 4):
        return [list(p) for p in itertools.permutations(o)]
    return [o, o[::-1]] + [o[i:] + o[:i] for i in range(1, len(o))]


def common(o, canon):
    """Conversions every option list supports; canon: result of sorting seen for other orders"""
    fo, to = parse(o)
    a = list(o)
    if not fo:
        eq('topts_s2d', to, call(jadn.topts_s2d, a))
        eq('topts_s2d of a tuple', to, call(jadn.topts_s2d, tuple(a)))
    else:
        r = call(jadn.topts_s2d, a)
        if r[0] != 'rej':
            raise Bad(f'topts_s2d accepts field options {a}: {r}')
    r = call(jadn.ftopts_s2d, a)
    eq('ftopts_s2d', [fo, to], (r[0], list(r[1])) if r[0] == 'ok' else r)
    r = call(jadn.opts_d2s, {**to, **fo})
    if r[0] != 'ok' or parse(r[1]) != (fo, to) or len(r[1]) != len(o):
        raise Bad(f'opts_d2s: {r}')
    again = call(jadn.ftopts_s2d, r[1])
    if again[0] != 'ok' or tuple(again[1]) != (fo, to):
        raise Bad(f'ftopts_s2d of opts_d2s: {again}')
    for n, i in NAMES.items():
        at = [k for k, x in enumerate(o) if x[0] == i]
        eq(f'get_optx {n}', at[0] if at else None, call(jadn.get_optx, a, n))
        d = list(o)
        r = call(jadn.del_opt, d, n)
        if r[0] != 'ok' or d != [x for x in o if x[0] != i]:
            raise Bad(f'del_opt {n}: {r} {d}')
    if a != list(o):
        raise Bad(f'argument modified: {a}')
    r = call(jadn.opts_sort, a)
    if r[0] != 'ok' or sorted(a) != sorted(o):
        raise Bad(f'opts_sort: {r} {a}')
    key = tuple(sorted(o))
    if canon.setdefault(key, a) != a:
        raise Bad(f'opts_sort: {a} for one order, {canon[key]} for another')
    b = list(a)
    jadn.opts_sort(b)
    if a != b:
        raise Bad(f'opts_sort: sorting again gives {b}')
    return fo, to


def kept(to, base):
    """Options that texts must keep"""
    return {k: v for k, v in to.items() if not (k == 'minv' and v == 0 and base != 'Integer')}


def types(job, rec):
    _, base, deep = job
    canon, strs = {}, {}
    for n, o in enumerate(gen.optsets(base, 5)):
        if wf.ok(fresh({'types': [['A', base, o, '', []]] + gen.AUX})) is not True:
            continue
        if n == 0:
            rec.sample({'base': base, 'options': o})
        for p in perms(o, deep):
            rec.state(base, p)
            rec.trans()
            try:
                _, to = common(p, canon)
                a = list(p)
                r = call(jadn.jadn2typestr, base, a)
                if r[0] != 'ok' or a != p:
                    raise Bad(f'jadn2typestr: {r} {a}')
                if strs.setdefault(tuple(sorted(p)), r[1]) != r[1]:
                    raise Bad(f'jadn2typestr depends on the order of options: {r[1]}, {strs[tuple(sorted(p))]}')
                for text in (r[1], f' = {r[1]} ', f'= {r[1]}'):
                    b = call(jadn.typestr2jadn, text)
                    if b[0] != 'ok' or b[1][0] != base or b[1][2] != [] or parse(b[1][1]) != ({}, kept(to, base)) or len(b[1][1]) != len(kept(to, base)):
                        raise Bad(f'typestr2jadn of {text!r}: {b}')
                eq('id_type', base == 'Array' or 'id' in to or 'combine' in to, call(jadn.id_type, ['A', base, p, '', []]))
            except Bad as e:
                rec.fail(f'type|{base}|{p}|{e}'[:300], {'base': base, 'options': p, 'what': str(e)}, f'import jadn\nprint(jadn.topts_s2d({p!r}), jadn.jadn2typestr({base!r}, {p!r}))\n')
                continue
            rec.outcome('type')
            rec.trace()


def fields(job, rec):
    _, container, ft, deep = job
    canon = {}
    for o in gen.optsets(ft, 3 if deep or container == 'Record' else 1) if ft in gen.TOPTS else [[], ['q']]:
        for m in gen.MULT:
            for x in gen.FEXTRA:
                if x and x[0][0] == '&' and ft in gen.TOPTS or o == ['q'] and not any(z[0] == ']' and z != ']1' for z in m):
                    continue
                opts = o + m + x
                if ft in gen.REQ[0] and sum(z[0] in '*+' for z in opts) < gen.REQ[0][ft]:
                    continue
                if wf.ok(fresh({'types': [['A', container, [], '', [[1, 'f', ft, opts, 'dd'], [2, 't', 'Enumerated', ['#T1'], ''], [3, 'u', 'String', [], '']]]] + gen.AUX})) is False:
                    continue
                for p in ([opts] if not deep and len(opts) > 3 else perms(opts, deep)):
                    fdef = [1, 'f', ft, p, 'dd']
                    tdef = ['A', container, [], '', [fdef, [2, 't', 'Enumerated', ['#T1'], ''], [3, 'u', 'String', [], '']]]
                    rec.state(container, ft, p)
                    rec.trans()
                    try:
                        fo, to = common(p, canon)
                        for tid in ([], ['=']) if container in ('Map', 'Choice') else ([],):
                            td = fresh([tdef[0], tdef[1], tid, '', tdef[4]])
                            r = call(jadn.jadn2fielddef, td[4][0], td)
                            if r[0] != 'ok' or td[4] != tdef[4] or len(r[1]) != 4 or not all(isinstance(z, str) for z in r[1]):
                                raise Bad(f'jadn2fielddef: {r}')
                            b = call(jadn.fielddef2jadn, 1, *r[1])
                            if b[0] != 'ok':
                                raise Bad(f'fielddef2jadn of {r[1]}: {b}')
                            all_ = [b[1]] + fresh(td[4][1:])
                            c = call(jadn.cleanup_tagid, all_)
                            if c[0] != 'ok' or c[1] is not all_ or c[1][1:] != td[4][1:]:
                                raise Bad(f'cleanup_tagid: {c}')
                            g = c[1][0]
                            wfo = {k: v for k, v in fo.items() if not (k in ('minc', 'maxc') and v == 1)}
                            if g[:3] != [1, 'f', ft] or g[4] != 'dd' or parse(g[3]) != (wfo, kept(to, ft)) or len(g[3]) != len(wfo) + len(kept(to, ft)):
                                raise Bad(f'fielddef2jadn(jadn2fielddef) = {g} through {r[1]}')
                            lo, hi = fo.get('minc', 1), fo.get('maxc', 1)
                            mult = '1' if lo == hi == 1 else f'{lo}..{"*" if hi == 0 else hi}'
                            if r[1][2] != mult:
                                raise Bad(f'multiplicity {r[1][2]!r}, want {mult!r}')
                    except Bad as e:
                        rec.fail(f'field|{container}|{ft}|{p}|{e}'[:300], {'container': container, 'field': fdef, 'what': str(e)})
                        continue
                    rec.outcome('field')
                    rec.trace()
    if ft == 'Enumerated':          # items
        for tid in ([], ['='], ['X']):
            for item in ([1, 'a', ''], [0, 'a b', 'd'], [7, 'x:y', 'k:: v'] if not tid else [7, 'x', 'k: v'], [2 ** 31, '10', 'it']):
                td = ['E', 'Enumerated', tid, '', [item]]
                r = call(jadn.jadn2fielddef, item, td)
                b = call(jadn.fielddef2jadn, item[0], *r[1]) if r[0] == 'ok' else r
                rec.trans()
                rec.state('item', tid, item)
                if b[0] != 'ok' or b[1] != item:
                    rec.fail(f'item|{tid}|{item}', {'item': item, 'options': tid, 'text': repr(r), 'got': repr(b)})
                else:
                    rec.trace()


def misc(rec):
    for lo in range(0, 13):
        for hi in [0] + list(range(max(lo, 1), 13)) + [100, 255]:
            for drop in ((), ('minc',), ('maxc',)):
                d = {k: v for k, v in (('minc', lo), ('maxc', hi)) if k not in drop}
                a, b = d.get('minc', 1), d.get('maxc', 1)
                if b and b < a:
                    continue
                want = '1' if a == b == 1 else f'{a}..{"*" if b == 0 else b}'
                r = call(jadn.multiplicity_str, dict(d))
                rec.trans()
                rec.state('mult', lo, hi, drop)
                if r != ('ok', want):
                    rec.fail(f'mult|{d}', {'options': d, 'want': want, 'got': repr(r)})
                for text in {want, str(a)} if a == b else {want}:
                    g = call(jadn.fielddef2jadn, 3, 'g', 'String', text, '')
                    exp = {k: v for k, v in (('minc', a), ('maxc', b)) if v != 1}
                    if g[0] != 'ok' or parse(g[1][3]) != (exp, {}) or g[1][:3] != [3, 'g', 'String']:
                        rec.fail(f'mult|read|{text}', {'text': text, 'want': exp, 'got': repr(g)})
                    else:
                        rec.trace()
    for cfg in ({}, None, {'config': {}}, {'config': {'$MaxString': 7}}, {'config': {'$MaxElements': 3, '$Sys': '.'}}, {'title': 't'}):
        r = call(jadn.get_config, copy.deepcopy(cfg))
        rec.trans()
        rec.state('config', cfg)
        base = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100, '$Sys': '$', **(cfg or {}).get('config', {})}
        if r[0] != 'ok' or any(r[1].get(k) != v for k, v in base.items()):
            rec.fail(f'config|{cfg}', {'info': cfg, 'got': repr(r)})
        else:
            r[1].clear()
            rec.trace()
    for t in list(gen.TOPTS) + ['T0', 'string', '', 'Any', 'n:V']:
        want = t in gen.TOPTS, t in ('Array', 'Choice', 'Map', 'Record')
        got = is_builtin(t), has_fields(t)
        rec.trans()
        if got != want:
            rec.fail(f'builtin|{t}', {'type': t, 'is_builtin, has_fields': got})
    for args in (('m',), ('m', 2), ()):
        r = call(jadn.raise_error, *args)
        rec.trans()
        if r[0] != 'rej':
            rec.fail(f'raise_error|{args}', {'got': repr(r)})


def numbers(rec):
    """Limits of every magnitude and precision keep their value in tables and texts"""
    ints = [x for b in (0, 1, 9, 10, 99, 12345678, 2 ** 31, 2 ** 53 + 1, 10 ** 25) for x in (b, -b)]
    floats = [x for b in (0.0, 0.1, 1.5, 100.0, 1 / 3, 1234567.125, 123456789012.25, 1e16, 1e22, 1e-07, 5e-324, 1.7976931348623157e+308) for x in (b, -b)]
    for base, lo, hi, vals in (('Integer', '{', '}', ints), ('String', '{', '}', ints), ('Number', 'y', 'z', floats)):
        for a, b in itertools.product([None] + vals, repeat=2):
            if base == 'String' and (a is not None and a < 0 or b is not None and b < 0) or a is None is b:
                continue
            o = ([lo + str(a)] if a is not None else []) + ([hi + str(b)] if b is not None else [])
            rec.trans()
            rec.state('num', base, o)
            try:
                _, to = common(o, {})
                r = call(jadn.jadn2typestr, base, list(o))
                back = call(jadn.typestr2jadn, r[1]) if r[0] == 'ok' else r
                if back[0] != 'ok' or back[1][0] != base or back[1][2] != [] or parse(back[1][1]) != ({}, kept(to, base)):
                    raise Bad(f'typestr2jadn of {r!r}: {back!r}')
            except Bad as e:
                rec.fail(f'num|{base}|{o}|{e}'[:300], {'base': base, 'options': o, 'what': str(e)}, f'import jadn\nprint(jadn.opts_d2s(jadn.topts_s2d({o!r})), jadn.typestr2jadn(jadn.jadn2typestr({base!r}, {o!r})))\n')
                continue
            rec.trace()


def chars(rec):
    """Every character that is not an option identifier is rejected"""
    for n in list(range(32, 0x180)) + [0x20ac, 0x1f600, 0]:
        c = chr(n)
        for rest in ('', '1', 'x'):
            rec.trans()
            rec.state('char', n, rest)
            for f, known in ((jadn.topts_s2d, TYPE), (jadn.ftopts_s2d, {**TYPE, **FIELD})):
                if c in known:
                    continue
                for l in ([c + rest], ['=', c + rest]):
                    r = call(f, l)
                    if r[0] == 'ok':
                        rec.fail(f'char|{n}|{f.__name__}', {'options': l, 'what': 'unknown option accepted', 'got': repr(r)})
                    else:
                        rec.outcome('unknown')
    for n in ('Id', 'none', '', 'min'):
        r = call(jadn.opts_d2s, {n: 1})
        rec.trans()
        if r[0] == 'ok':
            rec.fail(f'd2s|{n}', {'option': n, 'what': 'unknown option name accepted', 'got': repr(r)})
    rec.trace()


def tags(rec):
    """Tag references by name become ids, wherever the fields stand; ids are kept"""
    fs = [[1, 'a', 'C', ['&t'], ''], [4, 't', 'E', [], ''], [7, 'u', 'E', ['[0'], ''], [9, 'd', 'C', ['[0', '&u'], '']]
    for perm in itertools.permutations(range(4)):
        for kinds in itertools.product((0, 1), repeat=2):
            src = fresh([fs[k] for k in perm])
            want = fresh(src)
            for f in src:
                for k, o in enumerate(f[3]):
                    if o in ('&t', '&u') and kinds[o == '&u']:
                        f[3][k] = {'&t': '&4', '&u': '&7'}[o]
            for f in want:
                f[3] = [{'&t': '&4', '&u': '&7'}.get(o, o) for o in f[3]]
            r = call(jadn.cleanup_tagid, src)
            rec.trans()
            rec.state('tag', perm, kinds)
            if r[0] != 'ok' or r[1] != want:
                rec.fail(f'tag|{perm}|{kinds}', {'want': want, 'got': repr(r)})
            else:
                rec.outcome('tag')
                rec.trace()
    for n, base, cid in itertools.product((0, 1, 2, 10, 2 ** 31), ('Map', 'Record', 'Array'), (0, 1)):
        if base != 'Map' and (n != 1 or cid):
            continue
        fs = [[n, 'a', 'Sel', [], ''], [n + 1, 'd', 'C', [f'&{n}'], 'dd']]
        td = ['A', base, ['='] if cid else [], '', fs]
        rec.trans()
        rec.state('tagid', n, base, cid)
        b = [call(jadn.fielddef2jadn, f[0], *r[1]) if r[0] == 'ok' else r for f in fs for r in [call(jadn.jadn2fielddef, fresh(f), fresh(td))]]
        r = call(jadn.cleanup_tagid, [x[1] for x in b])
        if r[0] != 'ok' or r[1] != fs:
            rec.fail(f'tagid|{n}|{base}|{cid}', {'type': td, 'what': 'tag lost in text', 'got': repr(r)})
        else:
            rec.trace()
    for items in ([[1, 'a', ''], [2, '&b', '']], []):
        r = call(jadn.cleanup_tagid, fresh(items))
        if r != ('ok', items):
            rec.fail('tag|items', {'got': repr(r)})


def run(job, rec):
    {'type': types, 'field': fields}.get(job[0], lambda j, r: {'misc': misc, 'chars': chars, 'tag': tags, 'num': numbers}[j[0]](r))(job, rec)


if __name__ == '__main__':
    mc.main(globals())

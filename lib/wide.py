"""Types with many fields, items, alternatives or elements, and values of them."""
SIZES = (9, 10, 11, 13, 17, 33, 70)
FT = (('Integer', 7), ('String', 'x'), ('Sub', {'s': 1}), ('Boolean', False), ('Lst', ['p', 'q']), ('E', 'b'), ('Hex', b'\x01'))
AUX = [['Sub', 'Record', [], '', [[1, 's', 'Integer', [], ''], [2, 't', 'String', ['[0'], '']]], ['Lst', 'ArrayOf', ['*String'], '', []],
       ['E', 'Enumerated', [], '', [[3, 'a', ''], [1, 'b', '']]], ['Hex', 'Binary', ['/x'], '', []]]
ABSENT = object()


def ids(n, order):
    """Field ids: ascending, descending, in the order of their texts, with gaps and beyond 16 and 32 bits"""
    return {'asc': list(range(1, n + 1)), 'desc': list(range(n, 0, -1)), 'text': sorted(range(1, n + 1), key=str),
            'gaps': [i * i * 37 % 70001 for i in range(1, n + 1)], 'huge': [2 ** 16 * i + 255 for i in range(n)],
            'zero': [10 * i for i in range(n)]}[order]


ORDERS = ('asc', 'desc', 'text', 'gaps', 'huge', 'zero')


def container(base, opts, n, order, required):
    """-> types with the root T, field names, ids, values per field; required: 'all', 'none', 'odd' or 'last'"""
    fid = ids(n, order)
    req = [{'all': True, 'none': False, 'odd': i % 2 == 0, 'last': i == n - 1}[required] for i in range(n)]
    names = [f'f{i}' for i in range(1, n + 1)]
    fields = [[fid[i], names[i], FT[i % 7][0], [] if req[i] or base == 'Choice' else ['[0'], ''] for i in range(n)]
    return [['T', base, opts, '', fields]] + AUX, names, fid, [FT[i % 7][1] for i in range(n)], req


def rows(good, req):
    """Presence patterns: all, one missing, one present (with the required ones), prefixes, suffixes, one with a bad value"""
    n = len(good)
    yield list(good)
    keep = [g if r else ABSENT for g, r in zip(good, req)]
    yield list(keep)
    for i in range(n):
        yield good[:i] + [ABSENT] + good[i + 1:]
        yield keep[:i] + [good[i]] + keep[i + 1:]
        yield good[:i] + keep[i:]
        yield keep[:i] + good[i:]
        yield good[:i] + [[None, 1.5]] + good[i + 1:]

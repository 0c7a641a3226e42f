"""C20: strip_comments removes or truncates descriptions and changes nothing else."""
import copy
import mc
import gen
from explore import call, same, fresh
import jadn

ID = 'C20'
BOUNDS = 'the enumerated schemas of C16, in four and five column form, x widths 0-9, 12, 40, 255 and the default; descriptions of every length 0-14 in every position, every pair of lengths of type and field in every container'
RULE = 'state = (schema, width); transition = strip_comments compared with its definition; trace = schema stripped at every width'
EXPECT_OUTCOMES = ('same',)
WIDTHS = (None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 40, 255)


def jobs(tier):
    deep = tier == 'thorough'
    return [('len', n, deep) for n in range(15)] + gen.jobs(deep, ['types', 'fields:Record', 'fields:Choice', 'desc', 'items', 'names', 'refs', 'infos', 'combos', 'wide'])


def cut(d, w):
    if len(d) <= w:
        return d
    return d[:w - 2] + '..' if w > 1 else d[:w]


def expected(s, w):
    out = copy.deepcopy(s)
    for t in out['types']:
        t[3] = cut(t[3], w)
        for f in t[4] if len(t) > 4 else []:
            f[-1] = cut(f[-1], w)
    return out


def schemas(job):
    if job[0] == 'len':
        for k in range(15):
            for b in ('Record', 'Map', 'Array', 'Choice', 'Enumerated'):
                tail = [] if b == 'Enumerated' else ['String', []]
                for x in range(0, 15, 2):
                    yield {'types': [['A', b, [], 'abcdefghijklmnop'[:job[1]], [[1, 'f', *tail, 'qrstuvwxyzABCDEF'[:k]], [2, 'g', *tail, 'GHIJKLMNOPQRSTUV'[:x]]]], ['B', 'ArrayOf', ['*A'], 'ABCDEFGHIJKLMNOP'[:k], []]]}
            d, e = 'abcdefghijklmnop'[:job[1]], 'qrstuvwxyzABCDEF'[:k]
            yield {'types': [['A', 'String', [], d], ['R', 'Record', ['{1'], e, [[1, 'f', 'A', ['[0'], d], [2, 'g', 'A', [], e]]],
                             ['E', 'Enumerated', [], d, [[1, d + 'x', e], [2, 'y', d]]], ['C', 'Choice', [], d, []]]}
    else:
        for s in gen.schemas(job):
            yield s
            if all(not t[4] for t in s['types'][:1]):
                yield {**s, 'types': [t[:4] if not t[4] else t for t in s['types']]}


def run(job, rec):
    for n, s in enumerate(schemas(job)):
        s = fresh(s)
        if n == 1:
            rec.sample(s)
        good = True
        for w in WIDTHS if job[0] == 'len' or job[2] or job[1] == 'desc' else (None, 0, 3):
            rec.states.add(hash((repr(s), w)))
            rec.trans()
            arg = copy.deepcopy(s)
            r, c = call(jadn.transform.strip_comments, arg, *([] if w is None else [w]))
            why = 'failed' if r != 'ok' else 'argument modified' if not same(arg, s) else None if same(c, expected(s, w or 0)) else 'wrong result'
            if not why and not same(jadn.transform.strip_comments(c, w or 0), c):
                why = 'not idempotent'
            if why:
                good = False
                rec.outcome('differ')
                rec.fail(f'{w}|{s!r}'[:500], {'schema': s, 'width': w, 'got': c, 'what': why}, f'import jadn\nprint(jadn.transform.strip_comments({s!r}, {w or 0}))\n')
                break
            rec.outcome('same')
        if good:
            rec.trace()


if __name__ == '__main__':
    mc.main(globals())

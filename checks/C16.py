"""C16: a schema written as JIDL and read back is the same schema."""
import re
import mc
import gen
import docs
from explore import call, same, fresh
import jadn

ID = 'C16'
BOUNDS = ('every base type with every set of up to 4 options out of 2-10, 0-2 fields; every field type x option set (up to 3; quick: 1 except in Record) x 11 '
          'multiplicities x dir/key/link/tag in Record, Map, Choice and Array; all descriptions, item names and patterns of length '
          '1-2 over 24-38 characters and 3 (thorough 4) over 8-13; numeric bounds; boundary names and ids; information blocks; all '
          'sequences of 2 (thorough 3) extension fragments; 12 separator and control characters and line breaks inside texts; 6 column styles for part of them')
RULE = 'state = (schema, style); transition = dumps or loads; trace = complete round trip with the same meaning and a stable text'
ASSUMPTIONS = ['line breaks in descriptions are read back as spaces; descriptions are without surrounding whitespace, not starting with //', 'item names contain no comment separator (" //") '
               'and no surrounding whitespace', 'patterns with an unescaped quote do not also contain " //"', 'page truncation is lossy by design and excluded']
EXPECT_OUTCOMES = ('roundtrip',)
STYLES = [{'id': 0}, {'id': 9, 'name': 1, 'type': 1}, {'name': 0, 'type': 0, 'info': 0}, {'desc': 1}, {'desc': 90}, {'type': 120, 'info': 40}]


LINES = ('a\nb', 'a\r\nb', 'a\n\n b', 'a\n2 x String', 'a\nB = String', 'a\ntitle: "x"', 'a //\n// b', 'a\n3 x', 'a\rb')


def flat(t):
    return re.sub(r'\s*[\r\n]\s*', ' ', t)


def jobs(tier):
    return gen.jobs(tier == 'thorough') + [('separators',), ('lines',)]


def run(job, rec):
    if job[0] == 'separators':
        for c in '\t\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\ufeff':
            for t in (f'a{c}b', f'a{c} // b', f'a {c}{c}2 c', f'a{c}B = String', f'a{c}2 x String'):
                for s in [*gen.described(t), *gen.items(t), *gen.patterned(t)]:
                    docs.roundtrip(rec, s, 'jidl', jadn.convert.jidl_dumps, jadn.convert.jidl_loads,
                                   'text = jadn.convert.jidl_dumps(s)\nprint(text)\nprint(json.dumps(jadn.convert.jidl_loads(text)))')
        return
    if job[0] == 'lines':
        for x in LINES:
            for s in gen.described(x):
                one = fresh(s)
                for t in one['types']:
                    t[3] = flat(t[3])
                    for f in t[4]:
                        f[-1] = flat(f[-1])
                for style in [None, *STYLES]:
                    rec.trans(2)
                    rec.state(x, repr(style))
                    r, text = call(lambda: jadn.convert.jidl_dumps(fresh(s), style))
                    r, got = call(jadn.convert.jidl_loads, text) if r == 'ok' else (r, text)
                    if r != 'ok' or not same(gen.meaning(got), gen.meaning(one)):
                        rec.fail(f'lines {x!r} {style}', {'schema': s, 'what': 'lines of a description are not kept apart from definitions', 'text': text, 'got': repr(got)[:800]},
                                 f'import jadn\ntext = jadn.convert.jidl_dumps({s!r}, {style!r})\nprint(text)\nprint(jadn.convert.jidl_loads(text))\n')
                    else:
                        rec.outcome('roundtrip')
                        rec.trace()
        return
    for n, pack in enumerate(gen.packs(job, 8)):
        if n == 0:
            rec.sample(pack[1][0])
        docs.roundtrip_pack(rec, pack, 'jidl', jadn.convert.jidl_dumps, jadn.convert.jidl_loads,
                            'text = jadn.convert.jidl_dumps(s)\nprint(text)\nprint(json.dumps(jadn.convert.jidl_loads(text)))')
        if n % (4 if job[3] else 16) == job[2] or job[1] in ('infos', 'names'):
            for st in STYLES:
                docs.roundtrip_pack(rec, pack, 'jidl', lambda x: jadn.convert.jidl_dumps(x, st), jadn.convert.jidl_loads,
                                    f'text = jadn.convert.jidl_dumps(s, {st!r})\nprint(text)\nprint(json.dumps(jadn.convert.jidl_loads(text)))', repr(st))


if __name__ == '__main__':
    mc.main(globals())

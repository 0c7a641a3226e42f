"""C17: a schema written as HTML and read back is the same schema."""
import mc
import gen
import docs
import jadn

ID = 'C17'
BOUNDS = ('every base type with every set of up to 4 options out of 2-10, 0-2 fields; every field type x option set (up to 3; quick: 1 '
          'except in Record) x 11 multiplicities x dir/key/link/tag in Record, Map, Choice and Array; all descriptions, item names and '
          'patterns of length 1-2 over 24-38 characters and 3 (thorough 4) over 8-13; numeric bounds; boundary names and ids; '
          'information blocks; all sequences of 2 (thorough 3) extension fragments')
RULE = 'state = schema; transition = dumps or loads; trace = complete round trip with the same meaning and a stable text'
ASSUMPTIONS = ['line breaks are line feeds (HTML has no other); descriptions are without surrounding whitespace, not starting with //', 'item names contain no " //" and no surrounding whitespace']
EXPECT_OUTCOMES = ('roundtrip',)


LINES = ('a\nb', 'a\n\nb', 'a\n  b', 'a  \nb', 'a\nb:: c', 'a:: b\nc', 'a\n// b', 'a\tb', '<p>\n</p>')


def jobs(tier):
    return gen.jobs(tier == 'thorough') + [('lines',)]


def run(job, rec):
    if job[0] == 'lines':
        for t in LINES:
            for s in [*gen.described(t), *gen.items(t)]:
                docs.roundtrip(rec, s, 'html', jadn.convert.html_dumps, jadn.convert.html_loads,
                               'text = jadn.convert.html_dumps(s)\nprint(text)\nprint(json.dumps(jadn.convert.html_loads(text)))')
        return
    for n, pack in enumerate(gen.packs(job, 8)):
        if n == 0:
            rec.sample(pack[1][0])
        docs.roundtrip_pack(rec, pack, 'html', jadn.convert.html_dumps, jadn.convert.html_loads,
                            'text = jadn.convert.html_dumps(s)\nprint(text)\nprint(json.dumps(jadn.convert.html_loads(text)))')


if __name__ == '__main__':
    mc.main(globals())

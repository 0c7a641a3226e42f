"""C25: Markdown tables contain the whole schema."""
import copy
import json
import re
import mc
import gen
from explore import call, same
from ref import parse_opts
import jadn
from jadn.utils import typestr2jadn, fielddef2jadn, cleanup_tagid

ID = 'C25'
BOUNDS = 'the enumerated schemas of C16, descriptions, item names and patterns with every pair (part of the triples) of critical characters including | and *, line breaks in descriptions'
RULE = 'state = schema; transition = markdown_dumps; trace = document whose tables give back every type, field, option, multiplicity and description'
ASSUMPTIONS = ['line breaks in descriptions of fields are spaces in a table; a backslash directly before a bar is excluded (its reading differs between Markdown dialects)']
EXPECT_OUTCOMES = ('tables',)


class Bad(Exception):
    pass


def cells(line):
    """Cells of a table row: separated by bars that are not escaped"""
    if not (line.startswith('|') and line.endswith('|')):
        raise Bad(f'not a table row: {line!r}')
    parts = re.split(r'(?<!\\)\|', line[1:-1])
    return [p.strip().replace('\\|', '|') for p in parts]


def typ(text, base, opts, what):
    try:
        b, o, f = typestr2jadn(text)
    except Exception as e:
        raise Bad(f'{what}: {text!r} {e!r}')
    if b != base or f or gen.options(base, o) != gen.options(base, opts):
        raise Bad(f'{what}: {text!r} for {base} {opts}')


def read(doc, s):
    """Compare a document with the schema it should contain; raises Bad"""
    lines = [x for x in doc.split('\n') if x.strip()]
    info = {}
    while lines and not lines[0].startswith('|') and (m := re.fullmatch(r' *([-\w]+): (.*)', lines[0])) and m.group(1) in s.get('info', {}):
        info[m.group(1)] = json.loads(m.group(2))
        lines.pop(0)
    if not same(info, s.get('info', {})):
        raise Bad(f'information {info}')
    for t in s['types']:
        if t[4]:
            if t[3]:
                if not lines or lines.pop(0) != t[3]:
                    raise Bad(f'description of {t[0]}')
            m = re.fullmatch(r'\*\*Type: (\S+) \((.*)\)\*\*', lines.pop(0))
            if not m or m.group(1) != t[0]:
                raise Bad(f'heading of {t[0]}')
            typ(m.group(2).replace('\\*', '*'), t[1], t[2], t[0])
        table = []
        while lines and not re.fullmatch(r'\*{10}', lines[0]):
            table.append(lines.pop(0))
        if not lines:
            raise Bad('end of table')
        lines.pop(0)
        if len(table) < 2:
            raise Bad('no table')
        head = cells(table[0])
        bar = table[1].strip('|').split('|')
        if len(bar) != len(head) or any(not re.fullmatch(r'-{3,}', b.strip()) for b in bar):
            raise Bad(f'delimiter row {table[1]!r}')
        rows = [cells(x) for x in table[2:]]
        if any(len(r) != len(head) for r in rows):
            raise Bad(f'number of cells: {table}')
        if not t[4]:
            if len(rows) != 1 or rows[0][0] != f'**{t[0]}**' or rows[0][2] != t[3].strip() or head != ['Type Name', 'Type Definition', 'Description']:
                raise Bad(f'table of {t[0]}: {rows}')
            typ(rows[0][1], t[1], t[2], t[0])
            continue
        enum = t[1] == 'Enumerated'
        idt = t[1] == 'Array' or '=' in t[2] or any(o[0] == 'C' for o in t[2])
        if head != (['ID'] + ([] if idt else ['Item' if enum else 'Name']) + ([] if enum else ['Type', '\\#']) + ['Description']):
            raise Bad(f'header {head}')
        if len(rows) != len(t[4]):
            raise Bad(f'{len(rows)} rows for {len(t[4])} fields of {t[0]}')
        back = []
        for r, f in zip(rows, t[4]):
            r = dict(zip(head, r))
            desc = f[2 if enum else 4]
            d = '' if enum or '<' not in f[3] else '/'
            if r['ID'] != str(f[0]) or r['Description'] != (f'**{f[1]}** - {desc.strip()}'.strip() if idt else desc.strip()):
                raise Bad(f'row {r} for {f}')
            if not idt and r['Item' if enum else 'Name'] != f'**{f[1]}{d}**':
                raise Bad(f'name in {r} for {f}')
            if not enum:
                try:
                    back.append(fielddef2jadn(f[0], f[1] + d, r['Type'].replace('\\*', '*'), r['\\#'].replace('\\*', '*'), ''))
                except Exception as e:
                    raise Bad(f'row {r}: {e!r}')
        cleanup_tagid(back)
        for b, f in zip(back, t[4]):
            o = gen.options(f[2], f[3])
            if idt:
                o.pop('dir', None)
                b[3] = [x for x in b[3] if x[0] != '<']
            if [b[2], gen.options(b[2], b[3])] != [f[2], o]:
                raise Bad(f'field {f} shown as {b}')
    if lines:
        raise Bad(f'extra lines {lines[:3]}')


def one(rec, s, shown=None):
    arg = copy.deepcopy(s)
    rec.trans()
    rec.state(repr(s))
    r, text = call(jadn.convert.markdown_dumps, arg)
    why = None
    if r != 'ok':
        why = f'failed: {text}'
    elif not same(arg, s):
        why = 'argument modified'
    else:
        try:
            read(text, shown or s)
        except (Bad, ValueError, KeyError, IndexError) as e:
            why = repr(e)
    if why:
        return why, text
    rec.outcome('tables')
    rec.trace()


def jobs(tier):
    return gen.jobs(tier == 'thorough') + [('lines',)]


LINES = ('a\nb', 'a\r\nb', 'a\n\nb', 'a | b\n| c | d |', 'x\n---\ny', 'a\n1 b', 'a\rb')


def oneline(s):
    """The schema as a table can show it"""
    flat = lambda t: re.sub(r'\s*[\r\n]\s*', ' ', t)
    out = copy.deepcopy(s)
    for t in out['types']:
        for f in t[4]:
            f[-1] = flat(f[-1])
        if not t[4]:
            t[3] = flat(t[3])
    return out


def run(job, rec):
    if job[0] == 'lines':
        for x in LINES:
            for s in gen.described(x):
                s['types'] = [t[:3] + ['' if t[4] else t[3]] + t[4:] for t in s['types']]
                bad = one(rec, s, oneline(s))
                if bad:
                    rec.fail(f'{bad[0]}|{s!r}'[:500], {'schema': s, 'what': bad[0], 'text': bad[1]}, f'import jadn\nprint(jadn.convert.markdown_dumps({s!r}))\n')
        return
    for s, group in gen.packs(job, 20):
        if '\\|' in repr(s).replace('\\\\', '\\'):
            s = None
        if s is None or one(rec, s):
            for g in group:
                if '\\|' in repr(g).replace('\\\\', '\\'):
                    continue
                bad = one(rec, g)
                if bad:
                    rec.fail(f'{bad[0]}|{g!r}'[:500], {'schema': g, 'what': bad[0], 'text': bad[1]}, f'import jadn\nprint(jadn.convert.markdown_dumps({g!r}))\n')
    rec.sample({'schema': repr(s)[:300]})


if __name__ == '__main__':
    mc.main(globals())

"""C24: diagrams show exactly the types of a schema and the references between them."""
import copy
import itertools
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET
import mc
import gen
from explore import call, same, fresh
from ref import parse_opts
from zoo import BASE
import jadn
from jadn.utils import typestr2jadn, fielddef2jadn, cleanup_tagid

ID = 'C24'
BOUNDS = ('the enumerated schemas of C16 (base types x option sets, field types x options x multiplicities in every container, texts, names, fragments) x formats x '
          'details x edge_label x edge_mult x attributes x links x link_horizontal (quick: all combinations for single fragments and names; defaults, all on and all off for the rest)')
RULE = 'state = (schema, style); transition = diagram_dumps; trace = diagram that parses as DOT / PlantUML into exactly the graph of the schema'
ASSUMPTIONS = ['the style option enums is not implemented and not judged', 'information is single line']
EXPECT_OUTCOMES = ('graph',)
PRIM = ('Binary', 'Boolean', 'Integer', 'Number', 'String')
FLAGS = ('edge_label', 'edge_mult', 'attributes', 'links', 'link_horizontal')


def styles(full):
    for f, d in itertools.product(('graphviz', 'plantuml'), ('conceptual', 'logical', 'information')):
        for bits in itertools.product((True, False), repeat=len(FLAGS)):
            if full or sum(bits) in (0, 5):
                yield {'format': f, 'detail': d, **dict(zip(FLAGS, bits))}
        yield {'format': f, 'detail': d}


DEFAULT = {'edge_label': True, 'edge_mult': True, 'attributes': False, 'links': True, 'link_horizontal': True}


class Bad(Exception):
    pass


# ---- DOT
TOK = re.compile(r'\s+|(?P<id>[A-Za-z_][A-Za-z0-9_]*|-?\d*\.\d+|-?\d+)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<op>->|[\[\]{}=,;])|(?P<html><)')


def dot_tokens(text):
    n = 0
    while n < len(text):
        m = TOK.match(text, n)
        if not m:
            raise Bad(f'DOT syntax at {text[n:n + 40]!r}')
        if m.lastgroup == 'html':
            depth, e = 0, n
            while True:
                if e >= len(text):
                    raise Bad('unterminated HTML label')
                depth += {'<': 1, '>': -1}.get(text[e], 0)
                e += 1
                if depth == 0:
                    break
            yield 'html', text[n + 1:e - 1]
            n = e
        else:
            n = m.end()
            if m.lastgroup:
                yield m.lastgroup, m.group()


def parse_dot(text):
    """-> (nodes {id: label}, edges [(from, to, attributes)])"""
    body = '\n'.join(x for x in text.split('\n') if not x.startswith('#'))
    toks = list(dot_tokens(body)) + [('end', '')]
    if [t[1] for t in toks[:3]] != ['digraph', 'G', '{'] or toks[-2][1] != '}':
        raise Bad('not a digraph')
    toks, n = toks[3:-2] + [('end', '')], 0
    nodes, edges = {}, []

    def attrs(n):
        out = {}
        if toks[n][1] == '[' and toks[n][0] == 'op':
            n += 1
            while toks[n][1] != ']':
                (k, name), eq, (kind, val) = toks[n:n + 3]
                if k not in ('id', 'str') or eq[1] != '=' or kind not in ('id', 'str', 'html') or name in out:
                    raise Bad(f'attribute {toks[n:n + 3]}')
                out[name] = (kind, val[1:-1] if kind == 'str' else val)
                n += 3
                if toks[n] == ('op', ','):
                    n += 1
                elif toks[n][1] != ']':
                    raise Bad(f'attributes {toks[n]}')
            n += 1
        return out, n
    while toks[n][0] != 'end':
        if toks[n] == ('op', ';'):
            n += 1
            continue
        if toks[n][0] != 'id':
            raise Bad(f'statement {toks[n]}')
        a = toks[n][1]
        if toks[n + 1] == ('op', '->'):
            if toks[n + 2][0] != 'id':
                raise Bad('edge')
            at, m = attrs(n + 3)
            edges.append((a, toks[n + 2][1], at))
            n = m
        elif toks[n + 1] == ('op', '='):
            n += 3
        else:
            at, n = attrs(n + 1)
            if a not in ('graph', 'node', 'edge'):
                if a in nodes:
                    raise Bad(f'node {a} twice')
                nodes[a] = at
    out = {}
    for a, at in nodes.items():
        if at.get('label', ('', ''))[0] != 'html':
            raise Bad(f'label of {a}')
        try:
            x = ET.fromstring('<x>' + at['label'][1] + '</x>')
        except ET.ParseError as e:
            raise Bad(f'label is not well-formed: {at["label"][1][:200]!r} {e}')
        rows = [''.join(td.itertext()).removeprefix('  ').removesuffix('  ') for td in x.iter('td')]
        out[a] = rows or [''.join(x.itertext())]
        tags = {e.tag for e in x.iter()}
        if rows and (x[0].tag != 'table' or any(e.tag not in ('tr', 'hr') for e in x[0])) or tags - {'x', 'table', 'tr', 'td', 'hr', 'b'}:
            raise Bad(f'label structure {tags}')
    es = []
    for a, b, at in edges:
        if any(k not in ('label', 'style', 'headlabel', 'taillabel') or v[0] != 'str' for k, v in at.items()):
            raise Bad(f'edge attributes {at}')
        es.append((a, b, at.get('label', (0, None))[1], at.get('headlabel', (0, None))[1], at.get('taillabel', (0, None))[1],
                   {'dashed': 'link', None: ''}[at.get('style', (0, None))[1]]))
    return out, es


# ---- PlantUML
def parse_puml(text):
    lines = text.split('\n')
    while lines and (lines[0].startswith("'") or not lines[0]):
        lines.pop(0)
    if lines[0] != '@startuml' or lines[-1] != '@enduml':
        raise Bad('no start or end')
    nodes, edges = {}, []
    for x in lines[1:-1]:
        if not x.strip() or x.strip().startswith("'") or re.fullmatch(r'\s*hide .*', x):
            continue
        if m := re.fullmatch(r'class "([^"]*)" as (n\d+)', x):
            if m.group(2) in nodes:
                raise Bad(f'class {m.group(2)} twice')
            nodes[m.group(2)] = [m.group(1).replace('<U+0022>', '"')]
        elif m := re.fullmatch(r'\s*(n\d+) : (.*)', x):
            nodes[m.group(1)].append(m.group(2).replace('{field} ', '', 1))
        elif m := re.fullmatch(r'\s*(n\d+) (?:"([^"]*)" )?(--|\.|\.\.)>(?: "([^"]*)")? (n\d+)(?: : (.*))?', x):
            a, tl, rel, hl, b, lab = m.groups()
            edges.append((a, b, lab, hl, tl, {'--': '', '.': 'link-h', '..': 'link-v'}[rel]))
        else:
            raise Bad(f'line {x!r}')
    return nodes, edges


def mult(o):
    lo, hi = o.get('minc', 1), o.get('maxc', 1)
    return '1' if lo == hi == 1 else f'{lo}..{hi if hi > 0 else "*"}'


def same_type(s, base, opts):
    """s is the type string of base with opts"""
    b, o, _ = typestr2jadn(s)
    return b == base and gen.options(base, o) == gen.options(base, [x for x in opts if x[0] not in '[]&<KL?'])


def judge(s, style, text):
    """None, or what is wrong with the diagram"""
    try:
        nodes, edges = (parse_dot if style['format'] == 'graphviz' else parse_puml)(text)
    except (Bad, KeyError, IndexError, ValueError) as e:
        return f'cannot be parsed: {e!r}'
    st = {**DEFAULT, **style}
    shown = [t for t in s['types'] if st['attributes'] or t[1] not in PRIM + ('Enumerated',)]
    ids, info = {}, st['detail'] == 'information'
    for n, rows in nodes.items():
        name = rows[0].split(' : ', 1)[0] if info else rows[0]
        if name in ids:
            return f'{name} shown twice'
        ids[name] = n
    if set(ids) != {t[0] for t in shown}:
        return f'shows {sorted(ids)} instead of {sorted(t[0] for t in shown)}'
    want, optional = [], []
    for t in shown:
        rows = nodes[ids[t[0]]]
        if info and not same_type(rows[0].split(' : ', 1)[1], t[1], t[2]):
            return f'type of {t[0]}: {rows[0]}'
        enum = t[1] == 'Enumerated'
        idt = t[1] == 'Array' or '=' in t[2] or any(o[0] == 'C' for o in t[2])
        fields = t[4]
        if st['detail'] == 'conceptual':
            if rows[1:]:
                return f'fields of {t[0]}: {rows}'
        elif st['detail'] == 'logical':
            if rows[1:] != [f[1] for f in fields]:
                return f'fields of {t[0]}: {rows}'
        else:
            if len(rows) - 1 != len(fields):
                return f'fields of {t[0]}: {rows}'
            back = []
            for r, f in zip(rows[1:], fields):
                if enum:
                    if r != f'{f[0]} {"" if idt else f[1]}':
                        return f'item {r}'
                    continue
                m = re.fullmatch(r'(\d+) (\S*) : (.*?)(?: \[(\d+\.\.(?:\d+|\*)|\d+)\])?', r)
                if not m or int(m.group(1)) != f[0]:
                    return f'field {r}'
                try:
                    back.append(fielddef2jadn(f[0], m.group(2), m.group(3), m.group(4) or '1', ''))
                except Exception as e:
                    return f'field {r}: {e!r}'
                if idt:
                    back[-1][1] = back[-1][1] or f[1]
            if back:
                if not idt or all(x[1] for x in back):
                    cleanup_tagid(back)
                for b, f in zip(back, fields):
                    if [b[0], b[1], b[2], gen.options(b[2], b[3])] != [f[0], f[1], f[2], gen.options(f[2], f[3])]:
                        return f'field {f} shown as {b}'
        d = parse_opts(t[2])[0]
        refs = [('key', d.get('ktype'), {}), ('value', d.get('vtype'), {})] if t[1] not in PRIM else []
        for f in fields if not enum else []:
            to, fo = parse_opts(f[3])
            refs.append((f[1], to.get('vtype') if f[2] in ('ArrayOf', 'MapOf') else f[2], fo))
            if f[2] == 'MapOf':
                optional.append((ids[t[0]], ids.get(to.get('ktype'))))
        for lab, ref, fo in refs:
            if ref in ids and not ('link' in fo and not st['links']):
                if style['format'] == 'graphviz':
                    lab, kind = lab.replace('-', '_'), 'link' if 'link' in fo else ''
                else:
                    kind = ('link-h' if st['link_horizontal'] else 'link-v') if 'link' in fo else ''
                want.append((ids[t[0]], ids[ref], lab if st['edge_label'] else None, mult(fo) if st['edge_mult'] else None, '1' if st['edge_mult'] else None, kind))
    extra = list(edges)
    for e in want:
        if e not in extra:
            return f'reference {e} is not shown'
        extra.remove(e)
    extra = [e for e in extra if e[:2] not in optional]
    return f'shows references {extra}' if extra else None


def explore(rec, s, full):
    arg = copy.deepcopy(s)
    for style in styles(full):
        rec.states.add(hash((repr(s), repr(style))))
        rec.trans()
        r, text = call(jadn.convert.diagram_dumps, arg, style)
        why = f'failed: {text}' if r != 'ok' else judge(s, style, text) if same(arg, s) else 'argument modified'
        if why:
            yield style, why, text
        else:
            rec.outcome('graph')
            rec.trace()


def jobs(tier):
    deep = tier == 'thorough'
    return gen.jobs(deep, [f for f in gen.FAMILIES if deep or f not in ('fields:Map', 'fields:Choice')]) + [('file', 0, 0, deep)]


SOURCES = ('', 'a.jadn', 'http://x/y.jidl', 'a "b" c')


def files(rec):
    """A diagram file is the diagram after a comment with its source"""
    s = {'info': {'package': 'http://a/b', 'description': 'one\ntwo'}, 'types': BASE}
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'f')
        for style in [{}, *styles(False)]:
            want = jadn.convert.diagram_dumps(fresh(s), dict(style))
            for src in SOURCES:
                rec.trans()
                rec.state(repr(style), src)
                r, e = call(lambda: jadn.convert.diagram_dump(fresh(s), fn, src, dict(style)))
                text = open(fn, encoding='utf8').read() if r == 'ok' else ''
                mark = '#' if style.get('format') == 'graphviz' else "'"
                head, body = text[:-len(want) - 1], text[-len(want) - 1:]
                if r != 'ok' or body != want + '\n' or any(x and not x.startswith(mark) for x in head.split('\n')) or bool(src) != (src in head and bool(head)):
                    rec.fail(f'file {style} {src!r}', {'schema': s, 'style': style, 'source': src, 'what': f'{r} {e}', 'text': text[:500]},
                             f'import jadn\njadn.convert.diagram_dump({s!r}, "/tmp/x.dot", {src!r}, {style!r})\nprint(open("/tmp/x.dot").read())\n')
                else:
                    rec.outcome('graph')
                    rec.trace()
    finally:
        shutil.rmtree(d)


def run(job, rec):
    deep = job[3]
    if job[0] == 'file':
        return files(rec)
    for s, group in gen.packs(job, 40):
        full = deep or job[1] == 'names' or job[1] == 'combos' and len(s['types']) <= len(BASE) + 4
        bad = list(explore(rec, s, full))
        if bad:
            for g in group if len(group) > 1 else [s]:
                for style, why, text in explore(rec, g, full):
                    rec.fail(f'{style}|{why}|{g!r}'[:500], {'schema': g, 'style': style, 'what': why, 'text': text},
                             f'import jadn\nprint(jadn.convert.diagram_dumps({g!r}, {style!r}))\n')
                    bad = []
            for style, why, text in bad:
                rec.fail(f'pack {style}|{why}'[:500], {'schema': s, 'style': style, 'what': why, 'text': text}, f'import jadn\nprint(jadn.convert.diagram_dumps({s!r}, {style!r}))\n')
    rec.sample({'schema': repr(s)[:300]})


if __name__ == '__main__':
    mc.main(globals())

"""C18: schemas survive JSON text and files in all three formats."""
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import mc
import gen
import docs
from explore import call, same, fresh
import jadn

ID = 'C18'
BOUNDS = ('the enumerated schemas of C16/C17 written by dumps (normal and compact) and read by loads / json.loads; descriptions and item '
          'names of length 1-2 over 40 characters including control characters, line separators and quotes, also in JADN files; files in a scratch '
          'directory written by dump, jidl_dump and html_dump with and without a source banner and read by load, load_any, jidl_load and html_load; 13 file names (several dots, other extensions inside, non-ASCII) in 4 directories, absolute, relative and '
          'as a URL response; writing and reading every file format in the C, POSIX and C.UTF-8 locales with non-ASCII text')
RULE = 'state = (schema, format, options); transition = write or read; trace = round trip with the identical schema'
ASSUMPTIONS = ['descriptions in JIDL / HTML documents are single line']
EXPECT_OUTCOMES = ('roundtrip', 'text', 'file')
ANY = 'a"\\/\n\r\t\0\x01\x1f\x7f\x85\u2028\ufeff\u00a0é\u20ac\U0001f600 {}[]:,#%<>&\'=|*$'
BANNERS = ('', 'x.jadn', 'a "b" /c//d.jidl', 'a>b')


def jobs(tier):
    deep = tier == 'thorough'
    return gen.jobs(deep) + [('any', n, deep) for n in range(8)] + [('file', f, deep, n) for f in gen.FAMILIES for n in range(gen.PARTS[f])] + [('ext', 0, deep), ('fname', 0, deep), ('locale', 0, deep)]


def text_ok(rec, s):
    rec.state('text', s)
    for strip in (False, True):
        r, t = call(jadn.dumps, s, strip)
        rec.trans()
        r2, got = call(json.loads, t) if r == 'ok' else (r, t)
        if r2 != 'ok' or not same(got, s):
            rec.fail(f'text|{s!r}'[:500], {'schema': s, 'strip': strip, 'text': str(t)[:1000], 'got': repr(got)[:800]}, f'import json, jadn\ns = {s!r}\nassert json.loads(jadn.dumps(s, {strip})) == s\n')
            return False
    rec.outcome('text')
    return True


def file_ok(rec, s, d, formats=3):
    path = os.path.join(d, 'f')
    for ext, dump, load in (('.jadn', jadn.dump, jadn.load), ('.jidl', jadn.convert.jidl_dump, jadn.convert.jidl_load), ('.html', jadn.convert.html_dump, jadn.convert.html_load))[:formats]:
        for src in BANNERS[:3] if ext == '.html' else BANNERS:
            fn = path + ext
            arg = fresh(s)
            rec.state('file', ext, src, s)
            r, got = call(dump, arg, fn, src)
            why = f'not written: {got}' if r != 'ok' else 'argument modified' if not same(arg, s) else None
            for how in ('load', 'load_any', 'name') if not why else ():
                if how == 'name' and ext != '.html':
                    continue
                rec.trans()
                try:
                    if how == 'name':
                        got = load(fn)
                    else:
                        with open(fn, encoding='utf8') as fp:
                            got = (load if how == 'load' else jadn.load_any)(fp)
                except Exception as e:
                    got = f'{type(e).__name__}: {e}'
                good = isinstance(got, dict) and (same(got, s) if ext == '.jadn' else same(gen.meaning(got), gen.meaning(s)))
                if not good:
                    why = f'{how}: {got!r}'[:800]
                    break
            if why:
                rec.fail(f'file|{ext}|{src}|{s!r}'[:500], {'schema': s, 'format': ext, 'source': src, 'what': why},
                         f'import jadn\ns = {s!r}\nfn = "/tmp/x{ext}"\n{dump.__module__}.{dump.__name__}(s, fn, {src!r})\nprint(open(fn).read())\nprint(jadn.load_any(open(fn)))\n')
                return
            rec.outcome('file')
            rec.trace()


LOCALE = [{'types': [['A', 'Record', [], t, [[1, 'f', 'E', [], t]]], ['E', 'Enumerated', [], t, [[1, t, t]]]], 'info': {'package': 'http://a.b/c', 'title': t}} for t in ('abc', 'caf\xe9', '\u20ac 5', '\U0001f600')]
CHILD = """import ast, os, sys, jadn
d, s = sys.argv[1], ast.literal_eval(sys.argv[2])
t = s['info']['title']
c = jadn.convert
for dump, load, name in ((jadn.dump, jadn.load, 'a.jadn'), (c.jidl_dump, c.jidl_load, 'a.jidl'), (c.html_dump, c.html_load, 'a.html'), (c.diagram_dump, None, 'a.dot'), (c.markdown_dump, None, 'a.md'), (jadn.translate.json_schema_dump, None, 'a.json')):
    fn = os.path.join(d, name)
    dump(s, fn)
    with open(fn, encoding='utf8') as f:
        text = f.read()
    assert name in ('a.dot', 'a.html', 'a.json') or t in text, (name, text)
    if load:
        with open(fn, encoding='utf8') as f:
            got = jadn.load_any(f)
        assert got == s, (name, got)
    if name == 'a.html':
        got = load(fn)
        assert got == s, (name, got)
"""
NAMES = ('a', 'types-v1.0', 'a.b.c', '.hidden', 'a b', 'jidl', 'html.jadn', 'x.jidl', 'x.jadn.html', '\xe9\u20ac', 'a#b?c=d', "q'", 'v1.0.')
DIRS = ('', 'd.jadn', 'p.q', 'a b')


class Remote(io.BytesIO):
    """What urlopen() returns, as far as load_any can see"""
    def __init__(self, data, url):
        super().__init__(data)
        self.url = url


def fname_ok(rec, d):
    """The format of a file is its extension, wherever it is"""
    s = {'info': {'package': 'http://a.b/c'}, 'types': [['A', 'Record', [], 'x', [[1, 'f', 'String', [], '\u20ac']]]]}
    for sub in DIRS:
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        for name in NAMES:
            for ext, dump in (('.jadn', jadn.dump), ('.jidl', jadn.convert.jidl_dump), ('.html', jadn.convert.html_dump)):
                fn = os.path.join(d, sub, name + ext)
                rec.state('fname', sub, name, ext)
                for how in ('absolute', 'relative', 'remote'):
                    rec.trans(2)
                    here = os.getcwd()
                    try:
                        if how == 'relative':
                            os.chdir(os.path.join(d, sub))
                        path = name + ext if how == 'relative' else fn
                        dump(fresh(s), path)
                        with open(path, encoding='utf8') if how != 'remote' else io.TextIOWrapper(Remote(open(fn, 'rb').read(), f'https://h.x/{sub}/{name}{ext}'), 'utf8') as fp:
                            got = jadn.load_any(fp)
                    except Exception as e:
                        got = f'{type(e).__name__}: {e}'
                    finally:
                        os.chdir(here)
                    if not same(got, s):
                        rec.fail(f'fname|{sub}|{name}{ext}|{how}', {'directory': sub, 'name': name + ext, 'how': how, 'got': repr(got)})
                    else:
                        rec.trace()


def run(job, rec):
    if job[0] == 'gen':
        for pack in gen.packs(job, 12):
            ok = all([text_ok(rec, s) for s in pack[1]])
            if ok:
                docs.roundtrip_pack(rec, pack, 'json', jadn.dumps, jadn.loads, 'assert jadn.loads(jadn.dumps(s)) == s')
        rec.sample(pack[1][0])
    elif job[0] == 'any':
        words = list(gen.words(ANY, 1, 2)) + (list(gen.words(ANY[:12], 3, 3)) if job[2] else [])
        for t in words[job[1]::8]:
            s = {'info': {'package': 'http://a.b/c', 'title': t, 'description': t}, 'types': [['A', 'Record', [], t, [[1, 'f', 'String', [], t]]], ['E', 'Enumerated', [], '', [[1, t, t]]],
                                                                     ['P', 'String', ['%' + t], '', []]]}
            if text_ok(rec, s):
                rec.trace()
        d = tempfile.mkdtemp(prefix='c18-')
        try:
            mine = words[job[1]::8]
            for n in range(0, len(mine), 20):        # The same in files, twenty at a time; a JADN file holds any text
                some = mine[n:n + 20]
                file_ok(rec, {'info': {'package': 'http://a.b/c', 'title': some[0], 'description': some[-1] + 'x' + some[0]},
                              'types': [[f'A{k}', 'Record', [], t, [[1, 'f', 'String', [], t + 'x' + t]]] for k, t in enumerate(some)] + [['E', 'Enumerated', [], '', [[k, f'i{k}', t] for k, t in enumerate(some)]]]}, d, 1)
        finally:
            shutil.rmtree(d)
    elif job[0] == 'file':
        d = tempfile.mkdtemp(prefix='c18-')
        try:
            n = 0
            for pack in gen.packs(('gen', job[1], job[3], job[2]), 20):
                if n % (1 if job[2] else 13) == 0:
                    file_ok(rec, pack[0], d)
                n += 1
        finally:
            shutil.rmtree(d)
    elif job[0] == 'fname':
        d = tempfile.mkdtemp(prefix='c18-')
        try:
            fname_ok(rec, d)
        finally:
            shutil.rmtree(d)
    elif job[0] == 'locale':
        d = tempfile.mkdtemp(prefix='c18-')
        try:
            for loc in ({'LC_ALL': 'C'}, {'LC_ALL': 'POSIX'}, {'LC_ALL': 'C.UTF-8'}):
                for s in LOCALE:
                    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHONUTF8'))} | loc | {'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}
                    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, d, ascii(s)], env=env, capture_output=True, timeout=100)
                    rec.trans(8)
                    rec.state('locale', repr(loc), repr(s))
                    if p.returncode:
                        rec.fail(f'locale|{loc}|{s!r}'[:400], {'schema': s, 'environment': loc, 'output': p.stderr.decode('utf8', 'replace')[-1500:]}, f'# run with {loc} PYTHONUTF8=0 PYTHONCOERCECLOCALE=0 and arguments: a directory, {ascii(s)}\n{CHILD}')
                    else:
                        rec.trace()
        finally:
            shutil.rmtree(d)
    else:
        d = tempfile.mkdtemp(prefix='c18-')
        try:
            for ext in ('.txt', '', '.json', '.JADN', '.xml', '.jadn.txt'):
                fn = os.path.join(d, 'f' + ext)
                with open(fn, 'w') as f:
                    f.write('{"types": []}')
                rec.state('ext', ext)
                rec.trans()
                with open(fn) as fp:
                    try:
                        got = jadn.load_any(fp)
                    except Exception as e:
                        got = e
                if not isinstance(got, (KeyError, ValueError)):
                    rec.fail(f'ext|{ext}', {'extension': ext, 'got': repr(got)})
                else:
                    rec.trace()
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    mc.main(globals())

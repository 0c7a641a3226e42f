"""C29: operations running in several threads give the results of the same operations running one after the other."""
import itertools
import json
import sys
import threading
import mc
from explore import call, fresh, same, key
from zoo import combine
import jadn
from jadn.codec import Codec

ID = 'C29'
BOUNDS = ('two threads; codec: each of 36 encode / decode calls (all kinds of types, accepted and rejected messages, 2 modes) against itself and 5 others (thorough: all) on one shared codec, against itself on two codecs of '
          'the same schema, on first use, and against a codec being built, preempted at every source line executed; schema operations: pairs of check, canonicalize, unfold, strip, dependencies, and writers and readers of JADN, '
          'JIDL, HTML, Markdown, diagrams and JSON Schema on the same and on different schemas (quick: with itself, with itself with other arguments and with 5 operations; thorough: all pairs), preempted at the first and last execution of every source line '
          '(thorough: 42 executions of each; two preemptions for the calls on a shared codec)')
RULE = 'state = (pair of operations, schedule); transition = operation executed under the schedule; trace = schedule in which both results equal the sequential ones'
ASSUMPTIONS = ['threads are switched between source lines of the package (not inside library calls)', 'changing the mode of a codec while it is used elsewhere is a race of the caller and excluded',
               'an operation on a schema does not run concurrently with one that modifies it']
EXPECT_OUTCOMES = ('codec', 'schema', 'build')
SRC = mc.SRC


class Sched:
    """Two real threads of which exactly one runs; thread t hands over after the given numbers of line events"""

    def __init__(self, fns, plan, log=None):
        self.fns, self.plan = fns, list(plan)       # plan: [(thread, lines), ...]; afterwards each runs to its end
        self.locks = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.left = None
        self.res = [None, None]
        self.log = log
        self.step = -1

    def advance(self):
        """Next entry of the plan -> its thread starts"""
        self.step += 1
        if self.step < len(self.plan):
            t, self.left = self.plan[self.step]
            if self.done[t]:
                return self.advance()
            return t
        self.left = None        # the other thread runs to its end, then the rest of this one
        last = self.plan[-1][0] if self.plan else 1
        return next((t for t in (1 - last, last) if not self.done[t]), None)

    def tracer(self, me):
        def local(frame, event, arg):
            if self.left is None and self.log is None:      # schedule used up: the rest runs to its end
                sys.settrace(None)
                return None
            if event == 'line':
                if self.log is not None:
                    self.log.append((frame.f_code.co_filename, frame.f_lineno))
                elif self.left is not None:
                    self.left -= 1
                    if self.left < 0:
                        t = self.advance()
                        if t is not None and t != me:
                            self.locks[t].release()
                            self.locks[me].acquire()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None
        return glob

    def body(self, me):
        self.locks[me].acquire()
        sys.settrace(self.tracer(me))
        try:
            self.res[me] = call(self.fns[me])
        except BaseException as e:
            self.res[me] = ('crash', repr(e))
        finally:
            sys.settrace(None)
            self.done[me] = True
            t = self.advance()
            if t is not None:
                self.locks[t].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(n,), daemon=True) for n in (0, 1)]
        for t in ts:
            t.start()
        self.locks[self.advance()].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                return [('crash', 'does not finish')] * 2
        return self.res


INFO = {'package': 'http://a.b/c', 'title': 't', 'roots': ['R1']}


def schemas():
    a = combine(['plain', 'mul', 'anon', 'enumref'], INFO)[0]
    a['types'][:0] = [['X1', 'Record', [], '', [[1, 'b', 'Binary', ['/ipv4-addr'], ''], [2, 'd', 'Integer', ['/datetime-ms', '[0'], ''], [3, 'u', 'ArrayOf', ['*Integer', 'q', '[0'], '']]],
                      ['X2', 'Choice', ['CA'], '', [[1, 'a', 'Integer', ['{1'], ''], [2, 'b', 'Integer', ['}5'], '']]]]
    b = combine(['ptrref', 'moe', 'key'], {**INFO, 'title': 'u', 'roots': ['L2']})[0]
    return a, b


CALLS = [('encode', 'R1', {'f': 5, 't': 'a'}), ('encode', 'R1', {'f': 'r', 't': 'c'}), ('encode', 'R1', {'f': 'x', 't': 'a'}), ('encode', 'P', {'x': 1, 'y': {'u': True, 'v': ['m', 2]}, 'z': 'q'}),
         ('encode', 'P', {'x': 'no'}), ('encode', 'R2', [{'t': 'b'}]), ('encode', 'R2', []), ('encode', 'R3', 'r'), ('encode', 'X2', 3), ('encode', 'X2', 9),
         ('encode', 'X1', {'b': b'\1\2\3\4', 'd': 5, 'u': [1, 2]}), ('encode', 'X1', {'b': b'\1\2\3\4', 'u': [1, 1]}), ('encode', 'A1', {'f': ['a', ''], 'g': [{'x': 1}]}),
         ('encode', 'D3', {'k': 'y'}), ('encode', 'D2', {'a': 1, 'b': 2, 'c': 3}), ('encode', 'S', {'c': 'r'}), ('encode', 'S', {'b': 1}), ('encode', 'B1', {'f': 'abc', 'g': 5, 'h': 'aa'})]

SLOW = ('check', 'unjidl', 'unhtml')
PARTNERS = (1, 4, 7, 21, 24)        # quick tier: encode and decode of every kind of type


def steps(schema, mode):
    """All calls with their results: encode, and decode of what was encoded"""
    c = Codec(fresh(schema), *mode)
    out = []
    for op, t, v in CALLS:
        r = call(c.encode, t, v)
        out.append(('encode', t, v, r))
        w = r[1] if r[0] == 'ok' else v
        out.append(('decode', t, w, call(c.decode, t, w)))
    return out


def sops():
    o = {'check': lambda s: jadn.check(fresh(s)), 'canon': jadn.canonicalize, 'deps': lambda s: [jadn.build_deps(s), jadn.analyze(s)], 'unfold': jadn.transform.unfold_extensions,
         'unfold2': lambda s: jadn.transform.unfold_extensions(s, {'DerivedEnum', 'MapOfEnum'}), 'strip': lambda s: jadn.transform.strip_comments(s, 4), 'dumps': jadn.dumps,
         'jidl': lambda s: jadn.convert.jidl_dumps(s, {'id': 9}), 'unjidl': lambda s: jadn.convert.jidl_loads(jadn.convert.jidl_dumps(s)), 'html': jadn.convert.html_dumps,
         'unhtml': lambda s: jadn.convert.html_loads(jadn.convert.html_dumps(s)), 'md': jadn.convert.markdown_dumps, 'dot': lambda s: jadn.convert.diagram_dumps(s, {'format': 'graphviz', 'detail': 'information'}),
         'uml': lambda s: jadn.convert.diagram_dumps(s, {'format': 'plantuml', 'detail': 'conceptual', 'links': False}), 'js': jadn.translate.json_schema_dumps,
         'codec': lambda s: [Codec(fresh(s), True, True).encode('P', {'x': 1, 'y': {'u': True}}), Codec(fresh(s), False, False).decode('P', [1, [True] if False else {'4': True}])]}
    # the same operations with other arguments
    o.update({'jidl2': lambda s: jadn.convert.jidl_dumps(s, {'id': 3, 'name': 20, 'type': 50, 'page': 200}), 'strip2': lambda s: jadn.transform.strip_comments(s, 0), 'dumps2': lambda s: jadn.dumps(s, 4),
              'dot2': lambda s: jadn.convert.diagram_dumps(s, {'format': 'graphviz', 'detail': 'conceptual', 'link_horizontal': False, 'attr_color': 'red'}),
              'uml2': lambda s: jadn.convert.diagram_dumps(s, {'format': 'plantuml', 'detail': 'logical'}), 'unfold3': lambda s: jadn.transform.unfold_extensions(s, {'AnonymousType', 'Multiplicity', 'KeyLink'}),
              'codec2': lambda s: [Codec(fresh(s), False, True, config={'info': {'config': {'$MaxElements': 1}}}).encode('P', {'x': 1, 'y': {'4': True}})]})
    return o


VARIANT = {'jidl2': 'jidl', 'strip2': 'strip', 'dumps2': 'dumps', 'dot2': 'dot', 'uml2': 'uml', 'unfold3': 'unfold2', 'codec2': 'codec'}
SMALL = {'types': [['P', 'Record', [], 'point', [[1, 'x', 'Integer', ['{1', '[0'], 'ex'], [2, 'y', 'Q', ['[0', '<'], ''], [3, 'z', 'E', ['[0', ']2'], 'zed']]], ['Q', 'Map', ['='], '', [[4, 'u', 'Boolean', [], '']]],
                   ['E', 'Enumerated', [], '', [[5, 'r', 'red'], [0, 'g', '']]]]}
SMALL2 = {'info': {'package': 'http://x.y/z', 'config': {'$MaxElements': 5}}, 'types': [['P', 'Map', ['='], 'pp', [[1, 'x', 'String', ['%^a$', '[0'], 'sx'], [2, 'y', 'Q', [], ''], [7, 'z', 'Enumerated', ['#Q', '[0'], '']]],
                                                                                        ['Q', 'Array', [], 'q', [[1, 'u', 'Boolean', [], '']]], ['L', 'MapOf', ['+String', '*P', '{1'], '', []]]}


def jobs(tier):
    deep = tier == 'thorough'
    n = len(CALLS) * 2
    out = []
    for mode in ((True, True), (False, False)):
        out += [('codec', i, mode, sh, 2 if deep and sh else 1) for i in range(n) for sh in (True, False)[:1 if not deep and not mode[0] else 2]]
        out += [('build', i, mode) for i in range(0, n, 1 if deep else 10)]
    names = list(sops())
    out += [('schema', a, b, w, deep) for a in names for b in names for w in ('same', 'other') if deep or VARIANT.get(a) == b or VARIANT.get(b) == a or a not in VARIANT and ((w == 'other' if a in SLOW else True) and a == b or a not in SLOW and b in (('canon', 'js') if a == 'codec' else ('canon', 'html', 'strip', 'unfold', 'js')))]
    return out


def judge(rec, kind, label, plan, got, want, detail):
    rec.trans(2)
    rec.states.add(hash((label, plan)))
    for n in (0, 1):
        if got[n][0] != want[n][0] or not same(got[n][1], want[n][1]):
            rec.fail(f'{label}|{plan}'[:300], {'operations': detail, 'schedule': f'thread, lines executed before switching: {plan}', 'thread': n, 'want': repr(want[n])[:1500], 'got': repr(got[n])[:1500]})
            return False
    rec.trace()
    rec.outcome(kind)
    return True


def schedules(n0, n1, depth, points=None):
    """All plans with up to `depth` preemptions in which thread 0 starts"""
    for a in points or range(1, n0):
        yield ((0, a),)
    if depth > 1:
        for a in range(1, n0):
            for b in range(1, n1):
                yield ((0, a), (1, b))


def lines(f):
    log = []
    Sched([f, lambda: None], [], log).run()
    return len(log), log


def points(log, deep, once=False):
    """Where to preempt: the first and last execution of every line; thorough: up to 40 executions of each; once: only the first"""
    at = {}
    for n, x in enumerate(log):
        at.setdefault(x, []).append(n)
    return sorted({n for v in at.values() for n in (v[:40] + v[-2:] if deep else v[:1] + v[-1:] if not once else v[:1])} - {0})


def run(job, rec):
    sys.setswitchinterval(10)
    if job[0] in ('codec', 'build'):
        A = schemas()[0]
        mode = job[2]
        st = steps(A, mode)
        op, t, v, w = st[job[1]]
        if job[0] == 'build':       # building a codec while another call runs
            for k, first in itertools.product((0, 1), (0, 1)):
                S = (A, SMALL)[k]
                mk = lambda: (lambda c: sorted(c.symtab))(Codec(fresh(S), *mode))
                if first == 0:
                    c = Codec(fresh(A), *mode)
                    n, _ = lines(lambda: getattr(c, op)(t, v))
                    for plan in schedules(n, 0, 1):
                        f = [lambda: getattr(c, op)(t, v), mk]
                        if not judge(rec, 'build', f'build|{op} {t} {v!r}|{k}|{first}', plan, Sched(f, plan).run(), [w, ('ok', sorted(Codec(fresh(S), *mode).symtab))], [(op, t, repr(v)), 'build codec']):
                            return
                elif k == 1:
                    n, log = lines(mk)
                    for plan in schedules(n, 0, 1, points(log, False)):
                        c = Codec(fresh(A), *mode)
                        f = [mk, lambda: getattr(c, op)(t, v)]
                        if not judge(rec, 'build', f'build|{op} {t} {v!r}|{k}|{first}', plan, Sched(f, plan).run(), [('ok', sorted(Codec(fresh(S), *mode).symtab)), w], ['build codec', (op, t, repr(v))]):
                            return
            return
        shared, depth = job[3:]
        c = Codec(fresh(A), *mode)
        n, _ = lines(lambda: getattr(c, op)(t, v))
        rec.sample({'call': [op, t, repr(v)], 'mode': mode, 'lines': n})
        partners = st if depth > 1 else [x for k, x in enumerate(st) if k == job[1] or k in PARTNERS and shared]
        for op2, t2, v2, w2 in partners:
            n2 = 0
            if depth > 1:
                n2, _ = lines(lambda: getattr(c, op2)(t2, v2))
            for plan in schedules(n, n2, depth):
                cs = [c, c] if shared else [Codec(fresh(A), *mode), Codec(fresh(A), *mode)] if plan[0][1] % 8 == 1 else cs
                f = [lambda: getattr(cs[0], op)(t, v), lambda: getattr(cs[1], op2)(t2, v2)]
                if not judge(rec, 'codec', f'{"shared" if shared else "separate"}|{mode}|{op} {t} {v!r}|{op2} {t2} {v2!r}', plan, Sched(f, plan).run(), [w, w2], [(op, t, repr(v)), (op2, t2, repr(v2))]):
                    return
        # the first use of a codec (nothing cached yet)
        for plan in schedules(n, 0, 1):
            c = Codec(fresh(A), *mode)
            f = [lambda: getattr(c, op)(t, v)] * 2
            if not judge(rec, 'codec', f'first use|{mode}|{op} {t} {v!r}', plan, Sched(f, plan).run(), [w, w], [(op, t, repr(v))] * 2):
                return
        return
    _, a, b, which, deep = job
    o = sops()
    sa, sb = SMALL, SMALL if which == 'same' else SMALL2
    if 'codec' in (a, b) and which == 'other':
        sb = SMALL
    want = [call(o[a], fresh(sa)), call(o[b], fresh(sb))]
    n, log = lines(lambda: o[a](fresh(sa)))
    for plan in schedules(n, 0, 1, points(log, deep, not deep and a == b and a in SLOW)):
        x = fresh(sa)
        y = x if which == 'same' else fresh(sb)
        if not judge(rec, 'schema', f'{a}|{b}|{which}', plan, Sched([lambda: o[a](x), lambda: o[b](y)], plan).run(), want, [a, b]):
            return


if __name__ == '__main__':
    mc.main(globals())

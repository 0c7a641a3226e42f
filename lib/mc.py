"""Bounded exhaustive exploration driver shared by every check in /verif/checks.

A check module provides
    ID        property id
    jobs(tier)          -> list of picklable job descriptors, in a fixed order (simplest first)
    run(job, rec)       -> explores one job completely, reporting to the Recorder
and ends with  mc.main(globals()).

The driver runs every job (never a sample), in worker processes, adds up what was explored, writes the evidence
file, and turns failures into a VIOLATION line with a replay file, except for those listed in known-findings.txt.
"""
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JADN_REPO', '/repo')
SRC = os.path.join(REPO, 'distribution', 'src')
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
CALL_LIMIT_S = 60          # one real-code call group that runs longer than this is reported as not terminating
MAX_FAILS_PER_JOB = 25
STOP_FAILING_S = 400       # a run that found violations stops exploring after this time


def _crashed(kind, exc, tb):
    """The check itself cannot run, for example because building a valid schema or codec raises: the property is not shown to hold"""
    text = ''.join(traceback.format_exception(kind, exc, tb))
    sys.stderr.write(text)
    prop = getattr(sys.modules['__main__'], 'ID', None) or os.path.basename(sys.argv[0]).removesuffix('.py')
    if not issubclass(kind, KeyboardInterrupt) and '--baseline' not in sys.argv:
        path = os.path.join('evidence', 'replay', f'{prop}.json')
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(VERIF, path), 'w', encoding='utf8') as f:
            json.dump({'property': prop, 'key': 'setup', 'detail': {'what': 'exception while preparing the exploration on valid schemas', 'where': text[-3000:]}}, f, indent=1)
            f.write('\n')
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()


sys.excepthook = _crashed


class Hang(BaseException):
    pass


def h64(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest(), 'big')


class Recorder:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.fails = []
        self.samples = []
        self.nfails = 0

    def state(self, *key):
        """Count a distinct state: a configuration of the model (schema/mode/value/history)."""
        self.states.add(h64(key))

    def trans(self, n=1):
        """Count a transition: one call into the real code compared with the model."""
        self.transitions += n

    def trace(self, n=1):
        """Count a complete operation sequence on which implementation and model agreed at every step."""
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, key, detail, repro=None):
        """key: stable identification of the failing input / call site; detail: dict; repro: python source"""
        self.nfails += 1
        if len(self.fails) < MAX_FAILS_PER_JOB:
            self.fails.append({'key': key, 'detail': detail, 'repro': repro})


def _alarm(signum, frame):
    raise Hang()


_MOD = None


def _limit():
    """Code that allocates without end fails in its own worker"""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def _work(arg):
    n, job = arg
    rec = Recorder()
    signal.signal(signal.SIGALRM, _alarm)
    limit = _MOD.get('JOB_LIMIT_S', 240)
    if os.environ.get('VERIF_TIER') != 'thorough':
        limit = min(limit, 240)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t = time.time()
    try:
        _MOD['run'](job, rec)
    except Hang:
        rec.fail(f'hang:{job!r}'[:300], {'job': repr(job), 'what': f'job did not finish within {limit} s',
                                       'where': traceback.format_exc()[-1500:]})
    except Exception:
        rec.fail(f'exception:{job!r}'[:300], {'job': repr(job), 'what': 'unexpected exception while exploring',
                                             'where': traceback.format_exc()[-3000:]})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return n, rec.states, rec.transitions, rec.traces, rec.outcomes, rec.fails, rec.nfails, rec.samples, time.time() - t


def known(prop):
    """Listed findings of a property: {key: text}"""
    out = {}
    with open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf8') as f:
        for line in f:
            if line.startswith(f'finding: property={prop} '):
                rest = line.split(' ', 2)[2].strip()
                key, text = rest.split(' :: ', 1)
                out[key.removeprefix('key=')] = text
    return out


def main(mod):
    global _MOD
    _MOD = mod
    prop = mod['ID']
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            v = json.load(f)
        print(json.dumps(v, indent=1)[:4000])
        jobs = mod['jobs'](v.get('tier', tier))
        jobs = [jobs[v['job_index']]]
    else:
        jobs = mod['jobs'](tier)
    if 'prepare' in mod:
        mod['prepare'](tier)
    listed = known(prop)
    states, trans, traces, outcomes, fails, nfails, samples = set(), 0, 0, {}, [], 0, []
    nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    slow = []
    ctx = multiprocessing.get_context('fork')
    chunk = max(1, min(32, len(jobs) // (nproc * 8) or 1))
    stop = bool(os.environ.get('VERIF_STOP'))       # experiments only: end at the first failure
    pool = ctx.Pool(nproc, _limit) if nproc > 1 and len(jobs) > 1 else None
    try:
        it = pool.imap_unordered(_work, list(enumerate(jobs)), chunk) if pool else map(_work, enumerate(jobs))
        for n, st, tr, tc, oc, fl, nf, sm, dt in it:
            states |= st
            trans += tr
            traces += tc
            nfails += nf
            slow.append((dt, n))
            for k, c in oc.items():
                outcomes[k] = outcomes.get(k, 0) + c
            for f in fl:
                fails.append((n, f))
            samples += [(n, s) for s in sm]
            if stop and fl or time.time() - t0 > STOP_FAILING_S and any(f['key'] not in listed for _, f in fails):
                break           # the verdict is known
    finally:
        if pool:
            pool.terminate()
            pool.join()
    samples = [s for _, s in sorted(samples, key=lambda x: x[0])]
    step = max(1, len(samples) // 6)
    samples = samples[::step][:8]
    fails.sort(key=lambda x: (x[0], len(json.dumps(x[1], default=repr))))
    hit, new = {}, []
    for n, f in fails:
        if f['key'] in listed:
            hit[f['key']] = listed[f['key']]
        else:
            new.append((n, f))
    # Vacuity guard: exploring nothing is never a pass
    vac = [x for x in mod.get('EXPECT_OUTCOMES', ()) if not outcomes.get(x)]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': trans, 'traces_validated_against_impl': traces,
            'samples': samples or ['none'],
            'exhaustive': True,
            'jobs': len(jobs), 'jobs_completed': len(slow),
            'outcomes': dict(sorted(outcomes.items())),
            'bounds': mod.get('BOUNDS', ''),
            'rule': mod.get('RULE', 'state = distinct model configuration; transition = real-code call compared with '
                                    'the reference model; trace = complete operation sequence agreeing at every step'),
        },
        'assumptions': mod.get('ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if len(jobs) > 1 or '--replay' not in sys.argv:
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf8') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
    print(f'{prop} [{tier}] jobs={len(jobs)} states={len(states)} transitions={trans} traces={traces} '
          f'wall={ev["wall_s"]}s')
    print('  outcomes: ' + ', '.join(f'{k}={v}' for k, v in sorted(outcomes.items())))
    if os.environ.get('VERIF_VERBOSE'):
        print('  slowest jobs:', sorted(slow, reverse=True)[:5])
    for k, text in sorted(hit.items()):
        print(f'KNOWN-FINDING: property={prop} {text} [{k}]')
    for x in ('json', 'py'):        # no stale replay files
        try:
            os.unlink(os.path.join(VERIF, 'evidence', 'replay', f'{prop}.{x}'))
        except FileNotFoundError:
            pass
    if new or vac:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        n, f = new[0] if new else (0, {'key': f'vacuous:{vac}', 'detail': {'missing outcomes': vac}, 'repro': None})
        path = os.path.join('evidence', 'replay', f'{prop}.json')
        with open(os.path.join(VERIF, path), 'w', encoding='utf8') as fp:
            json.dump({'property': prop, 'tier': tier, 'job_index': n, 'job': repr(jobs[n])[:2000], **f,
                       'more_keys': [x['key'] for _, x in new[1:40]], 'total_failures': nfails,
                       'how_to_replay': f'python checks/{prop}.py --replay {path}; or run the "repro" program'},
                      fp, indent=1, default=repr)
            fp.write('\n')
        if f.get('repro'):
            with open(os.path.join(VERIF, 'evidence', 'replay', f'{prop}.py'), 'w', encoding='utf8') as fp:
                fp.write(f['repro'])
        print(json.dumps(f, default=repr)[:3000])
        print(f'  {nfails} failing comparisons, {len(new)} recorded')
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)

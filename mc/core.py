"""Exploration engine: runs the tasks of one property over a process pool,
collects what was covered, writes the evidence and, on a violation, a
stand-alone replay script."""
import atexit
import contextlib
import importlib
import io
import json
import os
import pathlib
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get('MDTOC_REPO', '/repo')
JOBS = int(os.environ.get('MC_JOBS', str(min(8, os.cpu_count() or 1))))
HANG_CPU = 20.0
HANG_WALL = 300.0


class Hang(BaseException):
    """The code under test did not come back."""


def _on_hang(signum, frame):
    raise Hang('no answer')


# ----------------------------------------------------- code under test
_api = None
_hangs = 0


def api():
    """md_toc.api of the working tree of the repository."""
    global _api
    if _api is None:
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import md_toc.api as a
        if not os.path.realpath(a.__file__).startswith(
                os.path.realpath(REPO) + os.sep):
            raise RuntimeError('md_toc imported from ' + a.__file__)
        _api = a
    return _api


def call(fn, *args, **kwargs):
    """Observation of one call: ('ok', value) or ('exc', class name)."""
    global _hangs
    # one answer that does not come is a violation: no need for more patience
    signal.setitimer(signal.ITIMER_PROF, 2.0 if _hangs else HANG_CPU)
    try:
        return ('ok', fn(*args, **kwargs))
    except Hang:
        _hangs += 1
        if _hangs > 3:
            raise
        return ('hang', '')
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        return ('exc', type(e).__name__)


def model(fn, *args, **kwargs):
    from .model import Refused
    try:
        return ('ok', fn(*args, **kwargs))
    except Refused as e:
        return ('exc', e.args[0])


class Scratch:
    """A private directory on a memory file system when there is one."""
    path = None

    @classmethod
    def get(cls):
        if cls.path is None:
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
            cls.path = tempfile.mkdtemp(prefix='mdtoc-mc-', dir=base)
            cls.owner = os.getpid()
            atexit.register(cls.cleanup)
        return cls.path

    @classmethod
    def cleanup(cls):
        if cls.path and cls.owner == os.getpid():
            shutil.rmtree(cls.path, ignore_errors=True)


def workdir():
    """Directory of this worker process."""
    d = os.path.join(Scratch.get(), 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def near(lo, hi, d=2):
    """All numbers within d of the powers of 2 and of 10 in lo..hi."""
    base = [2**k for k in range(64)] + [10**k for k in range(20)]
    return sorted({b + i for b in base for i in range(-d, d + 1)
                   if lo <= b + i <= hi})


def put(path, data):
    if isinstance(data, str):
        data = data.encode('utf-8')
    with open(path, 'wb') as f:
        f.write(data)


def get(path):
    with open(path, 'rb') as f:
        return f.read()


_doc = None


def build(text, **kw):
    """build_toc on a document given as str or bytes."""
    global _doc
    if _doc is None or not _doc.startswith(workdir()):
        _doc = os.path.join(workdir(), 'doc.md')
    put(_doc, text)
    return call(api().build_toc, _doc, **kw)


def cli(argv, stdin=None):
    """The command line in this process: (exit status, stdout, stderr)."""
    global _hangs
    import md_toc.__main__ as m
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin
    sys.argv = ['md_toc'] + list(argv)
    if stdin is not None:
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding='utf-8')
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            signal.setitimer(signal.ITIMER_PROF, 2.0 if _hangs else HANG_CPU)
            try:
                m.main()
                status = 0
            except SystemExit as e:
                status = 0 if e.code is None else e.code
            except Hang:
                _hangs += 1
                if _hangs > 3:
                    raise
                status = 'hang'
            except BaseException as e:
                status = 'exc ' + type(e).__name__
    finally:
        sys.argv, sys.stdin = old
    return status, out.getvalue(), err.getvalue()


# ------------------------------------------------------------- results
class Acc:
    """What one task covered."""

    MAX = 3

    def __init__(self):
        self.runs = 0
        self.transitions = 0
        self.outcomes = set()
        self.extra = {}
        self.violations = []
        self.samples = []

    def ok(self, case, got, want, repro=None, note=''):
        """Compare one execution with the oracle. True when they agree."""
        self.runs += 1
        self.outcomes.add(hash(repr(got) if not isinstance(got, tuple) else
                               str(got)))
        if got == want:
            if len(self.samples) < 2 and self.runs % 97 == 1:
                self.samples.append({'case': case, 'observed': repr(got)[:300]})
            return True
        self.bad(case, got, want, repro, note)
        return False

    def bad(self, case, got, want, repro=None, note=''):
        if len(self.violations) < self.MAX:
            self.violations.append({
                'case': case,
                'got': repr(got)[:2000],
                'want': repr(want)[:2000],
                'repro': repro,
                'note': note
            })

    def full(self):
        return len(self.violations) >= self.MAX

    def seen(self, thing):
        self.outcomes.add(hash(thing))

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def _init_worker():
    # an endless loop that also eats memory must not take the machine along
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    signal.signal(signal.SIGPROF, _on_hang)
    signal.signal(signal.SIGALRM, _on_hang)
    tempfile.tempdir = workdir()
    os.environ['TMPDIR'] = tempfile.tempdir
    sys.stdin = open(os.devnull)


def _run_task(modname, fname, args):
    acc = Acc()
    try:
        mod = importlib.import_module('mc.' + modname)
        getattr(mod, fname)(acc, *args)
    except Hang:
        acc.bad(repr((fname, args))[:500], 'no answer', 'termination')
    except Exception:
        # On the unchanged tree this never happens: the code under test gave
        # the harness something outside the interface.
        acc.bad(repr((fname, args))[:500], traceback.format_exc()[-1500:],
                'an answer of the documented form')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return acc


def known_findings(pid):
    """[(key, text)] recorded for a property."""
    out = []
    p = VERIF / 'known_findings.jsonl'
    for line in p.read_text().splitlines():
        if not line.strip():
            continue
        d = json.loads(line)
        if d.get('property') == pid and d.get('status') == 'known':
            out.append((d['key'], d['what']))
    return out


def run(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module('mc.' + pid.lower())
    Scratch.get()
    violations = []
    total = Acc()
    tasks_done = 0
    try:
        api()
        tasks = list(mod.tasks(tier))
    except Exception:
        violations.append({
            'case': 'import of the package',
            'got': traceback.format_exc()[-1500:],
            'want': 'the package can be imported',
            'repro': 'from md_toc import api\ngot = None',
            'note': ''
        })
        tasks = []
    # Interleave the spaces so that every space gets a start early.
    ctx = mp.get_context('fork')
    pool = ProcessPoolExecutor(JOBS, mp_context=ctx, initializer=_init_worker)
    try:
        futs = [
            pool.submit(_run_task, pid.lower(), f, a) for f, a in tasks
        ]
        for fu in as_completed(futs):
            acc = fu.result()
            tasks_done += 1
            total.runs += acc.runs
            total.transitions += acc.transitions
            total.outcomes |= acc.outcomes
            if len(total.samples) < 12:
                total.samples += acc.samples
            for k, v in acc.extra.items():
                total.extra[k] = total.extra.get(k, 0) + v
            if acc.violations:
                violations += acc.violations
                break
    except BrokenProcessPool:
        violations.append({
            'case': 'a worker process died',
            'got': 'process death',
            'want': 'an answer',
            'repro': None,
            'note': ''
        })
    finally:
        procs = list((getattr(pool, '_processes', None) or {}).values())
        pool.shutdown(wait=not violations, cancel_futures=True)
        if violations:
            for p in procs:
                p.kill()
        # grandchildren may still be writing
        Scratch.cleanup()
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {
        'exhaustive': not violations,
        'bounds': mod.BOUNDS[tier],
        'tasks': tasks_done,
        'samples': total.samples[:8] or ['none'],
    }
    if level == 'model_checking':
        cov.update(states=len(total.outcomes),
                   transitions=total.transitions,
                   traces_validated_against_impl=total.runs,
                   state_meaning=getattr(
                       mod, 'STATE_MEANING',
                       'distinct observations of the real code (hashed)'),
                   transition_meaning=getattr(
                       mod, 'TRANSITION_MEANING',
                       'input symbols/operations applied over all enumerated '
                       'executions'))
    else:
        cov.update(evaluations=total.runs,
                   distinct_nontrivial=len(total.outcomes),
                   rule=mod.RULE)
    cov.update(total.extra)
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': level,
        'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / (pid + '.json')).write_text(
        json.dumps(ev, indent=1, ensure_ascii=True) + '\n')
    if violations:
        violations.sort(key=lambda v: len(str(v['case'])))
        v = violations[0]
        path = write_replay(pid, v)
        print('case: %s' % (v['case'], ))
        print('  expected: %s' % v['want'])
        print('  observed: %s' % v['got'])
        if v['note']:
            print('  ' + v['note'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for key, what in known_findings(pid):
        if getattr(mod, 'confirm_known', None) is None or mod.confirm_known(
                key):
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    print('%s %s: held on %d executions, %d distinct observations, %.1f s' %
          (pid, tier, total.runs, len(total.outcomes), wall))
    return 0


def write_replay(pid, v):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    path = d / ('%s.py' % pid)
    body = v['repro'] or ('got = None  # no stand-alone reproduction: run '
                          './check %s' % pid)
    path.write_text('''"""Replay of a violation of %s (needs no explorer).

case: %s
expected: %s
observed: %s
"""
import os, sys, tempfile
sys.path.insert(0, os.environ.get('MDTOC_REPO', '/repo'))
os.chdir(tempfile.mkdtemp())
%s
print('observed now:', repr(got))
''' % (pid, str(v['case']).replace('\\', '\\\\').replace('"""', "'''"),
       v['want'].replace('\\', '\\\\').replace('"""', "'''"),
       v['got'].replace('\\', '\\\\').replace('"""', "'''"), body))
    return path


# --------------------------------------------------------- repro snippets
def repro_call(expr):
    return ('from md_toc import api\ntry:\n    got = %s\n'
            'except Exception as e:\n    got = repr(e)\n' % expr)


def repro_build(text, **kw):
    if isinstance(text, str):
        text = text.encode('utf-8')
    return ('open("doc.md", "wb").write(%r)\n' % text) + repro_call(
        'api.build_toc("doc.md", **%r)' % kw)


# -------------------------------------------------------------- enumeration
def words(alphabet, maxlen, prefix=()):
    """All sequences prefix + w, |prefix + w| <= maxlen, shortest first."""
    import itertools
    for n in range(0, maxlen - len(prefix) + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield tuple(prefix) + w


def prefixes(alphabet, k):
    """Partition of all words: (prefix, exact) pairs.

    Words shorter than k are yielded with exact=True, words of length k with
    exact=False (meaning: explore everything below).
    """
    import itertools
    for n in range(0, k):
        for w in itertools.product(alphabet, repeat=n):
            yield w, True
    for w in itertools.product(alphabet, repeat=k):
        yield w, False


def sub(alphabet, maxlen, prefix, exact):
    if exact:
        yield tuple(prefix)
    else:
        yield from words(alphabet, maxlen, prefix)

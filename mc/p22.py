"""P22: building is read-only, repeatable and independent of other calls.

Histories: a depth-first search over sequences of calls, where fork saves the
state of the interpreter at every node, so every sequence starts from a fresh
process. Threads: two builds run under a scheduler that hands over control at
chosen lines (sys.settrace) of the code under test; all schedules with a
bounded number of preemptions are run.
"""
import io
import os
import pickle
import signal
import subprocess
import sys
import threading

from .core import (REPO, VERIF, Acc, api, call, cli, get, put, workdir)

MK = '<!--TOC-->'
DOCS = {
    'a': '# a\n## b_c_\n# a\n## b_c_\n',
    'b': '## x *y*\n### x *y*\n## <b>z</b>\n',
    'f': '```\n# a\n',
    'r': '# a\n### b\n',
    'e': '# q\n#\n',
    'm': '# a\n' + MK + '\n# a\n',
    't': '# a\n# a\n',
    'u': '## x_\n### *x*\n',
    'bin': b'# a\n\xff\n',
}
# (kind, arguments)
OPS = [
    ('toc', 'a', {}),
    ('toc', 'b', dict(parser='cmark')),
    ('toc', 'a', dict(parser='redcarpet', ordered=True)),
    ('toc', 'a', dict(parser='gitlab', keep_header_levels=1, no_links=True)),
    ('toc', 'a', dict(ordered=True, list_marker=')')),
    ('toc', 'f', {}),
    ('toc', 'r', {}),
    ('toc', 'e', {}),
    ('toc', 'bin', {}),
    ('toc', 'nothing', {}),
    ('toc', 'b', dict(constant_ordered_list=True, newline_string='\r\n',
                      skip_lines=1)),
    ('tocs', ('a', 'b', 'a'), {}),
    ('tocs', ('a', 'r'), dict(parser='goldmark')),
    ('header', '## b_c_\n# [x]', {}),
    ('anchor', 'A b', 'gitlab'),
    ('log', 'redcarpet', ')'),
    ('write', 'm', '- z\n'),
    ('cli', ('-l', 'github'), ('a', )),
    ('cli', ('redcarpet', ), ('b', 'a')),
    ('cli', ('-c', '-s', '1', 'commonmarker', '-o'), ('r', 'f')),
]
N = {'quick': 3, 'thorough': 4}
# every document with options that differ in one or two things
WIDE_DOCS = dict(
    DOCS,
    d='### x\n## y\n# z\n### x\n',
    o='# o\n' * 11 + '## p\n',
    h='# <b>x</b> `_y_` [z]\n#### x y z\n# x\\\n',
    q='# ' + 'q' * 1000 + '\n# a\n',
)
WIDE_KW = [
    {},
    dict(parser='cmark'),
    dict(parser='gitlab', no_links=True),
    dict(parser='redcarpet'),
    dict(parser='redcarpet', ordered=True, no_list_coherence=True),
    dict(no_list_coherence=True, keep_header_levels=6),
    dict(no_indentation=True, list_marker='*'),
    dict(ordered=True, list_marker=')', no_list_coherence=True),
    dict(constant_ordered_list=True, keep_header_levels=1),
    dict(skip_lines=1, newline_string='\r\n', parser='goldmark',
         no_list_coherence=True),
]
WIDE = [('toc', k, kw) for k in WIDE_DOCS for kw in WIDE_KW] + [
    op for op in OPS if op[0] != 'toc'
] + [
    ('edit', '# a\n# a\n', {}),
    ('edit', '# b\n# b\n', {}),
    ('edit', '# b\n#\n', dict(parser='cmark')),
    ('edit', '# b\n# b\n', dict(parser='cmark')),
    ('stdin', '# a\n# a\n', {}),
    ('stdin', '# a\n### b\n', dict(parser='gitlab')),
    ('stdin', '# b\n', dict(no_list_coherence=True)),
    ('equal', 'm', '- z\n'),
    ('equal', 't', ''),
]
# how often one line of one call, or one function, is a switch point
VISITS = {'line': 2, 'opcode': 2, 'call': 1}
PAIRS = [
    (('t', {}), ('u', {})),
    (('t', {}), ('t', dict(parser='redcarpet', ordered=True))),
    (('u', dict(parser='gitlab', no_links=True)), ('t', dict(parser='cmark',
                                                             ordered=True))),
    (('t', dict(ordered=True)), ('e', {})),
    (('r', {}), ('u', dict(parser='redcarpet'))),
    (('t', dict(keep_header_levels=1)), ('bin', {})),
]
BOUNDS = {
    'quick': {
        'histories': 'every sequence of up to 3 of %d calls (builds, failing '
        'builds, other parsers, other functions, the command line), each '
        'from a fresh process; every pair of %d calls' % (len(OPS),
                                                           len(WIDE)),
        'schedules': '%d ordered pairs of builds: one preemption after every '
        'line (first 2 visits of a line in a call); for 4 of them two '
        'preemptions after every pair of first entries and exits of '
        'functions (the second with stride 3)' % (2 * len(PAIRS)),
    },
    'thorough': {
        'histories': 'every sequence of up to 4 of %d calls, every pair of '
        '%d calls' % (len(OPS), len(WIDE)),
        'schedules': '%d ordered pairs of builds: one preemption after every '
        'byte code (first 2 visits in a call), two after every pair of '
        'first entries and exits of functions' % (2 * len(PAIRS)),
    },
}
STATE_MEANING = 'distinct (call, observation) pairs'
TRANSITION_MEANING = 'calls made in histories and switches in schedules'


def files():
    d = os.path.join(workdir(), 'h%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    for k, v in WIDE_DOCS.items():
        put(os.path.join(d, k + '.md'), v)
    return d


def snap(d):
    out = {}
    for e in sorted(os.listdir(d)):
        p = os.path.join(d, e)
        s = os.stat(p)
        out[e] = (get(p), s.st_mtime_ns, s.st_mode, s.st_ino)
    return out


def do(op, d):
    a = api()
    kind, x, y = op
    name = os.path.join(d, '%s.md')
    if kind == 'toc':
        return call(a.build_toc, name % x, **y)
    if kind == 'tocs':
        return call(a.build_multiple_tocs, [name % k for k in x], **y)
    if kind == 'header':
        return call(a.get_md_header, x, {}, **y)
    if kind == 'anchor':
        return call(lambda: [a.build_anchor_link(x, c, y)
                             for c in ({}, {'a-b': 3})])
    if kind == 'log':
        return call(lambda: [a.init_indentation_log(x, y) for i in (1, 2)])
    if kind == 'write':
        p = d + '-written.md'
        put(p, get(name % x))
        r = call(a.write_string_on_file_between_markers, p, y, MK)
        return r, get(p)
    if kind == 'edit':
        # another document under the name of an earlier one
        p = d + '-edited.md'
        put(p, x)
        return call(a.build_toc, p, **y)
    if kind == 'stdin':
        old = sys.stdin
        sys.stdin = io.StringIO(x)
        try:
            return call(a.build_toc, '-', **y)
        finally:
            sys.stdin = old
    if kind == 'equal':
        return call(a.tocs_equal, y, name % x, MK)
    if kind == 'cli':
        # the parser name ends the leading options
        names = [name % k for k in y]
        i = next(i for i, w in enumerate(x) if not w.startswith('-')
                 and not w.isdigit())
        r = cli(list(x[:i + 1]) + names + list(x[i + 1:]))
        return r[:2]
    raise ValueError(kind)


def fork(fn):
    """Result of fn() in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data)


def rep(hist, ops='OPS'):
    return ('sys.path.insert(0, %r)\nimport mc.core, mc.p22\nd = mc.p22.files'
            '()\ngot = [mc.p22.do(mc.p22.%s[i], d) for i in %r][-1]'
            % (str(VERIF), ops, list(hist)))


def histories(acc, first, depth):
    d = files()
    fresh = [fork(lambda o=o: do(o, d)) for o in OPS]
    before = snap(d)

    def node(hist, left):
        """Runs in a copy of the process that has made the calls hist[:-1]."""
        sub = Acc()
        i = hist[-1]
        got = do(OPS[i], d)
        sub.transitions += 1
        sub.ok([OPS[j] for j in hist], got, fresh[i], rep(hist))
        if snap(d) != before:
            sub.bad([OPS[j] for j in hist], 'files changed',
                    'files untouched', rep(hist))
        if left and not sub.full():
            for j in range(len(OPS)):
                merge(sub, fork(lambda: node(hist + (j, ), left - 1)))
                if sub.full():
                    break
        return sub

    merge(acc, fork(lambda: node((first, ), depth - 1)))


def pairs(acc, first):
    """Every call after each of the calls WIDE[first...]."""
    d = files()
    fresh = [fork(lambda o=o: do(o, d)) for o in WIDE]

    for i in first:
        # the calls commute with saving the state: one process per first call
        got = fork(lambda: (do(WIDE[i], d),
                            [fork(lambda: do(WIDE[j], d))
                             for j in range(len(WIDE))]))
        acc.ok([WIDE[i]], got[0], fresh[i], rep([i], 'WIDE'))
        for j in range(len(WIDE)):
            acc.transitions += 2
            acc.ok([WIDE[i], WIDE[j]], got[1][j], fresh[j],
                   rep([i, j], 'WIDE'))
        if acc.full():
            return


def merge(acc, sub):
    acc.runs += sub.runs
    acc.transitions += sub.transitions
    acc.outcomes |= sub.outcomes
    acc.violations += sub.violations[:acc.MAX]
    if len(acc.samples) < 2:
        acc.samples += sub.samples


# ---------------------------------------------------------------- threads
class Sched:
    """Two threads; control moves at given steps of the running one."""

    def __init__(self, jobs, switches, grain):
        self.jobs = jobs
        self.switches = list(switches)  # steps of the running thread
        self.grain = grain
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]
        self.steps = [0, 0]
        self.pos = 0
        self.left = self.switches[0] if self.switches else None
        self.prefix = os.path.realpath(REPO) + os.sep + 'md_toc'
        self.known = {}

    def mine(self, code):
        f = code.co_filename
        k = self.known.get(f)
        if k is None:
            k = self.known[f] = os.path.realpath(f).startswith(self.prefix)
        return k

    def trace(self, me):
        grain = self.grain
        visits = VISITS[grain]
        functions = {}

        def step(seen, key):
            # later iterations of a loop are not switch points
            c = seen.get(key, 0)
            if c >= visits:
                return
            seen[key] = c + 1
            self.steps[me] += 1
            if self.left is None:
                return
            self.left -= 1
            if self.left < 0:
                self.pos += 1
                self.left = (self.switches[self.pos]
                             if self.pos < len(self.switches) else None)
                other = 1 - me
                if not self.done[other]:
                    self.sem[other].release()
                    self.sem[me].acquire()

        def top(frame, event, arg):
            if not self.mine(frame.f_code):
                return None
            if self.left is None and self.switches:
                return None
            seen = {}
            if grain == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if grain == 'call':
                step(functions, (frame.f_code, 'call'))
                frame.f_trace_lines = False

            def local(frame, event, arg):
                if self.left is None and self.switches:
                    return None
                if event == grain:
                    step(seen, frame.f_lineno if grain == 'line' else
                         frame.f_lasti)
                elif grain == 'call' and event == 'return':
                    step(functions, (frame.f_code, 'return'))
                return local

            return local

        return top

    def body(self, me):
        self.sem[me].acquire()
        sys.settrace(self.trace(me))
        try:
            r = ('ok', self.jobs[me]())
        except Exception as e:
            r = ('exc', type(e).__name__)
        finally:
            sys.settrace(None)
        self.out[me] = r
        self.done[me] = True
        self.sem[1 - me].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i, ), daemon=True)
              for i in (0, 1)]
        for t in ts:
            t.start()
        self.sem[0].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                self.out[ts.index(t)] = ('hang', '')
        return self.out


def job(d, spec):
    k, kw = spec
    return lambda: api().build_toc(os.path.join(d, k + '.md'), **kw)


def schedules(acc, i, swap, grain, bound, part, parts, stride):
    d = files()
    specs = PAIRS[i][::-1] if swap else PAIRS[i]
    jobs = [job(d, s) for s in specs]
    alone = [call(j) for j in jobs]
    signal.setitimer(signal.ITIMER_PROF, 0)
    for _ in range(3):
        # opcode events may need a first run to be switched on
        s = Sched(jobs, [], grain)
        got = s.run()
        if all(s.steps):
            break
    acc.ok([specs, 'serial'], got, alone)
    n = s.steps
    acc.count('steps_' + grain, n[0] if part == 0 else 0)
    for k in range(part, n[0] + 1, parts):
        plans = [[k]] if bound == 1 else [[k, m]
                                          for m in range(0, n[1], stride)]
        for plan in plans:
            got = Sched(jobs, plan, grain).run()
            acc.transitions += len(plan) + 1
            acc.ok([specs, grain, plan], got, alone,
                   'sys.path.insert(0, %r)\nimport mc.core, mc.p22 as m\nd = '
                   'm.files()\nspecs = %r\ngot = m.Sched([m.job(d, s) for s '
                   'in specs], %r, %r).run()' % (str(VERIF), specs, plan,
                                                 grain))
            if acc.full():
                return


def processes(acc, seed):
    """Other interpreters, hash seeds, directories and ways to name a file."""
    d = files()
    for op in OPS:
        if op[0] != 'cli':
            continue
        names = ['%s.md' % k for k in op[2]]
        x = op[1]
        i = next(i for i, w in enumerate(x) if not w.startswith('-')
                 and not w.isdigit())
        want = do(op, d)
        for base in ('', './', d + '/', '../' + os.path.basename(d) + '/'):
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED=str(seed))
            r = subprocess.run(
                [sys.executable, '-m', 'md_toc'] + list(x[:i + 1]) +
                [base + n for n in names] + list(x[i + 1:]), env=env, cwd=d,
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL)
            acc.transitions += 1
            acc.ok([op, base, seed], (r.returncode, r.stdout.decode()), want)


def readonly(acc):
    """Documents and directories nobody may write: as a plain observer."""
    d = files()
    before = snap(d)
    for k in DOCS:
        for kw in (dict(), dict(parser='redcarpet'), dict(skip_lines=1),
                   dict(ordered=True, no_links=True)):
            for f in (lambda p: api().build_toc(p, **kw),
                      lambda p: api().build_multiple_tocs([p, p], **kw),
                      lambda p: api().tocs_equal('- z\n', p, MK)):
                call(f, os.path.join(d, k + '.md'))
                acc.transitions += 1
                acc.ok([k, kw], snap(d) == before, True)
        for a in ([], ['-d'], ['-l'], ['-n', '\\r']):
            cli(a + ['github', os.path.join(d, k + '.md')])
            acc.transitions += 1
            acc.ok([k, a], snap(d) == before, True)


def tasks(tier):
    for i in range(len(PAIRS)):
        for swap in (False, True):
            if tier == 'quick':
                for part in range(2):
                    yield 'schedules', (i, swap, 'line', 1, part, 2, 1)
                    if i < 2:
                        yield 'schedules', (i, swap, 'call', 2, part, 2, 3)
            else:
                for part in range(4):
                    yield 'schedules', (i, swap, 'opcode', 1, part, 4, 1)
                    yield 'schedules', (i, swap, 'call', 2, part, 4, 1)
    for s in (0, 1, 2):
        yield 'processes', (s, )
    yield 'readonly', ()
    for first in range(0, len(WIDE), 6):
        yield 'pairs', (range(first, min(first + 6, len(WIDE))), )
    for first in range(len(OPS)):
        yield 'histories', (first, N[tier])

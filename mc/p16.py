"""P16: a crash or I/O error during an in-place update never damages the file.

The process under test runs with a preloaded library (shim/fault.c) that
numbers its file operations. A first run of every scenario records the
operations; then every operation is made, in a fresh copy of the scenario, a
crash point (all writes also torn at several places), a failing operation, an
interruption, and the start of a full disk; and after every first failure,
every later operation crashes or fails too. Crash states are also examined with
all data that was not synced lost.
"""
import ctypes
import errno
import io
import json
import os
import pickle
import shutil
import signal
import stat
import subprocess
import sys
import tempfile

from . import model as M
from .core import REPO, VERIF, Acc, Scratch, put, get, workdir

LEVEL = 'fault_enumeration'
MK = '<!--TOC-->'
NONE, BEFORE, AFTER, TORN, FAIL, SHORT, INT, FULL = range(8)
MODES = ['none', 'crash before', 'crash after', 'torn write, crash after',
         'error', 'short write', 'SIGINT after', 'disk full from here on']
MUTATING = 'OwsctRLumfyUdn'
OLD = '- [old](#old)\n  - [x](#x)'
HEAD = 'intro\n'
TAIL = '\n# a\n\ntext \u00e9\n\n## b\n\n# c\n'
BIG = ''.join('line %d of the text\n' % i for i in range(500))
DOCS = {
    'one': HEAD + MK + '\n' + TAIL,
    'pair': HEAD + MK + '\n\n' + OLD + '\n\n' + MK + '\n' + TAIL,
    'empty pair': MK + '\n' + MK + '\n' + TAIL,
    'insert': HEAD + MK + '\n\nfoo\nbar\n\n' + MK + '\n' + TAIL,
    'same': HEAD + MK + '\n\n- [a](#a)\n  - [b](#b)\n- [c](#c)\n\n' + MK +
    '\n' + TAIL,
    'none': HEAD + TAIL,
    'last': TAIL + MK,
    'big': BIG + MK + '\n\n' + OLD + '\n\n' + MK + '\n' + TAIL + BIG,
    'crlf': (HEAD + MK + '\n\n' + OLD + '\n\n' + MK + '\n' + TAIL).replace(
        '\n', '\r\n'),
    'third': MK + '\nz\n\n' + MK + '\n\n- q\n\n' + MK + '\n' + TAIL,
}
TOC = '- [a](#a)\n  - [b](#b)\n- [c](#c)\n'
ERRORS = {
    'O': (errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS, errno.EIO),
    'o': (errno.EIO, errno.EMFILE),
    'w': (errno.ENOSPC, errno.EIO, errno.EDQUOT),
    's': (errno.ENOSPC, errno.EIO, errno.EINVAL),
    'c': (errno.ENOSPC, errno.EIO, errno.EXDEV),
    'R': (errno.EIO, errno.EXDEV, errno.EPERM, errno.ENOSPC),
    'L': (errno.EPERM, ),
    'u': (errno.EPERM, errno.EIO),
    'm': (errno.EPERM, ),
    'f': (errno.EIO, errno.ENOSPC),
    'x': (errno.EIO, errno.ENOSPC),
    'r': (errno.EIO, ),
    't': (errno.EIO, ),
    'U': (errno.EPERM, ),
    'n': (errno.EPERM, ),
    'd': (errno.EPERM, ),
    'y': (errno.EPERM, ),
}


def scenarios(tier):
    q = tier == 'quick'
    for doc in DOCS:
        for xd in (0, 1):
            yield dict(entry='api', docs=[doc], xdev=xd, mode=0o640, link=0,
                       nl='\n')
    for doc in ('one', 'pair', 'insert'):
        for link in (1, 2):
            for mode in ((0o600, ) if q else (0o600, 0o755, 0o444, 0o4711)):
                yield dict(entry='api', docs=[doc], xdev=link % 2, mode=mode,
                           link=link, nl='\r\n')
    yield dict(entry='multi', docs=['one', 'pair'], xdev=0, mode=0o644,
               link=0, nl='\n')
    yield dict(entry='cli', docs=['pair', 'one'], xdev=0, mode=0o644, link=0,
               nl='\n')
    if q:
        return
    for docs in (['pair', 'none', 'insert'], ['same', 'big'],
                 ['one', 'crlf', 'third']):
        for e in ('multi', 'cli'):
            for xd in (0, 1):
                for nl in ('\n', '\r\n'):
                    yield dict(entry=e, docs=docs, xdev=xd, mode=0o604,
                               link=xd, nl=nl)
    for doc in DOCS:
        for nl in ('\r', '\r\n'):
            for mode in (0o644, 0o666):
                yield dict(entry='api', docs=[doc], xdev=0, mode=mode, link=0,
                           nl=nl)


BOUNDS = {
    t: {
        'updates': [str(s) for s in scenarios(t)],
        'faults': 'every operation of every update: crash after it, SIGINT '
        'after it, every error of a list per kind of operation, disk full '
        'from it on; every write torn and shortened at %s' %
        ('1, half, all but 1 byte' if t == 'quick' else
         'every byte up to 64 and 16 places beyond'),
        'modes': 'all 4096 sets of permission bits (no fault)',
        'double faults': 'after every first error, every later mutating '
        'operation crashes' + ('' if t == 'quick' else ' or fails'),
    }
    for t in ('quick', 'thorough')
}
RULE = ('one evaluation is one execution of the real code with one fault (or '
        'two) at one operation; distinct_nontrivial counts the distinct '
        '(kind of operation, fault, outcome, resulting file state) '
        'combinations')
ASSUMPTIONS = [
    'A rename is atomic and reaches the disk after data synced before it; '
    'file metadata operations reach the disk in order.',
    'Failing stat calls are not injected.'
]


# ------------------------------------------------------------- the driver
class Lab:
    """Runs one scenario under the shim; lives in the preloaded process."""

    def __init__(self, sc, base):
        self.sc = sc
        self.lib = ctypes.CDLL(None)
        self.lib.mc_kind.restype = ctypes.c_char
        self.lib.mc_size.restype = ctypes.c_long
        self.lib.mc_ops.restype = ctypes.c_long
        self.lib.mc_fault.argtypes = [ctypes.c_long, ctypes.c_int,
                                      ctypes.c_long]
        self.base = base
        self.d = os.path.join(base, 'd')
        self.t = os.path.join(base, 't')
        self.l = os.path.join(base, 'l')
        tempfile.tempdir = self.t
        os.environ['TMPDIR'] = self.t
        self.real = [os.path.join(self.d, 'f%d.md' % i)
                     for i in range(len(sc['docs']))]
        self.old = [DOCS[k].encode() for k in sc['docs']]
        new = [M.write(DOCS[k], TOC, MK, sc['nl']) for k in sc['docs']]
        self.new = [x.encode() for x in new]
        if sc['entry'] == 'cli':
            self.new = [
                M.write(DOCS[k], M.toc(M.split_file(DOCS[k])[0],
                                       keep_header_levels=6), MK,
                        sc['nl']).encode() for k in sc['docs']
            ]
        self.names = list(self.real)
        if sc['link']:
            self.names = [os.path.join(self.l, 'f%d.md' % i)
                          for i in range(len(sc['docs']))]

    def reset(self):
        for p in (self.d, self.t, self.l):
            shutil.rmtree(p, ignore_errors=True)
            os.mkdir(p)
        for i, (r, o) in enumerate(zip(self.real, self.old)):
            put(r, o)
            os.chmod(r, self.sc['mode'])
            if self.sc['link'] == 1:
                os.symlink(os.path.join('..', 'd', 'f%d.md' % i),
                           self.names[i])
            elif self.sc['link'] == 2:
                os.symlink(r, os.path.join(self.l, 'm%d' % i))
                os.symlink('m%d' % i, self.names[i])

    def work(self):
        from md_toc import api
        sc = self.sc
        if sc['entry'] == 'api':
            return api.write_string_on_file_between_markers(
                self.names[0], TOC, MK, sc['nl'])
        if sc['entry'] == 'multi':
            return api.write_strings_on_files_between_markers(
                self.names, [TOC] * len(self.names), MK, sc['nl'])
        import md_toc.__main__ as m
        sys.argv = ['md_toc', '-p', '-n', repr(sc['nl'])[1:-1], 'github'
                    ] + self.names
        try:
            m.main()
        except SystemExit as e:
            if e.code:
                raise RuntimeError(e.code)
        return None

    def run(self, faults):
        """(outcome, [(kind, size)], dirty inodes)."""
        self.reset()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 79
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.alarm(60)
                sys.stdout = io.StringIO()
                sys.stderr = io.StringIO()
                self.lib.mc_clear()
                for at, mode, arg in faults:
                    self.lib.mc_fault(at, mode, arg)
                if self.sc['xdev']:
                    self.lib.mc_xdev(self.t.encode())
                self.lib.mc_arm(w)
                try:
                    v = self.work()
                    self.lib.mc_disarm()
                    out = 'returned %r' % (v, )
                    code = 0
                except BaseException as e:
                    self.lib.mc_disarm()
                    out = 'raised ' + type(e).__name__
                    code = 78
                self.lib.mc_report()
                n = self.lib.mc_ops()
                ops = [(self.lib.mc_kind(i).decode(), self.lib.mc_size(i))
                       for i in range(min(n, 4000))]
                os.write(w, json.dumps([out, ops]).encode())
            finally:
                os._exit(code)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        head, _, rest = data.partition(b'\n')
        dirty = {tuple(map(int, x.split(b':'))) for x in head.split()[1:]}
        if code == 77:
            return 'crashed', [], dirty
        if code in (0, 78):
            out, ops = json.loads(rest)
            return out, ops, dirty
        return 'died with %d' % code, [], dirty

    def state(self, dirty, powerloss):
        """Per file: 'old', 'new' or what is wrong."""
        out = []
        for n, o, w in zip(self.names, self.old, self.new):
            try:
                if powerloss:
                    s = os.stat(n)
                    if (s.st_dev, s.st_ino) in dirty:
                        os.truncate(n, 0)
                b = get(n)
            except OSError as e:
                out.append('gone: ' + type(e).__name__)
                continue
            if b == w:
                out.append('new' if w != o else 'old new')
            elif b == o:
                out.append('old')
            else:
                out.append('damaged (%d bytes, old %d, new %d): %r' %
                           (len(b), len(o), len(w), b[-200:]))
        return out

    def success(self):
        """Complaints about a completed update."""
        bad = []
        for i, (n, r, w) in enumerate(zip(self.names, self.real, self.new)):
            if get(n) != w:
                bad.append('content of file %d: %r' % (i, get(n)[-300:]))
            if stat.S_IMODE(os.stat(n).st_mode) != self.sc['mode']:
                bad.append('mode of file %d: %o' %
                           (i, stat.S_IMODE(os.stat(n).st_mode)))
            if self.sc['link'] and not os.path.islink(n):
                bad.append('link %d was replaced' % i)
            if self.sc['link'] and get(r) != w:
                bad.append('target of link %d' % i)
        want = sorted(os.path.basename(x) for x in self.real)
        if sorted(os.listdir(self.d)) != want or os.listdir(self.t):
            bad.append('left behind: %r' %
                       (sorted(set(os.listdir(self.d)) - set(want)) +
                        os.listdir(self.t), ))
        return bad


def cuts(n, tier):
    if n < 2:
        return []
    if tier == 'quick':
        return sorted({1, n // 2, n - 1})
    c = set(range(1, min(n, 65))) | {n * k // 17 for k in range(1, 17)}
    return sorted(c | {n - 1} - {0})


def explore(acc, sc, tier, base, part, parts):
    lab = Lab(sc, base)
    out, ops, dirty = lab.run([])
    case = {'update': sc}
    acc.runs += 1
    bad = lab.success() if out.startswith('returned') else [out]
    if not bad:
        bad = [x for x in lab.state(dirty, True)
               if x not in ('old', 'new', 'old new')]
    if bad:
        acc.bad(case, bad, 'a complete update', rep(sc, []))
        return

    def judge(faults, what):
        out, ops2, dirty = lab.run(faults)
        acc.runs += 1
        st = lab.state(dirty, False)
        why = None
        if any(x not in ('old', 'new', 'old new') for x in st):
            why = 'damaged'
        elif out.startswith('died'):
            why = 'the process died'
        elif out.startswith('returned'):
            if any('new' not in x for x in st):
                why = 'success was reported but the file is the old one'
        if not why:
            st2 = lab.state(dirty, True)
            if any(x not in ('old', 'new', 'old new') for x in st2):
                why, st = 'damaged after losing unsynced data', st2
        acc.seen((what, out, tuple(x[:7] for x in st)))
        if why:
            acc.bad(dict(case, faults=[
                'operation %d (%s): %s %s' %
                (k, ops[k][0] if k < len(ops) else '?', MODES[m], a)
                for k, m, a in faults
            ]), (why, out, st), 'complete old or new content',
                rep(sc, faults))
        elif len(acc.samples) < 2 and acc.runs % 97 == 3:
            acc.samples.append({'update': sc, 'faults': faults,
                                'outcome': out, 'files': st})
        return out, ops2

    for k, (kind, size) in enumerate(ops):
        if k % parts != part:
            continue
        singles = [(AFTER, 0), (INT, 0)]
        if k == 0:
            singles.append((BEFORE, 0))
        if kind in 'wsc':
            for c in cuts(size, tier):
                singles += [(TORN, c), (SHORT, c)]
        if kind in 'wOsc':
            singles.append((FULL, 0))
        errs = ERRORS.get(kind, (errno.EIO, ))
        singles += [(FAIL, e) for e in errs]
        for mode, arg in singles:
            out, ops2 = judge([(k, mode, arg)], (kind, mode, arg))
            if acc.full():
                return
            second = mode == FAIL and (arg == errs[0] or tier != 'quick')
            if mode == INT:
                second = True
            if sc['docs'][0] == 'big' and tier == 'quick':
                second = False
            if not second:
                continue
            for m in range(k + 1, len(ops2)):
                k2 = ops2[m][0]
                if k2 not in MUTATING:
                    continue
                # operations of an undisturbed remainder are single faults
                judge([(k, mode, arg), (m, AFTER, 0)],
                      (kind, mode, arg, k2, AFTER))
                if tier != 'quick' or k2 == 'u':
                    judge([(k, mode, arg),
                           (m, FAIL, ERRORS.get(k2, (5, ))[0])],
                          (kind, mode, arg, k2, FAIL))
                if acc.full():
                    return
    if part == 0:
        acc.count('operations_of_updates', len(ops))
        acc.count('updates')


def rep(sc, faults):
    return ('import subprocess\ngot = subprocess.run([sys.executable, "-m", '
            '"mc.p16", "replay", %r], cwd=%r, stdout=subprocess.PIPE, '
            'text=True).stdout' % (json.dumps([sc, faults]), str(VERIF)))


# ---------------------------------------------------------------- the check
def compile_shim(d):
    so = os.path.join(d, 'fault.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so,
                    os.path.join(os.path.dirname(__file__), 'shim',
                                 'fault.c')], check=True,
                   capture_output=True)
    return so


def spawn(so, args, d):
    env = dict(os.environ, LD_PRELOAD=so, PYTHONPATH=REPO)
    return subprocess.run([sys.executable, '-m', 'mc.p16'] + args, cwd=VERIF,
                          env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE)


def scenario(acc, i, tier, part, parts):
    d = workdir()
    so = os.path.join(Scratch.get(), 'fault.so')
    base = os.path.join(d, 's%d-%d' % (i, part))
    os.mkdir(base)
    r = spawn(so, ['run', str(i), tier, base, str(part), str(parts)], d)
    shutil.rmtree(base, ignore_errors=True)
    if r.returncode:
        raise RuntimeError(r.stderr.decode()[-1500:])
    acc.__dict__.update(pickle.loads(r.stdout))


def modes(acc, part):
    """Every set of permission bits is kept."""
    from .core import api
    p = os.path.join(workdir(), 'mode.md')
    for mode in range(part, 0o10000, 8):
        put(p, DOCS['pair'])
        os.chmod(p, mode)
        api().write_string_on_file_between_markers(p, TOC, MK, '\n')
        s = stat.S_IMODE(os.stat(p).st_mode)
        acc.ok({'mode': oct(mode)}, (oct(s), get(p)),
               (oct(mode), M.write(DOCS['pair'], TOC, MK, '\n').encode()))
        os.unlink(p)
        if acc.full():
            return


def tasks(tier):
    compile_shim(Scratch.get())
    for part in range(8):
        yield 'modes', (part, )
    sc = list(scenarios(tier))
    # long ones first
    for i in sorted(range(len(sc)), key=lambda i: -len(sc[i]['docs'])):
        n = 2 if len(sc[i]['docs']) == 1 else 8
        for part in range(n):
            yield 'scenario', (i, tier, part, n)


if __name__ == '__main__':
    if sys.argv[1] == 'run':
        import md_toc.__main__  # noqa: F401
        sc = list(scenarios(sys.argv[3]))[int(sys.argv[2])]
        acc = Acc()
        explore(acc, sc, sys.argv[3], sys.argv[4], int(sys.argv[5]),
                int(sys.argv[6]))
        sys.stdout.buffer.write(pickle.dumps(acc.__dict__))
        sys.stdout.flush()
    elif sys.argv[1] == 'replay':
        # preload, then run one scenario with the given faults
        if 'LD_PRELOAD' not in os.environ:
            d = tempfile.mkdtemp()
            try:
                r = spawn(compile_shim(d), sys.argv[1:], d)
                sys.stdout.write(r.stdout.decode() + r.stderr.decode())
            finally:
                shutil.rmtree(d)
        else:
            import md_toc.__main__  # noqa: F401
            sc, faults = json.loads(sys.argv[2])
            d = tempfile.mkdtemp()
            try:
                lab = Lab(sc, d)
                out, ops, dirty = lab.run([tuple(f) for f in faults])
                print(out, lab.state(dirty, False), lab.state(dirty, True),
                      '' if faults else lab.success())
            finally:
                shutil.rmtree(d)

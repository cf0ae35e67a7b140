"""P19: standard input gives the same TOC as a file."""
import io
import itertools
import os
import shutil
import subprocess
import sys

from . import model as M
from .core import (REPO, api, call, cli, get, model, prefixes, put, sub,
                   workdir)

MK = '<!--TOC-->'
AL = ['# a', '## b', '### c', 'x', '```', '~~~~', '']
OPTS = [
    dict(), dict(ordered=True), dict(no_links=True),
    dict(no_indentation=True), dict(keep_header_levels=1),
    dict(skip_lines=1), dict(skip_lines=3, no_list_coherence=True),
    dict(constant_ordered_list=True, list_marker=')'),
    dict(parser='redcarpet'), dict(parser='gitlab', newline_string='\r\n'),
]
# the same as command-line arguments: before and after the parser
ARGS = [
    ([], 'github', []), ([], 'cmark', ['-o']), (['-l'], 'github', []),
    (['-i'], 'gitlab', ['-u', '*']), ([], 'goldmark', ['-l', '1']),
    (['-s', '1'], 'github', []), (['-s', '3', '-c'], 'commonmarker', []),
    ([], 'github', ['-c', '-o', ')']), ([], 'redcarpet', []),
    (['-n', '\\r\\n'], 'gitlab', []),
]
TEXTS = ['# \u00e9\u4e2d\U0001f600 b', '#\ta', '# a [x](y) *b*', '#', '\ufeffx',
         '# ' + 'y' * 1000, '# a\x0c', '### z']
N = {'quick': (5, 4, 3), 'thorough': (6, 5, 4)}
BOUNDS = {
    t: {
        'library': 'every document of up to %d of %d lines (options: %d up '
        'to length 3, 3 above)' % (n[0], len(AL), len(OPTS)),
        'chunks': 'every document of up to %d lines with non-ASCII text and '
        'CRLF ends, delivered 1, 2, 3, 5 and 7 bytes at a time' % n[2],
        'command line': 'every document of up to %d lines, with the name "-" '
        'and without a name, %d commands' % (n[1], len(ARGS)),
        'characters': 'every code point at the start of the document, of '
        'headings, of lines and in fences',
        'pipes': 'a list of documents x commands through real processes and '
        'pipes',
    }
    for t, n in N.items()
}
ASSUMPTIONS = ['The documents are valid UTF-8: what the standard input does '
               'with invalid bytes depends on the locale settings.']


class Pipe(io.RawIOBase):
    """Not seekable; gives at most k bytes at a time."""

    def __init__(self, data, k):
        self.data, self.k = data, k

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.k, len(self.data))
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        return n


def stdin(data, k=1 << 30):
    return io.TextIOWrapper(io.BufferedReader(Pipe(data, k)),
                            encoding='utf-8')


def read(data, kw, k=1 << 30, multi=None):
    old = sys.stdin
    sys.stdin = stdin(data, k)
    try:
        if multi is None:
            return call(api().build_toc, '-', **kw)
        return call(api().build_multiple_tocs, list(multi), **kw)
    finally:
        sys.stdin = old


def rep(data, kw):
    return ('import io\nfrom md_toc import api\nsys.stdin = io.TextIOWrapper('
            'io.BytesIO(%r), encoding="utf-8")\nopen("f.md", "wb").write(%r)'
            '\ngot = []\nfor n in ("-", "f.md"):\n    try:\n        got.append'
            '(api.build_toc(n, **%r))\n    except Exception as e:\n        '
            'got.append(repr(e))' % (data, data, kw))


def both(acc, data, kw, k=1 << 30):
    p = os.path.join(workdir(), 'f.md')
    put(p, data)
    a = call(api().build_toc, p, **kw)
    b = read(data, kw, k)
    acc.ok([data.decode(), kw, k], b, a, rep(data, kw))
    return a


def library(acc, n, prefix, exact):
    for w in sub(AL, n, prefix, exact):
        for term in ((True, False) if len(w) < n and w else (len(w) % 2 == 0, )):
            text = '\n'.join(w) + ('\n' if term and w else '')
            data = text.encode()
            for kw in (OPTS if len(w) < 4 else OPTS[:2] + OPTS[5:6]):
                a = both(acc, data, kw)
                acc.transitions += len(w)
                if len(w) < 3:
                    for multi in ([], ['-']):
                        want = a if a[0] != 'ok' else ('ok', [a[1]])
                        acc.ok([text, kw, multi], read(data, kw, multi=multi),
                               want, rep(data, kw))
        if acc.full():
            return


def chunks(acc, n, prefix, exact):
    for w in sub(TEXTS + ['# a', '```'], n, prefix, exact):
        for nl in ('\n', '\r\n', '\r'):
            data = (nl.join(w) + nl).encode()
            for kw in (dict(no_links=True), dict(parser='cmark')):
                for k in (1, 2, 3, 5, 7, 1 << 30):
                    if len(data) > 900 and k != 1 << 30 and len(w) > 1:
                        continue
                    both(acc, data, kw, k)
                    acc.transitions += len(w)
        if acc.full():
            return


def points(acc, lo, hi):
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000:
            continue
        c = chr(cp)
        for text in (c + '# a\n# b\n', '# ' + c + 'b\n' + c + '\n# c',
                     c + '```\n# a\n' + c + '```\n# b' + c):
            acc.transitions += 1
            both(acc, text.encode(), dict(no_links=True))
        if acc.full():
            return


def bigger(acc, size):
    """Headings around buffer boundaries and long documents."""
    for d in range(-5, 6):
        for nl in ('\n', '\r\n'):
            for tail in ('# b', '```', '## b'):
                text = nl.join(['# a', 'x' * (size + d), tail, '# c', ''])
                acc.transitions += 4
                both(acc, text.encode(), {})
                both(acc, text.encode(), {}, 4096)
    text = ''.join('# h%d\n' % i for i in range(size // 4))
    both(acc, text.encode(), {})
    both(acc, text.encode(), dict(ordered=True))
    both(acc, text.encode(), dict(skip_lines=size // 5))


def command(acc, n, prefix, exact):
    d = os.path.join(workdir(), 'cwd')
    old = os.getcwd()
    for w in sub(AL, n, prefix, exact):
        data = ('\n'.join(w) + ('\n' if w else '')).encode()
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        os.chdir(d)
        try:
            put(os.path.join(d, 'f.md'), data)
            for a, p, b in (ARGS if len(w) < 3 else
                            [ARGS[(len(w) + len(data)) % len(ARGS)], ARGS[0]]):
                f = cli(a + [p, 'f.md'] + b)
                r = ('import subprocess\nopen("f.md", "wb").write(%r)\ngot = '
                     '[subprocess.run([sys.executable, "-m", "md_toc"] + %r +'
                     ' x + %r, input=%r, stdout=-1, env={**os.environ, '
                     '"PYTHONPATH": sys.path[0]}).stdout for x in ([], ["-"],'
                     ' ["f.md"])]' % (data, a + [p], b, data))
                for name in ([], ['-']):
                    s = cli(a + [p] + name + b, stdin=data)
                    acc.transitions += 1
                    acc.ok([w, a, p, name, b], s[:2], f[:2], r)
                    s = cli(['-p'] + a + [p] + name + b, stdin=data)
                    acc.ok([w, a, p, name, b, 'in place'],
                           (s[0], s[1], sorted(os.listdir(d)), get('f.md')),
                           (1, '', ['f.md'], data), r)
        finally:
            os.chdir(old)
        if acc.full():
            return


def named(acc):
    """A file that is really called "-" is neither read nor written."""
    d = os.path.join(workdir(), 'dash')
    os.makedirs(d, exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    try:
        for content in ('# file\n' + MK + '\n', MK + '\n'):
            put('-', content)
            for a, p, b in ARGS[:5]:
                acc.transitions += 1
                s = cli(a + [p, '-'] + b, stdin=b'# in\n')
                put('f.md', '# in\n')
                acc.ok([a, p, b], (s[:2], get('-').decode()),
                       (cli(a + [p, 'f.md'] + b)[:2], content))
                s = cli(['-p'] + a + [p, '-'] + b, stdin=b'# in\n')
                acc.ok([a, p, b, 'in place'], (s[0], get('-').decode()),
                       (1, content))
            r = call(api().write_string_on_file_between_markers, '-',
                     '- z\n', MK)
            acc.ok('write', (r, get('-').decode()),
                   (('exc', 'StdinIsNotAFileToBeWritten'), content))
            r = call(api().write_strings_on_files_between_markers, ['-'],
                     ['- z\n'], MK)
            acc.ok('write many', (r, get('-').decode()),
                   (('exc', 'StdinIsNotAFileToBeWritten'), content))
    finally:
        os.chdir(old)


def pipes(acc, docs, i):
    d = workdir()
    p = os.path.join(d, 'pipe.md')
    env = dict(os.environ, PYTHONPATH=REPO)
    a, parser, b = ARGS[i]
    for text in docs:
        data = text.encode()
        put(p, data)
        cmd = [sys.executable, '-m', 'md_toc'] + a + [parser]
        f = subprocess.run(cmd + [p] + b, env=env, cwd=d,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL)
        for name in ([], ['-']):
            with subprocess.Popen(cmd + name + b, env=env, cwd=d,
                                  stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL) as s:
                try:
                    # in two pieces
                    s.stdin.write(data[:len(data) // 2])
                    s.stdin.flush()
                    s.stdin.write(data[len(data) // 2:])
                    s.stdin.close()
                except BrokenPipeError:
                    pass
                out = s.stdout.read()
                st = s.wait(60)
            acc.transitions += 1
            acc.count('real_pipes')
            acc.ok([text[:200], ARGS[i], name], (st, out),
                   (f.returncode, f.stdout))


PIPED = ['', '# a\n', '# a\n## b\n# a', '```\n# a\n', '# a\r\n## b\r\n',
         '# a\n### b\n', '# \u00e9\u4e2d\U0001f600\n# b\n', '#\n',
         'x\n' * 5000 + '# z\n', '~~~\n# a\n~~~\n# b']


def tasks(tier):
    a, b, c = N[tier]
    for i in range(len(ARGS)):
        if tier != 'quick' or i < 4:
            yield 'pipes', (PIPED[i % 2::2] if tier == 'quick' else PIPED, i)
    yield 'named', ()
    for lo in range(0, 0x11000 if tier == 'quick' else 0x110000, 0x800):
        yield 'points', (lo, lo + 0x800)
    for s in (1024, 4096, 8192):
        yield 'bigger', (s, )
    for w, exact in prefixes(AL, 2):
        yield 'library', (a, w, exact)
    for w, exact in prefixes(AL, 2):
        yield 'command', (b, w, exact)
    for w, exact in prefixes(TEXTS + ['# a', '```'], 2):
        yield 'chunks', (c, w, exact)

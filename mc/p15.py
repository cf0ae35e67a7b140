"""P15: difference reports are exact."""
import itertools
import os

from . import model as M
from .core import (api, call, cli, get, near, prefixes, put, repro_call, sub,
                   workdir)

MK = '<!--TOC-->'
AL = ['M', '', 'x', '- a', '- [a](#a)', '  - b', ' M', '  ']
TOCS = ['', '- a\n', '- a', '\n- a\n\n', '- [a](#a)\n', '- a\n  - b\n',
        '- a\n- [a](#a)\n', 'x', 'M', '- a\n\n- a\n', ' - a', '- a ',
        '- a\n  - b \n', '- A\n', '-  a']
N = {'quick': (5, 3), 'thorough': (6, 4)}
BOUNDS = {
    t: {
        'pairs': 'all files of up to %d of %d lines x %d tables x 3 newline '
        'kinds of table and of file (files of up to 3 lines)' %
        (N[t][0], len(AL), len(TOCS)),
        'command_line': 'all tuples of up to %d of 7 files, printing and in '
        'place, with and without the option' % N[t][1],
        'newlines': 'all tables of up to 3 of 4 lines in 3 surroundings x 3 '
        'changes x 9 newline patterns of the file x 3 of the table',
        'tables': 'every single-character change of a table; every single '
        'changed line of tables of up to 2500 lines; lines of up to 70000 '
        'characters'
    }
    for t in N
}


def eq(text, toc, marker=MK):
    lines, _ = M.split_file(text)
    t = toc.replace('\r\n', '\n').replace('\r', '\n').strip()
    return t == M.existing(lines, marker)


def one(acc, text, toc, write=True):
    p = os.path.join(workdir(), 'd.md')
    put(p, text)
    want = ('ok', eq(text, toc))
    rep = ('open("d.md", "w", newline="").write(%r)\n' % text)
    acc.transitions += 1
    acc.ok([text[:2000], toc[:500]], call(api().tocs_equal, toc, p, MK), want,
           rep + repro_call('api.tocs_equal(%r, "d.md", %r)' % (toc, MK)))
    if get(p) != text.encode():
        acc.bad([text, toc], 'file changed', 'comparison changes nothing')
    if write:
        acc.ok([text[:2000], toc[:500], 'write'],
               call(api().write_string_on_file_between_markers, p, toc, MK),
               want, rep + repro_call(
                   'api.write_string_on_file_between_markers("d.md", %r, %r)'
                   % (toc, MK)))


def pairs(acc, n, prefix, exact):
    for w in sub(AL, n, prefix, exact):
        lines = [l.replace('M', MK) for l in w]
        for i, t in enumerate(TOCS):
            t = t.replace('M', MK)
            if len(w) < n:
                one(acc, '\n'.join(lines) + '\n', t, i < 6)
                one(acc, '\n'.join(lines), t, False)
                if len(w) <= 3:
                    for nf in ('\r\n', '\r'):
                        for nt in ('\n', '\r\n', '\r'):
                            one(acc, nf.join(lines) + nf,
                                t.replace('\n', nt), i < 6)
            elif i in (0, 1, 4, 5):
                one(acc, '\n'.join(lines) + '\n', t, False)
        if acc.full():
            return


def edits(acc):
    """Any single-character difference is seen, surrounding blanks are not."""
    base = '- [a b](#a-b)\n  - [c](#c)\n- [d](#d)\n'
    pre = 'x\n' + MK + '\n\n'
    post = '\n' + MK + '\ny\n'
    one(acc, pre + base + post, base)
    for i in range(len(base) + 1):
        for c in ('', ' ', '-', 'Z', '\n', '\t'):
            for alt in (base[:i] + c + base[i:], base[:i] + c + base[i + 1:]):
                one(acc, pre + base + post, alt, False)
                one(acc, pre + alt + post, base, False)
    for k in range(1, 400, 7):
        t = ''.join('- [h%d](#h%d)\n' % (i, i) for i in range(k))
        f = pre + t + post
        one(acc, f, t)
        one(acc, f, t + '- z\n')
        one(acc, f, t[:-2] + '!\n')
        one(acc, f, t.replace('h%d]' % (k // 2), 'H]'))
    for extra in (' ', '\n', '\n\n', '\t', ' \n '):
        one(acc, pre + base + extra + post, base)
        one(acc, pre + base + post, base + extra)
        one(acc, pre + base + post, extra + base)


def large(acc, n, part):
    """A change anywhere in a long table or in a long line is seen."""
    pre = 'x\n' + MK + '\n\n'
    post = '\n' + MK + '\ny\n'
    ls = ['- [h%d](#h%d)' % (i, i) for i in range(n)]
    t = '\n'.join(ls) + '\n'
    f = pre + t + post
    for i in range(part, n, 8):
        if n > 600 and i % 64 > 7 and i < n - 8:
            continue
        v = ls[:i] + ['- [h%d](#H%d)' % (i, i)] + ls[i + 1:]
        one(acc, f, '\n'.join(v) + '\n', False)
        one(acc, f, '\n'.join(ls[:i] + ls[i + 1:]) + '\n', False)
        if acc.full():
            return
    one(acc, f, t)
    for k in near(32, 70000, 1):
        a = '- [' + 'x' * k + '](#y)\n'
        one(acc, pre + a + post, a, False)
        one(acc, pre + a + post, a.replace('#y', '#z'), False)
        one(acc, pre + a + '- b\n' + post, a + '- c\n', False)


def newlines(acc):
    """Every newline kind of table and file, with longer tables."""
    items = ['- a', '  - b', '', '- [a](#a)']
    for k in (1, 2, 3):
        for w in itertools.product(items, repeat=k):
            for pad in (['x', MK, '', None, '', MK, 'y'],
                        [MK, None, MK], [MK, '', '', None, ' ', MK]):
                lines = [y for x in pad for y in (w if x is None else [x])]
                for toc in (list(w), list(w[:-1]), list(w) + ['- z']):
                    for nf in itertools.product(('\n', '\r\n', '\r'),
                                                repeat=2):
                        text = ''.join(l + nf[i % 2]
                                       for i, l in enumerate(lines))
                        for nt in ('\n', '\r\n', '\r'):
                            one(acc, text, nt.join(toc), nt == nf[0])
            if acc.full():
                return


def command(acc, n, first):
    """Exit status on tuples of files."""
    good = MK + '\n\n- [a](#a)\n\n' + MK + '\n# a\n'
    docs = [good, good.replace('- [a]', '- [b]'), MK + '\n# a\n', '# a\n',
            '', MK + '\n\n' + MK + '\n# a\n', MK + '\n\n\n\n' + MK + '\nx\n']
    d = workdir()
    names = [os.path.join(d, 'c%d.md' % i) for i in range(n)]
    for k in range(1, n + 1):
        for w in itertools.product(docs, repeat=k):
            if w[0] != docs[first]:
                continue
            for opt in ([], ['-d'], ['-p'], ['-d', '-p'], ['--diff'],
                        ['--in-place', '--diff', '-n', '\\r\\n'],
                        ['-d', '-n', '\\r']):
                for p, t in zip(names, w):
                    put(p, t)
                st, out, err = cli(opt + ['github'] + names[:k])
                nl = {'\\r\\n': '\r\n', '\\r': '\r'}.get(opt[-1] if opt else
                                                         '', '\n')
                tocs = [M.toc(M.split_file(t)[0], keep_header_levels=6,
                              newline_string=nl) for t in w]
                differ = any(not eq(t, x) for t, x in zip(w, tocs))
                want = 128 if differ and ('-d' in opt or
                                          '--diff' in opt) else 0
                acc.transitions += k
                acc.ok([w, opt], (st, err), (want, ''),
                       'import subprocess\nfor i, t in enumerate(%r):\n    '
                       'open("c%%d.md" %% i, "w").write(t)\n'
                       'got = subprocess.call([sys.executable, "-m", "md_toc"'
                       '] + %r + ["c%%d.md" %% i for i in range(%d)], env={'
                       '**os.environ, "PYTHONPATH": sys.path[0]})' %
                       (w, opt + ['github'], k))
                if '-p' not in opt and '--in-place' not in opt:
                    acc.ok([w, opt, 'files'],
                           [get(p).decode() for p in names[:k]], list(w))
                    acc.ok([w, opt, 'output'], out, ''.join(tocs))
            if acc.full():
                return


def markers(acc):
    for mk in ('[](TOC)', 'a.b', '<!-- x -->', '- a'):
        p = os.path.join(workdir(), 'm.md')
        for body in ('', '- q\n', 'x\n'):
            for toc in ('', '- q\n', mk):
                for text in (mk + '\n', mk + '\n\n' + body + '\n' + mk + '\n',
                             'x\n', MK + '\n\n' + body + '\n' + MK + '\n'):
                    put(p, text)
                    acc.transitions += 1
                    acc.ok([mk, text, toc],
                           call(api().tocs_equal, toc, p, mk),
                           ('ok', eq(text, toc, mk)))
                    for o in ([], ['-p']):
                        put(p, text)
                        st, _, _ = cli(['-d', '-m=' + mk] + o + ['cmark', p])
                        acc.ok([mk, text, o], st,
                               0 if eq(text, M.toc(
                                   M.split_file(text)[0], 'cmark', 6), mk)
                               else 128)


def tasks(tier):
    yield 'edits', ()
    yield 'markers', ()
    yield 'newlines', ()
    for i in range(8):
        yield 'large', (500, i)
        yield 'large', (2500, i)
    for i in range(7):
        yield 'command', (N[tier][1], i)
    for w, exact in prefixes(AL, 2):
        yield 'pairs', (N[tier][0], w, exact)

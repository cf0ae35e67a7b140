"""P18: any line-ending convention works, the requested one is output."""
import itertools
import os
import re

from . import model as M
from .core import (api, build, call, cli, get, model, prefixes, put, repro_build,
                   sub, workdir)

MK = '<!--TOC-->'
NL = ['\n', '\r\n', '\r']
AL = ['# a', '## b', 'x', '```', '']
WL = ['M', '- q', '', 'x', '# a']
ODD = ['# a\x0bb', '# a\x0c# b', '# \x85a', 'x\u2028# q', '# a\u2029',
       '# \x1ca\x1d# b', '   # a\t']
N = {'quick': (5, 5), 'thorough': (6, 6)}
BOUNDS = {
    t: {
        'tables': 'every document of up to %d of %d lines, every assignment '
        'of 3 line endings, last line terminated or not, 3 newline options '
        '(2 of them above length 3)' % (n[0], len(AL)),
        'in place': 'every file of up to %d of %d lines, every assignment of '
        'line endings up to length 3 and all uniform and alternating ones '
        'above, 3 newline options' % (n[1], len(WL)),
        'options': '3 documents x 9 patterns of line endings x 3 newline '
        'options x 11 x 5 settings of the other options x 3 parsers, '
        'printing and in place',
        'many': 'documents and files of 6000 headings with every ending in '
        'and out',
        'odd separators': 'every pair of %d lines with other separator '
        'characters' % len(ODD),
        'buffers': 'line ends at every offset within 6 bytes of 4096, 8192 '
        'and 16384, every ending, 1 and 2 byte characters'
    }
    for t, n in N.items()
}


def assigned(w, full=True):
    """Texts with all line endings for the lines w."""
    n = len(w)
    if full:
        for e in itertools.product(NL, repeat=n):
            yield ''.join(a + b for a, b in zip(w, e))
            if n and w[-1]:
                yield ''.join(a + b for a, b in zip(w, e[:-1] + ('', )))
                # the ending of the last line only repeats above
    else:
        for a, b in itertools.product(NL, repeat=2):
            e = [a if i % 2 else b for i in range(n)]
            yield ''.join(x + y for x, y in zip(w, e))
        for i in range(n):
            for a, b in itertools.permutations(NL, 2):
                e = [a if j < i else b for j in range(n)]
                yield ''.join(x + y for x, y in zip(w, e))
        if n and w[-1]:
            for a in NL:
                yield a.join(w)


def tables(acc, n, prefix, exact):
    for w in sub(AL, n, prefix, exact):
        for text in dict.fromkeys(assigned(w, len(w) <= 4)):
            lines = M.split_file(text)[0]
            for nl in (NL if len(w) <= 3 else NL[:2]):
                want = model(M.toc, lines, newline_string=nl)
                acc.transitions += len(w)
                acc.ok([text, nl], build(text, newline_string=nl), want,
                       repro_build(text, newline_string=nl))
        if acc.full():
            return


def place(acc, n, prefix, exact):
    p = os.path.join(workdir(), 'p.md')
    for w in sub(WL, n, prefix, exact):
        if 'M' not in w:
            continue
        v = [MK if x == 'M' else x for x in w]
        for text in dict.fromkeys(assigned(v, len(w) <= 3)):
            for nl in NL:
                for toc in (('- a\n  - b\n', '') if len(w) < 4 else
                            ('- a\n  - b\n', )):
                    put(p, text)
                    t = toc.replace('\n', nl)
                    got = call(api().write_string_on_file_between_markers, p,
                               t, MK, nl)
                    after = get(p).decode()
                    want = M.write(text, t, MK, nl)
                    acc.transitions += len(w)
                    rep = ('open("p.md", "wb").write(%r)\nfrom md_toc import '
                           'api\napi.write_string_on_file_between_markers('
                           '"p.md", %r, %r, %r)\ngot = open("p.md", "rb").'
                           'read()' % (text.encode(), t, MK, nl))
                    acc.ok([text, toc, nl], (got[0], after), ('ok', want),
                           rep)
                    # no other kind of newline is left
                    kinds = set(re.findall('\r\n|\r|\n', after))
                    acc.ok([text, toc, nl, 'kinds'], kinds, {nl}, rep)
            if len(w) > 3:
                continue
            # the table was built with another newline string
            for nl, tnl in itertools.product(NL, repeat=2):
                put(p, text)
                t = '- a\n  - b\n'.replace('\n', tnl)
                got = call(api().write_string_on_file_between_markers, p, t,
                           MK, nl)
                acc.ok([text, nl, tnl, 'table'], (got[0], get(p).decode()),
                       ('ok', M.write(text, t, MK, nl)))
        if acc.full():
            return


def odd(acc):
    p = os.path.join(workdir(), 'p.md')
    for a, b in itertools.product(ODD, repeat=2):
        for nl, out in itertools.product(NL, repeat=2):
            text = a + nl + b + nl + MK + nl
            lines = M.split_file(text)[0]
            for parser in ('github', 'cmark', 'gitlab'):
                m = model(M.toc, lines, parser=parser, newline_string=out)
                acc.transitions += 2
                acc.ok([text, out, parser],
                       build(text, parser=parser, newline_string=out), m,
                       repro_build(text, parser=parser, newline_string=out))
            for t in ('- z' + out, '- ' + a + 'x' + out + '- y' + b + 'z' +
                      out):
                put(p, text)
                call(api().write_string_on_file_between_markers, p, t, MK,
                     out)
                acc.transitions += 1
                acc.ok([text, t, out, 'in place'], get(p).decode(),
                       M.write(text, t, MK, out))
        if acc.full():
            return


def buffers(acc, size):
    p = os.path.join(workdir(), 'p.md')
    for c in ('x', '\u00e9'):
        for d in range(-6, 7):
            for nl in NL:
                for tail in ('# b', '```', '', '## b'):
                    body = c * ((size + d) // len(c.encode()) - 3)
                    lines = ['# a', body, tail, '# c']
                    text = nl.join(lines) + nl
                    acc.transitions += 4
                    acc.ok([size, d, c, nl, tail], build(text),
                           ('ok', M.toc(lines)), repro_build(text))
                    t2 = text + MK + nl + 'z'
                    put(p, t2)
                    r = call(api().write_string_on_file_between_markers, p,
                             '- z\n', MK, nl)
                    acc.ok([size, d, c, nl, tail, 'in place'],
                           (r[0], get(p).decode() == M.write(
                               t2, '- z\n', MK, nl)), ('ok', True))
            # many short lines across the boundary
            for nl in NL:
                for k in (1, 2, 3, 5):
                    n = (size + d) // (k + len(nl))
                    lines = ['x' * k] * n + ['# a', '# b']
                    if size > 4096:
                        continue
                    text = 'y' * (d + 6) + nl + nl.join(lines)
                    acc.transitions += n
                    acc.ok([size, d, nl, k, 'many'], build(text),
                           ('ok', M.toc(lines)), repro_build(text))
        if acc.full():
            return


def command(acc):
    p = os.path.join(workdir(), 'c.md')
    docs = [('# a', '## b', MK, 'x', '# a'), (MK, ), ('# a', ),
            (MK, '', '- q', '', MK, '', '# a', ''), ('# a', '# b', MK, '')]
    for w in docs:
        for text in dict.fromkeys(assigned(w, len(w) < 5)):
            for nl in NL + [None]:
                o = [] if nl is None else ['-n', repr(nl)[1:-1]]
                real = nl or os.linesep
                for argv in ([], ['-o'], ['-l', '1']):
                    kw = dict(keep_header_levels=1 if '-l' in argv else 6,
                              ordered='-o' in argv, newline_string=real)
                    t = M.toc(M.split_file(text)[0], **kw)
                    put(p, text)
                    acc.transitions += 2
                    got = cli(o + ['github', p] + argv)
                    acc.ok([text, o, argv], (got, get(p).decode()),
                           ((0, t, ''), text))
                    got = cli(['-p'] + o + ['github', p] + argv)
                    acc.ok([text, o, argv, 'in place'],
                           (got, get(p).decode()),
                           ((0, '', ''), M.write(text, t, MK, real)))
        if acc.full():
            return


def many(acc, nl):
    """Long tables and long files."""
    p = os.path.join(workdir(), 'l.md')
    lines = ['#' * (1 + i % 3) + ' h%d' % i for i in range(6000)]
    for out in NL:
        text = nl.join(lines) + nl
        for kw in (dict(), dict(ordered=True, no_links=True),
                   dict(parser='redcarpet')):
            t = M.toc(lines, newline_string=out, **kw)
            acc.transitions += len(lines)
            got = build(text, newline_string=out, **kw)
            acc.ok([nl, out, kw], got, ('ok', t))
        f = nl.join(['x'] * 3000 + [MK] + lines) + nl
        put(p, f)
        r = call(api().write_string_on_file_between_markers, p, t, MK, out)
        acc.ok([nl, out, 'in place'], (r[0], get(p).decode() == M.write(
            f, t, MK, out)), ('ok', True))
        r = call(api().write_string_on_file_between_markers, p, t, MK, out)
        acc.ok([nl, out, 'again'], (r, get(p).decode() == M.write(
            f, t, MK, out)), (('ok', True), True))


def options(acc):
    """The other options do not interfere."""
    p = os.path.join(workdir(), 'o.md')
    docs = [('x', '# a', '## b', MK, 'x', '# a'),
            (MK, '', '- [a](#a)', '- [b](#b)', '', MK, '# a', '# b'),
            ('# x', MK, '', '- q', '', MK, '', '# a')]
    pre = [[], ['-d'], ['-l'], ['-s', '1'], ['-i'], ['-c'], ['-d', '-l'],
           ['-d', '-i'], ['-d', '-s', '1'], ['-l', '-c', '-s', '1'],
           ['-d', '-c', '-l']]
    post = [[], ['-o'], ['-c'], ['-u', '*'], ['-o', '.', '-l', '2']]
    for w in docs:
        for ends in itertools.product(NL, repeat=2):
            text = ''.join(x + ends[i % 2] for i, x in enumerate(w))
            for nl, a, b, parser in itertools.product(
                    NL, pre, post, ('github', 'cmark', 'redcarpet')):
                kw = dict(parser=parser, newline_string=nl,
                          keep_header_levels=2 if '-l' in b else 6,
                          ordered='-o' in b, constant_ordered_list='-c' in b,
                          list_marker='*' if '*' in b else '-',
                          no_links='-l' in a, no_indentation='-i' in a,
                          no_list_coherence='-c' in a,
                          skip_lines=1 if '-s' in a else 0)
                t = M.toc(M.split_file(text)[0], **kw)
                for place in (False, True):
                    put(p, text)
                    acc.transitions += 1
                    argv = (['-p'] if place else []) + ['-n', repr(nl)[1:-1]
                                                       ] + a + [parser, p] + b
                    got = cli(argv)
                    acc.ok([text, argv], (got[0] in (0, 128), got[1],
                                          get(p).decode()),
                           (True, '' if place else t,
                            M.write(text, t, MK, nl) if place else text))
        if acc.full():
            return


def tasks(tier):
    yield 'options', ()
    for nl in NL:
        yield 'many', (nl, )
    a, b = N[tier]
    for s in (4096, 8192, 16384):
        yield 'buffers', (s, )
    yield 'command', ()
    yield 'odd', ()
    for w, exact in prefixes(AL, 3):
        yield 'tables', (a, w, exact)
    for w, exact in prefixes(WL, 3):
        yield 'place', (b, w, exact)

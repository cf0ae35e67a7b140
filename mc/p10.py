"""P10: incoherent heading hierarchies are refused, and only those."""
import itertools
import re

from . import model as M
from .core import build, cli, model, prefixes, put, repro_build, sub, workdir

N = {'quick': 5, 'thorough': 6}
L = (1, 2, 3, 4, 5, 6)
BOUNDS = {
    t: {
        'sequences': 'all sequences of up to %d levels 1..6 (github, '
        'redcarpet; other parsers one less), every level limit, the four '
        'combinations of the switches, links and ordered lists' % N[t],
        'hidden': 'all sequences of up to 3 levels with every way of hiding '
        'some of them (fence, skipped line, indented code, not a heading)',
        'long': 'runs of 1..60 and of 5000 equal levels before the offending '
        'heading'
    }
    for t in N
}


def one(acc, lines, **kw):
    doc = '\n'.join(lines) + '\n'
    got = build(doc, **kw)
    want = model(M.toc, lines, **kw)
    if kw.get('no_list_coherence') and got[0] == 'ok' == want[0]:
        got = ('ok', re.sub('(?m)^ +', '', got[1]))
        want = ('ok', re.sub('(?m)^ +', '', want[1]))
    acc.transitions += len(lines)
    acc.ok([doc, kw], got, want, repro_build(doc, **kw))


def seqs(acc, parser, n, prefix, exact):
    for w in sub(L, n, prefix, exact):
        lines = ['%s h%d' % ('#' * l, i) for i, l in enumerate(w)]
        for keep in range(1, 7):
            if len(w) == n and keep not in (3, 6):
                continue
            one(acc, lines, parser=parser, keep_header_levels=keep)
            if len(w) < n:
                for a, b in ((True, False), (False, True), (True, True)):
                    one(acc, lines, parser=parser, keep_header_levels=keep,
                        no_indentation=a, no_list_coherence=b)
                one(acc, lines, parser=parser, keep_header_levels=keep,
                    ordered=True, no_links=True)
            elif keep == 6:
                one(acc, lines, parser=parser, keep_header_levels=6,
                    no_list_coherence=True)
        if acc.full():
            return


HIDE = [lambda h: [h], lambda h: ['```', h, '```'], lambda h: ['    ' + h],
        lambda h: ['x' + h], lambda h: ['~~~', h, '~~~~']]


def hidden(acc, parser, first):
    for n in (2, 3):
        for w in itertools.product((1, 2, 3, 5), repeat=n):
            if w[0] != first:
                continue
            for hs in itertools.product(HIDE, repeat=n):
                lines = []
                for i, (l, f) in enumerate(zip(w, hs)):
                    lines += f('%s h%d' % ('#' * l, i))
                one(acc, lines, parser=parser, keep_header_levels=6)
                one(acc, lines, parser=parser, keep_header_levels=2)
                for skip in range(1, len(lines)):
                    if n == 2 or skip == 1:
                        one(acc, lines, parser=parser, keep_header_levels=6,
                            skip_lines=skip)
            if acc.full():
                return


def long(acc, parser, lo, hi):
    for k in range(lo, hi):
        for a, b in itertools.product(L, repeat=2):
            lines = ['#' * a + ' h%d' % i for i in range(k)] + ['#' * b + ' z']
            one(acc, lines, parser=parser, keep_header_levels=6)
            if k < 12:
                lines = (['#' * a + ' y'] + ['#' * min(6, a + 1) + ' h%d' % i
                                             for i in range(k)] +
                         ['#' * b + ' z'])
                one(acc, lines, parser=parser, keep_header_levels=6)
        if acc.full():
            return


def huge(acc, parser):
    for a, b in ((1, 3), (2, 1), (3, 5), (6, 5), (3, 2), (1, 2), (5, 6)):
        for k in (100, 128, 256, 1000, 1024, 5000):
            lines = ['#' * a + ' h%d' % i for i in range(k)]
            one(acc, lines + ['#' * b + ' z'], parser=parser,
                keep_header_levels=6)


def command(acc):
    """Exit status of the command line."""
    import os
    p = os.path.join(workdir(), 'c.md')
    for w in itertools.product((1, 2, 3, 4), repeat=3):
        lines = ['%s h%d' % ('#' * l, i) for i, l in enumerate(w)]
        put(p, '\n'.join(lines) + '\n')
        for opt in ([], ['-c'], ['-i']):
            for parser in M.ALL:
                st, out, err = cli(opt + [parser, p])
                bad = not opt and not M.coherent(w)
                acc.transitions += 1
                acc.ok([w, opt, parser],
                       (st, out == '', err != ''),
                       (1, True, True) if bad else (0, False, False))


def tasks(tier):
    yield 'command', ()
    for parser in M.ALL:
        yield 'huge', (parser, )
        for first in (1, 2, 3, 5):
            yield 'hidden', (parser, first)
        for i in range(1, 61, 10):
            yield 'long', (parser, i, i + 10)
        n = N[tier] if parser in ('github', 'redcarpet') else N[tier] - 1
        for w, exact in prefixes(L, 2):
            yield 'seqs', (parser, n, w, exact)

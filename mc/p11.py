"""P11: ordered items are numbered correctly, markers are the requested."""
import itertools
import re

from . import model as M
from .core import api, build, call, model, prefixes, repro_build, repro_call, sub

N = {'quick': 6, 'thorough': 7}
L = (1, 2, 3, 4, 6)
MARKS = ['-', '+', '*', '.', ')']
MAX = 999999999
BOUNDS = {
    t: {
        'sequences': 'all sequences (coherent or not) of up to %d of the '
        'levels %r for github, %d for the others; every marker, progressive '
        'and constant' % (N[t], L, N[t] - 1),
        'counts': 'every length 1..120 and 999..1001 of a run, nested runs; '
        'one of 12000',
        'overflow': 'counter values within 3 of the limit, all levels'
    }
    for t in N
}


def one(acc, levels, **kw):
    lines = ['%s h%d' % ('#' * l, i) for i, l in enumerate(levels)]
    doc = '\n'.join(lines) + '\n'
    kw.setdefault('keep_header_levels', 6)
    got = build(doc, **kw)
    if got[0] == 'ok':
        got = re.findall(r'(?m)^ *(\S+) ', got[1])
    shown = [l for l in levels if l <= kw['keep_header_levels']]
    order = kw.get('ordered') or kw.get('constant_ordered_list')
    mk = M.marker_of(kw['parser'], order, kw.get('list_marker', '-'))
    if not order:
        want = [mk] * len(shown)
    elif kw.get('constant_ordered_list'):
        want = ['1' + mk] * len(shown)
    else:
        want = ['%d%s' % (n, mk) for n in M.numbers(shown)]
    acc.transitions += len(levels)
    acc.ok([list(levels)[:100], kw], got, want, repro_build(doc, **kw))


def seqs(acc, parser, n, prefix, exact):
    for w in sub(L, n, prefix, exact):
        one(acc, w, parser=parser, ordered=True, no_indentation=True)
        if len(w) < n:
            one(acc, w, parser=parser, ordered=True, no_list_coherence=True)
            one(acc, w, parser=parser, ordered=True, no_indentation=True,
                keep_header_levels=3, no_links=True)
            one(acc, w, parser=parser, constant_ordered_list=True,
                no_indentation=True)
            if M.coherent(w):
                one(acc, w, parser=parser, ordered=True)
                one(acc, w, parser=parser, constant_ordered_list=True)
        if acc.full():
            return


def marks(acc, parser):
    for n in range(1, 4):
        for w in itertools.product((1, 2, 3), repeat=n):
            for mk in MARKS:
                for o, c in itertools.product((False, True), repeat=2):
                    if not o and not c and mk in '.)':
                        continue  # not a bullet marker: not specified
                    for ind in (True, False):
                        for coh in (True, False):
                            if not ind and not coh and not M.coherent(w):
                                continue
                            for nl in (True, False):
                                one(acc, w, parser=parser, list_marker=mk,
                                    ordered=o, constant_ordered_list=c,
                                    no_indentation=ind,
                                    no_list_coherence=coh, no_links=nl)
            if acc.full():
                return


def runs(acc, parser, ks):
    for k in ks:
        one(acc, [1] * k, parser=parser, ordered=True)
        one(acc, [1] + [2] * k + [1, 2], parser=parser, ordered=True)
        one(acc, [1, 2] * k, parser=parser, ordered=True)
        one(acc, [1] * k + [2] * k + [1], parser=parser, ordered=True,
            list_marker='-')
        one(acc, [2] * k + [3, 4, 2, 3, 3], parser=parser, ordered=True)
        one(acc, [1] * k, parser=parser, constant_ordered_list=True)
        if acc.full():
            return


def huge(acc, parser):
    one(acc, [1] * 12000, parser=parser, ordered=True)
    one(acc, [1] + [2] * 5000 + [1, 2, 2], parser=parser, ordered=True)
    one(acc, ([1] + [2] * 3) * 1500, parser=parser, ordered=True)
    one(acc, [1] * 5000, parser=parser, constant_ordered_list=True)
    one(acc, [1] * 5000, parser=parser, list_marker='*')


def counter(acc, parser):
    """The counter on its own: every start value near the limits."""
    f = api().increase_index_ordered_list
    for cur in range(1, 7):
        for prev in range(0, 7):
            for start in [None, 0, 1, 8, 9, 10, 99, 998, 999, 999999] + list(
                    range(MAX - 3, MAX + 3)):
                other = 'h%d' % (cur % 6 + 1)
                d = {other: 5}
                if start is not None:
                    d['h%d' % cur] = start
                r = call(f, d, prev, cur, parser)
                new = 1 if start is None or 0 < prev < cur else start + 1
                case = ['counter', cur, prev, start, parser]
                if new > MAX and parser in M.CM:
                    want = ('exc', M.OVERFLOW_NUMBER)
                    acc.ok(case, r, want)
                else:
                    got = (r[0], d.get('h%d' % cur), d[other])
                    acc.ok(case, got, ('ok', new, 5),
                           'from md_toc import api\nd = %r\napi.increase_'
                           'index_ordered_list(d, %r, %r, %r)\ngot = d' %
                           ({other: 5} if start is None else
                            {other: 5, 'h%d' % cur: start}, prev, cur,
                            parser))
                acc.transitions += 1
    for bad in ((-1, 1), (0, 0), (1, 0), (1, -1)):
        acc.ok(['bad levels', bad], call(f, {}, bad[0], bad[1], parser),
               ('exc', 'ValueError'))


def lines(acc):
    """A single line for every index width."""
    f = api().build_toc_line_without_indentation
    for parser in M.ALL:
        for k in range(0, 10):
            for i in (10**k, 10**k - 1 or 1, 10**k + 1):
                for mk in '.)':
                    if parser == 'redcarpet' and mk == ')' or i > MAX:
                        continue
                    for nl in (False, True):
                        h = {'header_type': 1, 'text_original': 'T t',
                             'text_anchor_link': 't-t', 'visible': True}
                        got = call(f, h, True, nl, i, parser, mk)
                        acc.transitions += 1
                        acc.ok([i, mk, nl, parser], got,
                               ('ok', '%d%s %s' % (i, mk, 'T t' if nl else
                                                   '[T t](#t-t)')))


def tasks(tier):
    yield 'lines', ()
    for parser in M.ALL:
        yield 'counter', (parser, )
        yield 'huge', (parser, )
        yield 'marks', (parser, )
        ks = list(range(1, 121)) if tier == 'thorough' or parser == 'github' \
            else [1, 2, 8, 9, 10, 11, 12, 99, 100, 101]
        for i in range(0, len(ks), 10):
            yield 'runs', (parser, ks[i:i + 10])
        for w, exact in prefixes(L, 2):
            yield 'seqs', (parser, N[tier] if parser == 'github' else
                           N[tier] - 1, w, exact)
    yield 'runs', ('github', [999, 1000, 1001])

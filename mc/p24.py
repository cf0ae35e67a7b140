"""P24: later lines and neutral text never influence an entry."""

from . import model as M
from .core import build, repro_build, words

TOKENS = ['# a', '## b', '### c', '```', '~~~', '```` x', '    # n',
          'x', '', '-', '===', '---', '1. # z', '> # q', '<!-- # c -->',
          '<pre>', '\t# t', '###### f']
NEUTRAL = ['x', '', '   ', 'a # b', '- [a](#a)', '===', '---', '> # q',
           '    # n', '<pre>', '<!--', '-->', '[a]: b', '``', '~~', '\\# a',
           '| a | b |', '#', '#######', '#x', '\x0c', '<!--TOC-->', '****']
DEPTH = {'quick': 4, 'thorough': 5}
INS = {'quick': 3, 'thorough': 4}
ENDS = {'quick': 5, 'thorough': 6}
CHARS = '# a\\`~\t'
BOUNDS = {
    t: {
        'growth': 'the tree of all documents of up to %d of %d lines (github; '
        'the others %d), every edge: the table of the longer document extends '
        'that of the shorter one by at most one line' %
        (DEPTH[t], len(TOKENS), DEPTH[t] - 1),
        'insertion': 'all documents of up to %d of 9 lines, one of %d neutral '
        'lines inserted at every place' % (INS[t], len(NEUTRAL)),
        'ends': 'all lines of up to %d of 7 characters as last line, in and '
        'out of fences, terminated or not, followed by text or not' % ENDS[t],
        'long': 'insertion at every place of documents of up to 40 headings, '
        'up to 3000 neutral lines at a time'
    }
    for t in DEPTH
}
OPTS = [dict(keep_header_levels=6), dict(ordered=True, no_list_coherence=True),
        dict(no_links=True, no_indentation=True, keep_header_levels=2)]


def grow(acc, parser, n, prefix):
    """Depth first over all documents below a prefix."""
    for kw in OPTS:
        kw = dict(kw, parser=parser)

        def visit(lines, table):
            if acc.full() or len(lines) >= n:
                return
            for t in TOKENS:
                new = lines + [t]
                doc = ''.join(x + '\n' for x in new)
                got = build(doc, **kw)
                acc.transitions += 1
                step(acc, doc, kw, table, got)
                # termination of the last line means nothing
                if len(new) < n:
                    acc.ok([doc[:-1], kw], build(doc[:-1], **kw), got,
                           repro_build(doc[:-1], **kw))
                    visit(new, got)

        doc = ''.join(x + '\n' for x in prefix)
        visit(list(prefix), build(doc, **kw))


def step(acc, doc, kw, old, new):
    if old[0] != 'ok':
        acc.ok([doc, kw], new, old, repro_build(doc, **kw),
               'a heading that was refused stays refused')
        return
    if new[0] != 'ok':
        acc.ok([doc, kw], new[0], 'exc', repro_build(doc, **kw))
        return
    more = new[1][len(old[1]):]
    good = (new[1].startswith(old[1]) and more.count('\n') <= 1
            and (more == '' or more.endswith('\n')))
    acc.ok([doc, kw], (new[1], good), (new[1], True), repro_build(doc, **kw),
           'table before the last line: %r' % (old[1], ))


LINES = ['# a', '## b', '## [c]', '```', '~~~', 'x', '', '    # n',
         '### d']


def neutral(parser, t):
    if t in ('#', ) and parser != 'redcarpet':
        return False  # an empty heading
    return parser != 'redcarpet' or t != '#######'


def insertion(acc, parser, n, first):
    for w in words(LINES, n, (first, )):
        doc = ''.join(x + '\n' for x in w)
        for kw in OPTS:
            kw = dict(kw, parser=parser)
            want = build(doc, **kw)
            for t in NEUTRAL:
                if not neutral(parser, t):
                    continue
                for i in range(len(w) + 1):
                    new = ''.join(x + '\n' for x in w[:i] + (t, ) + w[i:])
                    got = build(new, **kw)
                    acc.transitions += 1
                    acc.ok([new, kw, 'inserted %r' % t], got, want,
                           repro_build(new, **kw))
        if acc.full():
            return


def ends(acc, parser, n, first):
    kw = dict(parser=parser, keep_header_levels=6, no_links=True,
              no_indentation=True)
    for w in words(CHARS, n, (first, )):
        for before in ('', '```\n', '# k\n'):
            doc = before + ''.join(w)
            want = build(doc + '\n', **kw)
            for more in ('', '\nx', '\n\n', '\n \nx\n'):
                acc.transitions += 1
                acc.ok([doc + more, kw], build(doc + more, **kw), want,
                       repro_build(doc + more, **kw))
        if acc.full():
            return


def long(acc, parser, n):
    w = ['#' * (1 + i % 3) + ' h%d' % (i % 5) for i in range(n)]
    w[n // 2:n // 2] = ['```', '# in', '```']
    for kw in OPTS:
        kw = dict(kw, parser=parser)
        want = build('\n'.join(w) + '\n', **kw)
        for t in NEUTRAL:
            if not neutral(parser, t):
                continue
            for k, places in ((1, range(len(w) + 1)),
                              (300, (0, n // 2, len(w))),
                              (3000, (len(w), ))):
                for i in places:
                    new = '\n'.join(w[:i] + [t] * k + w[i:]) + '\n'
                    acc.transitions += 1
                    got = build(new, **kw)
                    acc.ok([new[:2000], kw, 'inserted %r' % t], got, want,
                           repro_build(new, **kw))


def tasks(tier):
    for parser in ('github', 'cmark', 'redcarpet'):
        for n in range(0, 41, 4):
            yield 'long', (parser, n)
    for parser in M.ALL:
        n = DEPTH[tier] - (parser != 'github')
        yield 'grow', (parser, 1, ())
        for t in TOKENS:
            yield 'grow', (parser, n, (t, ))
        for c in CHARS:
            yield 'ends', (parser, ENDS[tier] - (parser != 'github'), c)
        for t in LINES:
            yield 'insertion', (parser, INS[tier] - (parser not in (
                'github', 'redcarpet')), t)

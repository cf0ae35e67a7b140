"""P03: one line per wanted heading, in document order, and nothing else."""
import re

from . import model as M
from .core import build, model, near, prefixes, repro_build, sub

TOKENS = [
    '# a', '## b', '### c', '#### d', '###### f', 'x', '', '```', '    # n',
    '#x', '  ## s ##', '##### é_*y*'
]
DEPTH = {'quick': 4, 'thorough': 5}
BUF = 8192
LONG = {'quick': 1 << 20, 'thorough': 1 << 24}
SKIPPED = ['# a', '', 'x', '```', ' \t']
SKIPS = {'quick': 6, 'thorough': 8}
BOUNDS = {
    t: {
        'documents': 'all sequences of up to %d of %d lines (github; the '
        'other parsers up to %d), level limit 1..7, every skip count up to '
        'one more than the lines, with links/plain, terminated or not' %
        (DEPTH[t], len(TOKENS), DEPTH[t] - 1),
        'skips': 'all sequences of up to %d (github) or %d of 5 lines, every '
        'skip count' % (SKIPS[t], SKIPS[t] - 1),
        'buffers': 'a heading at every offset of the 64 bytes around the '
        'ends of the first three read buffers, 1..4-byte characters, three '
        'line endings',
        'sizes': 'documents of 1..1500 headings (every size up to 300), '
        'lines of up to 300000 characters; lines of every length within 2 '
        'of a power of 2 or 10 up to %d followed by what looks like a '
        'heading or a fence; 6000 headings, 200000 lines' % LONG[t],
        'characters': 'every code point of the BMP at the start of a line '
        'in and out of fences and in headings'
    }
    for t in DEPTH
}


def one(acc, lines, end='\n', nl='\n', **kw):
    text = nl.join(lines) + (nl if end else '')
    got = build(text, **kw)
    want = model(M.toc, lines, **kw)
    if kw.get('no_list_coherence') and got[0] == 'ok' and want[0] == 'ok':
        # nesting of incoherent documents is not specified
        got = ('ok', re.sub('(?m)^ +', '', got[1]))
        want = ('ok', re.sub('(?m)^ +', '', want[1]))
    acc.transitions += len(lines)
    acc.ok([text[:3000], kw], got, want, repro_build(text, **kw))


def docs(acc, parser, n, prefix, exact):
    for w in sub(TOKENS, n, prefix, exact):
        lines = list(w)
        small = len(lines) < n
        for keep in (range(1, 8) if small else (1, 3, 6)):
            for skip in range(0, len(lines) + 2):
                if not small and skip not in (0, 2):
                    continue
                one(acc, lines, parser=parser, keep_header_levels=keep,
                    skip_lines=skip, no_links=keep % 2 == 0,
                    no_indentation=True)
        if small:
            for keep in (2, 6):
                for skip in (0, 1):
                    one(acc, lines, '', parser=parser,
                        keep_header_levels=keep, skip_lines=skip,
                        no_list_coherence=True)
                    one(acc, lines, parser=parser, keep_header_levels=keep,
                        skip_lines=skip)
                    one(acc, lines, parser=parser, keep_header_levels=keep,
                        skip_lines=skip, ordered=True, no_indentation=True)
        if acc.full():
            return


def skips(acc, parser, n, prefix, exact):
    """Every skip count, whatever the skipped lines are."""
    for w in sub(SKIPPED, n, prefix, exact):
        lines = list(w) + ['# h', '# i']
        for skip in range(1, len(lines) + 2):
            one(acc, lines, parser=parser, skip_lines=skip, no_links=True)
        if acc.full():
            return


def offsets(acc, parser, ch, nl, k):
    """A heading that starts at every offset around the k-th buffer end."""
    size = len(ch.encode())
    for off in range(k * BUF - 40, k * BUF + 24):
        # '# t' + nl, then a text line whose heading-like follower starts
        # exactly at byte `off`
        head = '# t'
        rest = off - len(head) - 2 * len(nl)
        pad = ch * (rest // size) + 'x' * (rest % size)
        lines = [head, pad, '# b' + ch + 'é', '## c', 'x' + ch, '# d']
        one(acc, lines, nl=nl, parser=parser, keep_header_levels=6)
        one(acc, lines[:3], '', nl=nl, parser=parser, keep_header_levels=6)
        one(acc, [pad[1:]] + lines, nl=nl, parser=parser, skip_lines=1,
            keep_header_levels=6)
        # the heading itself is the long line
        one(acc, ['# t', '```', pad, '# in', '```', '# out'], nl=nl,
            parser=parser)
        if acc.full():
            return


def sizes(acc, parser, lo, hi, step):
    for n in range(lo, hi, step):
        lines = ['#' * (1 + i % 2) + ' h%d' % i for i in range(n)]
        one(acc, lines, parser=parser, keep_header_levels=6)
        one(acc, lines, parser=parser, keep_header_levels=1, ordered=True)
        one(acc, ['x'] * n + ['# a', 'y'], parser=parser)
        for s in (n - 1, n, n + 1):
            one(acc, ['# x'] * n + ['# a', '# b'], parser=parser,
                skip_lines=max(s, 0), no_links=True)
        if acc.full():
            return


def long_lines(acc, parser):
    for n in list(range(1, 400, 7)) + [
            1000, 4096, 8190, 8191, 8192, 8193, 65536, 300000
    ]:
        one(acc, ['x' * n, '# a', '#' * n, '# b', ' ' * n, '# c'],
            parser=parser)
        one(acc, ['# ' + 'a' * min(n, 900), '', '## ' + 'b' * min(n, 999)],
            parser=parser)
        # no limit on the length without links
        one(acc, ['# ' + 'a ' * (min(n, 4096) // 2) + 'z'], parser=parser,
            no_links=True)
    one(acc, [], parser=parser)
    one(acc, [''], parser=parser)


def cuts(acc, parser, hi):
    """Nothing starts in the middle of a line, however long it is."""
    for n in near(16, hi):
        x = 'x' * n
        for rest in ('# b', '```', '   # b'):
            for first in ([], ['a']):
                one(acc, first + [x + rest, '# c', x], parser=parser)
        one(acc, ['y', x + '# b', '# c'], parser=parser, skip_lines=1)
        one(acc, [x + '# b', '# c'], parser=parser, skip_lines=1)
        one(acc, ['```', x + '```', '# c', '```', '# d'], parser=parser)
        one(acc, ['# ' + x + '# b'], parser=parser, no_links=True)
        if acc.full():
            return


def big(acc, parser):
    """One long document: all its prefixes are right line by line."""
    lines = []
    for i in range(6000):
        lines.append('#' * (1 + i % 3) + ' h%d' % i)
        if i % 500 == 0:
            lines += ['```', '# in', '```', '']
    for kw in (dict(), dict(ordered=True), dict(keep_header_levels=1),
               dict(no_links=True, newline_string='\r\n')):
        one(acc, lines, parser=parser, **kw)
    many = ['x'] * 200000
    one(acc, many + ['# a'], parser=parser)
    one(acc, ['```'] + many + ['# b', '```', '# a'], parser=parser)
    for k in near(1000, 200000, 1):
        one(acc, ['# x'] * k + ['# a', '# b'], parser=parser, skip_lines=k,
            no_links=True)


def code_points(acc, lo, hi):
    for cp in range(lo, hi):
        c = chr(cp)
        if c in '\r\n' or 0xd800 <= cp < 0xe000:
            continue
        lines = ['```', '# a', c, c + '# b', '```', c, '# k', c + '# c',
                 c + '```', '# d', '~~~', c + '~~~', '# m' + c + 'n', '~~~',
                 '# z']
        for parser in ('github', 'redcarpet'):
            one(acc, lines, parser=parser, no_links=True,
                no_indentation=True)
        if acc.full():
            return


def fields(acc):
    """Every printable ASCII character in a heading, in every place."""
    for c in map(chr, range(32, 127)):
        if c in '\\[]<&':
            continue
        for t in ('# {}', '# a{}', '# {}a', '# a{}b', '# a {} b', '## {0}{0}'):
            line = t.format(c)
            for parser in M.ALL:
                kw = dict(parser=parser, no_links=True, no_indentation=True)
                one(acc, ['# k', line, 'x', '# z'], **kw)


def tasks(tier):
    n = DEPTH[tier]
    yield 'fields', ()
    for parser in ('github', 'cmark', 'redcarpet'):
        yield 'big', (parser, )
        yield 'cuts', (parser, LONG[tier])
    step = 2048
    for lo in range(0, 0x10000 if tier == 'quick' else 0x30000, step):
        yield 'code_points', (lo, lo + step)
    for parser in ('github', 'gitlab', 'redcarpet'):
        yield 'long_lines', (parser, )
    for ch in ('x', 'é', '\u20ac', '\U0001f600'):
        for nl in ('\n', '\r\n', '\r'):
            for k in (1, 2, 3):
                yield 'offsets', ('github', ch, nl, k)
    for parser in ('github', 'redcarpet'):
        for i in range(12):
            yield 'sizes', (parser, 1 + i * 25, 1 + (i + 1) * 25,
                            1 if tier == 'thorough' else 4)
    yield 'sizes', ('cmark', 1000, 1501, 500)
    for parser in M.ALL:
        if parser in ('github', 'cmark', 'redcarpet'):
            m = SKIPS[tier] - (parser != 'github')
            for w, exact in prefixes(SKIPPED, 2):
                yield 'skips', (parser, m, w, exact)
        m = n if parser == 'github' else n - 1
        for w, exact in prefixes(TOKENS, 2):
            yield 'docs', (parser, m, w, exact)

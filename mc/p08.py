"""P08: repeated anchors are numbered as the renderer numbers them."""
import itertools
import os

from . import model as M
from .core import (api, build, call, prefixes, put, repro_build, repro_call,
                   sub, workdir)

TOKENS = ['# a', '## a', '#### A', '# a.', '# b', '# a-1', '# a 1', '```',
          '## *a*', 'a']
N = {'quick': (5, 4), 'thorough': (6, 5)}
BOUNDS = {
    t: {
        'documents': 'all sequences of up to %d (github) or %d of %d lines, '
        'level limits 1, 3, 6, skip 0..2' % (N[t][0], N[t][1], len(TOKENS)),
        'multiplicity': 'every count 1..130, and 1001, one document of 5000 equal headings, interleaved with '
        '0..3 other anchors',
        'files': 'all pairs of 40 and triples of 9 documents in one call',
        'letters': 'every letter and digit up to 1ffff with its other cases '
        'and normal forms on one counter, and all of a block together',
        'calls': 'all call sequences of up to 4 of 11 and 3 of 21 headings, '
        'many with equal anchors, on one counter'
    }
    for t in N
}


def one(acc, lines, **kw):
    doc = '\n'.join(lines) + '\n'
    acc.transitions += len(lines)
    kw.setdefault('no_indentation', True)
    acc.ok([doc[:2000], kw], build(doc, **kw), ('ok', M.toc(lines, **kw)),
           repro_build(doc, **kw))


def docs(acc, parser, n, prefix, exact):
    for w in sub(TOKENS, n, prefix, exact):
        lines = list(w)
        if len(w) == n:
            one(acc, lines, parser=parser)
        else:
            for keep in (1, 3, 6):
                for skip in (0, 1, 2):
                    one(acc, lines, parser=parser, keep_header_levels=keep,
                        skip_lines=skip)
            one(acc, lines, parser=parser, ordered=True)
            one(acc, lines, parser=parser, no_links=True)
        if acc.full():
            return


def many(acc, parser, counts):
    for k in counts:
        one(acc, ['# a'] * k, parser=parser)
        one(acc, ['#### a'] * k + ['# a', '# b'] * 2, parser=parser)
        one(acc, (['# a', '# b', '## c d'] * k), parser=parser)
        one(acc, ['# a'] * k + ['# b'] * k + ['# a', '# b'], parser=parser)
        one(acc, ['# a'] * k + ['```'] + ['# a'] * 3 + ['```', '# a'],
            parser=parser)
        one(acc, ['# a'] * (k + 2), parser=parser, skip_lines=k)
        one(acc, ['# É x'] * k + ['# é X', '# é-x'], parser=parser)
        one(acc, ['# h%d' % i for i in range(k)] * 2, parser=parser)
        if acc.full():
            return


def huge(acc, parser):
    one(acc, ['# a'] * 5000, parser=parser)
    one(acc, ['# a', '#### a', '# b'] * 1000, parser=parser)
    one(acc, ['# h%d' % i for i in range(3000)] * 2, parser=parser)


def files(acc, parser, n, i0):
    base = ['# a', '# a.', '# b', '#### a', '## a']
    if n == 2:
        ds = [list(w) for k in (1, 2) for w in itertools.product(base,
                                                                repeat=k)]
        ds = ds + [w + ['# a'] for w in ds[:10]]
    else:
        ds = [['# a'], ['# a', '# a'], ['# b'], ['#### a', '# a'],
              ['# a.'], ['# b', '# a'], [], ['```', '# a'], ['# a-1', '# a']]
    if i0 >= len(ds):
        return
    names = [os.path.join(workdir(), 'f%d.md' % i) for i in range(n)]
    for rest in itertools.product(ds, repeat=n - 1):
        w = (ds[i0], ) + rest
        for p, lines in zip(names, w):
            put(p, ''.join(x + '\n' for x in lines))
        kw = dict(parser=parser, no_indentation=True)
        got = call(api().build_multiple_tocs, list(names), **kw)
        want = ('ok', [M.toc(lines, **kw) for lines in w])
        acc.transitions += n
        acc.ok([w, kw], got, want,
               'for i, t in enumerate(%r):\n    open("f%%d.md" %% i, "w")'
               '.write("".join(x + "\\n" for x in t))\n' % (w, ) +
               repro_call('api.build_multiple_tocs(["f%%d.md" %% i for i in '
                          'range(%d)], **%r)' % (n, kw)))
        # one after the other in one process
        for p, lines in zip(names, w):
            acc.ok([lines, 'again'], call(api().build_toc, p, **kw),
                   ('ok', M.toc(lines, **kw)))
        if acc.full():
            return


def calls(acc, parser):
    heads = ['a', 'A', 'a!', 'b', 'a-1', ' a ', '`a`', '<b>a</b>', '', '!',
             '_a_']
    same = ['a b', 'a  b', 'a-b', 'a - b', 'A B', 'a.b', 'a_b', '*a* b',
            'a --b', 'a b-1', 'a `b`', 'a <i>b', 'a\tb', 'ä b', 'Ä B', 'ab',
            'a b 1', 'a\\ b', '-a b', ' a b', 'a-b-']
    for w in itertools.chain(
            *(itertools.product(heads, repeat=n) for n in range(1, 5)),
            *(itertools.product(same, repeat=n) for n in range(1, 4))):
        cnt, mine, got, want = {}, {}, [], []
        for h in w:
            got.append(call(api().build_anchor_link, h, cnt, parser))
            s = M.slug(h, parser)
            k = mine.get(s, 0)
            mine[s] = k + 1
            want.append(('ok', s if not k else '%s-%d' % (s, k)))
        acc.transitions += len(w)
        acc.ok([w, parser], got, want,
               'from md_toc import api\nc = {}\ngot = [api.'
               'build_anchor_link(h, c, %r) for h in %r]' % (parser, w))
        if acc.full():
            return


def alike(acc, parser, lo, hi):
    """Different letters are never taken for the same."""
    import unicodedata
    block = []
    for cp in range(lo, hi):
        c = chr(cp)
        if 0xd800 <= cp < 0xe000 or not c.isalnum():
            continue
        block.append('a' + c)
        alt = {c, c.casefold(), c.lower(), c.upper(), c.swapcase()} | {
            unicodedata.normalize(f, c) for f in ('NFC', 'NFD', 'NFKC',
                                                  'NFKD')}
        alt = sorted(x for x in alt if '\n' not in x)
        if len(alt) > 1:
            sequence(acc, ['a' + x for x in [c] + alt + [c]], parser)
        if acc.full():
            return
    sequence(acc, block, parser)
    sequence(acc, [x * 3 for x in block] + block, parser)


def sequence(acc, heads, parser):
    cnt, mine, got, want = {}, {}, [], []
    for h in heads:
        got.append(call(api().build_anchor_link, h, cnt, parser))
        s = M.slug(h, parser)
        k = mine.get(s, 0)
        mine[s] = k + 1
        want.append(('ok', s if not k else '%s-%d' % (s, k)))
    acc.transitions += len(heads)
    if got != want:
        i = [x == y for x, y in zip(got, want)].index(False)
        acc.bad([heads[:i + 1][-50:], parser], got[i], want[i],
                'from md_toc import api\nc = {}\ngot = [api.'
                'build_anchor_link(h, c, %r) for h in %r]' %
                (parser, heads[:i + 1]))
    acc.runs += len(heads)
    acc.seen(repr(got))


def headers(acc, parser):
    """The counter survives across get_md_header calls and lines."""
    ls = ['# a', '#### a', 'x', '# b', '# a']
    for n in range(1, 5):
        for w in itertools.product(ls, repeat=n):
            for cut in range(n):
                cnt, mine, want = {}, {}, []
                text = ['\n'.join(x) for x in (w[:cut], w[cut:]) if x]
                got = []
                for t in text:
                    r = call(api().get_md_header, t, cnt, 3, parser, False)
                    got += [None if x is None else
                            (x['text_anchor_link'], x['visible'])
                            for x in r[1]] if r[0] == 'ok' else [r]
                for x in w:
                    h = M.atx(x, parser)
                    if h is None:
                        want.append(None)
                        continue
                    k = mine.get(h[1], 0)
                    mine[h[1]] = k + 1
                    want.append((h[1] + ('-%d' % k if k else ''), h[0] <= 3))
                acc.transitions += n
                acc.ok([w, cut, parser], got, want)
            if acc.full():
                return


def tasks(tier):
    for parser in M.CM:
        yield 'calls', (parser, )
        yield 'headers', (parser, )
        if parser in ('github', 'cmark', 'gitlab') or tier == 'thorough':
            top = 0x20000 if parser == 'github' or tier == 'thorough' \
                else 0x3000
            for lo in range(0, top, 0x400):
                yield 'alike', (parser, lo, lo + 0x400)
        yield 'huge', (parser, )
        for i in range(0, 131, 10):
            ks = range(i, min(i + 10, 131))
            if parser not in ('github', 'gitlab') and tier == 'quick':
                ks = [k for k in ks if k % 10 < 2]
            yield 'many', (parser, [k for k in ks if k])
        yield 'many', (parser, [256, 257] if parser != 'github' else
                       [256, 257, 1001])
        n = N[tier][0 if parser == 'github' else 1]
        for w, exact in prefixes(TOKENS, 2):
            yield 'docs', (parser, n, w, exact)
    for parser in ('github', 'cmark', 'gitlab'):
        for i in range(40):
            yield 'files', (parser, 2, i)
        for i in range(9):
            yield 'files', (parser, 3, i)

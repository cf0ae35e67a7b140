"""P07: Redcarpet anchors are computed as Redcarpet computes them."""
import itertools

from . import model as M
from .core import api, build, call, prefixes, repro_build, repro_call, sub

SPACES = {
    'quick': [('aB- .é', 7), ('a<>/b', 7), ('a&;#1', 7), ('a& <>;.', 6),
              (["a", "'", '_', 'é', ' ', '\U0001f600', '<b>', '&amp;', '<',
                '&', '</B c>', '&#x2F;', '&#12;'], 4)],
    'thorough': [('aB- .é', 8), ('a<>/b', 9), ('a&;#1', 9), ('a& <>;.', 8),
                 (["a", "'", '_', 'é', ' ', '\U0001f600', '<b>', '&amp;', '<',
                   '&', '</B c>', '&#x2F;', '&#12;'], 6)]
}
CP = [c for c in range(1, 0x110000) if not 0xd800 <= c < 0xe000
      and c not in (10, 13)]
POS = ['a{}B', '{}', '{}x', 'x{}', 'a{0}{0}b', '- {} -']
BOUNDS = {
    t: {
        'strings': ['%r up to length %d' % s for s in SPACES[t]],
        'code_points': 'all %d between letters, %s in %d positions' %
        (len(CP), 'all' if t == 'thorough' else 'the BMP', len(POS)),
        'hashes': 'texts without kept characters of 1..200 bytes'
    }
    for t in SPACES
}
ASSUMPTIONS = ['The rendering of the heading text that Redcarpet does before '
               'computing the anchor is the identity apart from escaping '
               '(plain text headings).']


def one(acc, t):
    got = call(api().build_anchor_link, t, {}, 'redcarpet')
    want = ('ok', M.slug_redcarpet(t))
    acc.runs += 1
    acc.transitions += len(t)
    acc.outcomes.add(hash(got))
    if got != want:
        acc.runs -= 1
        acc.ok(t, got, want,
               repro_call('api.build_anchor_link(%r, {}, "redcarpet")' % t))


def strings(acc, al, n, prefix, exact):
    for w in sub(al, n, prefix, exact):
        one(acc, ''.join(w))
        if acc.full():
            return


def points(acc, lo, hi, pos):
    for cp in CP[lo:hi]:
        for p in pos:
            one(acc, p.format(chr(cp)))
        if acc.full():
            return


def docs(acc):
    """Through documents; repeated headings keep their anchor."""
    heads = ['a', 'a b', 'é', 'É!', 'A <b>c</b>', 'x &amp; y', '...', 'C++',
             "it's", '1.2.3', 'a - b', '-- a --']
    for n in (1, 2, 3):
        for w in itertools.product(heads, repeat=n):
            lines = ['# ' + x for x in w]
            doc = '\n'.join(lines) + '\n'
            acc.transitions += n
            acc.ok(doc, build(doc, parser='redcarpet'),
                   ('ok', M.toc(lines, 'redcarpet')),
                   repro_build(doc, parser='redcarpet'))
        if acc.full():
            return
    for h in heads:
        for k in (2, 3, 10, 40):
            doc = ('## %s\n' % h) * k
            acc.ok(doc, build(doc, parser='redcarpet'),
                   ('ok', M.toc(['## ' + h] * k, 'redcarpet')))
    # the counter given by the caller plays no part
    for h in heads:
        cnt = {}
        for _ in range(4):
            acc.ok([h, 'same counter'],
                   call(api().build_anchor_link, h, cnt, 'redcarpet'),
                   ('ok', M.slug_redcarpet(h)))


def hashes(acc):
    for n in range(1, 201):
        for u in ('.', 'é', '-', '\u20ac', '\U0001f600', '!?', '~', '\x7f'):
            one(acc, u * n)
    for n in range(1, 1200, 7):
        one(acc, 'a' * n)
        one(acc, 'a-' * n)
        one(acc, '<b>' * n + 'x')
        one(acc, '&amp;' * n + 'x')
        one(acc, 'x' + '<' * n)
        one(acc, 'x' + '&' * n + ';')


def tasks(tier):
    yield 'docs', ()
    yield 'hashes', ()
    for al, n in SPACES[tier]:
        for w, exact in prefixes(al, 2):
            yield 'strings', (al, n, w, exact)
    for i in range(0, len(CP), 20000):
        yield 'points', (i, i + 20000, POS[:1])
    lim = len(CP) if tier == 'thorough' else 0xf800
    for i in range(0, lim, 8000):
        yield 'points', (i, min(lim, i + 8000), POS[1:])

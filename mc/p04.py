"""P04: anchors follow the slug rule of the parser for every character."""
from . import model as M
from .core import api, build, call, prefixes, repro_build, repro_call, sub

A1 = 'aB- _.'
A2 = ['a', 'Z', ' ', '-', '_', '.', 'é', 'É', '\u0301', '9', '+', '/',
      '\U0001f600', '\t', '\xa0', 'ß', 'İ', 'Σ']
N = {'quick': (6, 4), 'thorough': (9, 5)}
POS = ['a{}B', '{}', '{}x', 'x{}', '- {} -', '{0}{0}']
CP = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000
      and c not in (10, 13)]
BOUNDS = {
    t: {
        'code_points': 'all %d scalar values between letters and through the '
        'filter%s; %d positions, every parser and headings of documents %s' %
        (len(CP), '', len(POS), 'for all' if t == 'thorough' else
         'up to U+33FF (github documents: the BMP)'),
        'strings': 'all strings over %r up to length %d and over %r up to '
        'length %d' % (A1, N[t][0], ''.join(A2), N[t][1]),
        'lengths': 'texts of 1..1200 characters',
        'parsers': list(M.CM)
    }
    for t in N
}
ASSUMPTIONS = ['Word characters are the alphanumeric characters of the '
               'Unicode tables of the running Python.']


def one(acc, text, parser):
    got = call(api().build_anchor_link, text, {}, parser)
    want = ('ok', M.slug(text, parser))
    acc.runs += 1
    acc.transitions += len(text)
    acc.outcomes.add(hash(got))
    if got != want:
        acc.runs -= 1
        acc.ok([text, parser], got, want,
               repro_call('api.build_anchor_link(%r, {}, %r)' %
                          (text, parser)))


def points(acc, lo, hi, parsers, pos):
    for cp in CP[lo:hi]:
        for p in pos:
            t = p.format(chr(cp))
            for parser in parsers:
                one(acc, t, parser)
        if acc.full():
            return


def documents(acc, lo, hi, parser):
    lines = []
    for cp in CP[lo:hi]:
        lines.append('# a%sC %d' % (chr(cp), cp))
    for i in range(0, len(lines), 400):
        ls = lines[i:i + 400]
        doc = '\n'.join(ls) + '\n'
        got = build(doc, parser=parser)
        want = ('ok', M.toc(ls, parser))
        acc.transitions += len(ls)
        if got == want:
            acc.ok(doc[:100], got, want)
            continue
        # isolate the line
        for l in ls:
            g = build(l + '\n', parser=parser)
            w = ('ok', M.toc([l], parser))
            if not acc.ok(l, g, w, repro_build(l + '\n', parser=parser)):
                return
        acc.bad(doc, got, want, repro_build(doc, parser=parser))
        return


def strings(acc, which, n, parser, prefix, exact):
    alphabet = A1 if which == 1 else A2
    for w in sub(alphabet, n, prefix, exact):
        one(acc, ''.join(w), parser)
        if acc.full():
            return


def blanks(acc):
    """Blanks around the text of the heading, and closing sequences."""
    texts = ['a', 'a b', 'a - b', '- a', 'a -', '_', '.', 'a\\', '\\', 'é', 'A.B']
    for parser in M.CM:
        for t in texts:
            want = M.slug(t, parser)
            for pre in (' ', '  ', ' ' * 5, ' ' * 40):
                for post in ('', ' ', '   ', ' #', ' ##  ', '  # '):
                    for ind in ('', '   '):
                        line = ind + '#' + pre + t + post
                        got = build(line + '\n', parser=parser)
                        if got[0] == 'ok':
                            got = got[1].rpartition('](#')[2]
                        acc.ok([line, parser], got, want + ')\n',
                               repro_build(line + '\n', parser=parser))
            for pre in ('', ' ', '   '):
                for post in ('', ' ', '    '):
                    got = call(api().build_anchor_link, pre + t + post, {},
                               parser)
                    acc.ok([pre + t + post, parser], got, ('ok', want))


def filters(acc):
    """The punctuation filter on its own, which must be per character."""
    for parser in M.CM:
        for i in range(0, len(CP), 4096):
            s = ''.join(map(chr, CP[i:i + 4096]))
            got = call(api().anchor_link_punctuation_filter, s, parser)
            acc.transitions += len(s)
            acc.ok(['filter', i, parser], got,
                   ('ok', ''.join(c for c in s if M.is_word(c) or c in '- ')))


def lengths(acc):
    for parser in M.CM:
        for unit in ('a', 'a ', 'A-', 'é ', ' -', 'a_', 'ab. '):
            for n in list(range(1, 80)) + [127, 128, 129, 255, 256, 257, 500,
                                           999, 1000, 1200]:
                one(acc, (unit * n)[:n], parser)


def tasks(tier):
    yield 'blanks', ()
    yield 'filters', ()
    yield 'lengths', ()
    n1, n2 = N[tier]
    for parser in M.CM:
        m1, m2 = (n1, n2) if parser in ('github', 'gitlab') else (n1 - 1,
                                                                 n2 - 1)
        for w, exact in prefixes(A1, 2):
            yield 'strings', (1, m1, parser, w, exact)
        for w, exact in prefixes(A2, 1):
            yield 'strings', (2, m2, parser, w, exact)
    deep = tier == 'thorough'
    for i in range(0, len(CP), 20000):
        yield 'points', (i, i + 20000, ('github', ), POS[:1])
    lim = len(CP) if deep else 0x3400
    for i in range(0, lim, 2000):
        yield 'points', (i, min(lim, i + 2000), M.CM[1:], POS[:1])
        yield 'points', (i, min(lim, i + 2000),
                         M.CM if deep else ('github', 'gitlab', 'cmark'),
                         POS[1:])
        yield 'documents', (i, min(lim, i + 2000), 'gitlab')
    lim = len(CP) if deep else 0x10000
    for i in range(0, lim, 8000):
        yield 'documents', (i, min(lim, i + 8000), 'github')

"""P06: raw HTML is removed from anchors and nothing else is."""
import itertools
import re
import string

from . import model as M
from .core import api, build, call, prefixes, repro_build, repro_call, sub

T = [
    'a', ' B c', '<b>', '</b>', '<A HREF="x y">', '<br/>', '<a b=c d>',
    "<a b='>'>", '<!-- x -->', '<!--x-y-->', '<?php z ?>', '<!DOC y>',
    '<![CDATA[q]r]]>', '<1>', '< b>', '<b', '>', '</b x>', '<a b="c>',
    '<!-- x', '<title>', '</SCRIPT>', '<Style a>', '<a\tb>', '<-x>', '<b c=>',
    '<!---->', '<![CDATA[]]>', '<!A >', '<!a b>', '<titlex>', '<??>', '<b-1>',
    '<a =b>', '<!-- a--b -->', '<!--> x -->', '</b\t>', '<b  />', '<b / >',
    '<a:b>', '<é>', '<a é>', '<a b="é<c>">', '-->', '?>', ']]>', '<!-- > -->',
    '<x y=z/>', '<?', '<![CDATA[', '</', '<', '<!', '<a b = "c" d>',
    '`', '``', '\\', '`<i>`', '\\<i>'
]
CORE = ['x', '<b>', '</b>', '<b', '>', '<!-- y -->', '<!--', '-->', '"',
        '<a b="', '<?', '?>', '<![CDATA[', ']]>', '<!D ', "<a c='", "'"]
SPACES = {
    'quick': [('<!--', 'a-> <', 7, '-->'), ('<?', 'a?> <', 5, '?>'),
              ('<!', 'Aa >[', 6, ''), ('<![CDATA[', 'a]> ', 6, ']]>'),
              ('</', 'a1 -/\t>', 5, ''), ('<', 'a1 -/\t>=', 5, ''),
              ('<a ', 'b="\' >:/', 6, ''), ('<a', 'b= \t"_>', 6, '>'),
              ('', '<a>/!- ', 7, ''), ('', '<a>`\\', 7, ''),
              ('', ['<b>', '`', '``', '\\', 'x', '<a c="', '">', '_'], 5,
               '')],
    'thorough': [('<!--', 'a-> <', 8, '-->'), ('<?', 'a?> <', 7, '?>'),
                 ('<!', 'Aa >[', 8, ''), ('<![CDATA[', 'a]> ', 9, ']]>'),
                 ('</', 'a1 -/\t>', 7, ''), ('<', 'a1 -/\t>=', 7, ''),
                 ('<a ', 'b="\' >:/', 7, ''), ('<a', 'b= \t"_>', 7, '>'),
                 ('', '<a>/!- ', 8, ''), ('', '<a>`\\', 9, ''),
                 ('', ['<b>', '`', '``', '\\', 'x', '<a c="', '">', '_'],
                  6, '')]
}
# HTML next to emphasis, code spans, links and autolinks
MIXED = {
    'quick': [(['_', '*', 'a', ' ', '<b>', '<a c="_">', '<!-- _ -->', '`',
                '<', '>', '\\'], 5),
              (['_', '_a', '<b>', '<!--', '-->', '<!-- -->', '<?', '?>',
                '<![CDATA[', ']]>', '<!A ', '<!a', 'a_', ' ', '<a b="', '">'],
               4),
              (['_', 'a_', '[', '](', '<b>', '<u', ')', '>', ' "', '"',
                '<a:_>', '<_@b>'], 4),
              (['_', '](', '[a', '<b c="">', '<!-- -->', '<?', '?>', ')',
                '<![CDATA[', ']', ']>', '>'], 4),
              (['``', '`', '<i>', '_', 'a', '<I/>', '__'], 6)],
}
MIXED['thorough'] = [(a, n + 1) for a, n in MIXED['quick']]
N = {'quick': (3, 4), 'thorough': (3, 5)}
BOUNDS = {
    t: {
        'sequences': 'all sequences of up to %d of %d constructs and up to %d '
        'of %d fragments' % (N[t][0], len(T), N[t][1], len(CORE)),
        'inner_texts': ['%s(strings over %r up to length %d)%s' % s
                        for s in SPACES[t]],
        'mixed': ['%r up to length %d' % (a, n) for a, n in MIXED[t]],
        'tag_names': 'every letter case of the disallowed names, every ASCII '
        'character in tag names and attributes',
        'parsers': list(M.CM)
    }
    for t in N
}


def one(acc, s, parsers):
    for parser in parsers:
        got = call(api().remove_html_tags, s, parser)
        want = ('ok', M.strip_html(s, parser))
        acc.runs += 1
        acc.transitions += len(s)
        acc.outcomes.add(hash(got))
        if got != want:
            acc.runs -= 1
            acc.ok([s, parser], got, want,
                   repro_call('api.remove_html_tags(%r, %r)' % (s, parser)))


def anchor(acc, s, parser):
    got = call(api().build_anchor_link, s, {}, parser)
    want = ('ok', M.slug(s, parser))
    acc.ok([s, parser, 'anchor'], got, want,
           repro_call('api.build_anchor_link(%r, {}, %r)' % (s, parser)))


def doc(acc, s, parser):
    d = '# ' + s + '\n'
    acc.ok([d, parser], build(d, parser=parser),
           ('ok', M.toc([d[:-1]], parser)), repro_build(d, parser=parser))


def seqs(acc, which, n, prefix, exact):
    al = T if which == 1 else CORE
    for w in sub(al, n, prefix, exact):
        s = ''.join(w)
        one(acc, s, M.CM if len(w) < n else ('github', 'cmark'))
        if len(w) < n:
            for parser in ('github', 'gitlab'):
                anchor(acc, 'p ' + s + ' Q', parser)
            if len(w) < 3:
                for parser in M.CM:
                    doc(acc, 'p ' + s + ' Q', parser)
        if acc.full():
            return


def inner(acc, pre, al, n, post, prefix, exact):
    for w in sub(al, n, prefix, exact):
        s = 'x' + pre + ''.join(w) + post + 'y'
        one(acc, s, ('github', 'cmark') if len(w) == n else M.CM)
        if '`' in al:
            anchor(acc, s, 'github')
        if acc.full():
            return


_LOWER = re.compile(r'<!(?:[a-z]|[A-Z]+[^A-Z \t])')


def known(s, parser):
    """K3: declarations of CommonMark 0.30 that 0.29 does not know."""
    return parser not in M.GFM and _LOWER.search(s)


def confirm_known(key):
    s = '_a <!b_> c'
    return call(api().build_anchor_link, s, {}, 'cmark') != (
        'ok', M.slug(s, 'cmark'))


def mixed(acc, al, n, prefix, exact):
    for w in sub(al, n, prefix, exact):
        s = ''.join(w)
        anchor(acc, s, 'github')
        if len(w) < n and not known(s, 'cmark'):
            anchor(acc, s, 'cmark')
        if acc.full():
            return


def names(acc):
    for name in M._DISALLOWED + ('b', 'div', 'titles', 'atitle', 'script-x',
                                 'styl', 'h1', 'iframe1', 'xmp-'):
        cases = itertools.product(
            *[{c.lower(), c.upper()} for c in name[:7]])
        for cs in cases:
            n = ''.join(cs) + name[7:]
            for t in ('<%s>', '</%s>', '<%s a="b">', '<%s/>', '</%s >'):
                s = 'a' + t % n + 'b'
                one(acc, s, M.CM)
                anchor(acc, s, 'github')
                anchor(acc, s, 'cmark')
        if acc.full():
            return


def chars(acc):
    cs = [chr(c) for c in range(1, 256) if c not in (10, 13)] + [
        '\u2028', '\u0130', '\u212a', '\u017f', '\U0001f600']
    pats = ['<{}>', '<a{}>', '<a{}b>', '<a {}>', '<a b{}>', '<a b{}c>',
            '<a b={}>', '<a b=c{}>', '<a b="{}">', "<a b='{}'>", '</{}>',
            '</a{}>', '<!--{}-->', '<!-- {} -->', '<?{}?>', '<!A{}>',
            '<!A {}>', '<!{}>', '<![CDATA[{}]]>', '<a b{}=c>', '{}<b>', '<b>{}']
    for c in cs:
        if c in '\x0b\x0c\x00':
            continue
        for p in pats:
            one(acc, 'x' + p.format(c) + 'y', ('github', 'cmark', 'gitlab'))
        if acc.full():
            return


def sizes(acc):
    for n in list(range(0, 70)) + [100, 300, 1000]:
        for unit in ('<b>', '</b>', '<!-- x -->', 'a<b>', '<?x?>', '<a b="c">',
                     '<', '<b', '<!--', '<![CDATA['):
            one(acc, unit * n + 'z', ('github', 'cmark'))
        one(acc, 'x<a' + ' b=c' * n + '>y', M.CM)
        one(acc, 'x<a' + ' b="c d"' * n + '/>y', M.CM)
        one(acc, 'x<' + 'a' * (n + 1) + '>y', M.CM)
        one(acc, 'x<!--' + 'a' * n + '-->y', M.CM)
        one(acc, 'x<b' + ' ' * n + '>y</b' + ' ' * n + '>', M.CM)
        if n and n < 200:
            anchor(acc, 'p<b>' * n + 'q', 'github')


def tasks(tier):
    n1, n2 = N[tier]
    yield 'names', ()
    yield 'chars', ()
    yield 'sizes', ()
    for w, exact in prefixes(T, 1):
        yield 'seqs', (1, n1, w, exact)
    for w, exact in prefixes(CORE, 2):
        yield 'seqs', (2, n2, w, exact)
    for al, n in MIXED[tier]:
        for w, exact in prefixes(al, 2):
            yield 'mixed', (al, n, w, exact)
    for pre, al, n, post in SPACES[tier]:
        for w, exact in prefixes(al, 2):
            yield 'inner', (pre, al, n, post, w, exact)

"""P05: emphasis markers vanish exactly when CommonMark makes them so."""
import itertools

from . import model as M
from .core import api, build, call, prefixes, repro_build, repro_call, sub

SPACES = {
    'quick': [('a*_ ', 8), ('a*', 11), ('a_', 11), ('a_ ', 8), ('a*_ .`\\', 6),
              ('a_`', 9), ('a_\\', 8), (['a', '_', '*', '\u3000', '“', '.'], 6),
              (['_', '*', 'a', '__', '**', '***', '___', ' '], 5),
              (['_', 'é', '\xa0', '€', '-', ' '], 6),
              (['_', '`', '``', 'a', ' ', '\\'], 6)],
    'thorough': [('a*_ ', 10), ('a*', 15), ('a_', 15), ('a_ ', 11),
                 ('a*_ .`\\', 7), ('a_`', 11), ('a_\\', 10),
                 (['a', '_', '*', '\u3000', '“', '.'], 8),
                 (['_', '*', 'a', '__', '**', '***', '___', ' '], 6),
                 (['_', 'é', '\xa0', '€', '-', ' '], 7),
                 (['_', '`', '``', 'a', ' ', '\\'], 7)]
}
# links, images, autolinks, titles, entities
LINKS = {
    'quick': [('a_[](*) !', 5), ('a_[]()', 6),
              (['_a', '_', '![', '[', ']', '](u)', 'a', '*'], 5),
              (['[_a', '_](', 'b)', '\\', '_', '`', '<http://a_b', '>', ' ',
                ')', 'a_'], 4),
              (['_a', '_', '[', '](x)', '](x_ y)', '](_ "', '")', '![', ']',
                '](<_>)', " '", '\\]'], 4),
              (['_[a](b', ' "', ' (', " '", '_', '"', '\\', '(', ')', "'",
                'a'], 5),
              (['_[a](', '<', '>', '_', '\\', '<a', '(', ')', ' ', 'a'], 5),
              (['&amp;', '&', '_', 'a', '*', '<a_@b.c>', '<', '>', '[',
                '](/u)', '&#95;', '[x]: '], 4),
              (['_', '<', 'a', 'b:', '>', '@', '.', 'ab+', '/', '*', ' '], 5)],
}
LINKS['thorough'] = [(a, n + 1 + (len(a) < 9)) for a, n in LINKS['quick']]
LINKS['quick'].append((['[', '![', '[a](b)', '![a](b)', '](c)', '](d_)', '_',
                        'a', ']'], 6))
LINKS['thorough'].append((LINKS['quick'][-1][0], 7))
# (before, alphabet, length, after)
FRAMES = {
    'quick': [
        ('_a [b](', ['<c>', '<', '>', 'c', '"d_"', "'d_'", '(d_)', '"', ' ',
                     '\t', '_', '\\', ')', '('], 4, ')'),
        ('_a [b](', '()\\_ a<>', 5, ') c_'),
        ('_a [', ['a', '_', '\\', '[', ']', '][', '!'], 6, '] b_'),
        ('_a <', ['!', '-', '--', '?', 'a', '>', '[CDATA[', ']]', '_', ' ',
                  'A '], 4, '> b_'),
        ('_a <', ['!', '!-', '?', 'a', '![', '[CDATA[', ']]>', '_', 'a_',
                  '<'], 4, ' b_'),
        ('_a <', ['!', '--', '?', '?a', '![CDATA[', ']', ']]', '>', 'a_',
                  'A '], 4, ''),
        ('_a <', 'ab:@.+-_ >/', 4, '> b_'),
        ('_a &', '#x1;aX_& ', 4, '; b_'),
        ('_', ['`', '``', '```', 'a', '_', ' ', '\\'], 6, '_'),
        ('_``', ['`', '`a', 'a`', '_', '``', 'b'], 6, '_'),
        ('_a [b](', ['c', '\xa0', '\u3000', '\t', '\x0c', '\u2028',
                     '"d"', '<', '>', ' '], 4, '_)'),
    ],
}
FRAMES['thorough'] = [(a, b, n + 1, c) for a, b, n, c in FRAMES['quick']]
CTX = ['{}_b_', '_b_{}', 'a{}_b_{}a', '_{}b{}_', 'a{}*b*{}a', 'a_{}b_']
BOUNDS = {
    t: {
        'strings': ['%r up to length %d' % (a, n) for a, n in SPACES[t]],
        'links': ['%r up to length %d' % (a, n) for a, n in LINKS[t]],
        'framed': ['%r (strings over %r up to length %d) %r' % f
                   for f in FRAMES[t]],
        'cross-check': 'the model against markdown-it, all strings over '
        'a * _ . blank ` \\ [ ] ( ) ! up to length %d and token sequences' %
        (4 if t == 'quick' else 5),
        'run_lengths': 'three and four runs of 1..7 (1..12 for two runs) '
        'delimiters of both kinds with every choice of what separates them',
        'flanks': 'three runs of 1..%d delimiters with a letter, a full stop '
        'or a blank on each side of each' % (4 if t == 'quick' else 5),
        'code_points': 'every %s next to delimiters, %d contexts' %
        ('scalar value' if t == 'thorough' else
         'scalar value up to U+3100, the rest of the BMP and beyond in one '
         'context per category change', len(CTX)),
        'sizes': 'up to 400 delimiter runs'
    }
    for t in SPACES
}
ASSUMPTIONS = [
    'Punctuation is ASCII punctuation or a Unicode P* character '
    '(CommonMark 0.30). There are no link reference definitions (the tool '
    'reads headings one at a time).'
]


def one(acc, s, parser='github'):
    got = call(api().remove_emphasis, s, parser)
    want = ('ok', M.strip_emphasis(s))
    acc.transitions += len(s)
    acc.runs += 1
    acc.outcomes.add(hash(got))
    if got != want:
        acc.runs -= 1
        acc.ok([s, parser], got, want,
               repro_call('api.remove_emphasis(%r, %r)' % (s, parser)))


def strings(acc, alphabet, n, prefix, exact):
    for i, w in enumerate(sub(alphabet, n, prefix, exact)):
        s = ''.join(w)
        one(acc, s)
        if len(w) < n:
            got = call(api().build_anchor_link, s, {}, 'cmark')
            want = ('ok', M.slug(s, 'cmark'))
            acc.ok([s, 'anchor'], got, want,
                   repro_call('api.build_anchor_link(%r, {}, "cmark")' % s))
        if acc.full():
            return


def framed(acc, pre, alphabet, n, post, prefix, exact):
    for w in sub(alphabet, n, prefix, exact):
        s = pre + ''.join(w) + post
        if '?' in alphabet:  # HTML
            got = call(api().build_anchor_link, s, {}, 'github')
            acc.ok([s, 'anchor'], got, ('ok', M.slug(s, 'github')),
                   repro_call('api.build_anchor_link(%r, {}, "github")' % s))
        one(acc, s)
        if acc.full():
            return


def cross(acc, alphabet, n, prefix, exact):
    """The model against another implementation of CommonMark."""
    from markdown_it import MarkdownIt
    md = MarkdownIt('commonmark')

    def count(tokens):
        k = 0
        for t in tokens or ():
            if t.type in ('em_open', 'em_close'):
                k += 1
            elif t.type in ('strong_open', 'strong_close'):
                k += 2
            k += count(t.children)
        return k

    for w in sub(alphabet, n, prefix, exact):
        s = 'x' + ''.join(w) + 'x'
        acc.transitions += len(w)
        acc.ok([s, 'markdown-it'], len(s) - len(M.strip_emphasis(s)),
               count(md.parseInline(s)), note='the model is wrong')
        if acc.full():
            return


def runs2(acc, c):
    seps = ['', 'a', ' ', 'a ', ' a', '.', '.a', 'a.']
    for d in '*_':
        for i in range(1, 13):
            for j in range(1, 13):
                for a, b, e in itertools.product(seps, repeat=3):
                    if b == '' and d == c:
                        continue
                    one(acc, a + c * i + b + d * j + e)
        if acc.full():
            return


def runs3(acc, c1, c2, c3):
    seps = ['a', ' ', 'a ', '.']
    for i in range(1, 8):
        for j in range(1, 8):
            for k in range(1, 8):
                for a, b in itertools.product(seps, repeat=2):
                    one(acc, c1 * i + 'x' + a + c2 * j + b + 'y' + c3 * k)
                    one(acc, 'z' + c1 * i + a + 'x' + c2 * j + 'y' + b +
                        c3 * k + 'z')
        if acc.full():
            return


def runs4(acc, cs):
    for ls in itertools.product(range(1, 5), repeat=4):
        for a, b, c in itertools.product(('a', ' a', 'a ', 'a b'), repeat=3):
            s = ''
            for ch, l, sep in zip(cs, ls, (a, b, c, '')):
                s += ch * l + sep
            one(acc, s)
        if acc.full():
            return


def flanks(acc, cs, first, top):
    """All kinds of characters on both sides of every run."""
    gaps = [a + b for a in 'a. ' for b in 'a. ']
    for ls in itertools.product(range(1, top + 1), repeat=len(cs)):
        for g in itertools.product(gaps, repeat=len(cs) - 1):
            for last in 'a. ':
                s = first
                for c, l, x in zip(cs, ls, g + (last, )):
                    s += c * l + x
                one(acc, s)
        if acc.full():
            return


def points(acc, cps):
    for cp in cps:
        for t in CTX:
            one(acc, t.format(chr(cp), chr(cp)))
        if acc.full():
            return


def sizes(acc):
    for n in list(range(1, 60)) + [100, 200, 400]:
        for u in ('_a_ ', '*a* ', '_a ', 'a_ ', '*_a_* ', '_*a ', '`_a_` ',
                  '\\_a ', '__a__', 'a__b ', '[_a_](b_) ', '[_a ', '_a] ',
                  '![a_](b) ', '[a][_b] ', '<http://a_> ', '[a](<b_> "_") ',
                  '_a [b](c_) ', '`` _a` ', '<a b="_"> ', '&amp;_a_ '):
            one(acc, (u * n).strip())
        one(acc, '[' * n + '_a_' + ']' * n)
        one(acc, '_b ' + '[' * n + 'a_' + '](u)' * n)
        one(acc, '_b ' + '![' * n + 'a_' + '](u_)' * n)
        one(acc, '_b [a](' + 'c' * n + '_)')
        one(acc, '_b [' + 'c' * n + '_](d)')
        one(acc, '_b [a](c "' + '_ ' * n + '")')
        one(acc, '_b [a](' + '\\(' * n + '_)')
        if n < 32:  # CommonMark leaves the limit open
            one(acc, '_b [a](' + '(' * n + '_' + ')' * n + ')')
            one(acc, '_b [a](' + '(' * n + '_' + ')' * (n + 1) + ')')
        one(acc, '_b [a](' + '()' * n + '_)')
        one(acc, '_' * n + 'a' + '_' * n)
        one(acc, '*' * n + 'a' + '*' * n)
        one(acc, '_' * n + 'a')
        one(acc, '*_' * n + 'a' + '_*' * n)
        one(acc, '`' * n + '_a_' + '`' * n)
        one(acc, '`' * n + '_a_' + '`' * (n + 1))
        one(acc, '\\' * n + '_a_')
        one(acc, '_a\\' + '\\' * n + '_')


def docs(acc):
    """Through whole documents, every parser."""
    pieces = ['[_k_](l_m_)', '<http://n_o>', '_a_', 'b_c', '__d__', '*e*', '`_f_`', '\\_g\\_', '_h', '**i_j**']
    for n in (1, 2, 3):
        for w in itertools.product(pieces, repeat=n):
            for sep in (' ', '', '.'):
                s = sep.join(w)
                for parser in M.CM:
                    if n == 3 and parser not in ('github', 'gitlab'):
                        continue
                    doc = '# ' + s + '\n'
                    acc.transitions += n
                    acc.ok([doc, parser], build(doc, parser=parser),
                           ('ok', M.toc([doc[:-1]], parser)),
                           repro_build(doc, parser=parser))
        if acc.full():
            return


def tasks(tier):
    import unicodedata
    yield 'sizes', ()
    yield 'docs', ()
    for c in '*_':
        yield 'runs2', (c, )
    for cs in itertools.product('*_', repeat=3):
        yield 'runs3', cs
    for cs in itertools.product('*_', repeat=3):
        for first in 'a. ':
            yield 'flanks', (cs, first, 4 if tier == 'quick' else 5)
    if tier != 'quick':
        for c in '*_':
            for first in 'a. ':
                yield 'flanks', (c * 4, first, 3)
    for cs in itertools.product('*_', repeat=4):
        yield 'runs4', (''.join(cs), )
    for alphabet, n in ((list('a*_. `\\[]()!'), 4), (
        ['_a', 'a_', '*', '[', '](u)', '![', '](<', '>', ' "', '")', '_'],
            4)):
        for w, exact in prefixes(alphabet, 2):
            yield 'cross', (alphabet, n + (tier != 'quick'), w, exact)
    for alphabet, n in LINKS[tier]:
        for w, exact in prefixes(alphabet, 2):
            yield 'strings', (alphabet, n, w, exact)
    for pre, alphabet, n, post in FRAMES[tier]:
        for w, exact in prefixes(alphabet, 1):
            yield 'framed', (pre, alphabet, n, post, w, exact)
    for alphabet, n in SPACES[tier]:
        for w, exact in prefixes(alphabet, 3):
            yield 'strings', (alphabet, n, w, exact)
    cps = []
    last = None
    for c in range(1, 0x110000):
        k = unicodedata.category(chr(c))
        if k == 'Cs' or c in (10, 13):
            continue
        if tier == 'thorough' or c < 0x3100 or k != last:
            cps.append(c)
        last = k
    for i in range(0, len(cps), 1500):
        yield 'points', (cps[i:i + 1500], )

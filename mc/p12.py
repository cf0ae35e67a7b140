"""P12: every TOC link is one well-formed link labelled with the heading."""
import itertools
import re

from . import model as M
from .core import api, build, call, model, prefixes, repro_build, repro_call, sub

A1 = 'a[]\\'
A2 = 'a[]\\()! '
N = {'quick': (8, 5), 'thorough': (10, 7)}
BOUNDS = {
    t: {
        'texts': 'all strings over %r up to length %d and over %r up to '
        'length %d' % (A1, N[t][0], A2, N[t][1]),
        'characters': 'every ASCII character next to brackets and '
        'backslashes',
        'lengths': 'every text length 985..1010 at every level with every '
        'limit, with brackets and '
        'backslashes at the ends; multi-byte characters',
        'empty': 'every blank/closing-run spelling of an empty heading',
        'parsers': list(M.CM),
        'redcarpet': 'the end of the label: all strings over a, backslash, '
        'blank, # up to length %d' % (N[t][0] - 1)
    }
    for t in N
}
ASSUMPTIONS = ['A bracket after an odd number of backslashes counts as '
               'already escaped. Brackets in code spans are treated like '
               'others.']


def want_of(lines, parser, **kw):
    return model(M.toc, lines, parser, **kw)


def well_formed(label):
    """No unescaped bracket and no escaping backslash at the end."""
    return re.fullmatch(r'(?:[^\\\[\]]|\\(?s:.))*', label) is not None


def one(acc, text, parser, doc=True):
    line = '# ' + text
    h = M.atx(line, parser)
    want = model(lambda: M.label(h[1], parser, False))
    got = call(api().get_atx_heading, line, 3, parser, False)
    if got[0] == 'ok':
        got = ('ok', got[1][0]['header_text_trimmed'])
    acc.transitions += len(text)
    acc.ok([line, parser], got, want,
           repro_call('api.get_atx_heading(%r, 3, %r, False)' %
                      (line, parser)))
    if got[0] == 'ok' and not well_formed(got[1]):
        acc.bad([line, parser], got, 'a well-formed link label')
    if doc:
        for kw in (dict(), dict(no_links=True)):
            d = line + '\n'
            acc.ok([d, parser, kw], build(d, parser=parser, **kw),
                   want_of([line], parser, **kw),
                   repro_build(d, parser=parser, **kw))


def texts(acc, al, n, parser, prefix, exact):
    for w in sub(al, n, prefix, exact):
        one(acc, ''.join(w), parser, len(w) < n and parser in
            ('github', 'gitlab'))
        if acc.full():
            return


def redcarpet(acc, prefix, n, exact):
    """The end of the label (its brackets are not escaped)."""
    for w in sub('a\\ #', n, prefix, exact):
        line = '# ' + ''.join(w)
        h = M.atx(line, 'redcarpet')
        got = call(api().get_atx_heading, line, 3, 'redcarpet', False)
        if got[0] == 'ok':
            got = ('ok', got[1][0]['header_text_trimmed'])
        acc.transitions += len(w)
        want = h and M.label(h[1], 'redcarpet', False)
        if want and want.endswith('\\') and got == ('ok', want + ' '):
            continue  # not needed, but it does not break the link either
        acc.ok([line, 'redcarpet'], got, ('ok', want),
               repro_call('api.get_atx_heading(%r, 3, "redcarpet", False)' %
                          line))
        for kw in (dict(), dict(no_links=True)):
            acc.ok([line, 'redcarpet', kw],
                   build(line + '\n', parser='redcarpet', **kw),
                   want_of([line], 'redcarpet', **kw),
                   repro_build(line + '\n', parser='redcarpet', **kw))
        if acc.full():
            return


def chars(acc, parser):
    for c in map(chr, list(range(32, 127)) + [9, 11, 12, 0xe9, 0x1f600,
                                              0xa0, 0x2028, 0x85]):
        if c in '<&':
            continue
        for p in ('{}', '[{}', '{}]', '\\{}', '{}\\', '\\\\{}[', '[{}]',
                  '[a]{}', '{}[a]', 'a{}b', '[{}](b)', '\\[{}', 'a {}'):
            one(acc, p.format(c), parser)
        if acc.full():
            return


def lengths(acc, parser):
    for n in list(range(985, 1011)) + [1, 500, 2000]:
        for t in ('a' * n, 'é' * n, '[' + 'a' * (n - 1), 'a' * (n - 1) + ']',
                  'a' * (n - 1) + '\\', 'a' * max(n - 2, 0) + '\\]',
                  '\U0001f600' * n, 'a' * max(n - 4, 0) + '[]\\\\',
                  ('[' * n), ('\\' * n), ('a b' * n)[:n - 1] + 'z'):
            one(acc, t, parser, n < 1002)
            one(acc, t + '   ', parser, False)
            one(acc, t + ' ##', parser, False)
        # at every level, listed or not
        for level in range(1, 7):
            for t in ('a' * n, ']' + 'a' * (n - 1)):
                for keep in range(1, 7):
                    kw = dict(keep_header_levels=keep)
                    lines = ['#' * level + ' ' + t]
                    d = lines[0] + '\n'
                    acc.ok([n, level, parser, kw],
                           build(d, parser=parser, **kw),
                           want_of(lines, parser, **kw),
                           repro_build(d, parser=parser, **kw))
        # neither error without links
        for t in ('a' * n, '[' * n):
            d = '# ' + t + '\n'
            acc.ok([n, parser, 'no_links'],
                   build(d, parser=parser, no_links=True),
                   ('ok', '- ' + t + '\n'),
                   repro_build(d, parser=parser, no_links=True))
        if acc.full():
            return


def empty(acc, parser):
    blanks = ['', ' ', '  ', '\t', ' \t', ' ' * 10, '\x0b', ' \x0c',
              ' \x0b\x0c ', '\xa0']
    for level in (1, 3, 6):
        for b in blanks:
            for c in ('', '#', '##', ' #', '# ', '######'):
                line = '#' * level + ' ' + b + c
                if b == '' and c:
                    line = '#' * level + ' ' + c
                if M.atx(line, parser) is None:
                    continue
                for keep in (1, 6):
                    for nl in (False, True):
                        for pre in ([], ['# a'], ['x']):
                            lines = pre + [line]
                            kw = dict(no_links=nl, keep_header_levels=keep,
                                      no_indentation=True)
                            d = '\n'.join(lines) + '\n'
                            acc.transitions += 1
                            acc.ok([d, parser, kw],
                                   build(d, parser=parser, **kw),
                                   want_of(lines, parser, **kw),
                                   repro_build(d, parser=parser, **kw))
        if acc.full():
            return


def several(acc, parser):
    """Errors and labels among several headings."""
    hs = ['# a[b]', '# \\[c', '## d\\', '# #', '# ' + 'e' * 1000, '# [f](g)',
          '#### #', '# x', '```', '##### ' + 'h' * 1001]
    for n in (1, 2, 3):
        for w in itertools.product(hs, repeat=n):
            for nl in (False, True):
                for keep in (1, 3, 6):
                    kw = dict(no_links=nl, keep_header_levels=keep,
                              no_indentation=True)
                    d = '\n'.join(w) + '\n'
                    acc.transitions += n
                    acc.ok([d, parser, kw], build(d, parser=parser, **kw),
                           want_of(list(w), parser, **kw),
                           repro_build(d, parser=parser, **kw))
        if acc.full():
            return


def rendered(acc):
    """markdown-it sees exactly one link per line, with that text."""
    from markdown_it import MarkdownIt
    md = MarkdownIt('commonmark').disable(['emphasis', 'entity'])
    for n in range(1, 7):
        for w in itertools.product('a[]\\(', repeat=n):
            t = ''.join(w)
            r = build('# ' + t + '\n')
            if r[0] != 'ok':
                acc.bad(t, r, 'a link')
                continue
            toks = md.parse(r[1])
            inl = [x for x in toks if x.type == 'inline']
            kinds = [x.type for x in inl[0].children] if len(inl) == 1 else []
            shown = ''.join(x.content for x in inl[0].children)
            # what the heading itself shows
            head = md.disable(['link', 'image']).parse('# ' + t)
            md.enable(['link', 'image'])
            orig = ''.join(x.content for y in head if y.type == 'inline'
                           for x in y.children)
            acc.transitions += n
            acc.count('cross_checked_with_markdown_it')
            acc.ok(['rendered', t],
                   (kinds.count('link_open'), kinds[:1], kinds[-1:],
                    shown.rstrip(' ')),
                   (1, ['link_open'], ['link_close'], orig.rstrip(' ')),
                   repro_build('# ' + t + '\n'))


def tasks(tier):
    for w, exact in prefixes('a\\ #', 2):
        yield 'redcarpet', (w, N[tier][0] - 1, exact)
    yield 'rendered', ()
    n1, n2 = N[tier]
    for parser in M.CM:
        for f in ('chars', 'lengths', 'empty', 'several'):
            yield f, (parser, )
        d = 0 if parser in ('github', 'cmark') else 1
        for w, exact in prefixes(A1, 2):
            yield 'texts', (A1, n1 - d, parser, w, exact)
        for w, exact in prefixes(A2, 1):
            yield 'texts', (A2, n2 - d, parser, w, exact)

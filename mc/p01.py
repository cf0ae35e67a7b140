"""P01: a line is a heading exactly when the chosen parser says so."""
import itertools
import sys
import unicodedata

from . import model as M
from .core import (api, build, call, model, prefixes, repro_build, repro_call,
                   sub)

A1 = ' #a\t\\'
N1 = {'quick': 7, 'thorough': 9}
INDENT = ['', ' ', '  ', '   ', '    ', '     ', '\t', ' \t']
SEP = ['', ' ', '  ', '\t', ' \t', '\t ', '\xa0', '\x0b', '\x0c', '\\', 'a',
       '-']
BODY = ['', 'a', 'a b', '#', 'a#', '#a', '\\#', 'a\\', 'é', 'a\tb', '\\\\',
        '##', '`#`', '\x0b', '# a']
CLOSE = ['', ' #', ' ##', '#', ' # ', ' #\t', '\t#', '\t##\t', ' ' + '#' * 9,
         ' # #', ' #a', ' \\#', '  ##  ', '\xa0#', ' #\xa0', ' ', '\t', '   ']
POS = ['{}# a', '#{}a', '# {}', '# a{}', '# a{}#', '# a #{}', '#{}',
       ' {}# a', '#{}# a']
LINES = ['', '# a', '#### d', 'x', ' ## b ##', '#', '#x', '    # e', '###### f']
SEPS = ['\n', '\r', '\r\n']
BOUNDS = {
    t: {
        'lines': 'all strings over %r up to length %d' % (A1, N1[t]),
        'products': 'indent x 0..8 hashes x separator x body x closing, '
        'through whole documents',
        'code_points': 'all' if t == 'thorough' else
        'U+0000..U+30FF and every later code point of the categories Z, C, P'
        ' (first 400 each)',
        'multi_line': 'all strings of up to 3 lines over %d lines and 3 '
        'separators, level limits 1..7' % len(LINES),
        'parsers': list(M.ALL)
    }
    for t in N1
}
ASSUMPTIONS = [
    'Blanks other than space and tab are ordinary characters (they are not '
    'blanks of the specification).'
]


def expected(line, keep, parser, no_links):
    h = M.atx(line, parser)
    if h is None:
        return {'header_type': None, 'header_text_trimmed': None,
                'visible': False}
    return {'header_type': h[0],
            'header_text_trimmed': M.label(h[1], parser, no_links),
            'visible': h[0] <= keep}


def norm(obs):
    """Only the documented fields."""
    if obs[0] != 'ok':
        return obs
    return ('ok', [{k: d[k] for k in ('header_type', 'header_text_trimmed',
                                      'visible')} for d in obs[1]])


def one(acc, line, keep, parser, no_links):
    got = norm(call(api().get_atx_heading, line, keep, parser, no_links))
    want = model(lambda: [expected(line, keep, parser, no_links)])
    if parser == 'redcarpet' and got[0] == 'ok' and got != want:
        # a space may follow backslashes that escape each other
        for d in got[1]:
            t = d['header_text_trimmed']
            if not no_links and isinstance(t, str) and t.endswith(
                    '\\ ') and want[1][0]['header_text_trimmed'] == t[:-1]:
                d['header_text_trimmed'] = t[:-1]
    acc.transitions += len(line)
    if got != want:
        acc.ok([line, keep, parser, no_links], got, want,
               repro_call('api.get_atx_heading(%r, %r, %r, %r)' %
                          (line, keep, parser, no_links)))
    else:
        acc.runs += 1
        acc.outcomes.add(hash(str(got)))


def lines(acc, parser, n, prefix, exact):
    for w in sub(A1, n, prefix, exact):
        s = ''.join(w)
        one(acc, s, 6, parser, True)
        one(acc, s, 3, parser, False)
        if acc.full():
            return


def product(acc, parser, ind):
    for h in range(0, 9):
        for sep, body, close in itertools.product(SEP, BODY, CLOSE):
            s = ind + '#' * h + sep + body + close
            one(acc, s, 6, parser, True)
            one(acc, s, 4, parser, False)
            # the same line inside a document
            if sep in ('', ' ', '\t', '\xa0') and body in ('', 'a', '#', '\\#',
                                                           'a\\'):
                doc = 'x\n' + s + '\ny\n'
                kw = dict(parser=parser, no_links=True, no_indentation=True,
                          keep_header_levels=6)
                hd = M.atx(s, parser)
                want = ('ok', '' if hd is None else '- ' + hd[1] + '\n')
                acc.ok(doc, build(doc, **kw), want, repro_build(doc, **kw))
        if acc.full():
            return


def points(acc, parser, cps):
    for cp in cps:
        c = chr(cp)
        if c in '\r\n':
            continue
        for p in POS:
            one(acc, p.format(c), 6, parser, True)
        if acc.full():
            return


def multi(acc, parser, first):
    for n in (1, 2, 3):
        for rest in itertools.product(LINES, repeat=n - 1):
            ls = (first, ) + rest
            for seps in itertools.product(SEPS, repeat=n):
                for lead in ('', '\n', '\r\n\r'):
                    s = lead + ''.join(a + b for a, b in zip(ls, seps))
                    for t in (s, s[:len(s) - len(seps[-1])]):
                        inner = t.replace('\r\n', '\n').replace(
                            '\r', '\n').strip('\n').split('\n')
                        for keep in ((1, 3, 6) if n < 3 else (3, )):
                            got = norm(call(api().get_atx_heading, t, keep,
                                            parser, True))
                            want = ('ok', [
                                expected(x, keep, parser, True) for x in inner
                            ])
                            acc.transitions += len(inner)
                            acc.ok([t, keep, parser], got, want,
                                   repro_call(
                                       'api.get_atx_heading(%r, %r, %r, True)'
                                       % (t, keep, parser)))
                        if n < 3 and acc.runs % 3 == 0:
                            got = call(api().get_md_header, t, {}, 3, parser,
                                       True)
                            cnt = {}
                            want = []
                            for x in inner:
                                h = M.atx(x, parser)
                                if h is None:
                                    want.append(None)
                                    continue
                                a = M.slug(h[1], parser)
                                k = cnt.get(a, 0)
                                cnt[a] = k + 1
                                if k and parser != 'redcarpet':
                                    a += '-%d' % k
                                want.append({
                                    'header_type': h[0],
                                    'text_original': h[1],
                                    'text_anchor_link': a,
                                    'visible': h[0] <= 3
                                })
                            acc.ok([t, parser], got, ('ok', want),
                                   repro_call(
                                       'api.get_md_header(%r, {}, 3, %r, True)'
                                       % (t, parser)))
            if acc.full():
                return


def levels(acc):
    for parser in M.ALL:
        for k in range(1, 9):
            for h in range(0, 9):
                for ind in ('', '   '):
                    one(acc, ind + '#' * h + ' a', k, parser, False)
        for k in (0, -1):
            acc.ok(['bad level limit', k],
                   call(api().get_atx_heading, '# a', k, parser),
                   ('exc', 'ValueError'))


def sweep(tier):
    if tier == 'thorough':
        return [c for c in range(0x110000) if not 0xd800 <= c < 0xe000]
    out = list(range(0x3100))
    cnt = {}
    for c in range(0x3100, sys.maxunicode + 1):
        k = unicodedata.category(chr(c))
        if k == 'Cs':
            continue
        if k[0] in 'ZCP' and cnt.get(k, 0) < 400 or cnt.get(k, 0) < 20:
            cnt[k] = cnt.get(k, 0) + 1
            out.append(c)
    return out


def tasks(tier):
    yield 'levels', ()
    for parser in M.ALL:
        for first in LINES:
            yield 'multi', (parser, first)
        for w, exact in prefixes(A1, 2):
            yield 'lines', (parser, N1[tier], w, exact)
        for ind in INDENT:
            yield 'product', (parser, ind)
    cps = sweep(tier)
    for parser in ('github', 'cmark', 'redcarpet'):
        for i in range(0, len(cps), 4000):
            yield 'points', (parser, cps[i:i + 4000])

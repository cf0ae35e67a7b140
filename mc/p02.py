"""P02: headings inside fenced code are never listed, those outside always."""
import itertools

from . import model as M
from .core import api, build, call, prefixes, repro_build, repro_call, sub

TOKENS = [
    'x', '```', '~~~', '````', '~~~~', '``', '~~', '   ```', '    ```',
    '   ~~~', '    ~~~', '```py', '~~~ py', '``` a`b', '~~~ a`~b', '```\t',
    '~~~ \t', '``` ', '`````', '~~~~~~', '`~`', '```~', '~~~```', '\t```',
    '```\x0b', '', '# ```', '> ```', '- ```', '```\\', '~~~ ~~~', '``` ```'
]
CORE = [
    '```', '~~~', '````', '~~~~', '``` x', '~~~ x', '    ```', '   ```',
    '``` `', '~~~ `', '```\t', '~~~ ', '``', 'x'
]
DEPTH = {'quick': (3, 4), 'thorough': (4, 5)}
FULL = ('github', 'cmark')
A = ' `~a\t'
N = {'quick': 7, 'thorough': 9}
BOUNDS = {
    t: {
        'sequences': 'all sequences of up to %d of %d lines (%s) and up to %d '
        'of %d core lines, a probe heading after every line' %
        (DEPTH[t][0], len(TOKENS), ', '.join(FULL), DEPTH[t][1], len(CORE)),
        'single_lines': 'all strings over %r up to length %d, as opening and '
        'as closing line' % (A, N[t]),
        'run_lengths': 'fence lengths 1..90 against closing lengths 1..90',
        'long_blocks': 'blocks of 0..300 lines and of 20000 lines',
        'parsers': list(M.CM)
    }
    for t in DEPTH
}
STATE_MEANING = ('distinct visible behaviours: set of probe headings listed, '
                 'or answer of the line functions')


def run_doc(acc, lines, parser, ends=('\n', )):
    hs = M.headings(lines, parser)
    want = ('ok', ''.join('- %s\n' % t for _, t in hs))
    kw = dict(parser=parser, no_links=True, no_indentation=True,
              keep_header_levels=6)
    for e in ends:
        doc = '\n'.join(lines) + e
        acc.transitions += len(lines)
        acc.ok(doc, build(doc, **kw), want, repro_build(doc, **kw))


def probe(tokens):
    out = []
    for i, t in enumerate(tokens):
        out += [t, '# p%d' % i]
    return out


def sequences(acc, alphabet, parser, n, prefix, exact):
    alphabet = CORE if alphabet == 'core' else TOKENS
    for w in sub(alphabet, n, prefix, exact):
        short = len(w) < n
        run_doc(acc, ['# z'] + probe(w), parser,
                ('\n', '') if short else ('\n', ))
        if short:
            # the same without the probes in between
            run_doc(acc, list(w) + ['# e'], parser, ('\n', ''))
            run_doc(acc, list(w), parser, ('\n', ''))
        if acc.full():
            return


def singles(acc, parser, n, prefix, exact):
    for w in sub(A, n, prefix, exact):
        s = ''.join(w)
        acc.transitions += len(s)
        got = call(api().is_opening_code_fence, s + '\n', parser)
        want = ('ok', M.fence_open(s, parser))
        acc.ok(['open', s, parser], got, want,
               repro_call('api.is_opening_code_fence(%r, %r)' %
                          (s + '\n', parser)))
        for run in ('```', '~~~', '````', '~~~~~'):
            got = call(api().is_closing_code_fence, s + '\n', run, False,
                       parser)
            want = ('ok', M.fence_close(s, run, parser))
            acc.ok(['close', s, run, parser], got, want,
                   repro_call('api.is_closing_code_fence(%r, %r, False, %r)' %
                              (s + '\n', run, parser)))
        if acc.full():
            return


def lengths(acc, parser, ch):
    for a in range(1, 91):
        for b in range(1, 91):
            if a > 12 and b > 12 and abs(a - b) > 2 and b % 10:
                continue
            run_doc(acc, [ch * a, '# in', ch * b, '# p'], parser)
        if acc.full():
            return


def blocks(acc, parser):
    sizes = list(range(0, 130)) + [255, 256, 257, 300]
    for k in sizes:
        for run in ('```', '~~~~'):
            run_doc(acc, ['# a', run] + ['# in'] * k + [run, '# b'], parser)
            run_doc(acc, ['# a', run] + ['# in'] * k, parser, ('\n', ''))
            run_doc(acc, ['# a'] + [run, '# in', run, '# out'] * k + ['# b'],
                    parser)
        if acc.full():
            return
    for n in (1000, 20000):
        run_doc(acc, ['# a', '```'] + ['# in ' + 'é' * 5] * n + ['```', '# b'],
                parser)
        run_doc(acc, ['# a', '~~~'] + ['# in', '```'] * n, parser)


def info(acc, parser):
    """Every ASCII character (and some beyond) in every place of a fence."""
    chars = [chr(c) for c in range(256) if chr(c) not in '\r\n'] + [
        '\u2028', '\u3000', '\ufeff', '\U0001f600', '\u0300'
    ]
    for c in chars:
        for run in ('```', '~~~'):
            for pat in ('{c}{r}', '{r}{c}', '{r} {c}', ' {c}{r}', '{r}a{c}b',
                        '{r}{c}{r}', '{c}{r[0]}{r[0]}', '{r[0]}{c}{r[0]}{r[0]}'
                        ):
                line = pat.format(c=c, r=run)
                for prev in ([], [run], ['````' if run == '```' else '~~~~']):
                    run_doc(acc, prev + [line, '# p', run, '# q'], parser)
        if acc.full():
            return


def tasks(tier):
    d1, d2 = DEPTH[tier]
    for parser in M.CM:
        yield 'blocks', (parser, )
    for parser in M.CM:
        yield 'info', (parser, )
        for ch in '`~':
            yield 'lengths', (parser, ch)
        for w, exact in prefixes(A, 2):
            yield 'singles', (parser, N[tier] if parser in FULL else
                              N[tier] - 1, w, exact)
        n1, n2 = (d1, d2) if parser in FULL else (d1 - 1, d2 - 1)
        for w, exact in prefixes(TOKENS, 1):
            yield 'sequences', ('tokens', parser, n1, w, exact)
        for w, exact in prefixes(CORE, 2):
            yield 'sequences', ('core', parser, n2, w, exact)

"""P13: in-place writing changes only the TOC region."""
import itertools
import os

from . import model as M
from .core import api, call, get, prefixes, put, repro_call, sub, workdir

MK = '<!--TOC-->'
FULL = ['M', '', 'x', '- a', ' M ', '\tM', '1. b', '    - c', '* d', 'Mx',
        'xM', ' ', '# M', '-  e', '10) f', '\x0b', '   + g', '-h']
CORE = ['M', '', 'x', '- a']
MID = ['M', '', 'x', '- a', ' M', '1) b', '    - c', ' \t']
TOCS = ['', '- z\n', '- y\n  - z  \n\n', '1. y\n2. M\n']
MARKERS = [MK, '[](TOC)', '<!-- my TOC -->', '.*', 'x y', '[[_TOC_]]', '\\d+',
           '^$', '{0}', '%s', '(?i)a', 'é', '- a', '<!--toc-->', ' T', 'T ',
           '\t<!--T-->  ']
N = {'quick': (4, 8, 5), 'thorough': (5, 10, 7)}
BOUNDS = {
    t: {
        'files': 'all files of up to %d of %d lines, up to %d of %d, up to %d '
        'of %d; last line terminated or not; %d tables' %
        (N[t][0], len(FULL), N[t][1], len(CORE), N[t][2], len(MID),
         len(TOCS)),
        'markers': '%d marker strings' % len(MARKERS),
        'characters': 'every code point up to 30ff (thorough: 1ffff) in '
        'tables and around them',
        'sizes': 'surroundings of 0..60, 1000 and 5000 lines, tables of '
        '0..120 lines, multi-byte text over buffer boundaries'
    }
    for t in N
}
STATE_MEANING = 'distinct resulting files'


def one(acc, lines, toc, marker=MK, term=True, nl='\n'):
    lines = [l.replace('M', marker) for l in lines]
    toc = toc.replace('M', marker)
    text = '\n'.join(lines) + ('\n' if term and lines else '')
    p = os.path.join(workdir(), 'in.md')
    put(p, text)
    r = call(api().write_string_on_file_between_markers, p, toc, marker, nl)
    got = get(p).decode()
    want = M.write(text, toc, marker, nl)
    acc.transitions += len(lines)
    eq = toc.strip() == M.existing(M.split_file(text)[0], marker)
    acc.ok([text if len(text) < 2000 else text[:200] + '...', toc[:500],
            marker], (got, r), (want, ('ok', eq)),
           'open("in.md", "w", newline="").write(%r)\n' % text + repro_call(
               '(api.write_string_on_file_between_markers("in.md", %r, %r, '
               '%r), open("in.md", newline="").read())' % (toc, marker, nl)))


def files(acc, al, n, prefix, exact):
    al = {'full': FULL, 'core': CORE, 'mid': MID}[al]
    for w in sub(al, n, prefix, exact):
        one(acc, w, TOCS[1])
        if len(w) < n:
            one(acc, w, TOCS[1], term=False)
            for t in TOCS[2:3] + TOCS[:1]:
                one(acc, w, t)
        if acc.full():
            return


def markers(acc, marker):
    al = ['M', '', 'x', '- b', ' M ']
    for n in range(0, 5):
        for w in itertools.product(al, repeat=n):
            one(acc, w, '- z\n', marker)
            if n < 4:
                one(acc, w, '- z\n', marker, term=False)
                one(acc, w, TOCS[3], marker)
        if acc.full():
            return
    # every other marker is ordinary text
    for other in MARKERS:
        if other != marker:
            for w in ([other], ['M', other, 'M'], [other, 'M'],
                      ['M', '', other, '', 'M'], [other, '', '- b', '', other]):
                one(acc, w, '- z\n', marker)
    if len(marker) > 1:
        for near in (marker[:-1], marker[1:], marker + '.', marker * 2,
                     marker.upper() + '_', marker.swapcase() + '!'):
            one(acc, [near, 'a'], '- z\n', marker)
            one(acc, ['M', '', near, 'M', 'a'], '- z\n', marker)


def sizes(acc, shape):
    region = {
        'one': ['M'], 'pair': ['M', '', '- a', '', 'M'],
        'blank': ['M', '', 'M'], 'tight': ['M', 'M'],
        'insert': ['M', 'x', 'M'], 'none': ['x'],
        'late': ['M', 'x', 'M', '', '- a', '', 'M'],
        'many': ['M', '', '- a', '', 'M', 'x', 'M', '', '- b', '', 'M']
    }[shape]
    for k in list(range(0, 60)) + [1000, 5000]:
        pre = ['p%d é' % i for i in range(k)]
        for a, b in ((pre, []), ([], pre), (pre, pre)):
            one(acc, a + region + b, '- z\n')
        if acc.full():
            return
    for k in list(range(0, 121)) + [500]:
        tab = ''.join('- l%d\n' % i for i in range(k))
        one(acc, ['a'] + region + ['b'], tab)
        if shape == 'pair':
            one(acc, ['a', 'M', ''] + ['- l%d' % i for i in range(k)] +
                ['', 'M', 'b'], '- z\n')
    for k in range(1, 25):
        one(acc, ['a'] + region + ['é' * 4085 + 'x' * k, 'b'] + region,
            '- z\n')
        one(acc, ['\u20ac' * 2725 + 'x' * k] + region + ['b'], '- z\n')
    for k in range(2, 30):
        one(acc, ['a'] + ['M'] * k + ['b'], '- z\n')
        one(acc, ['a'] + ['M', 'x'] * k + ['M', '', '- q', '', 'M', 'b'],
            '- z\n')
        one(acc, ['a'] + region + ['b', 'M', '', '- r', '', 'M'] * k, '- z\n')


def chars(acc):
    """Every ASCII character as the text between and around the markers."""
    for c in map(chr, list(range(1, 128)) + [0x85, 0xa0, 0x2028, 0x3000,
                                             0xfeff, 0x1f600]):
        if c in '\r\n':
            continue
        for pat in (['{}', 'M', '{}'], ['M', '{}', 'M'],
                    ['M', '', '{} a', '', 'M'], ['M', '', '-{}a', '', 'M'],
                    ['M', '', '- {}', '', 'M'], ['M', '', '1{} a', '', 'M'],
                    ['{}M', 'x'], ['M{}', 'x'], ['M', '', '{}M', 'M'],
                    ['M', '{}', '- a', '{}', 'M']):
            one(acc, [l.replace('{}', c) for l in pat], '- z\n')


def points(acc, lo, hi):
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000 or cp in (10, 13):
            continue
        c = chr(cp)
        for toc in ('- a%sb\n- c\n', '- a%s\n- %s\n', '%s- a\n'):
            toc = toc.replace('%s', c)
            one(acc, ['a' + c, c + 'b', 'M', c], toc)
        one(acc, ['M', '', '- a' + c + 'b', '', 'M', c], '- a' + c + 'b\n')
        if acc.full():
            return


def tasks(tier):
    yield 'chars', ()
    for s in ('one', 'pair', 'blank', 'tight', 'insert', 'none', 'late',
              'many'):
        yield 'sizes', (s, )
    for lo in range(0, 0x3100 if tier == 'quick' else 0x20000, 0x100):
        yield 'points', (lo, lo + 0x100)
    yield 'points', (0xfe00, 0x10010)
    for m in MARKERS:
        yield 'markers', (m, )
    n1, n2, n3 = N[tier]
    for w, exact in prefixes(FULL, 1):
        yield 'files', ('full', n1, w, exact)
    for w, exact in prefixes(CORE, 3):
        yield 'files', ('core', n2, w, exact)
    for w, exact in prefixes(MID, 2):
        yield 'files', ('mid', n3, w, exact)

"""P14: in-place updates are idempotent and forget the past.

Explicit-state breadth-first search. A state is a real file: the lines around
the table (with the place of the table) and the present content of the table.
Transitions are edits around the table, hand edits inside it, and runs of the
real code; every state reached by a run is compared with the state that a run
on the same document with a bare marker gives, and is run again.
"""
import itertools
import os

from . import model as M
from .core import (api, call, cli, get, model, prefixes, put, sub, workdir)

MK = '<!--TOC-->'
OPTS = [
    dict(), dict(ordered=True), dict(no_links=True),
    dict(no_indentation=True, ordered=True, list_marker=')'),
    dict(keep_header_levels=1), dict(newline_string='\r\n'),
    dict(parser='gitlab', list_marker='*'), dict(constant_ordered_list=True),
    dict(parser='redcarpet'), dict(newline_string='\r', no_links=True)
]
EDITS = ['add # a', 'add ## b', 'add # a b', 'del last', 'pre # c', 'pre x',
         'add ```', 'del first']
HAND = ['first', 'dup', 'clear', 'junk', 'text', 'last', 'bare', 'indent',
        'swap', 'blank', 'x*']
INIT = [((), 0), (('# a', ), 0), (('# a', ), 1), (('x', '# a', '## b'), 1),
        (('```', ), 1), (('# c', 'y', '# a', '# a'), 2)]
DEPTH = {'quick': (3, 4, 3, 3, 3, 4), 'thorough': (5, ) * 6}
CAP = 5
SEQ = ['M', '', 'x', '- a', ' M', '1. b', '    - c']
N = {'quick': 5, 'thorough': 6}
BOUNDS = {
    t: {
        'search': 'depth %r from %d initial documents, %d edits, %d hand '
        'edits, runs with %d option sets, at most %d lines around the table' %
        (DEPTH[t], len(INIT), len(EDITS), len(HAND), len(OPTS), CAP),
        'rewrite': 'every file of up to %d of %d lines written twice' %
        (N[t], len(SEQ)),
        'headings': 'every heading text of the alphabet a - 1 . ) * # blank '
        'up to length 4 and every ASCII character, updated twice with every '
        'list style'
    }
    for t in DEPTH
}
STATE_MEANING = 'distinct files reached (content hash)'
TRANSITION_MEANING = 'edits and runs applied in the search'
ASSUMPTIONS = ['Hand edits leave the table a list or empty, and the blank '
               'lines next to the markers. Skipped lines end before the '
               'table.']


def render(state):
    """File content of (around, place, inner or None, newline)."""
    around, at, inner, nl = state
    mid = [MK] if inner is None else [MK, ''] + list(inner) + ['', MK]
    lines = list(around[:at]) + mid + list(around[at:])
    return nl.join(lines) + nl


def edit(state, e):
    around, at, inner, nl = state
    a = list(around)
    if e.startswith('add '):
        a.append(e[4:])
    elif e.startswith('pre '):
        a.insert(0, e[4:])
        at += 1
    elif e == 'del last':
        if len(a) <= at:
            return None
        a.pop()
    elif e == 'del first':
        if at == 0:
            return None
        a.pop(0)
        at -= 1
    if len(a) > CAP:
        return None
    return tuple(a), at, inner, nl


def hand(state, h):
    around, at, inner, nl = state
    if inner is None:
        return None
    t = list(inner)
    if h == 'bare':
        return around, at, None, nl
    if h == 'clear':
        t = ['']
    elif h == 'junk':
        t = ['- junk'] + [x for x in t if x]
    elif h == 'blank':
        t = ['', '']
    elif not t or not t[0] or len(t) > 7:
        return None
    elif h == 'first':
        t = t[1:]
        t = t or ['']
    elif h == 'last':
        t = t[:-1] or ['']
    elif h == 'dup':
        t = t + t[-1:]
    elif h == 'text':
        t = t + ['some text']
    elif h == 'indent':
        if t[0].startswith(' '):
            return None
        t = ['  ' + t[0]] + t[1:]
    elif h == 'swap':
        t = t[::-1]
    elif h == 'x*':
        t = ['* x'] + t[1:]
    # it has to stay a list
    if any(t) and not M.LIST.fullmatch(t[0]):
        return None
    return around, at, tuple(t), nl


def library(p, kw):
    toc = api().build_toc(p, **kw)
    return api().write_string_on_file_between_markers(
        p, toc, MK, kw.get('newline_string', '\n'))


def run(acc, state, i, hist):
    """The state after a run, with all the checks; None if refused."""
    kw = OPTS[i]
    around, at, inner, nl = state
    text = render(state)
    p = os.path.join(workdir(), 'h.md')
    put(p, text)
    lines = M.split_file(text)[0]
    m = model(M.toc, lines, **kw)
    got = call(library, p, kw)
    after = get(p).decode()
    case = {'history': hist, 'file': text, 'options': kw}
    rep = ('open("h.md", "w", newline="").write(%r)\nfrom md_toc import api\n'
           'kw = %r\ngot = []\nfor i in range(2):\n    t = api.build_toc('
           '"h.md", **kw)\n    got.append((api.write_string_on_file_between_'
           'markers("h.md", t, %r, kw.get("newline_string", "\\n")), open('
           '"h.md", newline="").read()))' % (text, kw, MK))
    if m[0] != 'ok':
        acc.ok(case, (got, after), (m, text), rep)
        return None
    n2 = kw.get('newline_string', '\n')
    new = tuple(m[1].rstrip().replace('\r\n', '\n').replace('\r',
                                                            '\n').split('\n'))
    nstate = (around, at, new, n2)
    want = render(nstate)
    eq = (inner is not None and '\n'.join(inner).strip() == '\n'.join(
        new).strip())
    if not acc.ok(case, (got, after), (('ok', eq), want), rep):
        return None
    # again: nothing changes, and nothing is reported as different
    got = call(library, p, kw)
    acc.ok(dict(case, run='second'), (got, get(p).decode()),
           (('ok', True), want), rep)
    return nstate


def search(acc, init, first, depth):
    around, at = INIT[init]
    ops = ([('run', i) for i in range(len(OPTS))] +
           [('edit', e) for e in EDITS] + [('hand', h) for h in HAND])
    start = (around, at, None, '\n')
    seen = {render(start)}
    frontier = [(start, ())]
    for d in range(depth):
        nxt = []
        for state, hist in frontier:
            for kind, arg in ([ops[first]] if d == 0 else ops):
                acc.transitions += 1
                if kind == 'run':
                    s = run(acc, state, arg, hist)
                elif d == depth - 1:
                    continue  # nothing runs after it
                elif kind == 'edit':
                    s = edit(state, arg)
                else:
                    s = hand(state, arg)
                if acc.full():
                    return
                if s is None:
                    continue
                k = render(s)
                if k in seen:
                    continue
                seen.add(k)
                acc.seen(k)
                nxt.append((s, hist + ((kind, arg), )))
        frontier = nxt


def rewrite(acc, n, prefix, exact):
    """Writing any table into any file twice is writing it once."""
    p = os.path.join(workdir(), 'r.md')
    for w in sub(SEQ, n, prefix, exact):
        text = '\n'.join(w).replace('M', MK) + '\n'
        if MK not in [x.strip() for x in text.split('\n')]:
            continue
        for toc in ('', '- z\n', '1. y\n   1. z\n'):
            put(p, text)
            f = api().write_string_on_file_between_markers
            call(f, p, toc, MK)
            a = get(p)
            r = call(f, p, toc, MK)
            acc.transitions += 2
            acc.ok([text, toc], (get(p), r), (a, ('ok', True)),
                   'open("r.md", "w").write(%r)\nfrom md_toc import api\n'
                   'got = [(api.write_string_on_file_between_markers("r.md", '
                   '%r, %r), open("r.md").read()) for i in range(2)]' %
                   (text, toc, MK))
        if acc.full():
            return


STYLES = [dict(), dict(no_links=True), dict(ordered=True),
          dict(ordered=True, no_links=True), dict(list_marker='*'),
          dict(no_links=True, list_marker='+'),
          dict(constant_ordered_list=True, no_links=True)]


def twice(acc, text, kw, opts=()):
    p = os.path.join(workdir(), 't.md')
    doc = MK + '\n' + text + '\n'
    put(p, doc)
    r1 = call(library, p, kw)
    if r1[0] != 'ok':
        acc.runs += 1
        return
    a = get(p)
    r2 = call(library, p, kw)
    acc.transitions += 2
    acc.ok([doc, kw], (get(p), r2), (a, ('ok', True)),
           'open("t.md", "w").write(%r)\nfrom md_toc import api\nkw = %r\n'
           'got = []\nfor i in range(2):\n    t = api.build_toc("t.md", **kw)'
           '\n    got.append((api.write_string_on_file_between_markers("t.md"'
           ', t, %r), open("t.md").read()))' % (doc, kw, MK))


def headings(acc, n, prefix, exact):
    for w in sub('a-1.)*# ', n, prefix, exact):
        t = ''.join(w)
        h = M.atx('# ' + t, 'github')
        if not h[1]:
            continue  # known finding: empty text without links
        for kw in STYLES:
            twice(acc, '# ' + t, kw)
        if acc.full():
            return


def chars(acc):
    for c in map(chr, range(1, 256)):
        # known finding: a text that starts with a tab-like blank
        if c in '\t\r\n\x0b\x0c':
            continue
        for t in ('# {}', '# {}a', '# a{}', '# {}\n# b', '## a\n### {} c'):
            text = t.replace('{}', c)
            h = M.atx(text.split('\n')[0], 'github')
            if not h or not h[1].strip():
                continue  # known finding: nothing but blanks
            for kw in STYLES:
                twice(acc, text, kw)
                twice(acc, text, dict(kw, parser='cmark'))
        if acc.full():
            return


def command(acc):
    """The same through the command line, with the difference option."""
    p = os.path.join(workdir(), 'k.md')
    docs = ['# a\n', '# a\n## b\n# a\n', '', 'x\n```\n# a\n', '## b\n### c\n']
    opts = [(), ('-n', '\\r\\n'), ('-l', ), ('-i', ), ('-c', ),
            ('-m', '[](TOC)')]
    subs = [('github', ), ('cmark', '-o'), ('gitlab', '-l', '2'),
            ('redcarpet', '-u', '*'), ('github', '-o', ')'),
            ('goldmark', '-c')]
    for d in docs:
        for o1, s1 in itertools.product(opts, subs):
            mk = '[](TOC)' if '-m' in o1 else MK
            put(p, d + mk + '\n' + d)
            a = cli(('-d', '-p') + o1 + s1[:1] + (p, ) + s1[1:])
            x = get(p)
            b = cli(('-d', '-p') + o1 + s1[:1] + (p, ) + s1[1:])
            acc.transitions += 2
            acc.ok([d, o1, s1], (b, get(p)), ((0, '', ''), x))
            acc.ok([d, o1, s1], a, (128, '', ''))
            for o2, s2 in itertools.product(opts[:5], subs):
                if '-m' in o1:
                    continue
                cli(('-p', ) + o2 + s2[:1] + (p, ) + s2[1:])
                cli(('-p', ) + o1 + s1[:1] + (p, ) + s1[1:])
                acc.transitions += 2
                acc.ok([d, o1, s1, o2, s2], get(p), x)
        if acc.full():
            return


def confirm_known(key):
    """Does a recorded finding still fail?"""
    import tempfile
    d = tempfile.mkdtemp(prefix='mdtoc-kf-', dir='/dev/shm' if os.access(
        '/dev/shm', os.W_OK) else None)
    try:
        p = os.path.join(d, 'f.md')
        doc = {'K1': '#\n', 'K2': '# \tfoo\n'}[key]
        put(p, MK + '\n' + doc)
        library(p, dict(no_links=True))
        a = get(p)
        library(p, dict(no_links=True))
        return get(p) != a
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def tasks(tier):
    yield 'command', ()
    yield 'chars', ()
    nops = len(OPTS) + len(EDITS) + len(HAND)
    for i in range(len(INIT)):
        for first in range(nops):
            if first >= len(OPTS) + len(EDITS):
                continue  # no table yet
            yield 'search', (i, first, DEPTH[tier][i])
    for w, exact in prefixes(SEQ, 2):
        yield 'rewrite', (N[tier], w, exact)
    for w, exact in prefixes('a-1.)*# ', 1):
        yield 'headings', (4, w, exact)

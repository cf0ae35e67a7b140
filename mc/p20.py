"""P20: every input yields a TOC or a documented error, and terminates."""
import itertools
import os

from . import model as M
from .core import (api, build, call, model, prefixes, put, repro_build,
                   repro_call, sub, workdir)

DOCUMENTED = {M.EMPTY, M.OVERFLOW_LABEL, M.OVERFLOW_NUMBER, M.INCOHERENT}
A1 = '[]()!a\\"<> '
A2 = '[]:<>&;#x`*_'
TOK = ['[', ']', '(', ')', '![', '](', '<a', '>', '&amp;', '&#35', '&#x', ';',
       '`', '``', '\\', '"', "'", 'a', ' ', 'http://a.b', '*', '__', ':', '<',
       '\u00e9', '[a]:', '\t', '<!--', '-->', '<?', '\x00']
DOCS = ['# a', '#', '### c', '# [', '```', '~~~', '    # x', '\t# x', '> # q',
        '- # l', 'a\n===', '# <!--', '[a]: b', '\x00# a', '# \x00', '# \\',
        '#a', '# [a]', '# ]', '# `']
BY = [0, 0x0a, 0x0d, 0x20, 0x23, 0x61, 0x80, 0xbf, 0xc2, 0xe2, 0xed, 0xf0,
      0xf4, 0xff]
N = {'quick': (5, 4, 3, 3, 4), 'thorough': (6, 5, 4, 4, 5)}
BOUNDS = {
    t: {
        'strings': 'every heading text over %r and over %r up to length %d' %
        (A1, A2, n[0]),
        'tokens': 'every heading text of up to %d of %d markup tokens' %
        (n[1] - (t == 'quick'), len(TOK)),
        'documents': 'every document of up to %d of %d odd lines' %
        (n[3], len(DOCS)),
        'bytes': 'every byte string of length 2, every one of length %d over '
        '%d bytes, alone and after text; invalid bytes at every position of '
        'documents and buffers' % (n[4], len(BY)),
        'code points': 'every Unicode scalar value in a heading',
        'sizes': 'repetition of %d patterns up to %d' % (0, 0),
    }
    for t, n in N.items()
}


def ok(acc, case, got, rep):
    """A string, or a documented error."""
    acc.runs += 1
    acc.seen(str(got)[:60])
    if got[0] == 'ok' and isinstance(got[1], (str, list)):
        return True
    if got[0] == 'exc' and got[1] in DOCUMENTED:
        return True
    acc.bad(case, got, 'a string or a documented error', rep)
    return False


def one(acc, s, parsers):
    for p in parsers:
        nl = p == 'cmark'
        got = call(api().get_md_header, '# ' + s, {}, 6, p, nl)
        acc.transitions += len(s)
        ok(acc, [s, p], got,
           repro_call('api.get_md_header(%r, {}, 6, %r, %r)' %
                      ('# ' + s, p, nl)))


def strings(acc, al, n, prefix, exact):
    for w in sub(al, n, prefix, exact):
        one(acc, ''.join(w), ('github', ) if len(w) == n else
            ('github', 'cmark', 'redcarpet'))
        if acc.full():
            return


def tokens(acc, n, prefix, exact):
    for w in sub(TOK, n, prefix, exact):
        one(acc, ''.join(w), ('github', ) if len(w) == n else
            ('github', 'cmark', 'gitlab', 'redcarpet'))
        if acc.full():
            return


def surrounded(acc, n, prefix, exact):
    """The same token strings inside a link, emphasis and a code span."""
    for w in sub(TOK, n, prefix, exact):
        s = ''.join(w)
        for t in ('[%s](b)', '![%s][b]', '*%s*', '`%s', '[a](%s)', '<a %s>',
                  '[a](<%s>)', '[a](b "%s")', '[%s]', '[[%s]]', '&%s;'):
            one(acc, t % s, ('github', 'cmark'))
        if acc.full():
            return


def documents(acc, n, prefix, exact):
    for w in sub(DOCS, n, prefix, exact):
        text = '\n'.join(w)
        for kw in (dict(), dict(parser='cmark', ordered=True, no_links=True),
                   dict(parser='redcarpet', no_indentation=True),
                   dict(parser='gitlab', no_list_coherence=True,
                        skip_lines=1)):
            acc.transitions += len(w)
            got = build(text, **kw)
            ok(acc, [text, kw], got, repro_build(text, **kw))
            if kw.get('no_list_coherence') or kw.get('no_indentation'):
                acc.ok([text, kw], got[1] == M.INCOHERENT, False,
                       repro_build(text, **kw))
            if kw.get('no_links'):
                acc.ok([text, kw], got[1] in (M.EMPTY, M.OVERFLOW_LABEL),
                       False, repro_build(text, **kw))
        if acc.full():
            return


def raw(acc, data, kw):
    p = os.path.join(workdir(), 'raw.md')
    put(p, data)
    got = call(api().build_toc, p, **kw)
    acc.transitions += 1
    try:
        data.decode('utf-8')
    except UnicodeDecodeError as e:
        if got[0] == 'exc' and got[1] in DOCUMENTED:
            # an earlier heading is refused
            acc.runs += 1
            if got != model(M.toc, M.split_file(
                    data[:e.start].decode())[0], **kw):
                acc.bad([repr(data)[:200], len(data), kw], got,
                        'the binary file comment', repro_build(data, **kw))
            return
        acc.ok([repr(data)[:200], len(data), kw], got,
               ('ok', '<!--stop reading ' + p + ': probably a binary file-->'),
               repro_build(data, **kw))
        return
    ok(acc, [repr(data)[:200], len(data), kw], got, repro_build(data, **kw))


def bytes2(acc, first):
    for b in range(256):
        s = bytes([first, b])
        for pre in (b'', b'# a\n', b'# '):
            raw(acc, pre + s, {})
        raw(acc, s + b'\n# a\n', dict(skip_lines=1))


def bytesn(acc, n, prefix, exact):
    for w in sub(BY, n, prefix, exact):
        s = bytes(w)
        raw(acc, s, {})
        if len(w) < n:
            raw(acc, b'# x\n' + s + b'\n# y\n', dict(no_links=True))
            raw(acc, s + b'\n# y\n', dict(skip_lines=2, parser='cmark'))
        if acc.full():
            return


def invalid(acc, size):
    """Invalid bytes anywhere, also behind the first buffers."""
    for bad in (b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xf4\x90\x80\x80',
                b'\x80'):
        for d in range(-4, 5):
            for line in (b'x', b'# a'):
                n = (size + d) // (len(line) + 1)
                pre = (line + b'\n') * n + b'y' * ((size + d) % (len(line) + 1))
                for post in (b'', b'\n# z\n', b'\n'):
                    for kw in ({}, dict(skip_lines=1),
                               dict(skip_lines=n + 5),
                               dict(parser='redcarpet', ordered=True)):
                        if size > 5000 and (line == b'# a' and kw == {}):
                            continue
                        raw(acc, pre + bad + post, kw)
        if acc.full():
            return


def everywhere(acc):
    base = '# a\n\n## \u00e9b\n```\nx\n```\n# [c](d) *e*\n'.encode()
    for i in range(len(base) + 1):
        for bad in (b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\x00'):
            for kw in [dict(parser=p) for p in M.ALL] + [dict(skip_lines=2)]:
                raw(acc, base[:i] + bad + base[i:], kw)
        for kw in ({}, dict(parser='cmark')):
            raw(acc, base[:i], kw)


def points(acc, lo, hi):
    for c in range(lo, hi):
        if 0xd800 <= c < 0xe000:
            continue
        s = chr(c)
        # the neighbours make it matter for emphasis
        got = call(api().get_md_header, '# *a' + s + '_', {}, 6, 'github')
        acc.transitions += 1
        ok(acc, hex(c), got, repro_call('api.get_md_header(%r, {}, 6)' %
                                        ('# *a' + s + '_')))
        if acc.full():
            return


PATTERNS = ['[', ']', '[]', '[a](', '![', '*', '_', '*a', '_a ', '* ', '**a*',
            '`', '`a', '\\', '\\[', '<', '<a ', '<a b=', '<a b="c" ', '</a',
            '<!--', '<!-- a ', '<?', '<![CDATA[', '<!A ', '&', '&#', '&#x1',
            '&amp', '(', ')', '](', '](a', '"', "'", '[a]:', '<http://', '#',
            '# ', '\t', '\u00e9', '\u4e2d', ' a', '<a/', '*_', '_*a', '[*a](b',
            '`*', 'a`' * 2 + '``', '-', '- ', '~', ':',
            '[a](b "', '\\"', '<ab:', '<a@', "[a](b '\\", '[a](b (',
            '![a](', '[[', '![[', '](<']
LIMIT = {'quick': 300, 'thorough': 900}
for _t in BOUNDS:
    BOUNDS[_t]['sizes'] = ('%d patterns, alone and between a word and a '
                           'closer, repeated every number of times up to 40 '
                           'and then doubling to %d' %
                           (len(PATTERNS), LIMIT[_t]))


def sizes(acc, i, tier):
    pat = PATTERNS[i]
    ns = list(range(1, 40)) + [64, 65, 100, 128, 129, 200, 256, 300, 500, 900]
    for n in ns:
        if n > LIMIT[tier]:
            break
        for t in ('%s', 'a%sb', '%s]', '%s>', '%s)', '%s`', '%s*', '*%s_',
                  '[%s](x)'):
            s = t % (pat * n)
            if n > 128 and t != '%s':
                continue
            for p in ('github', 'cmark', 'redcarpet'):
                got = call(api().get_md_header, '# ' + s, {}, 6, p)
                acc.transitions += n
                ok(acc, [pat, n, t, p], got,
                   repro_call('api.get_md_header(%r, {}, 6, %r)' %
                              ('# ' + s, p)))
        if acc.full():
            return
    # mixtures, shorter
    for q in PATTERNS:
        for n in (1, 2, 3, 5, 8, 13, 21):
            s = (pat + q) * n
            got = call(api().get_md_header, '# ' + s, {}, 6, 'github')
            acc.transitions += n
            ok(acc, [pat, q, n], got,
               repro_call('api.get_md_header(%r, {}, 6)' % ('# ' + s)))


OPEN = ['', '<a', '<a ', '<a b', '<a b=', '<a b = ', '<a b="', "<a b='",
        '<a b="c"', '<a b=c', '</a', '</', '<!--', '<!', '<!A', '<!A ', '<?',
        '<![CDATA[', '<', '[a](', '[a](<', '[a](b ', '[a](b "', '[a](b (',
        '![', '![a](', '[', '`', '``', '*', '**', '_', '*a', '&', '&#',
        '&#x', '\\', '<ab:', '<a@b', '<a@b.']
UNIT = [' ', 'a', '0', '=', '"', "'", '-', '!', '<', '>', '`', '*', '_', '(',
        ')', '[', ']', '\\', '&', ';', 'a=', 'a ', ' a', 'a=b ', ' a="b"',
        '- ', '\t', '.', '/', '?', ':', 'a.', '-a', ' = ', '\u00e9', '\x01',
        '\x0c', '--', '> ', ']]', '?>']
SUFFIX = ['', '!', '>', ')', ' <', '"', '/']
for _t in BOUNDS:
    BOUNDS[_t]['repeats'] = ('%d beginnings x %d units repeated 50 times x %d '
                             'ends' % (len(OPEN), len(UNIT), len(SUFFIX)))


def repeats(acc, i):
    for u in UNIT:
        for e in SUFFIX:
            s = '# x' + OPEN[i] + u * 50 + e
            for p in ('github', 'cmark', 'redcarpet'):
                got = call(api().get_md_header, s, {}, 6, p)
                acc.transitions += 50
                ok(acc, [OPEN[i], u, e, p], got,
                   repro_call('api.get_md_header(%r, {}, 6, %r)' % (s, p)))
            if acc.full():
                return


def lines(acc):
    """Unusual sizes of documents."""
    for n in (0, 1, 999, 1000, 1001, 8191, 8192, 8193, 70000):
        for t in ('# %s', '```%s', '%s', '#%s', ' %s# a', '```\n%s'):
            for c in 'x#` ':
                if n > 9000 and c in '`#':
                    continue
                text = t % (c * n)
                acc.transitions += 1
                for kw in (dict(), dict(no_links=True),
                           dict(parser='redcarpet')):
                    ok(acc, [t, c, n, kw], build(text, **kw),
                       repro_build(text, **kw))
    for n in (0, 1, 7, 100, 5000):
        for s in (0, 1, n - 1, n, n + 1, 10**9):
            if s < 0:
                continue
            text = '# a\n' * n
            ok(acc, [n, 'lines', s], build(text, skip_lines=s), None)


def tasks(tier):
    a, b, c, d, e = N[tier]
    for i in range(len(PATTERNS)):
        yield 'sizes', (i, tier)
    for i in range(len(OPEN)):
        yield 'repeats', (i, )
    yield 'lines', ()
    yield 'everywhere', ()
    for s in (10, 4096, 8192, 16384):
        yield 'invalid', (s, )
    for w, exact in prefixes(A1, 2):
        yield 'strings', (A1, a, w, exact)
    for w, exact in prefixes(A2, 2):
        yield 'strings', (A2, a, w, exact)
    for w, exact in prefixes(TOK, 2):
        yield 'tokens', (b - (tier == 'quick'), w, exact)
    for w, exact in prefixes(TOK, 1):
        yield 'surrounded', (2 if tier == 'quick' else c, w, exact)
    for w, exact in prefixes(DOCS, 2):
        yield 'documents', (d, w, exact)
    for x in range(256):
        yield 'bytes2', (x, )
    for w, exact in prefixes(BY, 2):
        yield 'bytesn', (e, w, exact)
    for lo in range(0, 0x110000, 0x4000):
        yield 'points', (lo, lo + 0x4000)

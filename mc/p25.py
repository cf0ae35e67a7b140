"""P25: the documented building blocks compose to the whole."""
import itertools
import os

from . import model as M
from .core import (api, build, call, get, prefixes, put, repro_build,
                   repro_call, sub, words, workdir)

TOKENS = ['# a', '## b *i*', '## c [d]', '### e_f_g <b>', '```', '~~~ x',
          'x', '', ' ## g ##', '#### h\\', '# \\[i\\]']
DEPTH = {'quick': 4, 'thorough': 5}
LINES = {'quick': 4, 'thorough': 5}
CHARS = '# a\\`~\t[é'
BOUNDS = {
    t: {
        'documents': 'all documents of up to %d of %d lines (github, '
        'redcarpet; the others one less) x 8 option sets: a client of the '
        'line-level functions against build_toc' % (DEPTH[t], len(TOKENS)),
        'strings': 'the same lines in one string, given to get_md_header and '
        'get_atx_heading at once and line by line',
        'lines': 'all lines of up to %d of 9 characters, in and out of '
        'fences, with and without their newline' % LINES[t],
        'wrapper': 'all sequences of up to 4 of 9 lines: get_md_header '
        'against get_atx_heading and build_anchor_link with one counter',
        'states': 'up to 5 files, each up to date, outdated or without '
        'marker',
        'files': 'all files of up to 4 of 6 lines: comparison after writing; '
        'all pairs of them: writing several against one by one',
        'numbers': 'ordered tables of 1..130 headings of five shapes'
    }
    for t in DEPTH
}
TRANSITION_MEANING = 'calls of line-level functions'
OPTS = [dict(), dict(no_links=True), dict(ordered=True, list_marker='.'),
        dict(constant_ordered_list=True, ordered=True, list_marker='.'),
        dict(no_indentation=True, list_marker='*'),
        dict(no_indentation=True, ordered=True, list_marker='.'),
        dict(keep_header_levels=2, list_marker='+'),
        dict(keep_header_levels=1, no_links=True, newline_string='\r\n')]


def client(acc, lines, parser='github', ordered=False, no_links=False,
           no_indentation=False, keep_header_levels=3, list_marker='-',
           constant_ordered_list=False, newline_string='\n', end='\n'):
    """A program that uses the line-level functions as documented."""
    a = api()
    log = a.init_indentation_log(parser, list_marker)
    seen, numbers, prev, fence, out = {}, {}, 0, None, []
    levels = []
    for line in lines:
        line += end
        acc.transitions += 1
        if fence is not None:
            if a.is_closing_code_fence(line, fence, False, parser):
                fence = None
            continue
        fence = a.is_opening_code_fence(line, parser)
        if fence is not None:
            continue
        h = a.get_md_header(line, seen, keep_header_levels, parser,
                            no_links)[0]
        if h is None or not h['visible']:
            continue
        lv = h['header_type']
        levels.append(lv)
        index = 1
        if ordered and not constant_ordered_list:
            a.increase_index_ordered_list(numbers, prev, lv, parser)
            index = numbers['h%d' % lv]
        spaces = 0
        if not no_indentation:
            a.compute_toc_line_indentation_spaces(lv, prev, parser, ordered,
                                                  list_marker, log, index)
            spaces = log[lv]['indentation_spaces']
        out.append(a.build_toc_line(a.build_toc_line_without_indentation(
            h, ordered, no_links, index, parser, list_marker), spaces) +
            newline_string)
        prev = lv
    return ''.join(out), levels


def one(acc, lines, kw, ends=('\n', '')):
    doc = ''.join(x + '\n' for x in lines)
    for end in ends:
        r = call(client, acc, lines, end=end, **kw)
        want = build(doc, no_list_coherence=True, **kw)
        if r[0] == 'ok':
            table, levels = r[1]
            if kw['parser'] == 'redcarpet' and not kw.get('no_indentation') \
                    and levels and levels[0] != 1:
                # the base of the indentation is a matter of the document
                continue
            r = ('ok', table)
        acc.ok([doc, kw, 'line ends %r' % end], r, want,
               repro_build(doc, no_list_coherence=True, **kw),
               'observed: line-level functions, expected: build_toc')


def docs(acc, parser, n, prefix, exact):
    a = api()
    for w in sub(TOKENS, n, prefix, exact):
        for kw in OPTS if len(w) < n else OPTS[:1] + OPTS[2:3]:
            one(acc, w, dict(kw, parser=parser))
        if '```' not in w and '~~~ x' not in w and w and w[0] and w[-1]:
            strings(acc, a, w, parser)
        if acc.full():
            return


def strings(acc, a, w, parser):
    for keep in (1, 3):
        for no_links in (False, True):
            for nl in ('\n', '\r\n', '\r'):
                text = nl.join(w)
                each = [call(a.get_atx_heading, x, keep, parser, no_links)
                        for x in w]
                want = ('ok', [x[1][0] for x in each]) if all(
                    x[0] == 'ok' for x in each) else [
                        x for x in each if x[0] != 'ok'][0]
                got = call(a.get_atx_heading, text, keep, parser, no_links)
                acc.transitions += 1
                acc.ok(['atx', text, keep, parser, no_links], got, want,
                       repro_call('api.get_atx_heading(%r, %r, %r, %r)' %
                                  (text, keep, parser, no_links)))
                seen, both = {}, {}
                want = call(lambda: [a.get_md_header(x, seen, keep, parser,
                                                     no_links)[0] for x in w])
                got = call(a.get_md_header, text, both, keep, parser,
                           no_links)
                acc.transitions += 1
                if got[0] == want[0] == 'ok':
                    got, want = (got, both), (want, seen)
                acc.ok(['header', text, keep, parser, no_links], got, want,
                       repro_call('api.get_md_header(%r, {}, %r, %r, %r)' %
                                  (text, keep, parser, no_links)))


def numbers(acc, parser, lo, hi):
    for n in range(lo, hi):
        for shape in ((1, ), (1, 2), (1, 2, 2), (1, 2, 3, 2), (2, 1, 3)):
            if shape[0] != 1 and parser == 'redcarpet':
                continue
            lv = [shape[i % len(shape)] for i in range(n)]
            lines = ['#' * l + ' h%d' % (i % 4) for i, l in enumerate(lv)]
            for kw in (OPTS[0], OPTS[2], OPTS[5]):
                one(acc, lines, dict(kw, parser=parser), ('\n', ))
            one(acc, ['# a'] * n + ['## b'] * 11 + ['### c'],
                dict(OPTS[2], parser=parser), ('\n', ))
        if acc.full():
            return


def lines(acc, parser, n, first):
    for w in words(CHARS, n, (first, )):
        t = ''.join(w)
        for doc in ([t, '# z'], ['# a ' + t + ' b', '# z'],
                    ['```', t, '# z'], ['~~~', '~~' + t, '# z'],
                    ['```', '```' + t, '# z'], ['```' + t, '# z']):
            for kw in OPTS[:2]:
                one(acc, doc, dict(kw, parser=parser))
        if acc.full():
            return


WRAP = ['# a', '## a', '#### a', '# A!', '# a-1', '# <b>c', '# c', 'x',
        '# [a] *c*']


def wrapper(acc, parser, first):
    """get_md_header is a wrapper of the other functions."""
    a = api()
    for w in words(WRAP, 4, (first, )):
        for keep in (1, 3):
            for no_links in (False, True):
                s1, s2, got, want = {}, {}, [], []
                for t in w:
                    h = a.get_md_header(t, s1, keep, parser, no_links)[0]
                    got.append(h and (h['header_type'], h['text_original'],
                                      h['text_anchor_link'], h['visible']))
                    r = a.get_atx_heading(t, keep, parser, no_links)[0]
                    x = a.get_atx_heading(t, keep, parser, True)[0]
                    acc.transitions += 3
                    if r['header_type'] is None:
                        want.append(None)
                        continue
                    want.append((r['header_type'], r['header_text_trimmed'],
                                 a.build_anchor_link(
                                     x['header_text_trimmed'], s2, parser),
                                 r['visible']))
                acc.ok(['wrapper', w, keep, parser, no_links], (got, s1),
                       (want, s2))
        if acc.full():
            return


STATES = ['<!--TOC-->\n\n- a\n\n<!--TOC-->\n',
          '<!--TOC-->\n\n- b\n\n<!--TOC-->\n', 'x\n']


def states(acc, first):
    a = api()
    d = workdir()
    mark = '<!--TOC-->'
    for w in words(STATES, 5, (first, )):
        for toc in ('- a\n', '- b\n', ''):
            one_by_one, got = [], []
            names = []
            for i, t in enumerate(w):
                p = os.path.join(d, 's%d.md' % i)
                names.append(p)
                put(p, t)
                r = call(a.write_string_on_file_between_markers, p, toc,
                         mark, '\n')
                one_by_one.append((r, get(p)))
                put(p, t)
            r = call(a.write_strings_on_files_between_markers, names,
                     [toc] * len(w), mark, '\n')
            acc.transitions += len(w)
            acc.ok(['states', w, toc], (r, [get(p) for p in names]),
                   (('ok', all(x[0][1] for x in one_by_one)),
                    [x[1] for x in one_by_one]))
        if acc.full():
            return


FILES = ['<!--TOC-->', '- [x](#x)', '', 'x', '# h', '[](TOC)']
TABLES = ['', '- [h](#h)\n', '1. [h](#h)\n   1. [i](#i)\n', '- é\n']


def files(acc, n, prefix, exact):
    """Writing makes the comparison say equal; several is one by one."""
    a = api()
    d = workdir()
    f1, f2, g1, g2 = (os.path.join(d, x) for x in ('f1', 'f2', 'g1', 'g2'))
    mark = '<!--TOC-->'
    for w in sub(FILES, n, prefix, exact):
        text = '\n'.join(w) + '\n'
        for k, toc in enumerate(TABLES):
            put(f1, text)
            before = call(a.tocs_equal, toc, f1, mark)
            put(f2, text)
            r = call(a.write_string_on_file_between_markers, f2, toc, mark,
                     '\n')
            acc.transitions += 2
            acc.ok(['writing reports what comparing does', text, toc], r,
                   before)
            # several in one call
            other = TABLES[(k + 1) % len(TABLES)]
            for p in (g1, g2):
                put(p, text)
            put(f1, text)
            r1 = call(a.write_string_on_file_between_markers, f1, other,
                      mark, '\n')
            rs = call(a.write_strings_on_files_between_markers, [g1, g2],
                      [toc, other], mark, '\n')
            acc.transitions += 2
            acc.ok(['several', text, toc, other],
                   (get(g1), get(g2), rs),
                   (get(f2), get(f1), ('ok', r[1] and r1[1])))
            # after writing into a table or at markers, it compares equal
            if w.count(mark) == 1 and '[](TOC)' not in w:
                acc.ok(['written', text, toc],
                       call(a.tocs_equal, toc, f2, mark), ('ok', True))
        if acc.full():
            return


def several(acc, parser, first):
    """build_multiple_tocs is build_toc file by file."""
    a = api()
    d = workdir()
    texts = ['', '# a\n', '# a\n## b\n', '```\n# c\n', '# é\n# é\n']
    for n in range(1, 4):
        for w in itertools.product(texts, repeat=n):
            if w[0] != first:
                continue
            names = []
            for i, t in enumerate(w):
                names.append(os.path.join(d, 'n%d.md' % i))
                put(names[-1], t)
            for kw in OPTS:
                kw = dict(kw, parser=parser)
                want = call(lambda: [a.build_toc(x, **kw) for x in names])
                got = call(a.build_multiple_tocs, list(names), **kw)
                acc.transitions += n
                acc.ok([w, kw], got, want)


def tasks(tier):
    for w, exact in prefixes(FILES, 2):
        yield 'files', (4, w, exact)
    for t in STATES:
        yield 'states', (t, )
    for parser in M.ALL:
        for t in WRAP:
            yield 'wrapper', (parser, t)
        for c in CHARS:
            yield 'lines', (parser, LINES[tier] - (parser not in (
                'github', 'cmark')), c)
        for t in ('', '# a\n', '# a\n## b\n', '```\n# c\n', '# é\n# é\n'):
            yield 'several', (parser, t)
        for i in range(1, 131, 10):
            if tier == 'thorough' or parser in ('github', 'redcarpet'):
                yield 'numbers', (parser, i, i + 10)
        n = DEPTH[tier] - (parser not in ('github', 'redcarpet'))
        for w, exact in prefixes(TOKENS, 2):
            yield 'docs', (parser, n, w, exact)

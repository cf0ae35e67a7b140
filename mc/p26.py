"""P26: arguments outside the documented domains are refused, only those."""
import copy
import itertools
import os

from . import model as M
from .core import (api, build, call, cli, get, put, repro_build, repro_call,
                   workdir)

LEVELS = list(range(-3, 8))
MARKS = ['-', '+', '*', '.', ')', '', '--', 'x', '1', '1.', ' -', '-.', ' ',
         '+-*', '\n', None]
RANGE = {'quick': 40, 'thorough': 400}
BOUNDS = {
    t: {
        'functions': 'every documented function with a numeric or marker '
        'parameter: the full product of levels -3..7, indices -3..12 and near '
        '10^9, 16 markers, both kinds of list, all parsers; counters and '
        'tables passed in compared before and after a refusal',
        'build': 'level limits and skip counts -%d..%d and near powers of '
        'two, 16 markers x 6 documents x switches, through build_toc, '
        'build_multiple_tocs and the command line with the file in place' %
        (RANGE[t], RANGE[t]),
        'newlines': 'a newline of each kind at every place of headings of up '
        'to 4 characters given to build_anchor_link'
    }
    for t in RANGE
}
TRANSITION_MEANING = 'calls'
REFUSED = ('exc', 'ValueError')


def marker_ok(parser, ordered, mark):
    if ordered:
        return mark == '.' or mark == ')' and parser != 'redcarpet'
    return mark in ('-', '+', '*')


def verdict(r):
    return r if r[0] == 'exc' else ('ok', )


def counter(acc, parser):
    f = api().increase_index_ordered_list
    for prev, cur in itertools.product(LEVELS, repeat=2):
        for start in ({}, {'h1': 3}, {'h2': 1, 'h3': 7}):
            d = copy.deepcopy(start)
            r = call(f, d, prev, cur, parser)
            acc.transitions += 1
            bad = prev < 0 or cur < 1
            acc.ok(['increase_index_ordered_list', start, prev, cur, parser],
                   (verdict(r), d if bad else None),
                   (REFUSED, start) if bad else (('ok', ), None),
                   repro_call('api.increase_index_ordered_list(%r, %r, %r, '
                              '%r)' % (start, prev, cur, parser)))


def indentation(acc, parser, ordered):
    a = api()
    f = a.compute_toc_line_indentation_spaces
    for prev, cur in itertools.product(LEVELS, repeat=2):
        if cur > 6 or prev > 6:
            continue
        for mark in MARKS:
            for index in (-1, 0, 1, 2, 10, 999999999):
                log = a.init_indentation_log(parser, '-')
                was = copy.deepcopy(log)
                r = call(f, cur, prev, parser, ordered, mark, log, index)
                acc.transitions += 1
                bad = (prev < 0 or cur < 1 or index < 1
                       or not marker_ok(parser, ordered, mark))
                acc.ok(['compute_toc_line_indentation_spaces', cur, prev,
                        parser, ordered, mark, index],
                       (verdict(r), log == was if bad else True),
                       (REFUSED if bad else ('ok', ), True),
                       repro_call(
                           'api.compute_toc_line_indentation_spaces(%r, %r, '
                           '%r, %r, %r, api.init_indentation_log(%r, "-"), '
                           '%r)' % (cur, prev, parser, ordered, mark, parser,
                                    index)))
    if parser in M.CM:
        # the log has one entry per level
        for n in range(0, 9):
            log = {i: {'index': 0, 'list_marker': '-',
                       'indentation_spaces': 0} for i in range(1, n + 1)}
            r = call(f, 1, 0, parser, ordered, '.' if ordered else '-', log)
            acc.ok(['log of %d' % n, parser], verdict(r),
                   ('ok', ) if n == 6 else REFUSED)


def line(acc, parser, ordered):
    f = api().build_toc_line_without_indentation
    for level in LEVELS:
        for mark in MARKS:
            for index in list(range(-3, 13)) + [999999999, 10**9]:
                for no_links in (False, True):
                    h = {'header_type': level, 'text_original': 'T',
                         'text_anchor_link': 't', 'visible': True}
                    was = dict(h)
                    r = call(f, h, ordered, no_links, index, parser, mark)
                    acc.transitions += 1
                    bad = (level < 1 or index < 1
                           or not marker_ok(parser, ordered, mark))
                    want = REFUSED if bad else ('ok', '%s%s %s' % (
                        index if ordered else '', mark,
                        'T' if no_links else '[T](#t)'))
                    acc.ok(['build_toc_line_without_indentation', level,
                            ordered, no_links, index, parser, mark],
                           (r, h), (want, was),
                           repro_call('api.build_toc_line_without_indentation'
                                      '(%r, %r, %r, %r, %r, %r)' %
                                      (was, ordered, no_links, index, parser,
                                       mark)))


def spaces(acc):
    f = api().build_toc_line
    for n in range(-20, 200):
        for t in ('', 'x', ' x', '- [a](#a)', 'x\n'):
            acc.transitions += 1
            acc.ok(['build_toc_line', t, n], call(f, t, n),
                   REFUSED if n < 0 else ('ok', ' ' * n + t),
                   repro_call('api.build_toc_line(%r, %r)' % (t, n)))


def limits(acc, parser, lo, hi):
    a = api()
    d = os.path.join(workdir(), 'l.md')
    near = [k for b in (64, 128, 256, 1 << 15, 1 << 31, 1 << 63) for i in
            (-1, 0, 1) for k in (b + i, -b - i)]
    for keep in list(range(lo, hi)) + (near if lo < 0 else []):
        for text in ('# a', 'x', '', '###### f', '# a\n## b', '#'):
            if text == '#' and parser in M.CM:
                continue
            for no_links in (False, True):
                seen = {'z': 1}
                r = call(a.get_md_header, text, seen, keep, parser, no_links)
                q = call(a.get_atx_heading, text, keep, parser, no_links)
                acc.transitions += 2
                want = REFUSED if keep < 1 else ('ok', )
                acc.ok(['headers', text, keep, parser, no_links],
                       (verdict(r), verdict(q), seen == {'z': 1} or keep > 0),
                       (want, want, True),
                       repro_call('api.get_md_header(%r, {}, %r, %r, %r)' %
                                  (text, keep, parser, no_links)))
        for text in ('# a\n', 'x\n', '# a\n## b\n', '\n'):
            kw = dict(keep_header_levels=keep, parser=parser)
            r = build(text, **kw)
            acc.transitions += 1
            acc.ok([text, kw], verdict(r), REFUSED if keep < 1 else ('ok', ),
                   repro_build(text, **kw))
            kw = dict(skip_lines=keep, parser=parser)
            put(d, text)
            n = max(keep, 0)
            if n > 100000:
                continue  # counted line by line
            acc.transitions += 2
            want = REFUSED if keep < 0 else build(''.join(
                text.splitlines(True)[n:]), parser=parser)
            acc.ok([text, kw], build(text, **kw), want,
                   repro_build(text, **kw))
            acc.ok([text, kw, 'multiple'],
                   call(a.build_multiple_tocs, [d, d], **kw),
                   REFUSED if keep < 0 else ('ok', [want[1]] * 2))
        if acc.full():
            return


DOCS = ['', 'x\n', '```\n# a\n```\n', '# a\n', 'x\n# a\n## b\n', '#### d\n']


def markers(acc, parser):
    """A bullet that is none is refused as soon as a heading is listed."""
    for doc in DOCS:
        for mark in MARKS:
            for ind, nolinks, coh in itertools.product((False, True),
                                                       repeat=3):
                kw = dict(parser=parser, list_marker=mark, no_links=nolinks,
                          no_indentation=ind, no_list_coherence=coh)
                if parser == 'redcarpet' and doc[:3] == '```':
                    continue
                r = build(doc, **kw)
                listed = '# a' in doc and doc[:3] != '```'
                bad = listed and mark not in ('-', '+', '*')
                acc.transitions += 1
                acc.ok([doc, kw], verdict(r), REFUSED if bad else ('ok', ),
                       repro_build(doc, **kw))


def unknown(acc):
    """A parser that does not exist is never taken for another one."""
    for p in ('', 'x', 'GitHub', 'github ', 'cmark-gfm', 'Redcarpet', 'git',
              'hub', 'GITLAB', 'kramdown', ' redcarpet', 'common', 'gold'):
        for doc in ('# a\n', '# a\n## b\n'):
            for kw in (dict(), dict(ordered=True), dict(no_links=True),
                       dict(no_indentation=True)):
                r = build(doc, parser=p, **kw)
                acc.transitions += 1
                acc.ok([doc, p, kw], r[0], 'exc',
                       repro_build(doc, parser=p, **kw))


def newlines(acc, parser):
    f = api().build_anchor_link
    for n in range(0, 5):
        for w in itertools.product('ab ', repeat=n):
            t = ''.join(w)
            for i in range(n + 1):
                for nl in ('\n', '\r', '\r\n', '\n\n'):
                    s = t[:i] + nl + t[i:]
                    seen = {}
                    r = call(f, s, seen, parser)
                    acc.transitions += 1
                    inner = 0 < i < n
                    # at the ends a newline is no separator
                    want = ('exc', 'StringCannotContainNewlines') if inner \
                        else ('ok', )
                    acc.ok([s, parser], (verdict(r), seen == {} or not inner),
                           (want, True),
                           repro_call('api.build_anchor_link(%r, {}, %r)' %
                                      (s, parser)))


def command(acc, parser):
    """Refused values on the command line leave the file as it is."""
    d = os.path.join(workdir(), 'c.md')
    text = '<!--TOC-->\n\n# a\n## b\n'
    for opt in (['-s', '-1'], ['-s', '-5'], ['-s=-1']):
        for extra in ([], ['-d'], ['-i'], ['-c']):
            put(d, text)
            st, out, err = cli(['-p'] + opt + extra + [parser, d])
            acc.transitions += 1
            acc.ok([opt, extra, parser], (st != 0, out, get(d)),
                   (True, '', text.encode()))
    for opt in (['-l', '0'], ['-l', '7'], ['-l', '-1'], ['-l', 'x'],
                ['-u', 'x'], ['-u', '.'], ['-o', '-'], ['-o', 'x'],
                ['-u', ''], ['-o', '']):
        put(d, text)
        st, out, err = cli(['-p', parser] + opt + [d])
        acc.transitions += 1
        acc.ok([opt, parser], (st, out, get(d)), (2, '', text.encode()))


def tasks(tier):
    yield 'spaces', ()
    yield 'unknown', ()
    r = RANGE[tier]
    for parser in M.ALL:
        yield 'counter', (parser, )
        yield 'markers', (parser, )
        yield 'newlines', (parser, )
        yield 'command', (parser, )
        for o in (False, True):
            yield 'indentation', (parser, o)
            yield 'line', (parser, o)
        for lo in range(-r, r, 20):
            yield 'limits', (parser, lo, lo + 20)

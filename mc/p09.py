"""P09: the rendered list nests exactly like the headings."""
import itertools
import re

from . import model as M
from .core import build, prefixes, repro_build, sub

N = {'quick': (7, 6), 'thorough': (8, 7)}
L = (1, 2, 3, 4, 5, 6)
LISTS = [dict(list_marker=m) for m in '-+*'] + [
    dict(ordered=True, list_marker='.'), dict(ordered=True, list_marker=')'),
    dict(constant_ordered_list=True, list_marker='.'),
    dict(constant_ordered_list=True, list_marker=')')
]
COUNTS = [1, 2, 9, 10, 11, 99, 100, 101]
BOUNDS = {
    t: {
        'sequences': 'all coherent sequences of up to %d levels (github) or '
        '%d, %d list styles, links and plain' % (N[t][0], N[t][1],
                                                 len(LISTS)),
        'widths': 'all coherent shapes of up to 3 blocks, every block '
        'repeated %r times%s; 1000 items%s' %
        (COUNTS, '' if t == 'thorough' else ' (up to 11 for 3 blocks)',
         ' and 10000' if t == 'thorough' else ''),
        'oracle': 'CommonMark list container rules; cross-checked with '
        'markdown-it on all sequences of up to 4 levels'
    }
    for t in N
}
STATE_MEANING = 'distinct generated lists'
ITEM = re.compile(r'( *)([-+*]|[0-9]+[.)]) (.*)')


def nest(toc):
    """Parents of the items by the CommonMark rules; None if not a list.

    Every line must open a list item: a marker at most three columns into its
    container, and an ordered list that interrupts a paragraph starts with 1.
    """
    out = []
    stack = []  # (content offset, marker kind, item number)
    for n, line in enumerate(toc.split('\n')[:-1]):
        m = ITEM.fullmatch(line)
        if not m or not m.group(3) or m.group(3)[0] == ' ':
            return None
        ind, mk = len(m.group(1)), m.group(2)
        depth = 0
        while depth < len(stack) and stack[depth][0] <= ind:
            depth += 1
        base = stack[depth - 1][0] if depth else 0
        if ind - base > 3:
            return None
        if depth == len(stack) and depth and mk[0].isdigit() and int(
                mk[:-1]) != 1:
            return None
        if mk[0].isdigit() and len(mk) > 10:
            return None
        # the first item of the outermost list decides its kind
        if depth < len(stack) and stack[depth][1] != mk[-1]:
            return None
        del stack[depth:]
        out.append(stack[-1][2] if stack else None)
        stack.append((ind + len(mk) + 1, mk[-1], n))
    return out


def parents(levels):
    out = []
    for i, l in enumerate(levels):
        p = None
        for j in range(i - 1, -1, -1):
            if levels[j] < l:
                p = j
                break
        out.append(p)
    return out


def mdit(toc):
    """The same through an independent renderer."""
    from markdown_it import MarkdownIt
    out, stack, n = [], [], 0
    for t in MarkdownIt('commonmark').parse(toc):
        if t.type == 'list_item_open':
            out.append(stack[-1] if stack else None)
            stack.append(n)
            n += 1
        elif t.type == 'list_item_close':
            stack.pop()
        elif t.type in ('code_block', 'heading_open', 'hr'):
            return None
        elif t.type == 'inline' and '\n' in t.content:
            return None
    return out


def one(acc, levels, cross=False, **kw):
    lines = ['%s h%d' % ('#' * l, i) for i, l in enumerate(levels)]
    doc = '\n'.join(lines) + '\n'
    parser = kw['parser']
    r = build(doc, keep_header_levels=6, **kw)
    acc.transitions += len(levels)
    rep = repro_build(doc, keep_header_levels=6, **kw)
    case = [list(levels) if len(levels) < 60 else ['%d levels' % len(levels)],
            kw]
    if r[0] != 'ok':
        acc.ok(case, r, ('ok', 'a list'), rep)
        return
    toc = r[1]
    if kw.get('no_indentation'):
        want = [None] * len(levels)
        acc.ok(case, [None if not x.startswith(' ') else x
                      for x in toc.split('\n')[:-1]], want, rep)
        return
    texts = [re.sub(r'^ *\S+ ', '', x) for x in toc.split('\n')[:-1]]
    acc.ok(case, [len(re.findall(r'\bh%d\b' % i, t)) > 0
                  for i, t in enumerate(texts)], [True] * len(levels), rep)
    if parser == 'redcarpet':
        got = [len(x) - len(x.lstrip(' ')) for x in toc.split('\n')[:-1]]
        want = [4 * (l - levels[0]) for l in levels]
        acc.ok(case, got, want, rep, note=toc[:500])
        return
    want = parents(levels)
    acc.seen(toc)
    acc.ok(case, nest(toc), want, rep, note=toc[:1500])
    if cross:
        acc.count('cross_checked_with_markdown_it')
        acc.ok(case + ['markdown-it'], mdit(toc), want, rep, note=toc[:1500])


def seqs(acc, parser, n, prefix, exact):
    for w in sub(L, n, prefix, exact):
        if not w or not M.coherent(w):
            continue
        for kw in LISTS:
            if parser == 'redcarpet' and kw['list_marker'] == ')':
                continue
            one(acc, w, len(w) <= 4 and parser in ('github', 'cmark'),
                parser=parser, **kw)
            if len(w) < n:
                one(acc, w, parser=parser, no_links=True,
                    no_list_coherence=True, **kw)
                one(acc, w, parser=parser, no_indentation=True, **kw)
        if acc.full():
            return


def flat(acc, parser):
    for n in range(1, 5):
        for w in itertools.product(L, repeat=n):
            for kw in (dict(), dict(ordered=True)):
                one(acc, w, parser=parser, no_indentation=True, **kw)


def widths(acc, parser, shape, counts):
    for reps in itertools.product(counts, repeat=len(shape)):
        if sum(reps) > 260:
            continue
        levels = []
        for l, k in zip(shape, reps):
            levels += [l] * k
        for kw in (dict(ordered=True, list_marker='.'),
                   dict(constant_ordered_list=True, list_marker='.'),
                   dict(list_marker='*')):
            for tail in ((), (shape[0], shape[0] + 1)):
                if M.coherent(levels + list(tail)) and max(
                        levels + list(tail)) <= 6:
                    one(acc, levels + list(tail), parser=parser, **kw)
        if acc.full():
            return


def deep(acc, parser, k):
    """Every level has an item with a number of k items before it."""
    for kw in (dict(ordered=True, list_marker=')'), dict(list_marker='+')):
        if parser == 'redcarpet' and kw['list_marker'] == ')':
            kw = dict(ordered=True, list_marker='.')
        levels = []
        for l in L:
            levels += [l] * k
        one(acc, levels, parser=parser, **kw)
        one(acc, levels + [3, 4, 2, 3, 1, 2, 3], parser=parser, **kw)
        one(acc, levels + levels[::-1] + levels[:k * 3], parser=parser, **kw)
        # number of the parent grows between two children
        one(acc, [1, 2] * k + [2, 3] * 3, parser=parser, **kw)
        one(acc, [2, 3, 4] * k, parser=parser, **kw)


def big(acc, parser, n):
    one(acc, [1] * n + [2, 3, 2, 1, 2], parser=parser, ordered=True)
    one(acc, [1] + [2] * n + [3, 1, 2], parser=parser, ordered=True)
    one(acc, [1, 2] * (n // 2) + [2, 3], parser=parser, ordered=True)


def tasks(tier):
    for parser in ('github', 'redcarpet'):
        for n in (998, 1000, 1002) + ((10001, ) if tier == 'thorough' else ()):
            yield 'big', (parser, n)
    for parser in M.ALL:
        yield 'flat', (parser, )
        for k in (1, 2, 9, 10, 11, 12, 20) + (
            (99, 100, 101) if tier == 'thorough' else (100, ) if
            parser == 'github' else ()):
            yield 'deep', (parser, k)
        n = N[tier][0 if parser == 'github' else 1]
        for w, exact in prefixes(L, 2):
            if w and not M.coherent(w):
                continue
            yield 'seqs', (parser, n, w, exact)
        if parser in ('github', 'redcarpet') or tier == 'thorough':
            for k in (1, 2, 3):
                for shape in itertools.product((1, 2, 3, 4), repeat=k):
                    if M.coherent(shape):
                        yield 'widths', (parser, shape, COUNTS if k < 3 or
                                         tier == 'thorough' else
                                         [1, 9, 10, 11])

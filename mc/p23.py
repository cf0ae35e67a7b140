"""P23: every option changes only its own aspect of the table."""
import itertools

from . import model as M
from .core import build, prefixes, repro_build, sub

TOKENS = ['# a', '## b *i*', '### c [d]', '##### `e`', 'x', '```',
          '   ## g ##', '', '###### h\\']
DEPTH = {'quick': 4, 'thorough': 5}
BOUNDS = {
    t: {
        'documents': 'all sequences of up to %d of %d lines (github, '
        'redcarpet; the others one less)' % (DEPTH[t], len(TOKENS)),
        'options': 'the full product of links, indentation, coherence, list '
        'kind, marker, newline (documents of up to 2 lines; 3: every pair of '
        'options; longer: every option), all level limits, all skip counts (3 and 2 '
        'of them for documents of 4 lines and more)',
        'numbers': 'documents with 1..120 headings of every coherent shape '
        'of two levels, so that the numbers have 1, 2 and 3 digits'
    }
    for t in DEPTH
}
TRANSITION_MEANING = 'tables predicted from the aspects and compared'
NLS = ['\n', '\r\n', '\r']


def aspects(doc, parser, keep, skip=0):
    """(labels, links, numbers, depths by list kind) seen one at a time."""
    kw = dict(parser=parser, keep_header_levels=keep, skip_lines=skip,
              newline_string='\n')
    plain = build(doc, no_links=True, no_indentation=True, **kw)
    if plain[0] != 'ok':
        return plain
    labels = [r[2:] for r in plain[1].split('\n')[:-1]]
    link = build(doc, no_indentation=True, **kw)
    links = link if link[0] != 'ok' else [
        r[2:] for r in link[1].split('\n')[:-1]]
    num = build(doc, no_links=True, no_indentation=True, ordered=True,
                list_marker='.', **kw)
    if num[0] != 'ok':
        return num
    numbers = [r.split('.')[0] for r in num[1].split('\n')[:-1]]
    ind = {}
    for kind in ('bullet', 'ordered', 'constant'):
        t = build(doc, no_links=True, no_list_coherence=True,
                  ordered=kind != 'bullet', list_marker='-' if kind ==
                  'bullet' else '.', constant_ordered_list=kind ==
                  'constant', **kw)
        if t[0] != 'ok':
            return t
        ind[kind] = [len(r) - len(r.lstrip(' ')) for r in
                     t[1].split('\n')[:-1]]
    coh = build(doc, no_links=True, **kw)
    return {'labels': labels, 'links': links, 'numbers': numbers,
            'indent': ind, 'coherent': coh if coh[0] != 'ok' else None}


def predict(a, kind, mark, no_links, no_ind, no_coh, nl):
    if not isinstance(a, dict):
        return a
    # the first of the two errors in the document decides: leave it to P20
    if not no_ind and not no_coh and a['coherent'] is not None:
        if not no_links and not isinstance(a['links'], list):
            return None
        return a['coherent']
    text = a['labels'] if no_links else a['links']
    if not isinstance(text, list):
        return text
    out = []
    for i, t in enumerate(text):
        n = {'bullet': '', 'constant': '1', 'ordered': a['numbers'][i]}[kind]
        out.append(('' if no_ind else ' ' * a['indent'][kind][i]) + n + mark +
                   ' ' + t + nl)
    return ('ok', ''.join(out))


def vectors(parser):
    # '-' for an ordered list stands for the default, see P11
    kinds = [('bullet', m) for m in '-+*'] + [
        (k, m) for k in ('ordered', 'constant') for m in
        ('.' if parser == 'redcarpet' else '.)')]
    base = (('bullet', '-'), False, False, False, '\n')
    dims = (kinds, (False, True), (False, True), (False, True), NLS)
    allv = list(itertools.product(*dims))
    near = [[v for v in allv if sum(x != y for x, y in zip(v, base)) <= k]
            for k in (1, 2)]
    return allv, near[1], near[0]


def check(acc, doc, parser, keep, skip, vs):
    a = aspects(doc, parser, keep, skip)
    for (kind, mark), no_links, no_ind, no_coh, nl in vs:
        want = predict(a, kind, mark, no_links, no_ind, no_coh, nl)
        if want is None:
            continue
        kw = dict(parser=parser, keep_header_levels=keep, skip_lines=skip,
                  ordered=kind == 'ordered', list_marker=mark,
                  constant_ordered_list=kind == 'constant',
                  no_links=no_links, no_indentation=no_ind,
                  no_list_coherence=no_coh, newline_string=nl)
        got = build(doc, **kw)
        acc.transitions += 1
        acc.ok([doc, kw], got, want, repro_build(doc, **kw))


def docs(acc, parser, n, prefix, exact):
    allv, near, single = vectors(parser)
    for w in sub(TOKENS, n, prefix, exact):
        doc = ''.join(x + '\n' for x in w)
        check(acc, doc, parser, 6, 0, allv if len(w) <= 2 else
              near if len(w) == 3 else single)
        if len(w) <= 3:
            for keep in (1, 2, 3):
                check(acc, doc, parser, keep, 0, near)
        # the limit only removes rows (their anchors stay the same)
        prev = None
        for keep in range(1, 8) if len(w) <= 3 else (1, 3, 6):
            kw = dict(parser=parser, keep_header_levels=keep, no_links=True,
                      no_indentation=True)
            t = build(doc, **kw)
            acc.transitions += 1
            if t[0] != 'ok':
                acc.bad([doc, kw], t, 'a table', repro_build(doc, **kw))
                continue
            cur = t[1].split('\n')
            if prev is not None:
                it = iter(cur)
                good = all(any(x == y for y in it) for x in prev)
                acc.ok([doc, kw, 'rows of the smaller limit'], good, True,
                       repro_build(doc, **kw))
            prev = cur
        # skipping lines is the same as not having them
        for skip in range(0, len(w) + 2) if len(w) <= 3 else (1, 2):
            rest = ''.join(x + '\n' for x in w[skip:])
            for kw in (dict(), dict(ordered=True, no_list_coherence=True)):
                kw = dict(kw, parser=parser, keep_header_levels=6)
                want = build(rest, **kw)
                got = build(doc, skip_lines=skip, **kw)
                acc.transitions += 1
                acc.ok([doc, kw, 'skip %d' % skip], got, want,
                       repro_build(doc, skip_lines=skip, **kw))
        if acc.full():
            return


def numbers(acc, parser, lo, hi):
    _, near, _ = vectors(parser)
    near = [v for v in near if v[0][0] != 'bullet']
    for n in range(lo, hi):
        for shape in ((1, ), (1, 2), (1, 2, 2), (2, 3), (1, 2, 3)):
            lv = [shape[i % len(shape)] for i in range(n)]
            doc = ''.join('#' * l + ' h%d\n' % (i % 3)
                          for i, l in enumerate(lv))
            check(acc, doc, parser, 6, 0, near)
        # a wide number above a sublist
        doc = '# a\n' * n + '## b\n' * 11 + '### c\n'
        check(acc, doc, parser, 6, 0, near)
        if acc.full():
            return


def defaults(acc, first):
    """Leaving an argument out is the same as giving its documented value."""
    import os
    doc_default = dict(ordered=False, no_links=False, no_indentation=False,
                       no_list_coherence=False, keep_header_levels=3,
                       parser='github', list_marker='-', skip_lines=0,
                       constant_ordered_list=False,
                       newline_string=os.linesep)
    others = [dict(), dict(ordered=True), dict(parser='redcarpet'),
              dict(no_links=True), dict(skip_lines=1),
              dict(keep_header_levels=5), dict(constant_ordered_list=True),
              dict(no_indentation=True)]
    for n in range(0, 4):
        for w in itertools.product(TOKENS, repeat=n):
            if (w[0] if w else TOKENS[0]) != first:
                continue
            doc = ''.join(x + '\n' for x in w)
            for o in others:
                want = build(doc, **dict(doc_default, **o))
                for left in [None] + list(doc_default):
                    if left in o or n == 3 and left is not None:
                        continue
                    kw = dict(doc_default, **o)
                    if left is None:
                        kw = o
                    else:
                        del kw[left]
                    got = build(doc, **kw)
                    acc.transitions += 1
                    acc.ok([doc, kw], got, want, repro_build(doc, **kw))
            if acc.full():
                return


def tasks(tier):
    for t in dict.fromkeys(TOKENS):
        yield 'defaults', (t, )
    for parser in M.ALL:
        for i in range(1, 121, 10):
            if tier == 'thorough' or parser in ('github', 'redcarpet') or \
                    i in (1, 91):
                yield 'numbers', (parser, i, i + 10)
        n = DEPTH[tier] - (parser not in ('github', 'redcarpet'))
        for w, exact in prefixes(TOKENS, 2):
            yield 'docs', (parser, n, w, exact)

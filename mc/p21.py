"""P21: the command line does what the library does, for every option."""
import itertools
import os
import subprocess
import sys

from . import model as M
from .core import (REPO, api, build, call, cli, get, prefixes, put, repro_build,
                   repro_call, sub, workdir)

MK = '<!--TOC-->'
MK2 = '[](TOC)'
DOC = ('intro\n' + MK + '\n\n- [Old](#old)\n\n' + MK + '\n\n# One\n## Two\n'
       '### Three\n#### Four\n##### Five\n###### Six\n# One\n```\n# No\n```\n'
       + MK2 + '\n## Two *x*\n### T [y]\n')
SAME = ('# a\n## b\n\n' + MK + '\n\n- [a](#a)\n  - [b](#b)\n\n' + MK + '\n')
ROUGH = '# a\n\n### c\n' + MK + '\n# a\n'
DOCS = {'doc': DOC, 'same': SAME, 'rough': ROUGH}
PARSERS = list(M.ALL)
PRE = {
    'quick': [
        [[], ['-c'], ['-i']],
        [[], ['-d']],
        [[], ['-l']],
        [[], ['-m', MK2]],
        [[], ['-n', '\\r\\n']],
        [[], ['-p']],
        [[], ['-s', '7']],
    ],
    'thorough': [
        [[], ['-c'], ['-i']],
        [[], ['-d']],
        [[], ['-l']],
        [[], ['-m', MK2]],
        [[], ['-n', '\\n'], ['-n', '\\r'], ['-n', '\\r\\n']],
        [[], ['-p']],
        [[], ['-s', '0'], ['-s', '7']],
    ],
}
POST = {
    'quick': [
        [[], ['-u'], ['-u', '*'], ['-o'], ['-o', '.'], ['-o', ')']],
        [[], ['-c']],
        [[], ['-l'], ['-l', '1'], ['-l', '5']],
    ],
    'thorough': [
        [[], ['-u'], ['-u', '-'], ['-u', '+'], ['-u', '*'], ['-o'],
         ['-o', '.'], ['-o', ')']],
        [[], ['-c']],
        [[], ['-l']] + [['-l', str(i)] for i in range(1, 7)],
    ],
}
LONG = {'-c': '--no-list-coherence', '-i': '--no-indentation', '-d': '--diff',
        '-l': '--no-links', '-m': '--toc-marker', '-n': '--newline-string',
        '-p': '--in-place', '-s': '--skip-lines'}
LONG2 = {'-u': '--unordered-list-marker', '-o': '--ordered-list-marker',
         '-c': '--constant-ordered-list', '-l': '--header-levels'}
AL = ['# a', '## b', '#\tt', '# a*b*', '```', '# ']
N = {'quick': 5, 'thorough': 6}


def product(spec):
    n = 1
    for s in spec:
        n *= len(s)
    return n


BOUNDS = {
    t: {
        'options': 'the full product of %d settings before and %d after %d '
        'parser names, printing and in place, on %d documents' %
        (product(PRE[t]), product(POST[t]), len(PARSERS), len(DOCS)),
        'spellings': 'every option in short, long and joined form, before '
        'and after the file name',
        'invalid': 'lists of invalid commands and of failing ones',
        'numbers': 'every number of skipped lines up to 30 and levels 1..6, '
        'each parser, with and without -p',
        'processes': 'the command in real processes, each parser and mode',
        'aliases': 'every document of up to %d of %d lines, and every heading '
        'text over an alphabet of 12 up to length 4, under each pair of '
        'names' % (N[t], len(AL)),
    }
    for t in PRE
}


def library(name, pre, parser, post):
    """What the library does for the options: (toc or error, marker, newline)."""
    flat = [x for x in pre if x]
    opts = {}
    for o in flat:
        opts[o[0]] = o[1] if len(o) > 1 else True
    sub_ = {}
    for o in post:
        if o:
            sub_[o[0]] = o[1] if len(o) > 1 else None
    kw = dict(parser=parser,
              no_list_coherence='-c' in opts,
              no_indentation='-i' in opts,
              no_links='-l' in opts,
              skip_lines=int(opts.get('-s', 0)),
              newline_string={'\\n': '\n', '\\r': '\r', '\\r\\n': '\r\n'}[
                  opts.get('-n', '\\n')],
              keep_header_levels=int(sub_.get('-l') or 6),
              constant_ordered_list='-c' in sub_)
    if '-o' in sub_:
        kw.update(ordered=True, list_marker=sub_['-o'] or '.')
    else:
        kw.update(list_marker=sub_.get('-u') or '-')
    return kw, opts.get('-m', MK)


def expect(text, kw, marker, place, diff):
    """(status, stdout, file) of a command, from the library."""
    p = os.path.join(workdir(), 'l.md')
    put(p, text)
    a = api()
    r = call(a.build_toc, p, **kw)
    if r[0] != 'ok':
        return 1, '', text
    eq = call(a.tocs_equal, r[1], p, marker)
    status = 128 if diff and eq != ('ok', True) else 0
    if place:
        w = call(a.write_string_on_file_between_markers, p, r[1], marker,
                 kw['newline_string'])
        return status if w[0] == 'ok' else 1, '', get(p).decode()
    return status, r[1], text


def rep(text, argv):
    return ('import subprocess\nopen("f.md", "w").write(%r)\nr = subprocess.'
            'run([sys.executable, "-m", "md_toc"] + %r, stdout=-1, env={**os.'
            'environ, "PYTHONPATH": sys.path[0]})\ngot = (r.returncode, '
            'r.stdout, open("f.md", "rb").read())' %
            (text, ['f.md' if x.endswith('/c.md') else x for x in argv]))


def options(acc, tier, parser, i, j):
    """The product, one first setting and one list style per task."""
    p = os.path.join(workdir(), 'c.md')
    pre_s, post_s = PRE[tier], POST[tier]
    style = post_s[0][j]
    if parser == 'redcarpet' and style == ['-o', ')']:
        st = cli([parser, p] + style)
        acc.transitions += 1
        acc.ok([parser, style], st[:2], (2, ''))
        return
    for pre in itertools.product([pre_s[0][i]], *pre_s[1:]):
        for post in itertools.product([style], *post_s[1:]):
            kw, marker = library(None, pre, parser, post)
            argv = [x for o in pre for x in o] + [parser, p] + [
                x for o in post for x in o
            ]
            for name, text in DOCS.items():
                if name != 'doc' and (['-n', '\\r\\n'] in pre
                                      or ['-s', '7'] in pre):
                    continue
                want = expect(text, kw, marker, ['-p'] in pre, ['-d'] in pre)
                put(p, text)
                st, out, err = cli(argv)
                acc.transitions += 1
                acc.ok([name, argv[:-1] if False else argv],
                       (st, out, get(p).decode()), want, rep(text, argv))
                if (err != '') != (want[0] == 1):
                    acc.bad([name, argv], err, 'diagnostics only on errors',
                            rep(text, argv))
        if acc.full():
            return


def spellings(acc):
    p = os.path.join(workdir(), 'c.md')
    for parser in PARSERS:
        for o in [x for s in PRE['thorough'] for x in s if x]:
            forms = [o, [LONG[o[0]]] + o[1:]]
            if len(o) > 1:
                forms += [[o[0] + o[1]], [LONG[o[0]] + '=' + o[1]]]
            kw, marker = library(None, [o], parser, [])
            want = expect(DOC, kw, marker, o == ['-p'], o == ['-d'])
            for f in forms:
                put(p, DOC)
                acc.transitions += 1
                argv = f + [parser, p]
                r = cli(argv)
                acc.ok(argv, (r[0], r[1], get(p).decode()), want,
                       rep(DOC, argv))
        for o in [x for s in POST['thorough'] for x in s if x]:
            if parser == 'redcarpet' and o == ['-o', ')']:
                continue
            forms = [o, [LONG2[o[0]]] + o[1:]]
            if len(o) > 1:
                forms += [[o[0] + o[1]], [LONG2[o[0]] + '=' + o[1]]]
            kw, marker = library(None, [], parser, [o])
            want = expect(DOC, kw, marker, False, False)
            for f in forms:
                for argv in ([parser, p] + f, [parser] + f + [p],
                             [parser] + f + ['--', p]):
                    if argv[-1] == p and len(f) == 1 and len(o) == 1 and \
                            o[0] != '-c' and argv[-2] != '--':
                        continue  # the name would be the value
                    put(p, DOC)
                    acc.transitions += 1
                    r = cli(argv)
                    acc.ok(argv, (r[0], r[1], get(p).decode()), want,
                           rep(DOC, argv))
        if acc.full():
            return


def numbers(acc, parser):
    p = os.path.join(workdir(), 'c.md')
    for s in list(range(0, 31)) + [100, 10**6]:
        for lv in range(1, 7):
            for mode in ([], ['-p'], ['-d', '-c']):
                pre = [['-s', str(s)]] + [[m] for m in mode]
                post = [['-l', str(lv)]]
                kw, marker = library(None, pre, parser, post)
                want = expect(DOC, kw, marker, '-p' in mode, '-d' in mode)
                argv = [x for o in pre for x in o] + [parser, p] + post[0]
                put(p, DOC)
                acc.transitions += 1
                r = cli(argv)
                acc.ok(argv, (r[0], r[1], get(p).decode()), want,
                       rep(DOC, argv))
        if acc.full():
            return


def processes(acc, parser):
    """The real command in a real process."""
    p = os.path.join(workdir(), 'c.md')
    env = dict(os.environ, PYTHONPATH=REPO)
    for argv in ([parser, p], ['-p', parser, p], ['-d', parser, p],
                 ['-d', '-p', parser, p, '-o'], [parser, p + '.no'],
                 [parser, p, '-l', '9'], ['-l', '-i', parser, p, '-c'],
                 ['-n', '\\r\\n', parser, p]):
        put(p, DOC)
        want = cli(argv)[:2] + (get(p), )
        put(p, DOC)
        r = subprocess.run([sys.executable, '-m', 'md_toc'] + argv, env=env,
                           stdin=subprocess.DEVNULL, capture_output=True,
                           timeout=120)
        acc.transitions += 1
        acc.count('real_processes')
        acc.ok(argv, (r.returncode, r.stdout.decode(), get(p)), want,
               rep(DOC, argv))


def invalid(acc):
    p = os.path.join(workdir(), 'c.md')
    bad = [[], ['markdown', p], ['-c', '-i', 'github', p], ['-q', 'github', p],
           ['-s', 'x', 'github', p], ['-n', 'x', 'github', p], ['-n', '\n',
                                                               'github', p],
           ['-p', '-m'], ['-s'], ['Github', p], ['github', p, '-x'],
           ['-p', 'github', p, '-z', '1'], ['--nope', 'github', p],
           ['-s', '1.5', 'github', p]]
    for parser in PARSERS:
        bad += [['-p', parser, p] + o
                for o in (['-u', '+', '-o'], ['-u', '*', '-o', '.'], ['-l', '0'],
                          ['-l', '7'], ['-l', 'x'], ['-o', 'x'], ['-u', 'x'],
                          ['-u', '.'], ['-o', '*'], ['-l', '-1'], ['-o', '-'],
                          ['-p'], ['-c', 'x', 'y', '-q'], ['-d'], ['-i'])]
    bad += [['redcarpet', p, '-o', ')']]
    for argv in bad:
        put(p, DOC)
        acc.transitions += 1
        st, out, err = cli(argv)
        acc.ok(argv, (st, out, bool(err), get(p).decode()),
               (2, '', True, DOC), rep(DOC, argv))
    fails = {
        'missing': (None, []),
        'incoherent': ('# a\n### b\n' + MK + '\n', []),
        'rises': ('## a\n# b\n' + MK + '\n', []),
        'empty': (MK + '\n#\n', []),
        'long': ('# ' + 'x' * 1001 + '\n' + MK + '\n', []),
        'negative': ('# a\n' + MK + '\n', ['-s', '-1']),
    }
    for (k, (text, o)), parser in itertools.product(fails.items(), PARSERS):
        if parser == 'redcarpet' and k in ('empty', 'long'):
            continue
        for mode in ([], ['-p'], ['-d'], ['-p', '-d']):
            q = os.path.join(workdir(), 'e.md')
            if os.path.exists(q):
                os.unlink(q)
            if text is not None:
                put(q, text)
            acc.transitions += 1
            st, out, err = cli(mode + o + [parser, q])
            acc.ok([k, mode, parser],
                   (st, out, bool(err),
                    get(q).decode() if os.path.exists(q) else None),
                   (1, '', True, text),
                   None if text is None else rep(text, mode + o +
                                                 [parser, 'f.md']))
    for o in (['-v'], ['--version'], ['-h'], ['--help'], ['github', '-h'],
              ['redcarpet', '--help']):
        st, out, err = cli(o)
        acc.transitions += 1
        acc.ok(o, (st, bool(out.strip()), err), (0, True, ''))


def aliases(acc, n, prefix, exact):
    for w in sub(AL, n, prefix, exact):
        text = '\n'.join(w) + '\n'
        for kw in (dict(), dict(ordered=True, no_list_coherence=True,
                                no_links=True)):
            for a, b in (('github', 'commonmarker'), ('cmark', 'goldmark')):
                acc.transitions += 1
                acc.ok([text, kw, b], build(text, parser=b, **kw),
                       build(text, parser=a, **kw),
                       repro_build(text, parser=b, **kw))
        if acc.full():
            return


def texts(acc, n, prefix, exact):
    f = api().get_md_header
    for w in sub('a <b>*_[`\\!-', n, prefix, exact):
        s = '# ' + ''.join(w)
        for a, b in (('github', 'commonmarker'), ('cmark', 'goldmark')):
            acc.transitions += 1
            acc.ok([s, b], call(f, s, {}, 6, b), call(f, s, {}, 6, a),
                   repro_call('api.get_md_header(%r, {}, 6, %r)' % (s, b)))
        if acc.full():
            return


def functions(acc):
    """The other functions that take a parser name."""
    a = api()
    pairs = (('github', 'commonmarker'), ('cmark', 'goldmark'))
    fences = [''.join(w) for n in range(6)
              for w in itertools.product(' `~a', repeat=n)]
    html = [x + y for x, y in itertools.product(
        ['<b>', '<title>', '<SCRIPT>', '<!-- a -->', '<?a?>', '<!A b>',
         '<!a>', '<![CDATA[a]]>', '</xmp>', '<a b=c>', '<b', '>', 'x'],
        repeat=2)]
    for x, y in pairs:
        for s in fences:
            acc.transitions += 1
            acc.ok([s, y, 'fence'], call(a.is_opening_code_fence, s, y),
                   call(a.is_opening_code_fence, s, x))
            acc.ok([s, y, 'close'],
                   call(a.is_closing_code_fence, s, '```', False, y),
                   call(a.is_closing_code_fence, s, '```', False, x))
        for s in html:
            acc.transitions += 1
            acc.ok([s, y, 'html'], call(a.remove_html_tags, s, y),
                   call(a.remove_html_tags, s, x))
            acc.ok([s, y, 'anchor'], call(a.build_anchor_link, s, {}, y),
                   call(a.build_anchor_link, s, {}, x))
        # numbers and link labels have the same limits
        for n in (999999998, 999999999, 10**9):
            def idx(p):
                c = {'h1': n}
                a.increase_index_ordered_list(c, 1, 1, p)
                return c
            acc.ok([n, y], call(idx, y), call(idx, x))
        for n in (998, 999, 1000):
            t = '# ' + 'x' * n
            acc.ok([n, y, 'label'], build(t, parser=y), build(t, parser=x),
                   repro_build(t, parser=y))


def tasks(tier):
    yield 'spellings', ()
    yield 'invalid', ()
    yield 'functions', ()
    for p in PARSERS:
        yield 'processes', (p, )
        yield 'numbers', (p, )
        for i in range(3):
            for j in range(len(POST[tier][0])):
                yield 'options', (tier, p, i, j)
    for w, exact in prefixes(AL, 2):
        yield 'aliases', (N[tier], w, exact)
    for w, exact in prefixes('a <b>*_[`\\!-', 1):
        yield 'texts', (4, w, exact)

"""P17: several files, each its own TOC; an error changes none."""
import itertools
import os
import shutil

from . import model as M
from .core import api, call, cli, get, model, prefixes, put, sub, workdir

MK = '<!--TOC-->'
GOOD = {
    'dup': '# a\n' + MK + '\n# a\n# b\n',
    'h2': MK + '\n\n- [old](#old)\n\n' + MK + '\n## b\n### c\n## a\n',
    'fence': '# a\n' + MK + '\n```\n# a\n',
    'empty': '',
    'cut': 'x\n' + MK + '\n' + MK + '\n# a\n## b',
    'deep': '# a\n## b\n### c\n#### d\n##### e\n###### f\n' + MK + '\n',
    'nomark': '# q\n# q\n## b\n',
}
BAD = {
    'missing': None,
    'incoherent': '# a\n### b\n' + MK + '\n',
    'rises': '## a\n' + MK + '\n# b\n',
    'nolabel': MK + '\n# a\n#\n',
    'long': '# ' + 'x' * 1000 + '\n' + MK + '\n',
    'directory': None,
}
KINDS = list(GOOD) + list(BAD)
OPTS = [
    (dict(), []),
    (dict(ordered=True, list_marker='.'), ['-o', '.']),
    (dict(parser='cmark', constant_ordered_list=True), ['-c']),
    (dict(parser='gitlab', list_marker='*'), ['-u', '*']),
]
N = {'quick': (4, 3, 5), 'thorough': (5, 4, 6)}
BOUNDS = {
    t: {
        'library': 'every tuple of up to %d of %d good and %d bad files, %d '
        'option sets, each alone and together, with and without links and '
        'skipped lines' % (n[0], len(GOOD), len(BAD), len(OPTS)),
        'command line': 'every tuple of up to %d files and standard input, '
        'printing and in place, every option set; all tuples of 3 files '
        'with at most one bad one in place' % n[1],
        'names': 'every tuple of %d of 13 ways to name 9 files (equal base '
        'names, links, relative and absolute names)' % (3 if t == 'quick'
                                                       else 4),
        'long': 'every tuple of %d of 4 good files; 1..40 and 300 files' %
        n[2],
        'mismatch': 'all numbers of files and tables up to 4'
    }
    for t, n in N.items()
}


def files(w):
    """Creates the files of a tuple; the names."""
    d = os.path.join(workdir(), 'many')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    out = []
    for i, k in enumerate(w):
        if k == '-':
            out.append('-')
            continue
        p = os.path.join(d, '%d.md' % i)
        if k == 'directory':
            os.mkdir(p)
        elif k != 'missing':
            put(p, GOOD.get(k, BAD.get(k)))
        out.append(p)
    return d, out


def snapshot(d):
    return {
        e: 'directory' if os.path.isdir(os.path.join(d, e)) else get(
            os.path.join(d, e))
        for e in sorted(os.listdir(d))
    }


def single(k, kw):
    """Model of one file: ('ok', toc) or ('exc', ...)."""
    if k in ('missing', 'directory'):
        return ('exc', k)
    return model(M.toc, M.split_file(GOOD.get(k, BAD.get(k)))[0], **kw)


def rep(w, kw):
    return ('files = %r\nfrom md_toc import api\nnames = []\nfor i, t in '
            'enumerate(files):\n    names.append("%%d.md" %% i)\n    if t is '
            'not None: open(names[-1], "w").write(t)\ntry:\n    got = api.'
            'build_multiple_tocs(names, **%r)\nexcept Exception as e:\n    '
            'got = repr(e)' % ([GOOD.get(k, BAD.get(k)) for k in w], kw))


def library(acc, n, prefix, exact):
    for w in sub(KINDS, n, prefix, exact):
        if not w:
            continue
        d, names = files(w)
        before = snapshot(d)
        for kw, _ in OPTS if len(w) < 3 else OPTS[:2]:
            for extra in (dict(keep_header_levels=6),
                          dict(no_links=True), dict(skip_lines=1)):
                if len(w) > 2 and 'skip_lines' not in extra:
                    continue
                k2 = dict(kw, **extra)
                each = [single(k, k2) for k in w]
                got = call(api().build_multiple_tocs, list(names), **k2)
                acc.transitions += len(w)
                if all(e[0] == 'ok' for e in each):
                    want = ('ok', [e[1] for e in each])
                else:
                    # any of the bad files may be the one that is reported
                    if got[0] == 'exc':
                        got = ('exc', '')
                    want = ('exc', '')
                acc.ok([w, k2], got, want, rep(w, k2))
        acc.ok([w, 'files'], snapshot(d), before)
        if acc.full():
            return


def same(acc):
    """One file named several times."""
    for k in GOOD:
        for n in (2, 3):
            d, names = files((k, ))
            for kw, _ in OPTS:
                e = single(k, kw)
                acc.transitions += n
                acc.ok([k, n, kw], call(api().build_multiple_tocs, names * n,
                                        **kw), ('ok', [e[1]] * n))


NAMES = ['x.md', './x.md', 's/x.md', 's/y.md', '../n/x.md', 's/../x.md',
         'link.md', 's/link.md', 'X.md', 's t/\u00e9 x.md', 'x', '*.md',
         '%s.md']


def named(acc, first, n):
    """Ways to name files: equal base names, links, relative names."""
    top = os.path.join(workdir(), 'n')
    docs = {
        'x.md': '# a\n' + MK + '\n# a\n', 's/x.md': '# b\n' + MK + '\n## a\n',
        's/y.md': MK + '\n# c\n', 'X.md': '# d\n# d\n' + MK + '\n',
        's t/\u00e9 x.md': '# e\n' + MK + '\n', 'x': '# f\n' + MK + '\n',
        '*.md': '# g\n' + MK + '\n', '%s.md': '# h\n' + MK + '\n',
        's/t.md': '# i\n' + MK + '\n',
    }
    old = os.getcwd()

    def fresh():
        shutil.rmtree(top, ignore_errors=True)
        for d in ('s', 's t'):
            os.makedirs(os.path.join(top, d))
        for k, v in docs.items():
            put(os.path.join(top, k), v)
        os.symlink('s/t.md', os.path.join(top, 'link.md'))
        os.symlink('../x.md', os.path.join(top, 's/link.md'))

    def text(name):
        return os.path.relpath(os.path.realpath(os.path.join(top, name)),
                               os.path.realpath(top))

    fresh()
    try:
        for rest in itertools.product(NAMES, repeat=n - 1):
            for absolute in (False, True):
                os.chdir(top)
                w = (NAMES[first], ) + rest
                names = [os.path.join(top, k) if absolute else k for k in w]
                want = [M.toc(M.split_file(docs[text(k)])[0]) for k in w]
                acc.transitions += n
                acc.ok([names], call(api().build_multiple_tocs, list(names)),
                       ('ok', want))
                # a file may be written twice: the same table again
                got = cli(['-p', 'github'] + names)
                exp = dict(docs)
                for k, t in zip(w, want):
                    exp[text(k)] = M.write(exp[text(k)], t, MK)
                after = {k: get(os.path.join(top, k)).decode() for k in docs}
                acc.ok([names, 'in place'], (got, after), ((0, '', ''), exp))
                for k in set(map(text, w)):
                    put(os.path.join(top, k), docs[k])
            if acc.full():
                return
        acc.ok(['links'], [os.path.islink(os.path.join(top, k)) for k in
                           ('link.md', 's/link.md')], [True, True])
    finally:
        os.chdir(old)


def long(acc, n):
    ks = ['dup', 'h2', 'fence', 'cut']
    for w in itertools.product(ks, repeat=n):
        d, names = files(w)
        want = [single(k, {})[1] for k in w]
        got = call(api().build_multiple_tocs, list(names))
        acc.transitions += n
        acc.ok([w], got, ('ok', want), rep(w, {}))
        r = call(api().write_strings_on_files_between_markers, list(names),
                 want, MK)
        acc.ok([w, 'written'], (r, [get(p).decode() for p in names]),
               (('ok', False), [M.write(GOOD[k], t, MK)
                                for k, t in zip(w, want)]))
        if acc.full():
            return


def crowd(acc):
    """Many files in one call."""
    ks = list(GOOD)
    for n in list(range(1, 40)) + [63, 64, 65, 66, 100, 128, 130, 257, 300]:
        w = [ks[(i * i + i // 3) % len(ks)] for i in range(n)]
        d, names = files(w)
        want = [single(k, {})[1] for k in w]
        acc.transitions += n
        acc.ok([n], call(api().build_multiple_tocs, list(names)),
               ('ok', want), rep(w, {}))
        tabs = ['- t%d\n' % i for i in range(n)]
        r = call(api().write_strings_on_files_between_markers, list(names),
                 list(tabs), MK)
        acc.ok([n, 'written'], (r, [get(p).decode() for p in names]),
               (('ok', all(M.existing(M.split_file(GOOD[k])[0], MK) ==
                           t.strip() for k, t in zip(w, tabs))),
                [M.write(GOOD[k], t, MK) for k, t in zip(w, tabs)]))
        # one bad file at the end
        d, names = files(w + ['nolabel'])
        before = snapshot(d)
        st, out, err = cli(['-p', 'github'] + names)
        acc.ok([n, 'bad'], (st, out, snapshot(d)), (1, '', before))
        d, names = files(w)
        st, out, err = cli(['-p', 'github'] + names)
        acc.ok([n, 'command'], (st, out, [get(p).decode() for p in names]),
               (0, '', [M.write(GOOD[k], single(k, dict(
                   keep_header_levels=6))[1], MK) for k in w]))
        if acc.full():
            return


def command(acc, w):
    if w.count('-') > 1:
        return
    for kw, argv in OPTS:
        kw = dict(kw, keep_header_levels=6)
        parser = kw.get('parser', 'github')
        for extra in ([], ['-d'], ['-l']):
            if extra and kw != dict(keep_header_levels=6):
                continue
            k2 = dict(kw, no_links='-l' in extra)
            each = [single('dup' if k == '-' else k, k2) for k in w]
            fine = all(e[0] == 'ok' for e in each)
            for place in (False, True):
                if place and len(w) > 2 and extra:
                    continue
                d, names = files(w)
                before = snapshot(d)
                if not place and '-' in w and '-d' in extra:
                    continue
                st, out, err = cli(
                    (['-p'] if place else []) + extra + [parser] + names +
                    argv, stdin=GOOD['dup'].encode())
                acc.transitions += len(w)
                case = [w, 'in place' if place else 'print', extra, parser,
                        argv]
                r = ('import subprocess\nfiles = %r\nnames = []\nfor i, t in '
                     'enumerate(files):\n    names.append("-" if t == "-" '
                     'else "%%d.md" %% i)\n    if t is not None and t != "-":'
                     ' open(names[-1], "w").write(t)\nr = subprocess.run('
                     '[sys.executable, "-m", "md_toc"] + %r + names + %r, '
                     'input=%r, text=True, stdout=-1, env={**os.environ, '
                     '"PYTHONPATH": sys.path[0]})\ngot = (r.returncode, '
                     'r.stdout, [open(n).read() for n in os.listdir(".")])' %
                     ([k if k == '-' else GOOD.get(k, BAD.get(k))
                       for k in w], (['-p'] if place else []) + extra +
                      [parser], argv, GOOD['dup']))
                after = snapshot(d)
                if not fine or (place and '-' in w):
                    acc.ok(case, (st, after), (1, before), r)
                    if not place:
                        acc.ok(case, out, '', r)
                    continue
                tocs = [e[1] for e in each]
                docs = [GOOD.get(k, BAD.get(k)) for k in w]
                eq = all(M.existing(M.split_file(t)[0], MK) == x.strip()
                         for t, x in zip(docs, tocs) if t is not None)
                want = 128 if '-d' in extra and not eq else 0
                if place:
                    exp = {
                        os.path.basename(p): M.write(t, x, MK).encode()
                        for p, t, x in zip(names, docs, tocs)
                    }
                    acc.ok(case, (st, after, out), (want, exp, ''), r)
                else:
                    acc.ok(case, (st, after, out),
                           (want, before, ''.join(tocs)), r)
                if acc.full():
                    return


def mismatch(acc):
    for n in range(5):
        for m in range(5):
            if n == m:
                continue
            d, names = files(('dup', 'h2', 'cut', 'deep')[:n])
            before = snapshot(d)
            got = call(api().write_strings_on_files_between_markers,
                       list(names), ['- z\n'] * m, MK)
            acc.transitions += 1
            acc.ok([n, m], (got[0], snapshot(d)), ('exc', before),
                   'open("a.md", "w").write(%r)\nfrom md_toc import api\ntry:'
                   '\n    api.write_strings_on_files_between_markers(["a.md"]'
                   '* %d, ["- z\\n"] * %d, %r)\nexcept Exception as e:\n    '
                   'print(repr(e))\ngot = open("a.md").read()' %
                   (GOOD['dup'], n, m, MK))
    # standard input among the files
    for w in itertools.product(('dup', 'h2', '-'), repeat=3):
        if '-' not in w:
            continue
        d, names = files(w)
        before = snapshot(d)
        got = call(api().write_strings_on_files_between_markers, list(names),
                   ['- z\n'] * 3, MK)
        acc.transitions += 1
        acc.ok([w], (got, snapshot(d)),
               (('exc', 'StdinIsNotAFileToBeWritten'), before))


def tasks(tier):
    n, c, l = N[tier]
    yield 'mismatch', ()
    yield 'same', ()
    yield 'crowd', ()
    yield 'long', (l, )
    for i in range(len(NAMES)):
        yield 'named', (i, 3 if tier == 'quick' else 4)
    seen = set()
    for k in range(1, c + 1):
        for w in itertools.product(KINDS + ['-'], repeat=k):
            seen.add(w)
            yield 'command', (w, )
    for w in itertools.product(['dup', 'h2', 'cut', 'missing', 'nolabel', '-',
                                'rises'], repeat=3):
        if w not in seen and sum(k in BAD or k == '-' for k in w) == 1:
            yield 'command', (w, )
    for w, exact in prefixes(KINDS, 2):
        yield 'library', (n, w, exact)

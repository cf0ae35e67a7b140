"""Reference model of md-toc, written from the CommonMark specification, the
documentation and the property statements, not from the implementation.

Everything here is deliberately simple (regular expressions, quadratic
searches): it is the oracle, not a product.
"""
import functools
import re
import unicodedata

GFM = ('github', 'commonmarker')
CM = ('github', 'commonmarker', 'gitlab', 'cmark', 'goldmark')
ALL = CM + ('redcarpet', )


class Refused(Exception):
    """The documented exceptions; args[0] is the name."""


EMPTY = 'GithubEmptyLinkLabel'
OVERFLOW_LABEL = 'GithubOverflowCharsLinkLabel'
OVERFLOW_NUMBER = 'GithubOverflowOrderedListMarker'
INCOHERENT = 'TocDoesNotRenderAsCoherentList'


# ---------------------------------------------------------------- headings
def atx(line, parser):
    """None, or (level, text) of a line without its line ending."""
    if parser == 'redcarpet':
        m = re.match('#{1,6}', line)
        if not m:
            return None
        rest = line[m.end():]
        if rest and rest[0] != ' ':
            return None
        rest = rest.lstrip(' ')
        rest = rest.rstrip('#').rstrip(' ')
        if not rest:
            return None
        return m.end(), rest
    sp = ' ' if parser in GFM else ' \t'
    m = re.match(' {0,3}(#{1,6})(?!#)', line)
    if not m:
        return None
    rest = line[m.end():]
    if rest and rest[0] not in sp:
        return None
    body = rest.strip(sp)
    # the optional closing sequence: a run of # preceded by a blank (or alone)
    k = len(body.rstrip('#'))
    if k < len(body) and (k == 0 or body[k - 1] in sp):
        body = body[:k].rstrip(sp)
    return len(m.group(1)), body


BLANK = ' \t\n\x0b\x0c\r'


def label(text, parser, no_links):
    """The heading text as shown in the TOC."""
    if no_links:
        return text
    if parser == 'redcarpet':
        return text + ' ' * ((len(text) - len(text.rstrip('\\'))) % 2)
    if text.endswith('\\'):
        text += ' '
    if text.strip(BLANK) == '':
        raise Refused(EMPTY)
    if len(text) > 999:
        raise Refused(OVERFLOW_LABEL)
    out = []
    bs = 0
    for c in text:
        if c in '[]' and bs % 2 == 0:
            out.append('\\')
        bs = bs + 1 if c == '\\' else 0
        out.append(c)
    return ''.join(out)


# ------------------------------------------------------------------ fences
def fence_open(line, parser):
    """None, or the opening run of fence characters."""
    if parser == 'redcarpet':
        return None
    m = re.match(' {0,3}(`{3,}|~{3,})', line)
    if not m:
        return None
    run = m.group(1)
    if run[0] == '`' and '`' in line[m.end():]:
        return None
    return run


def fence_close(line, run, parser):
    sp = ' ' if parser in GFM else ' \t'
    m = re.match(' {0,3}(' + re.escape(run[0]) + '+)', line)
    return bool(m and len(m.group(1)) >= len(run)
                and line[m.end():].strip(sp) == '')


def headings(lines, parser, skip=0):
    """[(level, text)] of all the headings, in order."""
    out = []
    run = None
    for line in lines[skip:]:
        if run is not None:
            if fence_close(line, run, parser):
                run = None
            continue
        run = fence_open(line, parser)
        if run is None:
            h = atx(line, parser)
            if h:
                out.append(h)
    return out


# ------------------------------------------------------------------- html
_TN = '[A-Za-z][A-Za-z0-9-]*'
_DISALLOWED = ('title', 'textarea', 'style', 'xmp', 'iframe', 'noembed',
               'noframes', 'script', 'plaintext')


def _html_at(s, i, parser, declarations=None):
    """End of the inline HTML construct starting at s[i] == '<', or None."""
    sp = '[ \t]'
    attr = (sp + '+[A-Za-z_:][A-Za-z0-9:._-]*'
            '(?:' + sp + '*=' + sp +
            '*(?:[^ \t\r\n\x0b\x0c"\'=<>`]+|\'[^\']*\'|"[^"]*"))?')
    m = re.compile('<(' + _TN + ')(?:' + attr + ')*' + sp +
                   '*/?>').match(s, i)
    if not m:
        m = re.compile('</(' + _TN + ')' + sp + '*>').match(s, i)
    if m:
        if parser in GFM and m.group(1).lower() in _DISALLOWED:
            return None
        return m.end()
    m = re.compile(r'<\?.*?\?>', re.S).match(s, i)
    if m:
        return m.end()
    if s.startswith('<!--', i):
        j = s.find('--', i + 4)
        body = s[i + 4:j] if j >= 0 else None
        if j >= 0 and s.startswith('-->', j) and not body.startswith(
            ('>', '->')):
            return j + 3
        return None
    m = re.compile(r'<!\[CDATA\[.*?\]\]>', re.S).match(s, i)
    if m:
        return m.end()
    m = re.compile(r'<![A-Z]+[ \t]+[^>]*>' if
                   (declarations or parser) in GFM else r'<![A-Za-z][^>]*>').match(s, i)
    if m:
        return m.end()
    return None


def code_span(s, i):
    """(end, whether it is a code span) of the backticks at s[i]."""
    j = i
    while j < len(s) and s[j] == '`':
        j += 1
    for m in re.finditer('`+', s[j:]):
        if len(m.group()) == j - i:
            return j + m.end(), True
    return j, False


def strip_html(s, parser):
    return ''.join(s[a:b] for a, b in _outside_html(s, parser))


def _outside_html(s, parser):
    """The parts of a text between the HTML constructs."""
    out = []
    i = 0
    while i < len(s):
        e = i + 1
        if s[i] == '\\' and s[i + 1:i + 2] in _PUNCT:
            e = i + 2
        elif s[i] == '`':
            e = code_span(s, i)[0]
        elif s[i] == '<':
            h = _html_at(s, i, parser)
            if h is not None:
                i = h
                continue
        out.append((i, e))
        i = e
    return out


# --------------------------------------------------------------- emphasis
_PUNCT = frozenset('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')


def _is_space(c):
    return c is None or c in '\t\n\x0c\r' or unicodedata.category(c) == 'Zs'


def _is_punct(c):
    return c is not None and (c in _PUNCT
                              or unicodedata.category(c)[0] == 'P')


_AUTOLINK = re.compile(
    "<(?:[A-Za-z][A-Za-z0-9.+-]{1,31}:[^\x00-\x20<>]*|"
    "[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@"
    "[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
    "(?:[.][a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")


def _blanks(s, i):
    while i < len(s) and s[i] in BLANK:
        i += 1
    return i


def _destination(s, i):
    """End of the link destination at s[i], or None."""
    if s[i:i + 1] == '<':
        m = re.compile(r'<(?:\\.|[^\\<>\n])*>', re.S).match(s, i)
        return m.end() if m else None
    depth = 0
    while i < len(s) and s[i] not in BLANK:
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] in _PUNCT:
            i += 1
        elif s[i] == '(':
            depth += 1
            if depth > 32:
                return None
        elif s[i] == ')':
            if depth == 0:
                break
            depth -= 1
        i += 1
    return None if depth else i


_TITLE = re.compile(r'''"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|'''
                    r'''\((?:\\.|[^()\\])*\)''', re.S)


def _inline_link(s, i):
    """End of what follows a link text, "(destination title)", or None."""
    if s[i:i + 1] != '(':
        return None
    e = _destination(s, _blanks(s, i + 1))
    if e is None:
        return None
    k = _blanks(s, e)
    if k > e:
        m = _TITLE.match(s, k)
        if m:
            k = _blanks(s, m.end())
    return k + 1 if s[k:k + 1] == ')' else None


def strip_emphasis(s):
    s = s.replace('\x00', '')
    dead = _emphasis(s, 'github')
    return ''.join(c for i, c in enumerate(s) if i not in dead)


def _emphasis(s, parser):
    """Places of exactly the * and _ that delimit (strong) emphasis (0.30).

    Knows backslash escapes, code spans, inline links and images, autolinks
    and tags. There are no link reference definitions.
    """
    n = len(s)
    i = 0
    runs = []
    brackets = []  # [image, number of the runs before it, active]
    dead = set()
    while i < n:
        c = s[i]
        if c == '\\' and i + 1 < n and s[i + 1] in _PUNCT:
            i += 2
        elif c == '`':
            i = code_span(s, i)[0]
        elif c == '<':
            m = _AUTOLINK.match(s, i)
            i = m.end() if m else _html_at(s, i, 'cmark', parser) or i + 1
        elif c == '!' and s[i + 1:i + 2] == '[':
            brackets.append([True, len(runs), True])
            i += 2
        elif c == '[':
            brackets.append([False, len(runs), True])
            i += 1
        elif c == ']':
            i += 1
            if not brackets:
                continue
            image, bottom, active = brackets.pop()
            e = _inline_link(s, i) if active else None
            if e is None:
                continue
            _pair(runs, bottom, dead)
            for r in runs[bottom:]:
                r['alive'] = False
            if not image:
                for x in brackets:
                    if not x[0]:
                        x[2] = False
            i = e
        elif c in '*_':
            j = i
            while j < n and s[j] == c:
                j += 1
            before = s[i - 1] if i else None
            after = s[j] if j < n else None
            left = not _is_space(after) and (not _is_punct(after)
                                             or _is_space(before)
                                             or _is_punct(before))
            right = not _is_space(before) and (not _is_punct(before)
                                               or _is_space(after)
                                               or _is_punct(after))
            if c == '_':
                op = left and (not right or _is_punct(before))
                cl = right and (not left or _is_punct(after))
            else:
                op, cl = left, right
            runs.append(
                dict(a=i, b=j, c=c, op=op, cl=cl, orig=j - i, alive=True))
            i = j
        else:
            i += 1
    _pair(runs, 0, dead)
    return dead


def _pair(runs, bottom, dead):
    """Match the delimiter runs from the number bottom on."""
    ci = bottom
    while ci < len(runs):
        r = runs[ci]
        if not (r['alive'] and r['cl'] and r['b'] > r['a']):
            ci += 1
            continue
        found = None
        for oi in range(ci - 1, bottom - 1, -1):
            o = runs[oi]
            if not (o['alive'] and o['op'] and o['c'] == r['c']
                    and o['b'] > o['a']):
                continue
            if (o['cl'] or r['op']) and (
                    o['orig'] + r['orig']) % 3 == 0 and not (
                        o['orig'] % 3 == 0 and r['orig'] % 3 == 0):
                continue
            found = oi
            break
        if found is None:
            if not r['op']:
                r['alive'] = False
            ci += 1
            continue
        o = runs[found]
        k = 2 if o['b'] - o['a'] >= 2 and r['b'] - r['a'] >= 2 else 1
        for x in range(k):
            dead.add(o['b'] - 1 - x)
            dead.add(r['a'] + x)
        o['b'] -= k
        r['a'] += k
        for x in runs[found + 1:ci]:
            x['alive'] = False
        if o['a'] == o['b']:
            o['alive'] = False
        if r['a'] == r['b']:
            r['alive'] = False


# ---------------------------------------------------------------- anchors
def is_word(c):
    """Word character of a slug: alphanumeric or underscore."""
    return c == '_' or c.isalnum()


def slug_plain(text, parser):
    """Slug of a text without markup."""
    t = ''.join(c for c in text.strip(' ').lower()
                if is_word(c) or c in '- ').replace(' ', '-')
    if parser == 'gitlab':
        t = re.sub('-+', '-', t)
    return t


@functools.lru_cache(maxsize=1 << 14)
def slug(text, parser):
    if parser == 'redcarpet':
        return slug_redcarpet(text)
    s = text.strip(' ').replace('\x00', '')
    dead = _emphasis(s, parser)
    return slug_plain_nostrip(
        ''.join(s[i] for a, b in _outside_html(s, parser)
                for i in range(a, b) if i not in dead), parser)


def slug_plain_nostrip(t, parser):
    t = ''.join(c for c in t.lower()
                if is_word(c) or c in '- ').replace(' ', '-')
    if parser == 'gitlab':
        t = re.sub('-+', '-', t)
    return t


_STRIPPED = set(" -&+$,/:;=?@\"#{}|^~[]`\\*()%.!'")


def slug_redcarpet(text):
    text = text.strip(' ')
    t = re.sub('</?[A-Za-z][^>]*>|'
               '&(?:#[0-9]+|#[Xx][0-9A-Fa-f]+|[A-Za-z0-9]+);|<|&', '', text)
    out = ''.join('\0' if ord(c) > 127 or c in _STRIPPED else c.lower()
                  for c in t)
    out = re.sub('\0+', '-', out.strip('\0'))
    if out == '' and text:
        h = 5381
        for b in text.encode('utf-8'):
            h = (h * 33 + b) % 2**64
        return 'part-%x' % h
    return out


# ------------------------------------------------------------------- toc
def marker_of(parser, ordered, list_marker):
    closing = ('.', ) if parser == 'redcarpet' else ('.', ')')
    if ordered:
        return list_marker if list_marker in closing else '.'
    return list_marker


def coherent(levels):
    first = prev = None
    for lv in levels:
        if first is None:
            first = prev = lv
        if lv < first or lv > prev + 1:
            return False
        prev = lv
    return True


def toc_entries(lines,
                parser='github',
                keep=3,
                skip=0,
                no_links=False):
    """[(level, label, anchor)] of the listed headings."""
    count = {}
    out = []
    for level, text in headings(lines, parser, skip):
        shown = label(text, parser, no_links)
        a = slug(text, parser)
        if parser != 'redcarpet':
            k = count.get(a, 0)
            count[a] = k + 1
            if k:
                a += '-%d' % k
        if level <= keep:
            out.append((level, shown, a))
    return out


def numbers(levels):
    """Numbers of the items of an ordered list."""
    out = []
    count = {}
    prev = None
    for lv in levels:
        if lv not in count or (prev is not None and prev < lv):
            count[lv] = 0
        count[lv] += 1
        if count[lv] > 999999999:
            raise Refused(OVERFLOW_NUMBER)
        out.append(count[lv])
        prev = lv
    return out


def toc(lines,
        parser='github',
        keep_header_levels=3,
        skip_lines=0,
        no_links=False,
        ordered=False,
        constant_ordered_list=False,
        list_marker='-',
        no_indentation=False,
        no_list_coherence=False,
        newline_string='\n'):
    """The whole TOC, for coherent documents or without indentation.

    Raises Refused with the set of errors that are all acceptable, when
    several errors are in the document the first one in document order.
    """
    ordered = ordered or constant_ordered_list
    mk = marker_of(parser, ordered, list_marker)
    count = {}
    out = []
    first = prev = None
    numcount = {}
    stack = []  # (level, content offset) of the open items
    for level, text in headings(lines, parser, skip_lines):
        shown = label(text, parser, no_links)
        a = slug(text, parser)
        if parser != 'redcarpet':
            k = count.get(a, 0)
            count[a] = k + 1
            if k:
                a += '-%d' % k
        if level > keep_header_levels:
            continue
        if level not in numcount or (prev is not None and prev < level):
            numcount[level] = 0
        numcount[level] += 1
        if first is None:
            first = level
        if not no_indentation and not no_list_coherence:
            if level < first or (prev is not None and level > prev + 1):
                raise Refused(INCOHERENT)
        bullet = mk
        if ordered:
            bullet = '%d%s' % (1 if constant_ordered_list else numcount[level],
                               mk)
        if no_indentation:
            ind = 0
        elif parser == 'redcarpet':
            ind = 4 * (level - first)
        else:
            while stack and stack[-1][0] >= level:
                stack.pop()
            ind = stack[-1][1] if stack else 0
            stack.append((level, ind + len(bullet) + 1))
        body = shown if no_links else '[%s](#%s)' % (shown, a)
        out.append(' ' * ind + bullet + ' ' + body + newline_string)
        prev = level
    return ''.join(out)


# --------------------------------------------------------------- markers
LIST = re.compile(r' {0,3}([-+*]|[0-9]+[.)]) (?![ \t\x0b]).*', re.S)


def find_region(lines, marker):
    """What an in-place update does with a file.

    lines: the lines without line endings. Returns one of
    ('none',), ('one', i), ('pair', i, j), ('insert', i) with 0-based indices.
    """
    marker = marker.strip()
    pos = [i for i, l in enumerate(lines) if l.strip() == marker]
    if not pos:
        return ('none', )
    if len(pos) == 1:
        return ('one', pos[0])
    for i, j in zip(pos, pos[1:]):
        inner = lines[i + 1:j]
        if ''.join(inner).strip(' \t\x0b') == '':
            return ('pair', i, j)
        if LIST.fullmatch(''.join(inner[1:-1])):
            return ('pair', i, j)
    return ('insert', pos[0])


def existing(lines, marker):
    """The TOC a file already holds, as compared by the difference check."""
    r = find_region(lines, marker)
    if r[0] == 'one':
        return marker
    if r[0] == 'pair':
        return '\n'.join(lines[r[1] + 1:r[2]]).strip()
    return ''


def split_file(text):
    """Lines without endings, and whether the last one is terminated."""
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    if text == '':
        return [], True
    if text.endswith('\n'):
        return text[:-1].split('\n'), True
    return text.split('\n'), False


def write(text, toc_text, marker, newline='\n'):
    """Content of the file after an in-place update."""
    lines, term = split_file(text)
    r = find_region(lines, marker)
    if r[0] == 'none':
        return text
    t = toc_text.rstrip().replace('\r\n', '\n').replace('\r', '\n')
    new = [marker, ''] + t.split('\n') + ['', marker]
    if r[0] == 'one':
        before, after = lines[:r[1]], lines[r[1] + 1:]
    elif r[0] == 'pair':
        before, after = lines[:r[1]], lines[r[2] + 1:]
    else:
        before, after = lines[:r[1]], lines[r[1]:]
    out = before + new + after
    res = newline.join(out)
    if term or not after:
        res += newline
    return res

"""C07: how the Lines format is read"""
import pathlib
from sx.files import Scratch
from metatab.rowgen import TextRowGenerator
from .util import *

SP = tuple(' :|\\#=a\t\xa0')
BREAKS = tuple('\n\r\x0b\x0c\x1c\x85\u2028')


def cells(v):
    """Columns of the text after the colon: a pipe separates, unless a backslash is before it"""
    out = []
    cur = ''
    prev = ''
    for ch in v:
        if ch == '|':
            if prev == '\\':
                cur = cur[:-1] + '|'
            else:
                out.append(cur)
                cur = ''
        else:
            cur = cur + ch
        prev = ch
    out.append(cur)
    return out


def tokens(text):
    """The rows of a text, by the rules of the Lines format"""
    out = []
    for line in text.splitlines():
        if line.lstrip().startswith('#'):
            continue
        if line.startswith('===='):
            n = 0
            while n < len(line) and line[n] == '=':
                n += 1
            line = 'Section:' + line[n:]
        i = line.find(':')
        if i < 0:
            out.append([line])
        else:
            out.append([line[:i]] + cells(line[i + 1:].strip()))
    return norm(out)


def norm(rows):
    """What matters in rows: rows without a name are blank, white space around cells and empty cells at the end do not count"""
    out = []
    for r in rows:
        r = [c.strip() for c in r]
        while r and r[-1] == '':
            r.pop()
        if not r or r[0] == '':
            continue
        out.append(r)
    return out


def check_rows(h, text, src=None):
    got = norm(list(TextRowGenerator(src if src is not None else text)))
    want = tokens(text)
    h.observe(got)
    h.prove(h.same(got, want), 'the rows of the text are as the format says', lambda: [text, got, want])


def check_doc(h, text):
    rows = tokens(text)
    for r in rows:
        h.assume(h.neg(r[0].lower() in ('include', 'declare', 'header', 'root', 'root.root')))
    want = attempt(lambda: dview(rowdoc(rows)))
    got = attempt(lambda: dview(MetatabDoc(TextRowGenerator(text))))
    h.observe(got)
    h.prove(h.same(list(got), list(want)), 'a text gives the same document as its rows', lambda: [text, got, want])


def line(h, n, alphabet):
    check_rows(h, h.str('line', n, alphabet))


def framed(h, n, alphabet):
    """Arbitrary text at the critical places of an ordinary line"""
    x = h.str('x', n, alphabet)
    p = h.choose('place', 5)
    t = ['Title: ' + x, x + 'Title: va', 'Ti' + x + 'le: va', '====' + x, 'Section: Abc|De' + x + '|F\\|g|h'][p]
    check_rows(h, t + '\nNext: 1|2\n' + x + 'End: z')


def section_rule(h):
    """A run of = at the start of a line, after white space, or inside"""
    n = h.choose('n', 12)
    w = h.str('w', (0, 2), tuple(' \tA:'))
    v = h.str('v', (0, 2), tuple(' =|:a#'))
    check_rows(h, w + '=' * n + v + 'Name|A|B\nTitle: x')


def breaks(h):
    """Lines are separated by any line break"""
    b = [h.str('b%d' % i, (1, 2), BREAKS) for i in range(2)]
    end = h.str('e', (0, 1), BREAKS)
    check_rows(h, 'Title: a' + b[0] + '# no: thing' + b[1] + 'Other: b|c' + end)


def escapes(h, n):
    """Backslashes and pipes in any order, in name, value and later columns"""
    x = h.str('x', n, tuple('|\\ab'))
    check_rows(h, 'Term: ' + x + 'v\nSection: S|' + x + '\n.Kid: x|' + x)


def many(h, n):
    """Many lines and columns"""
    at = h.choose('at', n)
    c = h.str('c', 1, SP)
    lines = []
    for i in range(n):
        lines.append('Term: v%d|' % i + '|'.join('c%d' % j for j in range(i)) + (c + 'x' if i == at else ''))
        if i == at:
            lines.append('   .Kid: ' + 'word ' * 40 + c + 'end: more | pipes \\| here')
            lines.append('\t# comment: ' + c)
    check_rows(h, '\n'.join(lines))


def docs(h, n):
    """Whole documents: any sequence of lines, with arbitrary characters in them"""
    x = h.str('x', 1, SP)
    L = ['Title: T' + x, '.Kid: k' + x + ': l', 'Title.Sub: a|b' + x, '==== Sec|Col' + x + 'A|B', 'Section: sec', 'Term: v|c1|' + x, '# c' + x, '   ' + x, 'Bare']
    text = ''
    for i in range(n):
        text += h.pick('l%d' % i, L) + '\n'
    check_doc(h, text)


class Handle(object):
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text


class PathLike(object):
    """Something with open(), like pathlib.Path"""

    def __init__(self, text):
        self.text = text

    def open(self, *a, **k):
        return self

    def __enter__(self):
        return Handle(self.text)

    def __exit__(self, *a):
        return False


def sources(h):
    """A text, an open file and a path give the same rows; iterating again gives them again"""
    x = h.str('x', 2, SP + ('\n',))
    text = 'Title: ' + x + '\n==== S|A\nT: 1|' + x + '\n'
    text = text + 'E: \xe9\u0142\n'
    k = h.choose('kind', 4)
    with Scratch(h) as s:
        if k == 3:
            s.put('a.txt', text)
        src = [text, Handle(text), PathLike(text), pathlib.Path(s.path('a.txt'))][k]
        g = TextRowGenerator(src)
        a = norm(list(g))
        b = norm(list(g))
    h.observe(a)
    h.prove(h.same(a, tokens(text)), 'the rows of the text are as the format says', lambda: [text, a])
    h.prove(h.same(a, b), 'rows can be read twice')


JOBS = [
    dict(name='line', fn=line, kw=dict(n=(0, 3), alphabet=BIG), bounds='texts of up to 3 arbitrary characters'),
    dict(name='line-special', fn=line, kw=dict(n=5, alphabet=tuple(' :|\\#=a')), bounds='5 characters out of 7 with a meaning'),
    dict(name='framed', fn=framed, kw=dict(n=(0, 2), alphabet=BIG), bounds='up to 2 arbitrary characters at 5 places'),
    dict(name='framed-special', fn=framed, kw=dict(n=3, alphabet=tuple(' :|\\#=a')), bounds='3 of 7 characters with a meaning at 5 places'),
    dict(name='section', fn=section_rule, bounds='0-11 = signs after up to 2 and before up to 2 characters'),
    dict(name='breaks', fn=breaks, bounds='1-2 line breaks of 7 kinds'),
    dict(name='escapes', fn=escapes, kw=dict(n=5), bounds='5 characters: pipes, backslashes and others'),
    dict(name='many', fn=many, kw=dict(n=14), bounds='14 lines of up to 14 columns'),
    dict(name='docs', fn=docs, kw=dict(n=3), bounds='all sequences of 3 out of 9 lines with an arbitrary special character'),
    dict(name='sources', fn=sources, bounds='4 kinds of source'),
    dict(name='line-deep', fn=line, kw=dict(n=4, alphabet=BIG), tiers=('thorough',), bounds='4 arbitrary characters'),
    dict(name='line-special-deep', fn=line, kw=dict(n=7, alphabet=tuple(' :|\\#=a')), tiers=('thorough',), bounds='7 of 7 characters with a meaning'),
    dict(name='escapes-deep', fn=escapes, kw=dict(n=7), tiers=('thorough',), bounds='7 characters'),
    dict(name='docs-deep', fn=docs, kw=dict(n=4), tiers=('thorough',), bounds='sequences of 4 lines'),
]

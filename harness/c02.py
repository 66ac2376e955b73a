"""C02: which term a child row is attached to"""
from .util import *

WORDS = ['Alpha', 'Beta', 'Alpha.Beta', '.Gamma', 'beta.GAMMA', 'Gamma.Alpha', 'Root.Delta', 'Nope.X']


def check(h, rows):
    out = attempt(rowdoc, rows)
    try:
        want = spec(rows)
    except NoParent:
        want = None
    if want is None:
        h.observe('noparent')
        h.prove(out[0] == 'raised' and out[1] == 'ParserError', 'a child without a parent term is reported', lambda: out[1])
        return None
    h.prove(out[0] == 'ok', 'document loads', lambda: out)
    doc = out[1]
    h.observe(dview(doc))
    h.prove(h.same(dview(doc), want), 'children are attached to the term the format says', lambda: [dview(doc), want])
    consistent(h, doc, 'loaded')
    return doc


def history(h, n, words):
    """Any sequence of n rows"""
    rows = [['Alpha', 'start']]
    for i in range(n):
        rows.append([h.pick('r%d' % i, words), 'v%d' % i])
    check(h, rows)



def blank(h, n, words):
    """Any sequence of n rows with and without values and cells"""
    rows = [['Alpha', 'start']]
    for i in range(n):
        w = h.pick('r%d' % i, words)
        v = h.choose('v%d' % i, 3)
        rows.append([w] if v == 0 else [w, ''] if v == 1 else [w, 'v%d' % i] if w.startswith('.') else [w, 'v%d' % i, '', 'c'])
    check(h, rows)


def symbolic_names(h, k):
    """Two possible parents with arbitrary names and a child row naming an arbitrary parent"""
    a = h.str('a', k, NAME)
    b = h.str('b', k, NAME)
    p = h.str('p', k, NAME)
    c = h.str('c', 1, NAME)
    for s in (a, b, p):
        n = s.strip()
        h.assume(h.neg(n == ''))
        h.assume(h.neg(n.startswith('#')))
        h.assume(h.neg(n.lower() == 'root'))
    h.assume(h.neg(c.strip() == ''))
    check(h, [[a, '1'], [b, '2'], [p + '.' + c, '3'], ['.x', '4']])


def spaces(h):
    """White space around the dot and the name"""
    f = [h.str('s%d' % i, (0, 1), SPACES) for i in range(4)]
    el = h.flag('elided')
    if el:
        n = f[0] + '.' + f[1] + 'Kid' + f[2]
    else:
        n = f[0] + 'Par' + f[3] + '.' + f[1] + 'kID' + f[2]
    check(h, [[f[3] + 'pAR' + f[2], 'p'], ['Other', 'o'], ['Par', 'q'], ['Other', 'o2'], ['Par.Kid', 'k'], [n, f[0] + 'v' + f[1]], ['.Grand', 'g']])


def sections(h, n):
    """Section rows in between: an elided child does not attach across a section boundary, a named one does"""
    rows = [['Alpha', '0']]
    words = ['Beta', 'Alpha.Beta', '.Gamma', 'Beta.Alpha', 'SEC']
    for i in range(n):
        w = h.pick('r%d' % i, words)
        if w == 'SEC':
            rows.append(['Section', h.pick('s%d' % i, ['One', 'root'])])
        else:
            rows.append([w, 'v%d' % i])
    check(h, rows)


def comments(h, n):
    """Blank and comment rows between a parent and its children change nothing"""
    rows = [['Alpha', '0'], ['Beta', '1']]
    for i in range(n):
        x = h.str('x%d' % i, (0, 2), tuple(' #'))
        h.assume(h.any([x.strip() == '', x.strip().startswith('#')]))
        rows.append([x, 'ignored'] if h.flag('w%d' % i) else [x])
        rows.append([h.pick('n%d' % i, ['.Kid', 'Alpha.Kid', 'Beta.Kid']), 'k%d' % i])
    check(h, rows)


def deep(h, n):
    """A chain of explicit children of depth n, with an elided child at any place"""
    at = h.choose('at', n)
    rows = []
    names = ['n' + chr(97 + i % 26) + chr(97 + i // 26) for i in range(n)]
    for i in range(n):
        rows.append([names[i] if i == 0 else names[i - 1] + '.' + names[i], str(i)])
        if i == at:
            rows.append(['.side', 'x'])
    back = h.choose('back', n)
    rows.append([names[back] + '.late', 'y'])
    rows.append(['.later', 'z'])
    check(h, rows)


def args(h, n):
    """Cells beyond the second are children of the row's own term, also when the row is itself a child"""
    rows = [['Section', 'S', h.pick('c0', ['Note', '']), 'Size'], ['Alpha', 'a']]
    for i in range(n):
        rows.append([h.pick('n%d' % i, ['Alpha', 'Alpha.Beta', 'Beta.Gamma' if i else 'Alpha.Gamma']), 'v',
                     h.str('x%d' % i, (0, 1), BIG), h.pick('y%d' % i, ['', 'yy'])])
    rows.append(['.Kid', 'k'])
    check(h, rows)


def wide(h, n):
    """Many columns, one of the cells arbitrary"""
    at = h.choose('at', n)
    x = h.str('x', (0, 2), BIG)
    cols = ['Col' + chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
    cells = ['c%d' % i for i in range(n)]
    cells[at] = x
    check(h, [['Section', 'S'] + cols, ['Alpha', 'a'] + cells, ['.Kid', 'k'], ['Alpha', 'b'] + cells[:at + 1]])


def many_parents(h, n):
    """Many parents of the same name: the most recent one gets the child"""
    at = h.choose('at', n)
    rows = []
    for i in range(n):
        rows.append(['Table', 't%d' % i])
        if i == at:
            rows.append(['Table.Column', 'c'])
            rows.append(['.Type', 'int'])
            rows.append(['Table.Column', 'd'])
    rows.append(['Table.Column', 'e'])
    check(h, rows)


JOBS = [
    dict(name='history', fn=history, kw=dict(n=4, words=WORDS), bounds='all sequences of 4 rows out of 8 forms after a first term'),
    dict(name='blank', fn=blank, kw=dict(n=3, words=['Alpha', 'Beta', 'Alpha.Beta', '.Gamma', 'Beta.Gamma']), bounds='all sequences of 3 rows out of 5 forms, with a value and a cell, an empty value or none'),
    dict(name='names', fn=symbolic_names, kw=dict(k=1), bounds='two terms and a child row with arbitrary one-character names'),
    dict(name='spaces', fn=spaces, bounds='0-1 of 3 white space characters around name parts'),
    dict(name='sections', fn=sections, kw=dict(n=4), bounds='all sequences of 4 rows with section rows (2 names) among 4 forms'),
    dict(name='comments', fn=comments, kw=dict(n=2), bounds='2 blank or comment rows of up to 2 characters'),
    dict(name='deep', fn=deep, kw=dict(n=12), bounds='chains of depth 12, a side child and a late child at any place'),
    dict(name='args', fn=args, kw=dict(n=2), bounds='2 rows with two argument cells'),
    dict(name='wide', fn=wide, kw=dict(n=40), bounds='40 columns, one cell of up to 2 arbitrary characters'),
    dict(name='many-parents', fn=many_parents, kw=dict(n=30), bounds='30 parents of one name'),
    dict(name='history-deep', fn=history, kw=dict(n=6, words=WORDS[:7]), tiers=('thorough',), bounds='all sequences of 6 rows out of 7 forms'),
    dict(name='names-deep', fn=symbolic_names, kw=dict(k=2), tiers=('thorough',), bounds='names of two characters'),
    dict(name='sections-deep', fn=sections, kw=dict(n=6), tiers=('thorough',), bounds='all sequences of 6 rows'),
    dict(name='comments-deep', fn=comments, kw=dict(n=3), tiers=('thorough',), bounds='3 blank or comment rows'),
    dict(name='args-deep', fn=args, kw=dict(n=3), tiers=('thorough',), bounds='3 rows with two argument cells'),
    dict(name='blank-deep', fn=blank, kw=dict(n=4, words=WORDS[:6]), tiers=('thorough',), bounds='4 rows out of 6 forms'),
    dict(name='deep-deep', fn=deep, kw=dict(n=40), tiers=('thorough',), bounds='chains of depth 40'),
]

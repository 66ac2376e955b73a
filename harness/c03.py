"""C03: a property of a term means the same in all notations: argument column, '.Child' row, 'Parent.Child' row; as table
rows or as lines of text"""
from metatab.rowgen import TextRowGenerator
from .util import *

COLS = ['Name', 'Size', 'Unit']


def value(h, name, n, alphabet):
    v = h.str(name, n, alphabet)
    h.assume(h.neg(v.strip() == ''))
    return v


def build(vals, notation, tail):
    """notation[i]: 0 column, 1 elided, 2 explicit"""
    rows = [['Section', 'Things'] + COLS]
    row = ['Thing', 'it', '', '', '']
    for i, v in enumerate(vals):
        if notation[i] == 0:
            row[2 + i] = v
    rows.append(row)
    for i, v in enumerate(vals):
        if notation[i] == 1:
            rows.append(['.' + COLS[i], v])
        elif notation[i] == 2:
            rows.append(['Thing.' + COLS[i], v])
    return rows + tail


def compare(h, a, b):
    h.prove(h.same(dview(a), dview(b)), 'same document whatever the notation', lambda: [dview(a), dview(b)])
    h.prove(h.same(a.as_dict(), b.as_dict()), 'same as dict')
    for c in COLS:
        fa, fb = a.find('thing.' + c), b.find('Thing.' + c)
        h.prove(h.same([t.value for t in fa], [t.value for t in fb]), 'same search results')
        ta, tb = a.find_first('Thing'), b.find_first('Thing')
        h.prove(h.same(ta.get_value(c), tb.get_value(c)), 'same property')
        h.prove(h.same(ta.props, tb.props), 'same properties')
    consistent(h, b, 'loaded')


def notations(h, k, n):
    vals = [value(h, 'v%d' % i, n, BIG) for i in range(k)]
    notation = []
    for i in range(k):
        notation.append(h.choose('n%d' % i, 3))
    for i in range(k - 1):
        h.assume(notation[i] <= notation[i + 1])
    tail = [['Thing', 'other', 'nm'], ['Root.Last', 'z']]
    a = rowdoc(build(vals, [0] * k, tail))
    b = rowdoc(build(vals, notation, tail))
    h.observe(dview(b))
    compare(h, a, b)
    t = b.find_first('Thing')
    for i in range(k):
        h.prove(h.same(t.get_value(COLS[i]), vals[i].strip()), 'property has the trimmed value of its cell')


def text(h, k, n):
    """The same in the Lines format"""
    alphabet = tuple(c for c in NOBREAK if c not in '|\\')
    vals = [value(h, 'v%d' % i, n, alphabet) for i in range(k)]
    how = h.choose('how', 3)
    sec = 'Section: Things | ' + ' | '.join(COLS)
    if how == 0:
        ls = [sec, 'Thing: it | ' + ' | '.join(vals)]
    elif how == 1:
        ls = [sec, 'Thing: it'] + ['    .%s: %s' % (c, v) for c, v in zip(COLS, vals)]
    else:
        ls = [sec, 'Thing: it'] + ['Thing.%s : %s' % (c, v) for c, v in zip(COLS, vals)]
    a = rowdoc(build(vals, [0] * k, []))
    b = MetatabDoc(TextRowGenerator('\n'.join(ls)))
    h.observe(dview(b))
    compare(h, a, b)


def nested(h):
    """Grandchildren: an explicit child row becomes the parent of elided rows after it"""
    v = value(h, 'v', 2, BIG)
    w = value(h, 'w', 1, BIG)
    how = h.choose('how', 3)
    pre = [['Section', 'Things', 'Name'], ['Thing', 'it'], ['Thing.Part', 'p']]
    a = rowdoc([['Section', 'Things', 'Name'], ['Thing', 'it'], ['Thing.Part', 'p', v], ['.Extra', w]])
    if how == 0:
        rows = pre + [['Part.Name', v], ['Part.Extra', w]]
    elif how == 1:
        rows = pre + [['.Name', v], ['.Extra', w]]
    else:
        rows = pre + [['.Name', v], ['PART.extra', w]]
    b = rowdoc(rows)
    h.observe(dview(b))
    h.prove(h.same(dview(a), dview(b)), 'same document whatever the notation', lambda: [dview(a), dview(b)])


def case(h):
    """Capitalisation of the column, of '.child' and of 'parent.child' does not matter"""
    def var(i, w):
        out = ''
        for j, c in enumerate(w):
            out = out + h.str('%s%d' % (i, j), 1, (c.lower(), c.upper()))
        return out
    n1, n2, n3, p = var('a', 'size'), var('b', 'size'), var('c', 'size'), var('p', 'thing')
    docs = [rowdoc([['Section', 'S', n1], ['Thing', 'x', 'v']]), rowdoc([['Section', 'S'], ['Thing', 'x'], ['.' + n2, 'v']]),
            rowdoc([['Section', 'S'], ['Thing', 'x'], [p + '.' + n3, 'v']])]
    views = [[tview(t) for t in d['s'].terms] for d in docs]
    h.observe(views)
    for v in views:
        h.prove(h.same(v, [['root', 'thing', 'x', [['thing', 'size', 'v', []]]]]), 'same document whatever the case')


def long(h, n):
    v = value(h, 'v', 2, BIG)
    big = v + 'x' * n + v
    a = rowdoc(build([big, 'b', 'c'], [0, 0, 0], []))
    b = rowdoc(build([big, 'b', 'c'], [1, 1, 1], []))
    c = rowdoc(build([big, 'b', 'c'], [2, 2, 2], []))
    h.observe(dview(a))
    compare(h, a, b)
    compare(h, a, c)



def cells(h):
    """Cells that are no text, as spreadsheets have them: empty ones make no property, numbers make one with their text"""
    C = [None, '', ' ', 0.0, 5, 'x']
    vals = [h.pick('v%d' % i, C) for i in range(3)]
    v = h.pick('v', [None, '', 0.0, 5, 'x'])
    doc = rowdoc([['Section', 'Things'] + COLS, ['Thing', v] + vals, ['Last', 'z']])
    t = doc.find_first('Thing')
    want = [[c.lower(), str(w)] for c, w in zip(COLS, vals) if w is not None and str(w).strip()]
    got = [[c.record_term_lc, c.value] for c in t.children]
    h.observe(got)
    h.prove(h.same(got, want), 'an empty cell makes no property, any other one with its text', lambda: [got, want])
    h.prove(t.value == (None if v == '' else v), 'the value is kept', lambda: t.value)
    h.prove(doc.find_first_value('Last') == 'z' and len(doc.terms) == 2, 'other terms')


def wide(h, n):
    """Sections of many columns"""
    at = h.choose('at', n)
    how = h.choose('how', 4)
    cols = ['Col' + chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
    v = value(h, 'v', 1, BIG)
    row = ['Thing', 'it'] + [''] * n
    full = how == 3
    if full:
        row = ['Thing', 'it'] + ['c%d' % i for i in range(n)]
    rows = [['Section', 'Things'] + cols, row]
    if how == 0 or full:
        row[2 + at] = v
    elif how == 1:
        rows.append(['.' + cols[at], v])
    else:
        rows.append(['Thing.' + cols[at], v])
    doc = rowdoc(rows + [['Thing', 'other', 'p']])
    t = doc.find_first('Thing')
    h.observe(dview(doc))
    want = [[c.lower(), v.strip() if i == at else 'c%d' % i] for i, c in enumerate(cols) if full or i == at]
    h.prove(h.same([[c.record_term_lc, c.value] for c in t.children], want), 'a cell is the property of its column', lambda: dview(doc))
    h.prove(h.same(t.get_value(cols[at]), v.strip()), 'the property has the value')


def several(h, n):
    """Several terms, each in its own notation, in two sections with different columns"""
    rows, plain = [], []
    for j, cols in enumerate((['Name', 'Size'], ['Size', 'Extra', 'Name'])):
        rows.append(['Section', 'S%d' % j] + cols)
        plain.append(['Section', 'S%d' % j] + cols)
        for i in range(n):
            k = h.choose('k%d%d' % (j, i), 4)
            a, b = 'a%d%d' % (j, i), 'b%d%d' % (j, i)
            vals = {'Name': a, 'Size': b}
            cells_ = [vals.get(c, '') for c in cols]
            plain.append(['Thing', 'it'] + cells_)
            order = [c for c in cols if c in vals]
            if k == 0:
                rows.append(['Thing', 'it'] + cells_)
            elif k == 1:
                rows.append(['thing', 'it'])
                for c in order:
                    rows.append(['.' + c, vals[c]])
            elif k == 2:
                rows.append(['THING', 'it'])
                for c in order:
                    rows.append(['Thing.' + c, vals[c]])
                    rows.append(['# comment'])
            else:
                first_ = [vals[c] if c == order[0] else '' for c in cols]
                rows.append(['Thing', 'it'] + first_)
                rows.append([])
                rows.append(['.' + order[1], vals[order[1]]])
    a, b = rowdoc(plain), rowdoc(rows)
    h.observe(dview(b))
    compare(h, a, b)
    h.prove(h.same(a.as_csv(), b.as_csv()) and h.same(a.as_lines(), b.as_lines()), 'same text')


JOBS = [
    dict(name='notations', fn=notations, kw=dict(k=3, n=1), bounds='3 properties of one arbitrary character in every mix of notations'),
    dict(name='two-chars', fn=notations, kw=dict(k=1, n=3), bounds='one property of 3 arbitrary characters'),
    dict(name='text', fn=text, kw=dict(k=2, n=1), bounds='2 properties of one arbitrary character, as lines'),
    dict(name='nested', fn=nested, bounds='properties of a child'),
    dict(name='case', fn=case, bounds='all capitalisations of column, child and parent'),
    dict(name='long', fn=long, kw=dict(n=400), bounds='values of 404 characters'),
    dict(name='cells', fn=cells, bounds='3 cells and a value, each empty, a number or text'),
    dict(name='wide', fn=wide, kw=dict(n=40), bounds='40 columns, a value of one arbitrary character at any'),
    dict(name='several', fn=several, kw=dict(n=2), bounds='4 terms in two sections, each in 4 notations'),
    dict(name='notations-deep', fn=notations, kw=dict(k=3, n=2), tiers=('thorough',), bounds='3 properties of 2 characters'),
    dict(name='text-deep', fn=text, kw=dict(k=3, n=2), tiers=('thorough',), bounds='3 properties of 2 characters, as lines'),
]

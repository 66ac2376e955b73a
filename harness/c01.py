"""C01: blank and comment rows contribute nothing; every other root-level row is one term, in order, with trimmed,
case-insensitive name and trimmed value"""
from .util import *


def plain_name(h, s):
    """A first cell of a root-level term"""
    h.assume(h.neg('.' in s))
    n = s.strip().lower()
    for w in ('root', 'section', 'header', 'include', 'declare'):
        h.assume(h.neg(n == w))


def check(h, rows):
    doc = rowdoc(rows)
    want = spec(rows)
    h.observe(dview(doc), [[t.join_lc, t.value] for t in doc.terms])
    h.prove(h.same(dview(doc), want), 'document is the rows that are neither blank nor comments, in order')
    h.prove(h.same([[t.record_term_lc, t.value] for t in doc.terms], [[t[1], t[2]] for t in want[0][2]]),
            'terms are listed in row order')
    consistent(h, doc, 'loaded')
    for t, w in zip(doc.terms, want[0][2]):
        h.prove(h.same(t.join_lc, 'root.' + w[1]), 'qualified name')
        h.prove(h.same(t.qualified_term, 'root.' + w[1]), 'qualified name by parent')
    return doc


def one(h, n, v):
    name = h.str('name', n, NAME)
    value = h.str('value', v, BIG)
    plain_name(h, name)
    check(h, [['Title', 'first'], [name, value], ['Last', 'z']])


def widths(h):
    rows = []
    for i in range(3):
        w = h.choose('w%d' % i, 3)
        row = []
        if w > 0:
            s = h.str('n%d' % i, (0, 1), NAME)
            row.append(s)
        if w > 1:
            row.append(h.str('v%d' % i, (0, 1), BIG))
        rows.append(row)
    check(h, rows)


def padded(h, n):
    """White space around names and values, in any amount"""
    p = h.str('p', (0, n), tuple(WS))
    q = h.str('q', (0, n), tuple(WS))
    core = h.str('core', 2, NAME)
    plain_name(h, core)
    val = h.str('val', 2, BIG)
    check(h, [['A', '1'], [p + core + q, q + val + p], ['B', '2']])


def case(h, word):
    """Any capitalisation of a name is the same name"""
    up = word.upper()
    s = ''
    for i in range(len(word)):
        s = s + h.str('c%d' % i, 1, (word[i], up[i]) if word[i] != up[i] else (word[i],))
    doc = check(h, [[s, 'v']])
    h.prove(h.same([t.record_term_lc for t in doc.terms], [word]), 'name is case-insensitive')
    h.prove(doc.find_first(word) is doc.terms[0], 'found by its lower case name')
    h.prove(doc.find_first(word.upper()) is doc.terms[0], 'found by its upper case name')


def long_value(h, n):
    a = h.str('a', (0, 2), BIG)
    m = h.str('m', 2, BIG)
    b = h.str('b', (0, 2), BIG)
    val = a + 'x' * n + m + 'y y' * (n // 3) + b
    check(h, [['Title', val], ['Description' + 'n' * n, b]])


def many(h, n):
    """Many rows; comments and blanks anywhere among them"""
    rows = []
    k = h.choose('at', n)
    for i in range(n):
        if i == k:
            rows.append([h.str('x', (0, 3), tuple(' #a\t')), 'X'])
        rows.append(['T' + 'abcdefghij'[i % 10] * (1 + i // 10), 'v%d' % i])
        if i % 7 == 3:
            rows.append(['# comment'])
        if i % 5 == 2:
            rows.append(['', 'ignored'])
    check(h, rows)


def same_name(h):
    """Repeated rows are all kept, in order, also when equal in name and value"""
    rows = []
    for i in range(4):
        rows.append([h.pick('n%d' % i, ['Note', 'note ', ' NOTE', 'Other', '#Note']), h.str('v%d' % i, 1, BIG)])
    check(h, rows)



def numbers(h):
    """Values that are numbers, as spreadsheets have them"""
    vals = [h.pick('v%d' % i, [0, 5.0, 0.0, None, 'x']) for i in range(3)]
    doc = rowdoc([['A', vals[0]], ['B', vals[1], ''], ['A', vals[2]]])
    got = [[t.record_term_lc, t.value] for t in doc.terms]
    h.observe(got)
    h.prove(h.same(got, [['a', vals[0]], ['b', vals[1]], ['a', vals[2]]]), 'numbers are kept as values, 0 too', lambda: got)


JOBS = [
    dict(name='one', fn=one, kw=dict(n=(0, 3), v=(0, 2)), bounds='3 rows; name of 0-3 and value of 0-2 characters of a '
         '171-character alphabet (all of ASCII but digits and dot; Unicode white space, letters, symbols)'),
    dict(name='widths', fn=widths, bounds='3 rows of 0-2 cells, cells of 0-1 characters'),
    dict(name='padded', fn=padded, kw=dict(n=2), bounds='name and value of 2 characters, 0-2 white space characters on either side'),
    dict(name='case-identifier', fn=case, kw=dict(word='identifier'), bounds='all capitalisations of a 10 letter name'),
    dict(name='long', fn=long_value, kw=dict(n=300), bounds='values of 600 characters, symbolic at both ends and in the middle'),
    dict(name='many', fn=many, kw=dict(n=40), bounds='40 rows, one of them with a symbolic first cell at any position'),
    dict(name='same-name', fn=same_name, bounds='4 rows out of 5 spellings, one character values'),
    dict(name='numbers', fn=numbers, bounds='3 values out of 5'),
    dict(name='one-deep', fn=one, kw=dict(n=(0, 5), v=(0, 4)), tiers=('thorough',), bounds='as one, name up to 5, value up to 4'),
    dict(name='padded-deep', fn=padded, kw=dict(n=4), tiers=('thorough',), bounds='as padded, up to 4 white space characters'),
    dict(name='many-deep', fn=many, kw=dict(n=200), tiers=('thorough',), bounds='as many, 200 rows'),
]

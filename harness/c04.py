"""C04: sections partition the root-level terms; same-named sections are one; columns belong to their section"""
from .util import *


def sname(h, s):
    h.assume(h.neg(s.strip() == ''))


def check(h, rows):
    want = spec(rows)
    doc = rowdoc(rows)
    got = dview(doc)
    h.observe(got)
    h.prove(h.same(got, want), 'sections, columns and terms are those of the rows', lambda: [got, want])
    consistent(h, doc, 'loaded')
    for w, s in zip(want, doc):
        h.prove(doc[w[0]] is s, 'section found by name')
        if w[0].upper().lower() == w[0].lower():
            h.prove(doc[w[0].upper()] is s, 'section found in any case')
            h.prove(doc.get_or_new_section(w[0].upper(), ['X']) is s and doc.get_section(w[0].upper(), None) is s, 'section found in any case')
            h.prove(w[0].upper() in doc, 'section is in the document in any case')
        h.prove(doc.get_or_new_section(w[0].lower()) is s, 'a section that is there is not made again')
        h.prove(w[0] in doc, 'section is in the document')
        h.prove(h.same([tview(t) for t in s], w[2]), 'iterating a section yields its terms')
        h.prove(h.same([tview(t) for t in doc.find('root.*', section=w[0])], w[2]), 'search in a section yields its terms')
    h.prove(h.same([s.name for s in doc[[w[0] for w in want]]], [w[0] for w in want]), 'several sections by name')
    n = 0
    for w in want:
        n += len(w[2])
    h.prove(len(doc.terms) == n, 'nothing lost')
    h.prove(h.same(dview(doc), want), 'looking changes nothing')
    return doc


def names(h, k, m):
    """m section rows with arbitrary names"""
    rows = [['Title', 't']]
    for i in range(m):
        s = h.str('s%d' % i, k, BIG)
        sname(h, s)
        rows.append(['Section', s])
        rows.append(['Term', 'v%d' % i])
    check(h, rows)


def history(h, n):
    """Any sequence of rows: sections opened and re-opened in any case, with columns; terms with cells"""
    rows = []
    for i in range(n):
        w = h.pick('r%d' % i, ['Term', 'Kid', 'One', 'ONE ', 'two', 'Root'])
        if w == 'Term':
            rows.append(['Alpha', 'v%d' % i, 'x', 'y'])
        elif w == 'Kid':
            rows.append(['Alpha', 'v%d' % i])
            rows.append(['.Kid', 'k%d' % i])
        elif w == 'two':
            rows.append(['Section', w, 'Colc', '', 'Cold'])
        elif w == 'One':
            rows.append(['section', w, 'Cola', 'Colb'])
        elif w == 'ONE ':
            rows.append(['SECTION', w, 'Colz'])
        else:
            rows.append(['Section', w])
    check(h, rows)


def reopen(h, n):
    """A section opened again with other columns, or with none; Root too"""
    rows = []
    for i in range(n):
        w = h.pick('s%d' % i, ['S', 's', 'Root', 'ROOT'])
        rows.append(['Section', w] + h.pick('c%d' % i, [[], ['A'], ['', 'B'], ['A', 'B', 'A2']]))
        rows.append(['Term', 'v%d' % i, 'x', '', 'z'])
    check(h, rows)


def columns(h, n):
    """Column names and cells are arbitrary"""
    cols = []
    for i in range(2):
        c = h.str('c%d' % i, n, NAME)
        cols.append(c)
    x = h.str('x', (0, 1), BIG)
    rows = [['Section', 'S'] + cols, ['Term', 'v', x, 'y', 'z'], ['Section', 'T'], ['Term', 'w', x]]
    check(h, rows)


def missing(h):
    """A section that was never opened is not there"""
    s = h.str('s', (1, 2), BIG)
    q = h.str('q', (1, 2), BIG)
    sname(h, s)
    doc = rowdoc([['Section', s], ['Term', 'v']])
    there = h.any([q.lower() == s.strip().lower()])
    is_in = q in doc
    h.observe(bool(is_in))
    if there:
        h.prove(is_in, 'section is in the document')
        h.prove(h.same(doc[q].name, s.strip()), 'section found by name')
    else:
        h.prove(not is_in, 'absent section is not in the document')
        r = attempt(lambda: doc[q])
        h.prove(r[0] == 'raised' and r[1] == 'KeyError', 'absent section raises KeyError')
        h.prove(doc.get_section(q, None) is None, 'absent section gives the default')
        h.prove(h.same(doc.find('*.*', section=q), []), 'search in an absent section finds nothing')
        u = doc.get_or_new_section(q, ['A'])
        h.prove(h.same(dview(doc), [['Root', [], []], [s.strip(), [], [['root', 'term', 'v', []]]], [q.strip(), ['A'], []]]) and u is doc[q], 'it is made if asked for', lambda: dview(doc)) if q.strip() == q else None


def many(h, n):
    """Many sections, one of them re-opened"""
    rows = []
    for i in range(n):
        rows.append(['Section', 'Sec ' + chr(97 + i % 26) + chr(97 + i // 26), 'C' + chr(97 + i % 26)])
        rows.append(['Term', str(i), 'arg'])
    at = h.choose('at', n)
    c = h.str('c', 1, ('s', 'S'))
    rows.append(['Section', c + 'ec ' + chr(97 + at % 26) + chr(97 + at // 26)])
    rows.append(['Late', 'x', 'arg2'])
    check(h, rows)



def wide(h, n):
    """Many columns, also after another section was there in between"""
    at = h.choose('at', n)
    cols = ['Col' + chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
    cols[at] = h.pick('c', ['', 'Extra', 'COLA'])
    cells = ['c%d' % i for i in range(n + 1)]
    back = h.flag('back')
    rows = [['Section', 'S'] + cols, ['Term', 'v'] + cells[:at + 1], ['Section', 'T', 'One'], ['Term', 'w', 'x', 'y']]
    rows += [['Section', 's'], ['Term', 'z'] + cells] if back else [['Section', 'Root'], ['Term', 'z'] + cells]
    check(h, rows)


JOBS = [
    dict(name='names', fn=names, kw=dict(k=2, m=2), bounds='2 sections with arbitrary 2 character names'),
    dict(name='names3', fn=names, kw=dict(k=1, m=3), bounds='3 sections with arbitrary one character names'),
    dict(name='history', fn=history, kw=dict(n=4), bounds='all sequences of 4 out of 6 rows'),
    dict(name='reopen', fn=reopen, kw=dict(n=2), bounds='2 section rows of 4 names and 4 column lists'),
    dict(name='reopen-deep', fn=reopen, kw=dict(n=3), tiers=('thorough',), bounds='3 section rows'),
    dict(name='columns', fn=columns, kw=dict(n=(0, 2)), bounds='2 column names of 0-2 arbitrary characters'),
    dict(name='missing', fn=missing, bounds='names of 1-2 characters'),
    dict(name='many', fn=many, kw=dict(n=26), bounds='26 sections, any of them re-opened'),
    dict(name='wide', fn=wide, kw=dict(n=40), bounds='40 columns, any of them blank or different'),
    dict(name='names-deep', fn=names, kw=dict(k=2, m=3), tiers=('thorough',), bounds='3 sections, 2 characters'),
    dict(name='history-deep', fn=history, kw=dict(n=6), tiers=('thorough',), bounds='all sequences of 6 out of 6 rows'),
    dict(name='many-deep', fn=many, kw=dict(n=150), tiers=('thorough',), bounds='150 sections'),
]

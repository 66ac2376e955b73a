"""Documents for the round trip properties, and the comparison"""
import csv
import io
from metatab.rowgen import TextRowGenerator
from .util import *


def cterm(t):
    """A term, its children grouped by name: writing keeps the order among children of one name"""
    names = []
    for c in t.children:
        if c.record_term_lc not in names:
            names.append(c.record_term_lc)
    names = sorted(names)
    return [t.parent_term_lc, t.record_term_lc, t.value or '',
            [[n, [cterm(c) for c in t.children if c.record_term_lc == n]] for n in names]]


def canon(doc):
    return [[s.name, [c for c in s.property_names], [cterm(t) for t in s.terms]] for s in doc]


def read_csv(text):
    return rowdoc(list(csv.reader(io.StringIO(text, newline=''))))


def read_lines(text):
    return MetatabDoc(TextRowGenerator(text))


def round_trip(h, doc, write, read):
    before = canon(doc)
    text = getattr(doc, write)()
    doc2 = read(text)
    after = canon(doc2)
    h.observe(text, after)
    h.prove(h.same(before, after), 'reading what was written gives the same document', lambda: [before, text, after])
    consistent(h, doc2, 're-read')
    h.prove(h.same(getattr(doc2, write)(), text), 'writing again gives the same text', lambda: [text, getattr(doc2, write)()])
    h.prove(h.same(canon(doc), before), 'writing does not change the document')
    return doc2


def nested_name(v, up=()):
    """Does a term have a descendant of its own name? (The format cannot tell them apart)"""
    n = v[1]
    if n in up:
        return True
    for c in v[3]:
        if nested_name(c, up + (n,)):
            return True
    return False


def make(h, rows):
    try:
        want = spec(rows)
    except NoParent:
        h.assume(False)
    for s in want:
        for t in s[2]:
            h.assume(not nested_name(t))
    return rowdoc(rows)


def val(h, name, n, alphabet, blank=False):
    v = h.str(name, n, alphabet)
    if not blank:
        h.assume(h.neg(v.strip() == ''))
    return v


def values(h, write, read, alphabet, lens):
    """Arbitrary values at every kind of place"""
    l = lens
    rows = [['Title', val(h, 'a', l[0], alphabet, True)], ['Title.Sub', val(h, 'b', l[1], alphabet, True)],
            ['Section', 'Things', 'Name', '', 'Size'],
            ['Thing', val(h, 'c', l[2], alphabet, True), val(h, 'd', l[3], alphabet), '', 'big'],
            ['.Extra', val(h, 'e', l[4], alphabet)],
            ['Thing.Part', val(h, 'f', l[5], alphabet, True), val(h, 'g', l[6], alphabet)],
            ['Last', 'z']]
    round_trip(h, make(h, rows), write, read)


HIST = [['Alpha', 'a'], ['Alpha.Beta', 'b'], ['.Gamma', 'c'], ['Beta.Delta', 'd', 'n'], ['Alpha.Gamma', 'e', '', 'u'],
        ['Section', 'One', 'Delta', 'Unit'], ['Alpha', '', 'cell', 'u2'], ['Alpha.Beta', '', 'dd']]


def history(h, write, read, n, first, hist):
    rows = list(first)
    for i in range(n):
        r = list(h.pick('r%d' % i, hist))
        if r[0] != 'Section' and r[1]:
            r[1] = r[1] + str(i)
        rows.append(r)
    round_trip(h, make(h, rows), write, read)


def wellnamed(h, s, forbid):
    n = s.strip().lower()
    h.assume(h.neg(n == ''))
    h.assume(h.neg(n.startswith('#')))
    h.assume(h.same(s.strip().title().lower(), n))
    h.assume(h.same(n.title().lower(), n))
    for c in forbid:
        h.assume(h.neg(c in s))
    for w in ('root', 'section', 'include', 'declare', 'header'):
        h.assume(h.neg(n == w))


def names(h, write, read, k, forbid, alphabet):
    """Arbitrary names of terms, children, sections and columns"""
    which = h.choose('which', 5)
    a = h.str('a', k, alphabet)
    wellnamed(h, a, forbid)
    x = val(h, 'x', 1, alphabet)
    if which == 0:
        rows = [[a, x], ['Other', '1'], [a, '2']]
    elif which == 1:
        rows = [['Thing', '1'], ['Thing.' + a, x], ['.Note', 'n'], ['Thing', '2'], ['.' + a, 'y'], ['.' + a, 'z']]
    elif which == 2:
        rows = [['Title', 't'], ['Section', a, 'Name'], ['Thing', '1', x], ['Section', 'Other'], ['Thing', '2']]
    elif which == 3:
        rows = [['Section', 'S', a, 'Name'], ['Thing', '1', x, 'nm'], ['Thing', '2', '', 'nm2'], ['.' + a, 'v']]
    else:
        # a parent with an arbitrary name
        rows = [['Title', 't'], [a, '1'], [a + '.Kid', x], ['Kid.Sub', 's'], [a + '.Kid', '3'], ['.Note', 'n']]
        h.assume(h.neg(a.strip().lower() == 'kid'))
    round_trip(h, make(h, rows), write, read)


def rooty(h, write, read):
    """Names that contain the word root, or other words with a meaning"""
    w = ['root', 'Taproot', 'rootroot', 'Roots', 'section', 'header', 'value', '@value', 'name', 'beetroot', 'include']
    p = h.pick('p', [x for x in w if x not in ('root', 'section', 'header', 'include')])
    c = h.pick('c', [x for x in w if x not in ('root',)])
    h.assume(c.lower() != p.lower())
    rows = [['Section', h.pick('s', ['S', 'Value', 'Header', 'Rooty']), 'Note'], [p, '1', 'n'], [p + '.' + c, '2'], ['Title', 't'],
            [p, '3'], ['.' + c, '4']]
    round_trip(h, make(h, rows), write, read)


def repeated(h, write, read, n):
    """Children of one name, with and without children of their own, in any order; in and out of a column"""
    col = h.pick('col', [[], ['Column'], ['Type', 'Column'], ['Type']])
    rows = [['Section', 'Schema'] + col, ['Table', 't']]
    for i in range(n):
        k = h.choose('k%d' % i, 4)
        rows.append(['Table.Column' if k else 'Table.Note', 'c%d' % i])
        if k == 2:
            rows.append(['.Type', 'int'])
        if k == 3:
            rows.append(['.Type', 'str'])
            rows.append(['.Other', 'o'])
            rows.append(['.Other', 'o2'])
    rows.append(['Table', 'u'])
    round_trip(h, make(h, rows), write, read)


def long(h, write, read, n, alphabet):
    a = h.str('a', 1, alphabet)
    b = h.str('b', 1, alphabet)
    v = 'x' * n + a + 'word ' * (n // 5) + b
    rows = [['Title', 'v' + v], ['Section', 'Things' + 's' * 60, 'Name', 'L' + 'o' * 70], ['Thing', v + 'z', 'w' + v + 'w', v + 'q'], ['Thing.Part', v + 'z'],
            ['.' + 'Ab' * 30, v + 'z']]
    round_trip(h, make(h, rows), write, read)


def many(h, write, read, n):
    """Many rows, columns and sections, a child at any place"""
    at = h.choose('at', n)
    rows = []
    for i in range(n):
        if i % 6 == 2:
            rows.append(['Section', 'Sec %d' % i] + ['Col %s' % c for c in 'abcdefghijkl'[:i % 13]])
        rows.append(['Term', 'v%d' % i] + ['c%d' % j for j in range(i % 13)])
        if i == at:
            rows.append(['.Kid', 'k'])
            rows.append(['.Kid', 'k2'])
            rows.append(['Term.Kid', 'k3'])
            rows.append(['.Sub', 's'])
            rows.append(['.Kid2', 's'])
    # numbered children are named by their column's number when the section has no column there
    h.assume(True)
    round_trip(h, make(h, rows), write, read)


def extra(h, write, read, n):
    """Many properties that have no column, some of them in a column, one with properties of its own"""
    at = h.choose('at', n)
    cols = h.choose('cols', 4)
    names_ = ['Prop ' + chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
    rows = [['Section', 'S'] + names_[:cols * 5], ['Thing', 'v'] + ['c%d' % i for i in range(cols * 5)], ['Thing', 'u']]
    kids = ['Thing' + '.' + e for e in names_]
    for i in range(n):
        rows.append([kids[i], 'k%d' % i])
        if i == at:
            rows.append([names_[i] + '.Sub', 's'])
            rows.append([kids[i], 'again'])
    rows.append(['Thing', 'w'])
    round_trip(h, make(h, rows), write, read)


def built(h, write, read, alphabet, n):
    """Documents made with the API, then sorted and edited"""
    doc = MetatabDoc()
    v = [val(h, 'v%d' % i, 1, alphabet) for i in range(3)]
    h.assume(h.all([h.same(x.strip(), x) for x in v]))
    doc['Root'].new_term('Title', v[0], note='n1')
    s = doc.new_section('Resources', ['Name', 'Size'])
    t = s.new_term('Root.Datafile', v[1], name=v[2], size='10', other='oo')
    s.new_term('Datafile', 'second')
    doc.new_section('Empty')
    z = doc.get_or_new_section('Schema')
    tb = z.new_term('Table', 'tab')
    for i in range(n):
        op = h.choose('op%d' % i, 9)
        if op == 0:
            tb.new_child('Column', 'c%d' % i, datatype='int')
        elif op == 1:
            tb.new_child('Column', 'c%d' % i)
        elif op == 2:
            t['name'] = 'new%d' % i
        elif op == 3:
            t['extra'] = 'x%d' % i
        elif op == 4:
            doc.sort_sections(['Schema', 'Resources'])
        elif op == 5:
            s.sort_by_term()
        elif op == 6:
            doc['Root'].get_or_new_term('Version', str(i))
        elif op == 7:
            t['name'] = None
        else:
            doc.sort_sections(['Empty', 'Root'])
    before = canon(doc)
    text = getattr(doc, write)()
    doc2 = read(text)
    # On reading, Root is the first section
    root_first = [s_ for s_ in before if s_[0] == 'Root'] + [s_ for s_ in before if s_[0] != 'Root']
    h.observe(text)
    h.prove(h.same(root_first, canon(doc2)), 'reading what was written gives the same document', lambda: [before, text, canon(doc2)])
    consistent(h, doc2, 're-read')



def text_of(t):
    """What is written of a document with numbers: their text"""
    t[2] = '' if t[2] is None else str(t[2])
    for n, cs in t[3]:
        for c in cs:
            text_of(c)
    return t


def nterm(t):
    c = cterm(t)
    fill(c, t)
    return text_of(c)


def fill(c, t):
    c[2] = t.value
    for n, cs in c[3]:
        ts = [k for k in t.children if k.record_term_lc == n]
        for a, b in zip(cs, ts):
            fill(a, b)


def numbers(h, write, read):
    """Documents made with the API, with values that are numbers: read again, their text"""
    doc = MetatabDoc()
    v = [h.pick('v%d' % i, NUMBERS[:4]) for i in range(3)]
    doc['Root'].new_term('Version', v[0])
    s = doc.new_section('Things', ['Size', 'Width'])
    t = s.new_term('Thing', v[1])
    t['size'] = v[2]
    t['Other'] = v[0]
    u = s.new_term('Thing', 'x', width=v[1])
    u.get_or_new_child('Extra', v[1])
    u['extra'].get_or_new_child('Sub', v[2])
    u.get_or_new_child('Part', '')['Size'] = v[0]
    want = [[e.name, list(e.property_names), [nterm(k) for k in e.terms]] for e in doc]
    text = getattr(doc, write)()
    got = canon(read(text))
    h.observe(text)
    h.prove(h.same(got, want), 'reading what was written gives the text of the numbers', lambda: [text, got, want])


def jobs(write, read, alphabet, forbid, text):
    b = dict(write=write, read=read)
    vb = 'values of {} characters of the alphabet ({} characters) at 7 places'
    J = []
    for name, lens, tiers in (('values-root', (2, 1, 0, 1, 1, 0, 1), 'qt'), ('values-term', (0, 0, 2, 2, 1, 0, 1), 'qt'),
                              ('values-child', (0, 0, 0, 1, 2, 2, 1), 'qt'), ('values-col', (1, 0, 0, 1, 1, 0, 2), 'qt'),
                              ('values-3', (3, 0, 0, 1, 1, 0, 1), 'qt'),
                              ('values-4', (4, 0, 0, 1, 1, 0, 1), 't'), ('values-5', (0, 0, 3, 1, 1, 2, 1), 't')):
        J.append(dict(name=name, fn=values, kw=dict(b, alphabet=alphabet, lens=lens), bounds=vb.format(lens, len(alphabet)),
                      tiers=('quick', 'thorough') if 'q' in tiers else ('thorough',)))
    sec = [['Section', 'Zero', 'Gamma']]
    J += [
        dict(name='history', fn=history, kw=dict(b, n=3, first=[['Alpha', 's']], hist=HIST), bounds='all sequences of 3 out of 8 rows after a first term'),
        dict(name='history-col', fn=history, kw=dict(b, n=3, first=sec + [['Alpha', 's']], hist=HIST), bounds='the same, in a section with a column'),
        dict(name='names', fn=names, kw=dict(b, k=2, forbid=forbid, alphabet=tuple(c for c in alphabet if c in NAME)), bounds='names of 2 arbitrary characters'),
        dict(name='rooty', fn=rooty, kw=b, bounds='reserved words in names'),
        dict(name='repeated', fn=repeated, kw=dict(b, n=3), bounds='3 children of 4 kinds, 4 column layouts'),
        dict(name='long', fn=long, kw=dict(b, n=500, alphabet=alphabet), bounds='values of 1000 characters'),
        dict(name='many', fn=many, kw=dict(b, n=20), bounds='20 terms with up to 12 cells, in 4 sections'),
        dict(name='extra', fn=extra, kw=dict(b, n=30), bounds='30 properties of one term, in up to 15 columns'),
        dict(name='built', fn=built, kw=dict(b, alphabet=alphabet, n=2), bounds='API built, 2 edits out of 9'),
        dict(name='numbers', fn=numbers, kw=b, bounds='3 numbers out of 4 at 8 places of a document made with the API'),
        dict(name='history-deep', fn=history, kw=dict(b, n=5, first=sec + [['Alpha', 's']], hist=HIST), tiers=('thorough',), bounds='all sequences of 5 rows'),
        dict(name='names-deep', fn=names, kw=dict(b, k=3, forbid=forbid, alphabet=tuple(c for c in alphabet if c in NAME)), tiers=('thorough',), bounds='names of 3 characters'),
        dict(name='repeated-deep', fn=repeated, kw=dict(b, n=5), tiers=('thorough',), bounds='5 children'),
        dict(name='many-deep', fn=many, kw=dict(b, n=80), tiers=('thorough',), bounds='80 terms'),
        dict(name='built-deep', fn=built, kw=dict(b, alphabet=alphabet, n=3), tiers=('thorough',), bounds='3 edits'),
    ]
    return J

"""C26: terms, errors and documents know where they come from"""
import os
from sx.files import Scratch
from metatab import MetatabDoc
from metatab.exc import ParserError
from metatab.rowgen import MetatabRowGenerator
from .util import *

FBIG = tuple(c for c in BIG if c not in '\r\n')
KINDS = 8


def row(h, kind, tag, sym, name):
    """A row of a kind; values are unique, so that terms can be told apart"""
    return [[name, tag], [name, tag, tag + '-0', '', tag + '-2'], ['.K', tag], ['T.K', tag, tag + '-0'], [], [sym, 'x', 'y'],
            ['Section', 'S', 'A'], ['Section', 'Q', 'A', '', 'B']][kind]


def origins(rows, file, out):
    """Where each value is: value -> (file, row, column)"""
    n = 0
    for r in rows:
        n += 1
        if not r or r[0].strip() == '' or r[0].strip().startswith('#'):
            continue
        if r[0].strip().lower() == 'section':
            if r[1].lower() not in out:
                out[r[1].lower()] = [file, n, 1]
            continue
        out[r[1]] = [file, n, 1]
        i = 2
        for c in r[2:]:
            if c:
                out[c] = [file, n, i]
            i += 1


def verify(h, doc, want, label):
    got = {}
    for s in doc:
        if s.name != 'Root':
            got[s.name.lower()] = [s.file_name, s.row, s.col]
        for t in s.terms:
            for u in [t] + list(t.descendents):
                got[u.value] = [u.file_name, u.row, u.col]
                ref = u.file_ref().strip()
                h.prove(h.same(ref, u.file_name + ' ' + str(u.row) + ':' + str(u.col)), label + ': the reference of a term', lambda: ref)
    h.observe(sorted(got.items()))
    h.prove(h.same(sorted(got.items()), sorted(want.items())), label, lambda: [sorted(got.items()), sorted(want.items())])


def nothing(h, s):
    """A first cell of a row that is no term"""
    c = s.strip()
    h.assume(c == '' or c.startswith('#'))


def rows(h, k, n):
    """Table rows: every row counts, those that are no terms too"""
    sym = h.str('sym', n, BIG)
    nothing(h, sym)
    name = h.str('name', 1, NAME)
    h.assume(h.neg(name == '#'))
    name = 'N' + name
    rs = [['T', 't']]
    for i in range(k):
        rs.append(row(h, h.pick('k%d' % i, list(range(KINDS))), 'v%d' % i, sym, name))
    want = {}
    origins(rs, 'metatabrowgenerator', want)
    doc = MetatabDoc(MetatabRowGenerator(rs))
    verify(h, doc, want, 'terms know their row and column')
    h.prove(doc.ref is None and doc.path is None and doc.doc_dir is None, 'a document that is not from a file has no file')
    h.prove(doc.mtime > 0, 'the time of a document that is not from a file')


def included(h, k):
    """Files: terms know the file they are from, also after an Include row"""
    a = [['T', 't']]
    b = [['T', 'u']]
    for i in range(k):
        a.append(row(h, h.pick('k%d' % i, list(range(KINDS))), 'v%d' % i, '# c', 'N'))
    at = h.pick('at', list(range(len(a) + 1)))
    b.append(row(h, h.pick('kb', list(range(KINDS))), 'w', ' ', 'M'))
    names = h.pick('names', [['a.csv', 'b.csv', 'a.csv', 'b.csv'], ['My Data.csv', 'sub/b.csv', 'my-data.csv', 'b.csv']])
    a[at:at] = [['Include', names[1]]]
    after = [x for x in a[at + 1:]]
    a.append(['T', 'end', 'end-0'])
    want = {}
    origins(a[:at + 1], names[2], want)
    origins(b, names[3], want)
    shifted = {}
    origins(a, names[2], shifted)
    for key, v in shifted.items():
        if key not in want:
            want[key] = v
    with Scratch(h, {names[0]: a, names[1]: b}) as s:
        p = s.path(names[0])
        doc = MetatabDoc(p)
        verify(h, doc, want, 'terms know their file, row and column')
        h.prove(doc.path == p, 'the path of the document', lambda: doc.path)
        h.prove(doc.doc_dir == os.path.dirname(p), 'the directory of the document', lambda: doc.doc_dir)
        h.prove(doc.mtime == os.path.getmtime(p), 'the time of the file')


def errors(h, k, n):
    """A row without its parent: the error has its number"""
    sym = h.str('sym', n, BIG)
    nothing(h, sym)
    rs = []
    for i in range(k):
        rs.append(row(h, h.pick('k%d' % i, [0, 1, 4, 5, 6]), 'v%d' % i, sym, 'N'))
    p = h.str('p', 1, NAME)
    h.assume(h.neg(p.lower().strip() == 'n') and h.neg(p == '#') and h.neg(p.strip() == ''))
    rs.append([p + '.X', 'v'])
    msg = None
    try:
        MetatabDoc(MetatabRowGenerator(rs))
    except ParserError as e:
        msg = str(e)
    h.observe(msg)
    h.prove(msg is not None and ('row = ' + str(len(rs))) in msg and msg.endswith(str(len(rs))), 'the error has the number of the row', lambda: msg)


def wide(h, k):
    """Many columns and rows"""
    at = h.choose('at', k)
    rs = [[]] * at + [['T', 't']] + [['# c']] * (k - at) + [['Section', 'S'] + ['C' + 'c' * i for i in range(k)], ['U', 'u'] + ['u%d' % i if i != at else '' for i in range(k)]]
    want = {}
    origins(rs, 'metatabrowgenerator', want)
    doc = MetatabDoc(MetatabRowGenerator(rs))
    verify(h, doc, want, 'terms know their row and column')


def made(h, n):
    """Terms that were made, not read"""
    v = h.str('v', n, BIG)
    doc = MetatabDoc(MetatabRowGenerator([['T', 't']]))
    s = doc.new_section('S', ['A'])
    t = s.new_term('X', v, a=v)
    c = t.new_child('Y', v)
    d = t.get_or_new_child('Z', v)
    got = [[u.row, u.col, u.file_ref()] for u in (t, c, d, t.children[0])]
    h.observe(got)
    h.prove(got == [[None, None, '']] * 4, 'terms that were not read have no place', lambda: got)
    h.prove(doc['Root'].terms[0].row == 1, 'terms that were read keep theirs')


def paths(h):
    """The file of a document, however it is named"""
    files = {'d/a.csv': [['T', '1']], 'd/b.txt': [['T: 1']]}
    p = h.pick('p', ['a.csv', './a.csv', '../d/a.csv', 'd/a.csv', 'abs', 'file:'])
    with Scratch(h, files) as s:
        old = os.getcwd()
        os.chdir(s.dir if p.startswith('d') else s.path('d'))
        try:
            full = s.path('d/a.csv')
            doc = MetatabDoc(full if p == 'abs' else 'file://' + full if p == 'file:' else p)
            got = [os.path.realpath(doc.path), os.path.realpath(doc.doc_dir)]
            mt = doc.mtime == os.path.getmtime(full)
        finally:
            os.chdir(old)
        want = [os.path.realpath(full), os.path.realpath(os.path.dirname(full))]
    h.prove(got == want, 'path and directory are those of the file', lambda: [got, want])
    h.prove(mt, 'the time is that of the file')


def empty(h):
    """A document that is made from nothing"""
    doc = MetatabDoc()
    h.prove(doc.ref is None and doc.path is None and doc.doc_dir is None and doc.mtime > 0, 'a new document has no file')


JOBS = [
    dict(name='rows', fn=rows, kw=dict(k=3, n=(0, 2)), bounds='1 + 3 rows of 8 kinds; blank or comment cells of up to 2 arbitrary characters, an arbitrary name'),
    dict(name='included', fn=included, kw=dict(k=2), bounds='two files, 1 + 2 rows of 8 kinds and 1 + 1 rows of 8 kinds, Include row at any place, 2 directories'),
    dict(name='errors', fn=errors, kw=dict(k=2, n=(0, 2)), bounds='2 rows of 5 kinds before the row; blank or comment cells of up to 2 characters; an arbitrary parent name of 1 character'),
    dict(name='wide', fn=wide, kw=dict(k=40), bounds='40 columns and rows, one of them blank'),
    dict(name='made', fn=made, kw=dict(n=(0, 1)), bounds='values of up to 1 character'),
    dict(name='paths', fn=paths, bounds='6 names of one file'),
    dict(name='empty', fn=empty, bounds='-'),
    dict(name='rows-deep', fn=rows, kw=dict(k=4, n=(0, 2)), tiers=('thorough',), bounds='1 + 4 rows of 8 kinds'),
    dict(name='included-deep', fn=included, kw=dict(k=3), tiers=('thorough',), bounds='1 + 3 rows'),
]

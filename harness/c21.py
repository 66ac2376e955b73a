"""C21: documents written to files"""
import os
import pathlib
from sx.files import Scratch
from metatab import MetatabDoc, parse_app_url
from .util import *
from .rt import canon

FBIG = tuple(c for c in BIG if c != '\r')
FLINE = tuple(c for c in NOBREAK if c != '\r')


def base(h, v, ident, name):
    rows = [['Title', v[0]], ['.K', 'k' + v[1]], ['Section', 'S', 'C'], ['T', v[1], 'c' + v[0] + 'c'], ['.D', 'd'], ['U', 'u']]
    if name:
        rows = [['Name', 'n-1']] + rows
    if ident:
        rows = [['Identifier', 'id-1']] + rows
    return rows


def opened(p):
    """Metatab files of all formats are opened with this protocol (a plain .txt file may be anything)"""
    return MetatabDoc(parse_app_url(p, proto='metatab') if p.endswith('.txt') else p)


def written(h, n, kind):
    """Any values"""
    v = [h.str('v%d' % i, n, FBIG if kind == 'csv' else FLINE) for i in range(2)]
    how = h.choose('how', 4)
    ident = how in (0, 3)
    name = how > 1
    rows = base(h, v, ident, name)
    doc = rowdoc(rows)
    before = dview(doc)
    other = 'x.csv', 'a.' + ('txt' if kind == 'csv' else 'csv')
    with Scratch(h, {'x.csv': b'X,1\n', other[1]: b'old', 'a.' + kind: b'T,old\n' if how % 2 else b''}) as s:
        p = s.path('a.' + kind)
        f = doc.write if how < 2 else doc.write_csv if kind == 'csv' else doc.write_lines
        r = f(pathlib.Path(p) if how % 2 else p)
        if how >= 2:
            h.prove(str(r) == p, 'the path is returned')
        text = s.read('a.' + kind)
        names = s.names()
        same_others = s.read('x.csv') == 'X,1\n' and s.read(other[1]) == 'old'
        again = opened(p)
        after = dview(doc)
        canonical = canon(doc)
        f2 = doc.write_csv if kind == 'csv' else doc.write_lines
        f2(p)
        text2 = s.read('a.' + kind)
        again.write(p)
        text3 = s.read('a.' + kind)
    h.prove(names == sorted({'x.csv', other[1], 'a.' + kind}) and same_others, 'no other file is touched')
    h.observe(dview(again))
    h.prove(h.same(canon(again), canonical), 'reading the file gives the document that was written', lambda: [canon(again), canonical])
    h.prove(h.same(text, doc.as_csv() if kind == 'csv' else doc.as_lines()), 'the file has the text of the document')
    h.prove(h.same(text2, text), 'writing it again gives the same file')
    h.prove(h.same(text3, text), 'writing what was read gives the same file')
    # Writing gives the document an identifier; apart from that nothing changes
    h.prove(h.same([e for e in after[0][2] if e[1] != 'identifier'], [e for e in before[0][2] if e[1] != 'identifier'])
            and h.same(after[1:], before[1:]), 'writing changes no terms but the identifier', lambda: [before, after])
    ids = [e for e in after[0][2] if e[1] == 'identifier']
    h.prove(len(ids) == 1 and bool(ids[0][2]), 'the document has an identifier')
    if ident:
        h.prove(ids[0][2] == 'id-1', 'an identifier is kept')


def named(h, n, m):
    """The name in the file is the name that the document has"""
    d = h.str('d', n, FBIG)
    ver = h.str('ver', m, FBIG) if m else '3'
    kind = h.pick('kind', ['csv', 'txt'])
    if kind == 'txt':
        for e in (d, ver):
            h.assume(len(e.splitlines()) < 2 and h.neg(e == '\n'))
    doc = rowdoc([['Name', 'old'], ['Dataset', d], ['Version', ver], ['Identifier', 'x']])
    with Scratch(h) as s:
        doc.write(s.path('m.' + kind))
        again = opened(s.path('m.' + kind))
    h.observe(dview(again))
    h.prove(h.same(again.find_first_value('Root.Name') or '', doc.find_first_value('Root.Name') or ''), 'the name in the file is that of the document')
    h.prove(h.same(canon(again), canon(doc)), 'reading the file gives the document that was written')


def in_place(h, n, ops):
    """A document that was read from a file, edited, and written without a path"""
    v = h.str('v', n, FLINE)
    kind = h.pick('kind', ['csv', 'txt'])
    start = rowdoc([['Identifier', 'i'], ['Title', 'a'], ['Section', 'S', 'C', 'D'], ['T', '1', 'x'], ['T', '2', '', 'y'], ['.K', '3']])
    with Scratch(h) as s:
        s.put('a.' + kind, start.as_csv() if kind == 'csv' else start.as_lines())
        doc = opened(s.path('a.' + kind))
        for i in range(ops):
            op = h.choose('op%d' % i, 6)
            if op == 0:
                doc['S'].new_term('U', 'u' + v, c='c')
            elif op == 1:
                h.assume(len(doc['S'].terms) > 0)
                doc['S'].terms[0]['D'] = 'd' + v
            elif op == 2:
                doc.get_or_new_section('N', ['E']).new_term('W', 'w', e='e' + v, f='f')
            elif op == 3:
                doc['Root']['Title'] = 't' + v + 't'
            elif op == 4:
                h.assume(len(doc['S'].terms) > 0)
                doc.remove_term(doc['S'].terms[-1])
            else:
                doc.write()
        doc.write()
        names = s.names()
        text = s.read('a.' + kind)
        again = opened(s.path('a.' + kind))
    h.observe(dview(again))
    h.prove(names == ['a.' + kind], 'only the file of the document is written')
    h.prove(h.same(text, doc.as_csv() if kind == 'csv' else doc.as_lines()), 'the file has the text of the document, in the format of the file')
    h.prove(h.same(canon(again), canon(doc)), 'reading the file gives the edited document', lambda: [canon(again), canon(doc)])


def hollow(h, n):
    """A file without terms is written in place too, and so is one whose terms were all removed"""
    c = h.str('c', n, FLINE)
    k = h.choose('k', 4)
    kind = h.pick('kind', ['csv', 'txt'])
    start = ['', '#' + c, '\n', 'T,1' if kind == 'csv' else 'T: 1'][k]
    with Scratch(h, {'metadata.csv': b'X,1\n'}) as s:
        s.put('a.' + kind, start)
        here = os.getcwd()
        os.chdir(s.dir)
        try:
            doc = opened(s.path('a.' + kind))
            for t in list(doc['Root'].terms):
                doc.remove_term(t)
            h.assume(len(doc.terms) == 0)
            if h.flag('direct'):
                [doc.write_csv, doc.write_lines][kind == 'txt']()
            else:
                doc.write()
        finally:
            os.chdir(here)
        names = s.names()
        text = s.read('a.' + kind)
        other = s.read('metadata.csv')
    h.observe(names)
    h.prove(names == ['a.' + kind, 'metadata.csv'] and other == 'X,1\n', 'only the file of the document is written', lambda: [names, other])
    h.prove(h.same(text, doc.as_csv() if kind == 'csv' else doc.as_lines()), 'the file has the text of the document', lambda: text)


NAMES = ['a.csv', 'a.txt', 'a.b.csv', 'a b.txt', 'é.csv', 'sub/a.csv', 'x.CSV', 'x.TXT', 'x.tsv', 'x', '.csv', 'a.csv.bak', 'a.csv/b', 'csv', 'a.txt.csv', 'a.csv.txt']


def formats(h, n):
    """The extension decides about the format, and others are refused"""
    v = h.str('v', n, FLINE)
    name = h.pick('name', NAMES)
    how = h.choose('how', 3)
    doc = rowdoc([['Identifier', 'i'], ['Title', 't' + v], ['Section', 'S', 'C'], ['T', '1', 'x' + v]])
    ext = 'csv' if name.endswith('.csv') and name != '.csv' else 'txt' if name.endswith('.txt') else ''
    files = {'sub/x': b'1', 'x.CSV': b'old', 'x.TXT': b'old', 'x.tsv': b'old', 'x': b'old', 'a.csv': b'T,old\n'} if name != 'a.csv/b' else {'sub/x': b'1'}
    with Scratch(h, files) as s:
        old = {e: s.read(e) for e in s.names()}
        f = [doc.write, doc.write_csv, doc.write_lines][how]
        ok = ext and (how == 0 or (ext == 'csv') == (how == 1))
        r = attempt(f, s.path(name))
        new = {e: s.read(e) for e in s.names()}
    h.observe(r[0], sorted(new))
    if ok:
        h.prove(r[0] == 'ok', 'a document can be written to a file with the extension of the format', lambda: r)
        t = doc.as_csv() if ext == 'csv' else doc.as_lines()
        old[name] = t
        h.prove(h.same(new, old), 'the format is that of the extension, and no other file is touched', lambda: [new, old])
    else:
        h.prove(r == ('raised', 'MetatabError') or how == 0 and r == ('raised', 'FormatError'), 'other extensions are refused', lambda: r)
        h.prove(h.same(new, old), 'nothing is written', lambda: [new, old])


def default(h, n):
    """A document without a file"""
    v = h.str('v', n, FBIG)
    how = h.choose('how', 4)
    made = h.flag('made')
    if made:
        doc = MetatabDoc()
        doc['Root'].new_term('Title', 't' + v)
    else:
        doc = rowdoc([['Title', 't' + v]])
    with Scratch(h, {'x.csv': b'X,1\n'}) as s:
        here = os.getcwd()
        os.chdir(s.dir)
        try:
            r = attempt([doc.write, doc.write_csv, doc.write_lines, lambda: doc.write('sub.csv')][how])
        finally:
            os.chdir(here)
        names = s.names()
        name = 'sub.csv' if how == 3 else 'metadata.csv'
        text = s.read(name)
    h.observe(names)
    if how == 2:
        h.prove(r == ('raised', 'MetatabError'), 'the default file is not a Lines file')
        h.prove(names == ['x.csv'], 'nothing is written')
    else:
        h.prove(r[0] == 'ok', 'the default file is written', lambda: r)
        h.prove(names == sorted([name, 'x.csv']), 'in the current directory')
        h.prove(h.same(text, doc.as_csv()), 'it has the text of the document')


def refused(h, n):
    """A write that fails leaves the file as it was"""
    v = h.str('v', n, FLINE)
    kind = h.pick('kind', ['csv', 'txt'])
    why = h.choose('why', 4)
    bad = 'a\ud800'
    rows = [['Identifier', 'i'], ['Title', 't' + v], ['Section', 'S', 'C'], ['T', '1', 'x']]
    if why == 0:
        rows[1][1] = bad
    elif why == 1:
        rows[3][2] = bad
    doc = rowdoc(rows)
    old = 'Title,' + ('o' + v + 'o').strip().replace('"', '')
    with Scratch(h) as s:
        s.put('a.' + kind, old)
        p = s.path('a.' + kind)
        if why == 2:
            p = s.path('none/a.' + kind)
        elif why == 3:
            p = pick_url(h, kind)
        r = attempt(doc.write, p)
        text = s.read('a.' + kind)
        names = s.names()
    h.observe(r, text)
    h.prove(r[0] == 'raised', 'the write fails')
    if why == 3:
        h.prove(r[1] == 'MetatabError', 'URLs cannot be written')
    h.prove(h.same(text, old), 'the file keeps its contents', lambda: text)
    h.prove(names == ['a.' + kind], 'no other file appears')


def pick_url(h, kind):
    return h.pick('url', ['http://example.com/a.', 'https://example.com/b/a.', 's3://bucket/a.']) + kind


JOBS = [
    dict(name='csv', fn=written, kw=dict(n=2, kind='csv'), tiers=('quick',), bounds='document of 6 rows, 2 values of up to 2 characters'),
    dict(name='txt', fn=written, kw=dict(n=2, kind='txt'), tiers=('quick',), bounds='document of 6 rows, 2 values of up to 2 characters'),
    dict(name='csv-deep', fn=written, kw=dict(n=3, kind='csv'), tiers=('thorough',), bounds='document of 6 rows, 2 values of up to 3 characters'),
    dict(name='txt-deep', fn=written, kw=dict(n=3, kind='txt'), tiers=('thorough',), bounds='document of 6 rows, 2 values of up to 3 characters'),
    dict(name='named', fn=named, kw=dict(n=2, m=0), tiers=('quick',), bounds='Dataset of up to 2 characters, with a version'),
    dict(name='named-deep', fn=named, kw=dict(n=2, m=2), tiers=('thorough',), bounds='Dataset and Version of up to 2 characters'),
    dict(name='in-place', fn=in_place, kw=dict(n=1, ops=2), tiers=('quick',), bounds='2 of 6 edits, a value of up to 1 character'),
    dict(name='in-place-deep', fn=in_place, kw=dict(n=2, ops=3), tiers=('thorough',), bounds='3 of 6 edits, a value of up to 2 characters'),
    dict(name='hollow', fn=hollow, kw=dict(n=1), bounds='4 files without terms, a comment of 1 character'),
    dict(name='formats', fn=formats, kw=dict(n=1), bounds='16 file names, 3 methods, a value of up to 1 character'),
    dict(name='default', fn=default, kw=dict(n=1), bounds='a value of up to 1 character'),
    dict(name='refused', fn=refused, kw=dict(n=1), bounds='4 reasons to fail, a value of up to 1 character'),
]

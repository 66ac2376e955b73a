"""C30: metatab URLs of local documents"""
import contextlib
import io
import os
from sx.files import Scratch
from metatab import MetatabDoc
from rowgenerators import parse_app_url
from .util import *

FBIG = tuple(c for c in BIG if c not in '\r\n')


def content(v, w, txt):
    """A document as a file: rows, or Lines text"""
    rows = [['Title', v], ['Title.Note', 'n'], ['Section', 'S', 'A', 'B'], ['Thing', 't', w, 'b'], ['Include', 'inc.csv'], ['Last', 'l']]
    if not txt:
        return rows
    return 'Title: ' + v + '\nTitle.Note: n\nSection: S | A | B\nThing: t | ' + w + ' | b\nInclude: inc.csv\nLast: l\n'


def want(v, w):
    """The same document as rows in memory"""
    return rowdoc([['Title', v], ['Title.Note', 'n'], ['Section', 'S', 'A', 'B'], ['Thing', 't', w, 'b'], ['Inc', 'i', 'x'], ['Last', 'l']])


def plain(doc):
    return [[s.name, [tview(t) for t in s.terms if t.record_term_lc not in ('include',)]] for s in doc]


def tview(t):
    return [t.parent_term_lc, t.record_term_lc, t.value, [tview(c) for c in t.children]]


DIRS = ['d', 'a b', 'p.v1', 'x/y', 'pack-1.0', 'metadata']


def local(h, n):
    """However the URL names the file, it is the document in it"""
    v = h.str('v', n, FBIG)
    w = h.str('w', n, FBIG)
    kind = h.pick('kind', ['dir', 'dir/', 'default', 'csv', 'txt', 'my metadata.csv', 'x.y.csv'])
    for e in (v, w):
        h.assume(h.neg(e.strip() == ''))
        if kind == 'txt':
            h.assume(h.all([h.neg(c in e) for c in '|\\\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029']))
    d = h.pick('d', DIRS)
    form = h.pick('form', ['metatab+file:', 'metatab+file://'])
    how = h.choose('how', 3)
    name = {'dir': 'metadata.csv', 'dir/': 'metadata.csv', 'default': 'metadata.csv', 'csv': 'doc.csv', 'txt': 'doc.txt'}.get(kind, kind)
    out = io.StringIO()
    with Scratch(h, {d + '/' + name: content(v, w, kind == 'txt'), d + '/inc.csv': [['Inc', 'i', 'x']], d + '/other.csv': [['Wrong', 'x']], 'metadata.csv': [['Wrong', 'y']]}) as s:
        p = s.path(d + ('' if kind == 'dir' else '/' if kind == 'dir/' else '/' + name))
        with contextlib.redirect_stdout(out):
            u = parse_app_url(form + p)
            facts = [u.resource_format, u.target_format, u.target_file, u.resource_file, u.exists()]
            beside = [os.path.realpath(str(u.join_target(e).fspath)) for e in ('inc.csv', 'data/a.csv')]
            if how == 2:
                got = [list(r) for r in u.generator]
                path = None
            else:
                doc = u.doc if how == 0 else MetatabDoc(form + p)
                got = plain(doc)
                path = os.path.realpath(doc.path)
        full = [s.path(d + '/inc.csv'), s.path(d + '/data/a.csv')]
        fpath = s.path(d + '/' + name)
    h.observe(got)
    if how == 2:
        rows = content(v, w, False)
        same = [[e.strip() for e in r] for r in got]
        h.prove(h.same(same, [[e.strip() for e in r] for r in rows]), 'the rows of the URL are those in the file', lambda: got)
    else:
        h.prove(h.same(got, plain(want(v, w))), 'the document of the URL is the one in the file', lambda: got)
        h.prove(path == fpath, 'the document knows its file', lambda: [path, fpath])
    ext = 'txt' if kind == 'txt' else 'csv'
    h.prove(facts == [ext, ext, name, name, True], 'format and file of the URL are those of the file', lambda: facts)
    h.prove(beside == full, 'other files are found beside the document', lambda: [beside, full])
    h.prove(out.getvalue() == '', 'nothing is printed', lambda: out.getvalue())


def written(h, n):
    """A document that was opened by its URL is written back to its file"""
    v = h.str('v', n, FBIG)
    h.assume(h.all([h.neg(c in v) for c in '|\\\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029']))
    h.assume(h.neg(v.strip() == ''))
    d = h.pick('d', DIRS[:4])
    kind = h.pick('kind', ['', '/', '/metadata.csv', '/doc.csv', '/doc.txt'])
    name = d + (kind if '.' in kind else '/metadata.csv')
    with Scratch(h, {name: 'Identifier: i\nTitle: old\n' if kind == '/doc.txt' else [['Identifier', 'i'], ['Title', 'old']], d + '/other.csv': b'x', 'metadata.csv': b'y'}) as s:
        u = 'metatab+file:' + s.path(d + kind)
        doc = parse_app_url(u).doc if h.flag('how') else MetatabDoc(u)
        doc['Root'].find_first('Title').value = v
        doc.write()
        names = s.names()
        text = s.read(name)
        rest = [s.read(d + '/other.csv'), s.read('metadata.csv')]
    h.observe(text)
    h.prove(names == sorted(set([name, d + '/other.csv', 'metadata.csv'])) and (rest == ['x', 'y']), 'no other file is touched', lambda: [names, rest])
    h.prove(h.same(text, doc.as_lines() if kind == '/doc.txt' else doc.as_csv()), 'the file has the document in its format', lambda: text)
    h.prove(h.same(doc.find_first_value('Root.Title'), v), 'with the change')


def absent(h):
    """A URL of a file that does not exist"""
    kind = h.pick('kind', ['nope', 'nope/', 'nope.csv', 'nope.txt', 'd', 'd/nope.csv'])
    with Scratch(h, {'d/other.csv': [['Wrong', 'x']]}) as s:
        u = parse_app_url('metatab+file:' + s.path(kind))
        ex = u.exists()
        r = attempt(lambda: u.doc)
        r2 = attempt(MetatabDoc, 'metatab+file:' + s.path(kind))
    h.prove(ex is False, 'the document does not exist')
    h.prove(r[0] == 'raised' and r2[0] == 'raised', 'opening it is an error', lambda: [list(r), list(r2)])


def web(h):
    """Names only: URLs of packages on the web and of archives"""
    base = h.pick('base', ['http://example.com', 'https://a.example.com/x', 'file:///x'])
    name, path, frag, fmt, tfile, rfile = h.pick('name', [
        ('p', 'p/metadata.csv', '', 'csv', 'metadata.csv', 'metadata.csv'), ('p/', 'p/metadata.csv', '', 'csv', 'metadata.csv', 'metadata.csv'),
        ('p.zip', 'p.zip', 'metadata.csv', 'csv', 'metadata.csv', 'p.zip'), ('p.xlsx', 'p.xlsx', 'meta', 'xlsx', 'meta', 'p.xlsx'),
        ('p.csv', 'p.csv', '', 'csv', 'p.csv', 'p.csv'), ('p.txt', 'p.txt', '', 'txt', 'p.txt', 'p.txt'), ('p/metadata.csv', 'p/metadata.csv', '', 'csv', 'metadata.csv', 'metadata.csv'),
        ('p.ipynb', 'p.ipynb', '', 'ipynb', 'p.ipynb', 'p.ipynb'), ('v1.2', 'v1.2/metadata.csv', '', 'csv', 'metadata.csv', 'metadata.csv')])
    u = parse_app_url('metatab+' + base + '/' + name)
    got = [u.proto, u.path, u.fragment[0], u.target_format, u.target_file, u.resource_file, str(u.inner).split('#')[0]]
    h.observe(got)
    full = base.split('://')[1]
    full = (full[full.index('/'):] if '/' in full else '') + '/' + path
    h.prove(got == ['metatab', full, frag, fmt, tfile, rfile, base + '/' + path], 'a URL stands for the metadata in the package', lambda: got)


JOBS = [
    dict(name='local', fn=local, kw=dict(n=1), bounds='6 directories, 7 kinds of file, 2 forms of URL, 3 ways of opening; 2 values of 1 arbitrary character'),
    dict(name='written', fn=written, kw=dict(n=1), bounds='4 directories, 5 kinds of file, 2 ways of opening, a value of 1 arbitrary character'),
    dict(name='absent', fn=absent, bounds='6 names'),
    dict(name='names', fn=web, bounds='3 sites x 9 names'),
    dict(name='local-deep', fn=local, kw=dict(n=(1, 2)), tiers=('thorough',), bounds='values of 1-2 characters'),
]

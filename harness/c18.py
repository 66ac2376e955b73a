"""C18: a document in several files is the document of all of their rows"""
from sx.files import Scratch
from metatab import MetatabDoc
from metatab.parser import TermParser
from metatab.resolver import WebResolver
from metatab.rowgen import MetatabRowGenerator
from .util import *

FBIG = tuple(c for c in BIG if c != '\r')
FNAME = tuple(c for c in NAME if c != '\r')


def expand(files, name, cur='Root'):
    """The rows of a document with those of the included files in their places; the section continues after an Include row"""
    out = []
    for r in files[name]:
        out.append(r)
        if r and r[0].strip().lower() == 'section':
            cur = r[1]
        if r and r[0].strip().lower() == 'include':
            d = name.rsplit('/', 1)[0] + '/' if '/' in name else ''
            out += expand(files, norm(d + r[1].strip()), cur)
            out.append(['Section', cur])
    return out


def norm(p):
    out = []
    for e in p.split('/'):
        if e == '..':
            out.pop()
        elif e != '.':
            out.append(e)
    return '/'.join(out)


def check(h, files, label):
    want = spec(expand(files, 'a.csv'))
    with Scratch(h, files) as s:
        doc = MetatabDoc(s.path('a.csv'))
    h.observe(dview(doc))
    h.prove(h.same(dview(doc), want), label, lambda: [dview(doc), want])
    consistent(h, doc, label)
    return doc


def values(h, n):
    """Any values in all of the files"""
    v = [h.str('v%d' % i, n, FBIG) for i in range(3)]
    inc = h.pick('inc', ['Include', 'INCLUDE', ' include '])
    files = {'a.csv': [['T', v[0]], ['Section', 'S', 'C'], ['T', v[0], v[1]], [inc, 'b.csv'], ['T', v[2], v[0]], ['.K', v[1]]],
             'b.csv': [['U', v[1], v[2]], ['.K', v[2]], ['T.K', v[0]], ['#' + v[0], 'comment'], ['Section', 'Q', 'D'], ['U', v[2], v[1]]]}
    check(h, files, 'the terms of all of the files, in order')


def names(h, k):
    """Any names of terms and sections"""
    a = h.str('a', k, FNAME)
    s = h.str('s', k, FNAME)
    s2 = h.str('s2', k, FNAME)
    for e in (a, s, s2):
        h.assume(h.neg(e.strip() == ''))
    h.assume(h.neg(a.strip().startswith('#')))
    files = {'a.csv': [[a, '1'], ['Section', s.strip(), 'C'], [a, '2', 'x'], ['Include', 'b.csv'], [a, '5', 'y'], ['.K', '6']],
             'b.csv': [[a, '3', 'z'], ['Section', s2.strip(), 'D'], [a, '4', 'w'], [a + '.K', '7']]}
    check(h, files, 'the terms of all of the files, in their sections')


KINDS = [['T', '1', 'x'], ['U', '2'], ['.K', '3'], ['T.K', '4'], ['Section', 'S', 'C'], ['Section', 'R', 'D', 'E'], ['Section', 'Root'], []]


def histories(h, na, nb, nc):
    """Any rows before, in and after the included file"""
    pre = [['T', '0', 'a']] + [list(h.pick('p%d' % i, KINDS)) for i in range(na)]
    inn = [list(h.pick('b%d' % i, KINDS)) for i in range(nb)]
    post = [list(h.pick('c%d' % i, KINDS)) for i in range(nc)]
    files = {'a.csv': pre + [['Include', 'b.csv']] + post, 'b.csv': inn}
    try:
        spec(expand(files, 'a.csv'))
    except NoParent:
        h.assume(False)
    check(h, files, 'the terms of all of the files, in order, the section continuing')


def nested(h):
    """Files that include files, in other directories"""
    where = h.pick('where', ['b.csv', 'sub/b.csv', 'sub/deep/b.csv', 'my sub/b.csv', 'sub/my b.csv'])

    d = where[:where.rindex('/') + 1] if '/' in where else ''
    target = h.pick('target', ['c.csv', 'more/c.csv', '../c.csv', './c.csv', 'the c.csv'])
    h.assume(d != '' or not target.startswith('..'))
    at = h.choose('at', 4)
    c_sec = h.flag('c_sec')
    rows_b = [['T', '2', 'y'], ['Section', 'Q', 'D'], ['U', '3', 'z']]
    rows_b.insert(at, ['Include', target])
    files = {'a.csv': [['N', '0'], ['Section', 'S', 'C'], ['T', '1', 'x'], ['Include', where], ['T', '6', 'w'], ['.K', '7']],
             where: rows_b,
             norm(d + target): [['T', '4', 'v']] + ([['Section', 'P', 'E'], ['V', '5', 'u']] if c_sec else [])}
    doc = check(h, files, 'the terms of nested files')
    h.prove(len(doc.find('Include')) == 2, 'the Include terms are part of the document')


def twice(h):
    """The same file more than once, and several files"""
    sec = h.flag('sec')
    b = [['T', '2', 'y']] + ([['Section', 'Q', 'D'], ['U', '3', 'z']] if sec else [])
    n = h.choose('n', 3) + 1
    rows = [['Section', 'S', 'C']]
    for i in range(n):
        rows.append(['Include', h.pick('f%d' % i, ['b.csv', './b.csv', 'c.csv'])])
        if h.flag('between%d' % i):
            rows.append(['T', '1', 'x'])
    files = {'a.csv': rows, 'b.csv': b, 'c.csv': [['W', '4', 'v']]}
    check(h, files, 'files included in turn')


def loops(h):
    """Include loops of up to three files"""
    n = h.choose('n', 3) + 1
    names = ['a.csv', 'b.csv', 'c.csv'][:n]
    files = {}
    for i, f in enumerate(names):
        g = names[(i + 1) % n]
        files[f] = [['T', str(i), 'x'], ['Include', h.pick('how%d' % i, ['', './', 'x/../', '/']) + g], ['U', 'after']]
    back = h.pick('back', names)  # the file that the last one includes
    files[names[-1]][1] = ['Include', files[names[-1]][1][1].replace(names[0], back)]
    with Scratch(h, files) as s:
        s.put('x/other.csv', [])
        tp = TermParser(s.path('a.csv'), resolver=WebResolver(), doc=MetatabDoc())
        r = attempt(MetatabDoc, s.path('a.csv'))
        r2 = attempt(lambda: list(tp))
    h.observe(r[0])
    h.prove(h.same([list(r), list(r2)], [['raised', 'IncludeError']] * 2), 'an include loop is reported', lambda: r[0])
    place(h, tp, 'root.include', names[-1], 2)


def place(h, tp, term, file, row):
    e = tp.errors_as_dict()
    h.prove(len(e) == 1 and isinstance(e[0]['error'], str) and e[0]['error'] != '', 'the parser lists the error', lambda: e)
    h.prove([e[0]['term'], e[0]['file'], e[0]['row'], e[0]['col']] == [term, file, row, 1], 'the error has the place of the row', lambda: e)


def missing(h):
    """Files that are not there"""
    case = h.choose('case', 5)
    doc = MetatabDoc()
    files = {'a.csv': [['T', '1'], ['Section', 'S'], ['Include', 'none.csv'], ['T', '2']], 'b.csv': [['Include', 'a.csv']],
             'c.csv': [['T', '1'], ['Declare', 'no-such-declaration']], 'd.csv': [['Include', 'c.csv']]}
    with Scratch(h, files) as s:
        if case == 4:
            ref = MetatabRowGenerator([['T', '1'], ['Include', 'a.csv']])
        else:
            ref = s.path(['a.csv', 'b.csv', 'c.csv', 'd.csv'][case])
        tp = TermParser(ref, resolver=WebResolver(), doc=doc)
        r = attempt(lambda: list(tp))
        r2 = attempt(MetatabDoc, ref)
    h.observe(r[0])
    h.prove(h.same(list(r), ['raised', 'IncludeError']), 'a file that cannot be included is reported', lambda: list(r))
    h.prove(h.same(list(r2), ['raised', 'IncludeError']), 'a file that cannot be included is reported by the document')
    place(h, tp, *[['root.include', 'a.csv', 3], ['root.include', 'a.csv', 3], ['root.declare', 'c.csv', 2], ['root.declare', 'c.csv', 2],
                   ['root.include', 'metatabrowgenerator', 2]][case])


def relative(h):
    """A document that is opened by a relative path"""
    import os
    files = {'d/a.csv': [['T', '1'], ['Include', 'b.csv'], ['T', '3']], 'd/b.csv': [['T', '2']]}
    p = h.pick('p', ['a.csv', './a.csv', '../d/a.csv', 'd/a.csv'])
    with Scratch(h, files) as s:
        old = os.getcwd()
        os.chdir(s.dir if p.startswith('d') else s.path('d'))
        try:
            doc = MetatabDoc(p)
        finally:
            os.chdir(old)
    got = [t.value for t in doc['Root'].terms if t.record_term_lc == 't']
    h.observe(got)
    h.prove(got == ['1', '2', '3'], 'included files are beside the document', lambda: got)


JOBS = [
    dict(name='values', fn=values, kw=dict(n=(0, 1)), bounds='values of up to 1 arbitrary character in two files'),
    dict(name='names', fn=names, kw=dict(k=1), bounds='arbitrary one-character names of terms and of two sections'),
    dict(name='histories', fn=histories, kw=dict(na=1, nb=1, nc=1), bounds='1+1+1 rows of 8 kinds before, in and after the included file'),
    dict(name='histories-in', fn=histories, kw=dict(na=0, nb=2, nc=1), bounds='2 rows of 8 kinds in the file, 1 after'),
    dict(name='histories-out', fn=histories, kw=dict(na=1, nb=0, nc=2), bounds='1 row before, an empty file, 2 rows after'),
    dict(name='nested', fn=nested, bounds='two levels, 4 directories (one with a blank in its name), 5 relative paths, 4 places'),
    dict(name='twice', fn=twice, bounds='up to 3 Include rows of 2 files'),
    dict(name='loops', fn=loops, bounds='loops of 1-3 files, the last one including any of them, 4 spellings of each path'),
    dict(name='missing', fn=missing, bounds='5 cases'),
    dict(name='relative', fn=relative, bounds='4 relative paths'),
    dict(name='values-deep', fn=values, kw=dict(n=(0, 2)), tiers=('thorough',), bounds='values of up to 2 characters'),
    dict(name='names-deep', fn=names, kw=dict(k=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='histories-deep', fn=histories, kw=dict(na=1, nb=2, nc=1), tiers=('thorough',), bounds='1+2+1 rows'),
]

"""C23: conversion to a data package"""
from sx.files import Scratch
from metatab import MetatabDoc
from metatab.rowgen import MetatabRowGenerator
from metatab.datapackage import convert_to_datapackage
from .util import *
from .c17 import decl

TYPES = {'str': 'string', 'text': 'string', 'unicode': 'string', 'int': 'integer', 'float': 'number'}


def load(h, rows):
    d = decl([('Root.Datafile', {'TermValueName': 'Url', 'ChildPropertyType': 'sequence', 'Section': 'Resources'}),
              ('Root.Table', {'ChildPropertyType': 'sequence', 'Section': 'Schema'}),
              ('Table.Column', {'TermValueName': 'Name', 'ChildPropertyType': 'sequence', 'Section': 'Schema'})],
             [('Resources', 'Name'), ('Schema', 'DataType')])
    with Scratch(h, {'decl.csv': d}) as s:
        doc = MetatabDoc(MetatabRowGenerator(rows), decl=s.path('decl.csv'))
    doc['Root'].terms[0].value = 'decl.csv'  # not the name of the scratch directory
    return doc


def text(h, name, n, alphabet=BIG):
    v = h.str(name, n, alphabet)
    h.assume(h.neg(v.strip() == ''))
    return v


def convert(h, rows, want):
    doc = load(h, rows)
    before = dview(doc)
    root = doc['Root'].as_dict()
    r = attempt(convert_to_datapackage, doc)
    h.observe(r)
    h.prove(h.same(dview(doc), before), 'the document does not change')
    if want is None:
        h.prove(r == ('raised', 'ConversionError'), 'ConversionError', lambda: r)
        return
    h.prove(r[0] == 'ok', 'the document can be converted', lambda: r)
    dp = r[1]
    h.prove(h.same(dp['resources'], want), 'a resource for each data file that has a schema, with its fields', lambda: [dp['resources'], want])
    rest = {k: v for k, v in dp.items() if k != 'resources'}
    if 'name' not in root:
        h.prove(h.same(rest['name'], root['identifier']), 'the identifier is the name of a document without one')
        del rest['name']
    h.prove(h.same(rest, {k: v for k, v in root.items()}), 'the properties of the document', lambda: [rest, root])
    r2 = attempt(convert_to_datapackage, doc)
    h.prove(h.same(r2[1], dp), 'converting again gives the same')


def field(name, dt=None, title=None, desc=None):
    d = {}
    for k, v in (('name', name), ('title', title), ('description', desc)):
        if v:
            d[k] = v.strip()
    d['type'] = None if dt is None else TYPES.get(dt.strip(), dt.strip())
    return d


def fields(h, n, k):
    """Any columns, and the mapping of types"""
    c = text(h, 'c', n)
    dt = h.pick('known', ['', 'str', 'text', 'unicode', 'int', 'float', 'TEXT', 'integer'])
    if not dt:
        dt = text(h, 'dt', k)
    desc = h.str('desc', n, BIG)
    desc = desc if desc.strip() else ''
    style = h.choose('style', 3)
    if style == 0:
        cols = [['Table.Column', c, dt, desc], ['Column.Title', 'T'], ['Table.Column', 'z']]
        want = [field(c, dt, 'T', desc), field('z')]
    elif style == 1:
        cols = [['Table.Column', c], ['.DataType', dt], ['.Description', 'D']]
        want = [field(c, dt, None, 'D')]
    else:
        cols = [['Table.Column', c], ['Table.Column', c, '', desc], ['.Other', 'o'], ['Table.Column', 'y', 'float', '', 'x']]
        want = [field(c), field(c, None, None, desc), field('y', 'float')]
    rows = [['Name', 'n'], ['Section', 'Schema', 'DataType', 'Description'], ['Table', 't']] + cols + \
           [['Section', 'Resources', 'Name'], ['Datafile', 'http://x', 't']]
    convert(h, rows, [{'path': 'http://x', 'name': 't', 'schema': {'fields': want}}])


def resources(h, n, m):
    """Any names of tables and resources"""
    t = [text(h, 't%d' % i, n) for i in range(2)]
    r = [text(h, 'r%d' % i, n) for i in range(m)]
    style = h.choose('style', 3)
    schemas = {t[0].strip(): [field('a', 'int')], t[1].strip(): [field('b', 'text'), field('c')]}
    rows = [['Name', 'n'], ['Section', 'Schema', 'DataType'], ['Table', t[0]], ['Table.Column', 'a', 'int'], ['Table', t[1]],
            ['Table.Column', 'b', 'text'], ['Table.Column', 'c'], ['Section', 'Resources', 'Name', 'Table', 'Extra']]
    want = []

    def use(url, name, table=None):
        key = name.strip() if name.strip() in schemas else table.strip() if table and table.strip() in schemas else None
        if key is not None:
            want.append({'path': url, 'name': name.strip(), 'schema': {'fields': schemas[key]}})

    if style == 0:
        rows += [['Datafile', 'u1', r[0], '', 'e'], ['Datafile', 'u2', r[0], t[1]], ['Other', 'u3', r[0]]]
        use('u1', r[0])
        use('u2', r[0], t[1])
    elif style == 1:
        rows += [['Datafile', 'u1'], ['.Name', r[0]], ['Datafile', 'u2', 'q'], ['Datafile.Table', r[0]], ['DATAFILE', 'u3', r[0], 'x']]
        use('u1', r[0])
        use('u2', 'q', r[0])
        use('u3', r[0], 'x')
    else:
        for i in range(m):
            rows.append(['Datafile', 'u%d' % i, r[i], r[(i + 1) % m]])
            use('u%d' % i, r[i], r[(i + 1) % m])
    convert(h, rows, want)


def texts(h, n):
    """Any values of the document and URLs of the resources"""
    v = h.str('v', n, BIG)
    u = text(h, 'u', n)
    name = h.choose('name', 4)
    rows = [[['Name', 'n' + v]], [['Identifier', 'i' + v]], [['Identifier', 'i'], ['Name', v + 'n']], [['Nam', 'n']]][name]
    rows = rows + [['Title', v], ['Title.K', 'k' + v], ['Note', 'a'], ['Note', v + 'b'],
                   ['Section', 'Schema', 'DataType'], ['Table', 't'], ['Table.Column', 'a', 'int'],
                   ['Section', 'Resources', 'Name'], ['Datafile', u, 't'], ['Datafile', 'v' + u, 't']]
    s = {'fields': [{'name': 'a', 'type': 'integer'}]}
    convert(h, rows, None if name == 3 else [{'path': u.strip(), 'name': 't', 'schema': s}, {'path': ('v' + u).strip(), 'name': 't', 'schema': s}])


def refused(h, n):
    """Documents without a schema, and tables without columns"""
    v = text(h, 'v', n)
    k = h.choose('k', 4)
    rows = [['Name', 'n' + v]]
    if k:
        rows += [['Section', 'Schema', 'DataType'], ['Table', v] + (['x'] if k == 2 else []), ['Table', 'u'], ['Table.Column', 'a'] if k == 3 else ['.Title', v]]
    rows += [['Section', 'Resources', 'Name'], ['Datafile', 'u', 'u']]
    convert(h, rows, None)


JOBS = [
    dict(name='fields', fn=fields, kw=dict(n=1, k=5), tiers=('quick',), bounds='3 shapes of tables; column names and descriptions of 1 character, types of up to 5 characters, and 7 known types'),
    dict(name='fields-deep', fn=fields, kw=dict(n=2, k=5), tiers=('thorough',), bounds='3 shapes of tables; column names and descriptions of up to 2 characters, types of up to 5 characters'),
    dict(name='resources', fn=resources, kw=dict(n=2, m=2), tiers=('quick',), bounds='2 tables, 2 data files, names of up to 2 characters'),
    dict(name='resources-deep', fn=resources, kw=dict(n=2, m=3), tiers=('thorough',), bounds='2 tables, 3 data files, names of up to 2 characters'),
    dict(name='texts', fn=texts, kw=dict(n=2), tiers=('quick',), bounds='values of up to 2 characters'),
    dict(name='texts-deep', fn=texts, kw=dict(n=3), tiers=('thorough',), bounds='values of up to 3 characters'),
    dict(name='refused', fn=refused, kw=dict(n=1), bounds='a name of 1 character'),
]

"""C15: names and identifiers of documents"""
import unicodedata
from .names import *
from .c16 import ascii_of, ALLOWED


def others(doc):
    """Everything but names, identifiers and versions"""
    return [[s.name, [tview(t) for t in s.terms if not (s.name == 'Root' and t.record_term_lc in ('name', 'identifier', 'version'))]] for s in doc]


def generated(vals, version):
    parts = []
    for v in vals + [version]:
        if v is None or v.strip() == '':
            continue
        parts.append(slug_plain(ascii_of(v.replace('-', '_'))))
    return '-'.join(parts)


def rows_for(vals, order=None):
    out = []
    for i in (order or range(6)):
        if vals[i] is not None:
            out.append([PARTS[i].title(), vals[i]])
    return out


def components(h, n):
    """One component arbitrary, the others there or not"""
    at = h.choose('at', 7)
    x = h.str('x', n, BIG)
    vals = []
    for i in range(6):
        vals.append('Part %s-x' % chr(97 + i) if h.flag('p%d' % i) else None)
    version = h.pick('ver', [None, '3'])
    if at < 6:
        vals[at] = x
    else:
        version = x
    h.assume(vals[1] is not None)
    h.assume(h.neg(vals[1] == ''))
    rows = [['Name', 'old'], ['Identifier', 'id1']] + rows_for(vals) + ([['Version', version]] if version is not None else [])
    doc = rowdoc(rows + [['Section', 'Other'], ['Name', 'decoy'], ['Identifier', 'decoy']] + [[e.title(), 'decoy'] for e in PARTS] + [['Version', 'v9']])
    vals = [v.strip() if v is not None else None for v in vals]
    if version is not None:
        version = version.strip()
    if at < 6 and h.flag('raw'):  # set by the program, which may leave white space
        doc['Root'].find_first('Root.' + PARTS[at].title()).value = x
        vals[at] = x
    before = others(doc)
    doc.update_name()
    got = doc['Root'].find_first('Root.Name').value
    want = generated(vals, version)
    h.observe(got)
    h.assume(h.neg(vals[1] == ''))
    h.prove(h.same(got, want), 'the name is made of the slugs of origin, dataset, time, space, grain, variant and version', lambda: [got, want])
    h.prove(h.all([h.any([c == a for a in ALLOWED]) for c in got]), 'a name has only letters, digits, dashes, dots and underscores')
    h.prove(h.same(others(doc), before), 'other terms are not changed')
    h.prove(h.same(doc._generate_identity_name(), got), 'the name can be made again')
    u = doc.update_name()
    h.prove(h.same(doc['Root'].find_first('Root.Name').value, got), 'updating again gives the same name')
    h.prove(h.same(list(doc.update_name(report_unchanged=False)), []), 'and reports no change')
    h.prove(len(doc.find('Root.Name', section='Root')) == 1, 'there is one name')


def order(h):
    """The order of the terms in the document does not matter"""
    vals = ['or', 'da', 'ti', 'sp', 'gr', 'va']
    i, j = h.choose('i', 6), h.choose('j', 6)
    o = list(range(6))
    o[i], o[j] = o[j], o[i]
    rows = rows_for(vals, o)
    rows.insert(h.choose('n', 7), ['Name', 'x'])
    rows.insert(h.choose('v', 8), ['Version', '4'])
    doc = rowdoc(rows)
    doc.update_name()
    got = doc.find_first_value('Root.Name')
    h.observe(got)
    h.prove(got == 'or-da-ti-sp-gr-va-4', 'the parts of the name have a fixed order', lambda: got)


def no_dataset(h, n):
    """Without a dataset the name stays, or becomes the identifier if it is empty"""
    name = h.pick('name', [None, '', 'N'])
    x = h.str('x', n, BIG)
    if name == 'N':
        name = x
    ident = h.pick('id', [None, '', 'ident'])
    rows = [['Title', 't'], ['Origin', 'o'], ['Version', '3']]
    if name is not None:
        rows.append(['Name', name])
    if ident is not None:
        rows.append(['Identifier', ident])
    rows += [['Section', 'Other']] + [[e, 'decoy'] for e in h.pick('decoy', [[], ['Name', 'Identifier', 'Dataset', 'Version']])]
    doc = rowdoc(rows)
    create = h.flag('create')
    before = others(doc)
    doc.update_name(create_term=create)
    t = doc['Root'].find_first('Root.Name')
    i = doc['Root'].find_first('Root.Identifier')
    h.observe(t.value if t else None)
    h.prove(i is not None and i.value and True, 'the document has an identifier')
    if ident:
        h.prove(i.value == ident, 'an identifier is kept')
    if name is None and not create:
        h.prove(t is None, 'no name is made unless asked for')
    elif name is None or name.strip() == '':
        h.prove(h.same(t.value, i.value), 'an empty name becomes the identifier')
    else:
        h.prove(h.same(t.value, name.strip()), 'a name that cannot be generated is kept', lambda: [t.value, name])
    h.prove(h.same(others(doc), before), 'other terms are not changed')
    v = dview(doc)
    doc.update_name(create_term=create)
    h.prove(h.same(dview(doc), v), 'updating again changes nothing')


def identifier(h, n):
    """An identifier is made once and never replaced"""
    x = h.str('x', n, BIG)
    k = h.choose('k', 3)
    rows = [['Title', 't']] + ([['Identifier', x]] if k else []) + [['Section', 'Other'], ['Identifier', 'decoy']]
    doc = rowdoc(rows)
    if k == 2:
        doc['Root'].new_term('Identifier', 'second')
    before = others(doc)
    doc.ensure_identifier()
    ids = doc.find('Root.Identifier', section='Root')
    h.observe([t.value for t in ids])
    h.prove(len(ids) == (2 if k == 2 else 1), 'no identifier is added when there is one')
    h.prove(bool(ids[0].value), 'the identifier has a value')
    if k and x.strip():
        h.prove(h.same(ids[0].value, x.strip()), 'an identifier is kept')
    h.prove(doc['Other'].terms[0].value == 'decoy', 'identifiers in other sections are not touched')
    h.prove(h.same(others(doc), before), 'other terms are not changed')
    v = dview(doc)
    doc.ensure_identifier()
    h.prove(h.same(dview(doc), v), 'again, nothing changes')
    consistent(h, doc, 'with identifier')


def cleanse(h, n):
    """cleanse() gives an identifier and the generated name, and can be repeated"""
    x = h.str('x', n, BIG)
    rows = [['Title', 't']]
    if h.flag('name'):
        rows.append(['Name', 'nm'])
    if h.flag('ident'):
        rows.append(['Identifier', 'id'])
    ds = h.flag('ds')
    if ds:
        rows += [['Dataset', 'd' + x], ['Version', '1']]
    doc = rowdoc(rows)
    before = others(doc)
    doc.cleanse()
    h.observe(dview(doc))
    h.prove(bool(doc['Root'].find_first('Root.Identifier').value), 'the document has an identifier')
    t = doc['Root'].find_first('Root.Name')
    if t is not None:
        h.prove(h.same(t.value, generated([None, 'd' + x.rstrip()], '1') if ds else 'nm'), 'the name is the generated one', lambda: t.value)
    h.prove(h.same(others(doc), before), 'other terms are not changed')
    v = dview(doc)
    doc.cleanse()
    h.prove(h.same(dview(doc), v), 'again, nothing changes')
    consistent(h, doc, 'cleansed')


def force(h):
    """force and report_unchanged"""
    same_ = h.flag('same')
    f = h.flag('force')
    r = h.flag('report')
    doc = rowdoc([['Name', 'ds-1' if same_ else 'old'], ['Dataset', 'ds'], ['Version', '1'], ['Identifier', 'x']])
    u = doc.update_name(force=f, report_unchanged=r)
    h.observe(list(u))
    h.prove(doc.find_first_value('Name') == 'ds-1', 'the name is set')
    h.prove((len(u) == 0) == (same_ and not f and not r), 'a change is reported, and no change if asked for', lambda: list(u))



def numbers(h):
    """Parts of the name that are numbers, as a program can set them"""
    v = h.pick('v', [0, 5, 12])
    at = h.pick('at', ['Version', 'Time', 'Variant'])
    doc = rowdoc([['Name', 'old'], ['Identifier', 'i'], ['Origin', 'o'], ['Dataset', 'ds']])
    how = h.flag('how')
    if how:
        doc['Root'].new_term(at, v)
    else:
        doc['Root'].get_or_new_term(at, 'x').value = v
    doc.update_name()
    got = doc.find_first_value('Root.Name')
    h.observe(got)
    h.prove(got == 'o-ds-%d' % v, 'a number is a part of the name, also if it is zero', lambda: got)
    h.prove(doc.find_first_value('Root.' + at) == v, 'the number is kept')



def no_name(h):
    """Without a name, one is made only if asked for, and none of another section is taken for it"""
    create = h.flag('create')
    k = h.choose('k', 3)
    rows = [['Dataset', 'ds'], ['Identifier', 'i'], ['Version', '2']] + ([['Section', 'Other'], ['Name', 'decoy']] if k else [])
    if k == 2:
        rows = [['Section', 'Early'], ['Name', 'decoy'], ['Dataset', 'wrong'], ['Identifier', 'wrong'], ['Version', '9'], ['Section', 'Root']] + rows
    doc = rowdoc(rows)
    before = others(doc)
    how = h.choose('how', 2)
    if how:
        doc.cleanse()
    else:
        doc.update_name(create_term=create)
    names_ = [t.value for t in doc['Root'].terms if t.record_term_lc == 'name']
    h.observe(names_)
    h.prove(h.same(names_, ['ds-2'] if create and not how else []), 'a name is made if asked for', lambda: names_)
    h.prove(h.same(others(doc), before), 'other terms are not changed')
    consistent(h, doc, 'named')


def near_name(h, n):
    """A name that is nearly the identifier is kept as it is, when none can be made"""
    x = h.str('x', n, BIG)
    name = h.pick('name', ['Abc', 'ABC', 'abc', 'abc ', 'ab', 'abcd', 'a-bc']) + x
    ident = 'abc' + h.pick('y', ['', 'X', '-1'])
    h.assume(h.neg(name.strip() == ''))
    doc = rowdoc([['Title', 't'], ['Identifier', ident], ['Name', name]])
    before = others(doc)
    doc.update_name()
    t = doc['Root'].find_first('Root.Name')
    h.observe(t.value)
    h.prove(h.same(t.value, name.strip()), 'a name that cannot be generated is kept', lambda: [t.value, name])
    h.prove(doc['Root'].find_first('Root.Identifier').value == ident, 'an identifier is kept')
    h.prove(h.same(others(doc), before), 'other terms are not changed')


JOBS = [
    dict(name='components', fn=components, kw=dict(n=(0, 1)), bounds='6 components there or not, one of up to 1 arbitrary character'),
    dict(name='order', fn=order, bounds='all exchanges of two terms, and all places of name and version'),
    dict(name='no-dataset', fn=no_dataset, kw=dict(n=(1, 2)), bounds='names of 1-2 arbitrary characters, identifiers there, empty or not'),
    dict(name='identifier', fn=identifier, kw=dict(n=(0, 2)), bounds='identifiers of up to 2 arbitrary characters'),
    dict(name='cleanse', fn=cleanse, kw=dict(n=(0, 2)), bounds='dataset names with 2 arbitrary characters'),
    dict(name='force', fn=force, bounds='all options'),
    dict(name='numbers', fn=numbers, bounds='3 numbers as 3 parts'),
    dict(name='near-name', fn=near_name, kw=dict(n=(0, 1)), bounds='names that are nearly the identifier, and up to 1 arbitrary character'),
    dict(name='no-name', fn=no_name, bounds='documents without a name, with names in other sections'),
    dict(name='components-deep', fn=components, kw=dict(n=2), tiers=('thorough',), bounds='2 arbitrary characters'),
]

"""C24: columns of sections, and cleaning the schema"""
from metatab import MetatabDoc
from .util import *
from .rt import canon, read_csv, read_lines

# Names without letters that have no single-letter title case
COL = tuple(c for c in NAME if c.title().lower() == c.lower() and ('a' + c).title().lower() == 'a' + c.lower() and not ('a' + c).strip() == 'a')
LCOL = tuple(c for c in COL if c in NOBREAK and c not in '|\\:=')


def cname(h, name, k, alphabet=COL):
    c = h.str(name, k, alphabet)
    h.assume(h.neg(c == ''))
    return c


def trips(h, doc, label, lines=True):
    c = canon(doc)
    h.prove(h.same(canon(read_csv(doc.as_csv())), c), label + ': CSV has everything', lambda: [c, doc.as_csv()])
    if lines:
        h.prove(h.same(canon(read_lines(doc.as_lines())), c), label + ': Lines have everything', lambda: [c, doc.as_lines()])


def terms(doc):
    return [[s.name, [tview(t) for t in s.terms]] for s in doc]


def columns(h, n, k, ops):
    """Any names, any sequence of adding and removing"""
    a = cname(h, 'a', k)
    b = cname(h, 'b', k)
    v = h.str('v', n, BIG)
    start = h.pick('start', [['A', 'bB'], [], ['A', '', 'bB', ''], ['A', 'bB', 'Bb', 'a', 'c']])
    doc = rowdoc([['R', '1', 'q'], ['Section', 'S'] + start, ['T', '2', 'x' + v, 'y'][:2 + len(start)], ['.' + a, 'z' + v], ['T.Bb', v + 'w'], ['U', '3'], ['Section', 'Z', 'A', 'C'], ['T', '4', 'x', 'y']])
    h.assume(h.neg(a.lower() == 't'))  # the name of the term itself
    before = terms(doc)
    s = doc['S']
    model = list(start)
    for i in range(ops):
        op = h.choose('op%d' % i, 5)
        c = [a, b, 'a', 'BB', 'New'][op] if i else [a, b][op % 2]
        how = h.choose('how%d' % i, 3)
        low = [e.lower() for e in model if e]
        model = [e for e in model if e]
        if how == 0:
            s.add_arg(c)
            if c.lower() not in low:
                model = model + [c]
        elif how == 1:
            s.add_arg(c, prepend=True)
            if c.lower() not in low:
                model = [c] + model
        else:
            s.remove_arg(c)
            model = [e for e in model if e.lower() != c.lower()]
        h.prove(h.same([e.lower() for e in s.args], [e.lower() for e in model]), 'the columns of the section', lambda: [s.args, model])
        h.prove(h.same(s.args, s.property_names), 'the names of the properties are the columns')
    h.observe(dview(doc))
    h.prove(h.same(terms(doc), before), 'no term changes', lambda: [terms(doc), before])
    h.prove(doc['Z'].args == ['A', 'C'] and doc['Root'].args == [], 'no other section changes')
    if not ('' in start) and len(start) < 5:
        trips(h, doc, 'after changing columns', False)


def share(h, k):
    """Sections with the columns of a declaration do not share them"""
    a = cname(h, 'a', k)
    how = h.choose('how', 3)
    doc = MetatabDoc()
    doc.decl_sections = {'s': {'args': ['A', 'B'], 'terms': set()}, 'z': {'args': ['A', 'B'], 'terms': set()}}
    s = doc.new_section('S') if how else doc.get_or_new_section('S')
    z = doc.new_section('Z')
    want = ['A', 'B']
    h.prove(h.same(s.args, want), 'the declared columns')
    s.add_arg(a, prepend=how == 2)
    s.remove_arg('b')
    h.observe(s.args)
    h.prove(h.same(z.args, want), 'another section keeps its columns')
    h.prove(h.same(doc.section_args('S'), want) and h.same(doc.section_args('z'), want), 'the declaration keeps its columns')
    h.prove(h.same(doc.new_section('s').args, want), 'a new section has the declared columns')


def schema(h, n, k, shape, big=False):
    """Any values of the properties of columns"""
    v = [h.str('v%d' % i, n, BIG if big else SHORT) for i in range(4)]
    a = cname(h, 'a', k) if k else 'AltName'
    low = a.lower()
    h.assume(h.neg(low in ('datatype', 'other', 'column', 'note', 'deep')))
    cols = [['DataType', a, 'Note'], [a, 'datatype'], ['Other'], []][shape % 4]
    k2 = len(cols) + 2
    if cols:
        rows = [['Section', 'Schema'] + cols, ['Table', 't', 'x', v[0]][:k2], ['.Note', ''], ['Table.Column', 'c', v[1], v[2], v[0]][:k2], ['.' + a.upper() if not k else '.' + a, v[3]],
                ['.Deep', ''], ['Table.Column', 'd', '', v[1]][:k2], ['.Other', v[2]], ['Other', v[0], v[1]][:k2], ['.Note', '']]
    else:
        rows = [['Section', 'Schema'], ['Table', 't'], ['Table.Column', 'c'], ['.' + a, v[0]], ['Column.DataType', v[1]], ['Column.DataType', v[2]], ['DataType.Unit', v[3]],
                ['Table', 'u'], ['Table.Column', 'd'], ['.Note', v[3]]]
    rows = [['Title', v[0]], ['.K', '']] + rows + [['Section', 'Z', 'A', 'B'], ['Table', 'z', '', 'y'], ['Table.Column', 'e', v[0]], ['.K', '']]
    doc = rowdoc(rows)
    if not cols:
        h.assume(h.neg(low == 'unit'))
    want = dview(doc)
    r = attempt(doc.clean_unused_schema_terms)
    h.prove(r == ('ok', None), 'the schema can be cleaned', lambda: r)
    # Oracle
    used = []
    for t in want[1][2]:
        if t[1] != 'table':
            continue
        for c in t[3]:
            if c[1] != 'column':
                continue
            c[3] = [p for p in c[3] if (p[2] and p[2].strip()) or p[3]]
            for p in c[3]:
                if p[2] and p[2].strip() and p[1] not in used:
                    used.append(p[1])
    kept = [e for e in want[1][1] if e.lower() in used]
    new = [e for e in used if e not in [f.lower() for f in kept]]
    got = dview(doc)
    h.observe(got)
    args = got[1][1]
    h.prove(h.same(args[:len(kept)], kept), 'the columns that are used stay, in order', lambda: [args, kept])
    h.prove(h.same([e.lower() for e in args[len(kept):]], new), 'other properties become columns, and unused columns go', lambda: [args, kept, new])
    want[1][1] = got[1][1]
    h.prove(h.same(got, want), 'empty properties of columns are removed, and nothing else changes', lambda: [got, want])
    consistent(h, doc, 'after cleaning')
    trips(h, doc, 'after cleaning', False) if not blank_kids(got) else None
    doc.clean_unused_schema_terms()
    h.prove(h.same(dview(doc), got), 'cleaning again changes nothing')


SHORT = tuple('aZ0 \t\n\xa0\u2003-é,"')


def blank_kids(view):
    """Written documents do not keep blank children"""
    def f(t):
        return any(not (c[2] and c[2].strip()) or f(c) for c in t[3])
    return any(f(t) for s in view for t in s[2])


def absent(h, n):
    """Documents without a schema"""
    v = h.str('v', n, BIG)
    rows = [['Title', v], ['.K', v], ['Section', 'S', 'A'], ['Table', v, 'x'], ['Table.Column', 'c'], ['.X', '']]
    if h.flag('empty'):
        rows += [['Section', 'schema', 'A', 'B']]
    doc = rowdoc(rows)
    want = dview(doc)
    r = attempt(doc.clean_unused_schema_terms)
    h.prove(r == ('ok', None), 'a document without a schema is left as it is', lambda: r)
    got = dview(doc)
    h.observe(got)
    if len(want) > 2:
        want[2][1] = []
    h.prove(h.same(got, want), 'nothing changes but unused columns', lambda: [got, want])



def numbers(h):
    """Properties of columns that are numbers"""
    v = [h.pick('v%d' % i, NUMBERS[:4]) for i in range(2)]
    doc = MetatabDoc()
    s = doc.new_section('Schema', ['DataType', 'Unused'])
    t = s.new_term('Table', 't')
    c = t.new_child('Column', 'c', datatype='int')
    c.get_or_new_child('Width', v[0])
    c.get_or_new_child('Empty', '')
    d = t.new_child('Column', 'd')
    d['Precision'] = v[1]
    want = dview(doc)
    want[1][2][0][3][0][3].pop()
    r = attempt(doc.clean_unused_schema_terms)
    h.prove(r == ('ok', None), 'the schema can be cleaned', lambda: r)
    got = dview(doc)
    h.observe(got)
    h.prove(h.same([e.lower() for e in got[1][1]], ['datatype', 'width', 'precision']), 'numbers are used properties, 0 too', lambda: got)
    want[1][1] = got[1][1]
    h.prove(h.same(got, want), 'numbers stay', lambda: [got, want])


JOBS = [
    dict(name='columns', fn=columns, kw=dict(n=1, k=1, ops=1), tiers=('quick',), bounds='3 lists of columns, 2 names and a value of 1 character, 1 change'),
    dict(name='columns2', fn=columns, kw=dict(n=0, k=1, ops=2), tiers=('quick',), bounds='3 lists of columns, 2 names of 1 character, 2 changes'),
    dict(name='columns-deep', fn=columns, kw=dict(n=0, k=2, ops=2), tiers=('thorough',), bounds='3 lists of columns, 2 names of up to 2 characters, 2 changes'),
    dict(name='share', fn=share, kw=dict(k=2), bounds='a name of up to 2 characters'),
    dict(name='numbers', fn=numbers, bounds='2 numbers out of 4'),
    dict(name='absent', fn=absent, kw=dict(n=2), bounds='a value of up to 2 characters'),
] + [dict(name='schema%d' % s, fn=schema, kw=dict(n=1, k=0, shape=s), tiers=('quick',), bounds='schema of 2 columns with 4 values of up to 1 character out of 12') for s in range(4)] \
  + [dict(name='schema-name%d' % s, fn=schema, kw=dict(n=0, k=2, shape=s), tiers=('quick',), bounds='a property name of up to 2 characters') for s in range(2)] \
  + [dict(name='schema-deep%d' % s, fn=schema, kw=dict(n=1, k=0, shape=s, big=True), tiers=('thorough',), bounds='schema of 2 columns with 4 values of up to 1 character') for s in range(4)]

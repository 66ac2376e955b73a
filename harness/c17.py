"""C17: what a declaration document does to a document"""
from sx.files import Scratch
from metatab import MetatabDoc
from metatab.rowgen import MetatabRowGenerator
from .util import *

FBIG = tuple(c for c in BIG if c != '\r')
FNAME = tuple(c for c in NAME if c != '\r')

COLS = ['TermValueName', 'ChildPropertyType', 'Section', 'Synonym', 'InheritsFrom']


def decl(terms, sections=(), style=0):
    """Rows of a declaration. terms: (name, {column: value})"""
    rows = [['Section', 'DeclaredSections']]
    for s in sections:
        rows.append(['DeclareSection'] + list(s))
    if style == 0:
        rows.append(['Section', 'DeclaredTerms'] + COLS)
    else:
        rows.append(['Section', 'DeclaredTerms'])
        rows.append(['Header', 'Term'] + COLS)
    for name, props in terms:
        if style == 2:
            rows.append(['DeclareTerm', name])
            for k, v in props.items():
                rows.append(['.' + k, v])
        else:
            rows.append(['DeclareTerm', name] + [props.get(c, '') for c in COLS])
    return rows


def load(h, files, how=0):
    """A document that declares in its first row, or is given the declaration otherwise"""
    with Scratch(h, files) as s:
        if how == 0:
            return MetatabDoc(s.path('doc.csv'))
        rows = files['doc.csv']
        if how == 1:
            doc = MetatabDoc(MetatabRowGenerator(rows[1:]), decl=s.path('decl.csv'))
        elif how == 2:
            doc = MetatabDoc(decl=[s.path('decl.csv')])
            doc.load_rows(MetatabRowGenerator(rows[1:]))
        else:
            doc = MetatabDoc(MetatabRowGenerator([['Declare', s.path('decl.csv')]]))
            doc.load_rows(MetatabRowGenerator(rows[1:]))
        doc['Root'].terms[0].value = rows[0][1]
        return doc


def plain(h, e):
    """A text that can be a name in a declaration"""
    n = e.strip()
    h.assume(h.neg(n == ''))
    h.assume(h.neg(n.startswith('#')))
    h.assume(h.neg('*' in n))
    h.assume(h.neg(n.lower() in ('section', 'root', 'header', 'include', 'declare')))


def value_names(h, k, n):
    """The value name and type of a declared term, at the root level and of a child"""
    name = h.str('name', k, FNAME)
    plain(h, name)
    vn = h.str('vn', n, FNAME)
    plain(h, vn)
    used = h.str('used', k, FNAME)
    plain(h, used)
    cpt = h.pick('cpt', ['', 'scalar', 'sequence', 'any', 'sconcat', 'bconcat'])
    style = h.choose('style', 2)
    d = [('Root.' + name if h.flag('q') else name, {'TermValueName': vn, 'ChildPropertyType': cpt, 'Section': 'rOOt'}),
         ('T.' + name, {'TermValueName': 'kidname', 'ChildPropertyType': cpt})]
    h.assume(h.neg(used.strip().lower() == 't'))
    h.assume(h.neg(name.strip().lower() == 't'))
    doc = load(h, {'doc.csv': [['Declare', 'decl'], [used, 'v'], ['.Other', 'o'], ['T', '1'], ['T.' + used, 'w'], ['.' + used, 'u']], 'decl.csv': decl(d, [['Root']], style)}, h.choose('how', 4))
    t = doc['Root'].terms[1]
    c, c2 = doc['Root'].terms[2].children[0], doc['Root'].terms[2].children[0].children[0]
    hit = used.strip().lower() == name.strip().lower()
    if hit:
        want = [vn.strip(), cpt or 'any', 'kidname', cpt or 'any', '@value', 'any']
    else:
        want = ['@value', 'any', '@value', 'any', '@value', 'any']
    got = [t.term_value_name, t.child_property_type, c.term_value_name, c.child_property_type, c2.term_value_name, c2.child_property_type]
    h.observe(got)
    h.prove(h.same(got, want), 'the declaration of its own name gives a term its value name and type, and of no other', lambda: [got, want])
    key = want[0].lower()
    dd = t.as_dict()
    if not key == 'other':
        h.prove(h.same(dd, {'other': 'o', key: 'v'}), 'the value has its name in the dict form', lambda: dd)
        h.prove(t[key.upper() if key == '@value' else key] is t and h.same(t.get_value(want[0]), 'v'), 'the value is read by its name')


def synonyms(h, k):
    """A document with a synonym is the document with the term in its place"""
    syn = h.str('syn', k, FNAME)
    use = h.str('use', k, FNAME)
    tgt = h.pick('tgt', ['Root.Origin', 'Origin', 'ORIGIN', 'root.Title'])
    kid = h.flag('kid')
    for e in (syn, use):
        plain(h, e)
        h.assume(h.neg(e.strip().lower() in ('t', 'k')))
    if kid:
        d = [('T.' + syn, {'Synonym': 'T.K'}), ('Other', {})]
        rows = [['T', '1'], ['T.' + use, 'v'], ['.Sub', 's'], ['T', '2'], [use, 'w']]
    else:
        d = [('Other', {'Section': ''}), ('Root.' + syn if h.flag('q') else syn, {'Synonym': tgt})]
        rows = [['T', '1'], [use, 'v'], ['.Sub', 's'], [use, '2', 'x'], ['Section', 'S', 'C'], ['root.' + use, 'w', 'z']]
    doc = load(h, {'doc.csv': [['Declare', 'decl.csv']] + rows, 'decl.csv': decl(d, [['Root']])}, h.choose('how', 4))
    hit = use.strip().lower() == syn.strip().lower()

    def sub(r):
        if hit and kid and r[0].startswith('T.'):
            return ['T.K'] + r[1:]
        if hit and not kid and (r[0] is use or r[0].startswith('root.')):
            return [tgt] + r[1:]
        return r

    want = spec([['Declare', 'decl.csv']] + [sub(r) for r in rows])
    h.observe(dview(doc))
    h.prove(h.same(dview(doc), want), 'a synonym is replaced by its term, and no other name is', lambda: [dview(doc), want])


def inherits(h, k):
    """Derived terms"""
    sup = h.str('sup', k, FNAME)
    sub = h.str('sub', k, FNAME)
    plain(h, sup)
    plain(h, sub)
    same = sup.strip().lower() == sub.strip().lower()
    h.assume(h.neg(same))
    for e in (sup, sub):
        h.assume(h.neg(e.strip().lower() in ('x', 'res')))
    d = [('Root.' + sup, {'Section': 'res', 'TermValueName': 'url'}), (sup.strip() + '.Kind', {'Section': 'Res', 'ChildPropertyType': 'sequence', 'TermValueName': 'kn'}),
         ('X.Kind', {'Section': 'Res', 'ChildPropertyType': 'scalar'}), (sup.strip() + 'x.Sort', {'Section': 'Res'}),
         ('Root.' + sub if h.flag('q') else sub, {'Section': 'RES', 'InheritsFrom': 'Root.' + sup.strip() if h.flag('qi') else 'root.' + sup.strip().lower(), 'TermValueName': 'path'})]
    rows = [['Declare', 'decl'], ['Section', 'Res', 'Kind'], [sup, '1', 'a'], [sub, '2', 'b'], ['X', '3', 'c'], ['Section', 'More'], [sub, '4']]
    doc = load(h, {'doc.csv': rows, 'decl.csv': decl(d, [['Root'], ['Res', 'Kind']])}, h.choose('how', 4))
    for q, want in ((sup, ['1', '2', '4']), (sub, ['2', '4']), ('X', ['3'])):
        q = q.strip()
        got = [t.value for t in doc.find('Root.' + q)]
        h.observe(got)
        h.prove(h.same(got, want), 'a super term finds its derived terms, and these only themselves', lambda: [q, got, want])
        got = [t.value for t in doc['Res'].find(q)]
        h.prove(h.same(got, [v for v in want if v != '4']), 'the same in a section')
    kinds = [t.children[0] for t in doc['Res'].terms]
    got = [[c.child_property_type, c.term_value_name] for c in kinds]
    h.prove(h.same(got, [['sequence', 'kn'], ['sequence', 'kn'], ['scalar', '@value']]), 'a derived term inherits the declared children', lambda: got)
    h.prove(h.same([t.term_value_name for t in doc['Res'].terms], ['url', 'path', '@value']), 'a derived term has its own declaration')
    st = doc.decl_sections['res']['terms']
    h.prove(h.same([Term_norm(e) for e in st], ['root.' + sup.strip().lower(), sup.strip().lower() + '.kind', 'x.kind', sup.strip().lower() + 'x.sort', 'root.' + sub.strip().lower(), sub.strip().lower() + '.kind']),
            'a section lists its declared terms, inherited ones too', lambda: st)


def Term_norm(e):
    p, r = parts(e)
    return ('root' if p is None else p) + '.' + r


def tables(h, k, n):
    """What the document knows of its declaration"""
    a = h.str('a', k, FNAME)
    b = h.str('b', k, FNAME)
    plain(h, a)
    plain(h, b)
    v = h.str('v', n, FBIG)
    sec = h.str('sec', k, FNAME)
    plain(h, sec)
    h.assume(h.neg(sec.strip().lower() in ('s', 'declaredterms', 'declaredsections')))
    how = h.choose('how', 3)
    d = [(a, {'Section': sec.strip(), 'TermValueName': v}), (b, {'ChildPropertyType': 'scalar'}), ('K.' + b, {'Section': 's', 'TermValueName': 'z'}), (a, {'Section': sec})]
    rows = decl(d, [['S', 'C1', '', 'C3 '], [sec, v, 'D']], style=h.choose('style', 2))
    if how == 0:
        doc = load(h, {'doc.csv': [['Title', 'x'], ['Declare', 'decl']], 'decl.csv': rows})
    elif how == 1:
        # in two documents
        doc = load(h, {'doc.csv': [['Declare', 'one'], ['Title', 'x'], ['Declare', 'decl']], 'decl.csv': rows, 'one.csv': decl([('Root.Zzz', {'TermValueName': 'zv'})])})
        h.prove(h.same(doc.decl_terms['root.zzz'].get('termvaluename'), 'zv'), 'declarations add up')
    else:
        with Scratch(h, {'decl.csv': rows}) as s:
            doc = MetatabDoc(decl=s.path('decl.csv'))
    h.observe(len(doc.decl_terms), doc.decl_sections['s'])
    ka, kb, kk = 'root.' + a.strip().lower(), 'root.' + b.strip().lower(), 'k.' + b.strip().lower()

    def props(key):
        return {x: y for x, y in doc.decl_terms[key].items() if x not in ('values', 'term')}

    h.prove(h.same(props(kk), {'section': 's', 'termvaluename': 'z'}), 'the last declaration of a term counts', lambda: props(kk))
    wa = {'section': sec.strip()}
    h.prove(h.same(props(ka), wa), 'the properties of a declaration are kept', lambda: props(ka))
    if not ka == kb:
        h.prove(h.same(props(kb), {'childpropertytype': 'scalar'}), 'the properties of a declaration are kept', lambda: props(kb))
    sa = sec.strip().lower()
    h.prove(h.same(doc.decl_sections['s'], {'args': ['C1', 'C3'], 'terms': ['K.' + b.rstrip()]}), 'a declared section has its columns and terms', lambda: doc.decl_sections['s'])
    args = [v.strip(), 'D'] if v.strip() else ['D']
    h.prove(h.same(doc.decl_sections[sa], {'args': args, 'terms': [a.strip()]}), 'a declared section has its columns and terms, each once', lambda: doc.decl_sections[sa])
    s = doc.new_section(sec.strip())
    h.prove(h.same(s.property_names, args), 'a new section has the declared columns', lambda: s.property_names)
    s = doc.get_or_new_section('S')
    h.prove(h.same(s.property_names, ['C1', 'C3']), 'a section made on demand has the declared columns', lambda: s.property_names)
    h.prove(h.same(doc.get_or_new_section('S2', ['A']).property_names, ['A']), 'an undeclared section has the columns it is given')


def clean(h, n):
    """A declaration adds nothing to the document, wherever the Declare row is"""
    rows = [['Title', 't'], ['Section', 'One', 'a', 'b'], ['Row', '1', 'x', 'y'], ['.c', '2'], ['Row.d', '3'], ['Row', '4', 'z'], ['Section', 'Two', 'c'], ['Row', '5', 'w'], ['Title', '6']]
    at = h.choose('at', len(rows) + 1)
    h.assume(at == len(rows) or not rows[at][0].startswith('.'))
    v = h.str('v', n, FBIG)
    h.assume(h.neg(v.strip() == ''))
    name = h.str('name', 1, FNAME)
    plain(h, name)
    h.assume(h.neg(name.strip().lower() in ('a', 'b', 'c', 'd')))
    d = decl([('Root.' + name, {'TermValueName': 'x'}), (name + '.k', {'Section': 'one'})], [['Root'], ['One', v]], h.choose('style', 3))
    pre = h.choose('pre', 3)
    if pre == 1:
        d = [['DeclareSection', 'Three', 'X'], ['DeclareTerm', 'Root.Yy']] + d
    elif pre == 2:
        d = d + [['Section', 'Two', 'Zz'], ['DeclareTerm', 'Root.Yy', 'q'], ['Section', 'Root'], ['DeclareTerm', 'Root.Yy', 'q']]
    full = rows[:at] + [['Declare', 'decl']] + rows[at:]
    doc = load(h, {'doc.csv': full, 'decl.csv': d})
    want = spec(full)
    got = dview(doc)
    h.observe(got)
    h.prove(h.same(got, want), 'the sections of the document have nothing of the declaration', lambda: [got, want])
    re = rowdoc(list(r for r in doc.rows if r[0] != 'Declare'))
    h.prove(h.same(dview(re), spec(rows)), 'what is written has nothing of the declaration')
    dd = doc.as_dict()
    h.prove(sorted(dd) == ['declare', 'row', 'title'], 'the dict form has nothing of the declaration', lambda: sorted(dd))


def errors(h, k):
    """Declarations that are not possible"""
    sec = h.str('sec', k, FNAME)
    use = h.str('use', k, FNAME)
    plain(h, sec)
    plain(h, use)
    case = h.choose('case', 4)
    hit = sec.strip().lower() == use.strip().lower()
    rows = {'doc.csv': [['Title', 'x'], ['Declare', 'decl']]}
    ok = True
    if case == 0:
        rows['decl.csv'] = decl([('Root.T', {'Section': use})], [[sec]])
        ok = hit
        err = 'DeclarationError'
    elif case == 1:
        rows['decl.csv'] = decl([('Root.T', {'Section': sec}), ('Root.U', {'InheritsFrom': 'Root.T', 'Section': use.strip() if h.flag('given') else ''})], [[sec]])
        err = 'DeclarationError'
    elif case == 2:
        err = 'IncludeError'
        ok = False
        rows['doc.csv'] = [['Title', 'x'], ['Declare', 'no-such-declaration']]
    else:
        err = 'IncludeError'
        ok = False
        rows['doc.csv'] = [['Title', 'x'], ['Declare', 'doc.csv']]
    r = attempt(load, h, rows)
    h.observe(r[0], r[1] if r[0] == 'raised' else '')
    if case == 1:
        given = len(rows['decl.csv'][-1][4]) > 0
        ok = given and hit
    if ok:
        h.prove(r[0] == 'ok', 'a possible declaration is accepted', lambda: list(r))
    else:
        h.prove(h.same(list(r), ['raised', err]), 'a declaration that is not possible is reported', lambda: [r[0], err, r[1] if r[0] == 'raised' else ''])


def builtin(h):
    """The standard declaration"""
    res = h.pick('res', ['Datafile', 'Reference', 'Title', 'DATAFILE'])
    rows = [['Declare', 'metatab-latest'], ['Title', 't'], ['Section', 'Resources', 'Name'], [res, 'v', 'n'], ['Section', 'Contacts', 'Email'], ['Creator', 'c', 'e'], ['Wrangler', 'w', 'f']]
    doc = load(h, {'doc.csv': rows})
    h.observe(dview(doc))
    h.prove(h.same(dview(doc), spec(rows)), 'the sections of the document have nothing of the declaration')
    got = [t.value for t in doc.find('Root.Resource')]
    h.prove(h.same(got, [] if res == 'Title' else ['v']), 'data files and references are resources', lambda: got)
    h.prove(h.same([t.value for t in doc.find('Root.Contact')], ['c', 'w']), 'creators and wranglers are contacts')
    t = doc['Resources'].terms[0]
    h.prove(h.same(t.as_dict(), {'name': 'n', '@value' if res == 'Title' else 'url': 'v'}), 'the value of a resource is its url', lambda: t.as_dict())


def again(h, k):
    """A term that is declared again, in another declaration: the last one counts, for the rows after it"""
    name = h.str('name', k, FNAME)
    use = h.str('use', k, FNAME)
    plain(h, name)
    plain(h, use)
    d1 = decl([('Root.X', {'TermValueName': 'one', 'ChildPropertyType': 'scalar'}), ('Y', {'TermValueName': 'ky'})], [['Root'], ['S', 'A']])
    d2 = decl([(name, {'TermValueName': 'two'})], [['Root'], ['s', 'B', 'C']])
    how = h.choose('how', 3)
    h.assume(h.neg(name.strip().lower() == 'y'))
    with Scratch(h, {'d1.csv': d1, 'd2.csv': d2, 'doc.csv': [['Declare', 'd1'], ['X', '0'], ['Declare', 'd2'], ['X', '1'], [use, '2']]}) as s:
        if how == 0:
            doc = MetatabDoc(s.path('doc.csv'))
        elif how == 1:
            doc = MetatabDoc(decl=[s.path('d1.csv'), s.path('d2.csv')])
            doc.load_rows(MetatabRowGenerator([['X', '0'], ['X', '1'], [use, '2']]))
        else:
            doc = MetatabDoc(decl=s.path('d1.csv'))
            doc.load_rows(MetatabRowGenerator([['X', '0']]))
            doc.load_declarations([s.path('d2.csv')])
            doc.load_rows(MetatabRowGenerator([['X', '1'], [use, '2']]))
    n, u = name.strip().lower(), use.strip().lower()
    ts = [t for t in doc['Root'].terms if t.record_term_lc != 'declare']
    two = ['two', 'any']
    one = ['one', 'scalar']
    redone = n == 'x'
    want = [two if redone and how == 1 else one, two if redone else one]
    want.append(two if u == n else one if u == 'x' else ['ky', 'any'] if u == 'y' else ['@value', 'any'])
    got = [[t.term_value_name, t.child_property_type] for t in ts]
    h.observe(got)
    h.prove(h.same(got, want), 'the last declaration of a term counts', lambda: [got, want])
    h.prove(h.same([doc.decl_terms['root.' + n]['termvaluename'], doc.decl_sections['s']['args']], ['two', ['B', 'C']]), 'for the document too', lambda: doc.decl_sections)


def places(h):
    """Where a declaration is found"""
    rows = decl([('Root.Title', {'TermValueName': 'vn'})])
    where = h.choose('where', 5)
    files = {'doc.csv': [['Declare', 'decl'], ['Title', 'x']], ['decl.csv', 'decl', 'decl.csv', 'sub/decl.csv', 'decl.csv'][where]: rows}
    with Scratch(h, files) as s:
        if where == 2:
            s.put('doc.csv', [['Declare', s.path('decl.csv')], ['Title', 'x']])
        elif where == 3:
            s.put('doc.csv', [['Declare', 'sub/decl' if h.flag('ext') else 'sub/decl.csv'], ['Title', 'x']])
        elif where == 1:
            s.put('doc.csv', [['Declare', 'decl.csv'], ['Title', 'x']])
            s.put('decl.csv', rows)
        elif where == 4:
            s.put('doc.csv', [['Declare', 'decl.csv'], ['Title', 'x']])
            s.put('decl.csv.csv', decl([('Root.Title', {'TermValueName': 'other'})]))
        doc = MetatabDoc(s.path('doc.csv'))
    h.observe(doc['Root'].terms[1].term_value_name)
    h.prove(doc['Root'].terms[1].term_value_name == 'vn', 'a declaration is found by path, and by name beside the document')


JOBS = [
    dict(name='value-names', fn=value_names, kw=dict(k=1, n=1), bounds='arbitrary one-character names and value name, 6 types, 2 layouts'),
    dict(name='synonyms', fn=synonyms, kw=dict(k=1), bounds='arbitrary one-character synonym and name in the document, 4 targets, root-level and child'),
    dict(name='inherits', fn=inherits, kw=dict(k=1), bounds='arbitrary one-character names of super and derived term'),
    dict(name='tables', fn=tables, kw=dict(k=1, n=(0, 1)), bounds='arbitrary one-character names and property values of up to 1 character, 3 ways of declaring, 3 layouts'),
    dict(name='clean', fn=clean, kw=dict(n=1), bounds='Declare row at each place of a document of 9 rows, 3 layouts, rows outside of its own sections'),
    dict(name='errors', fn=errors, kw=dict(k=1), bounds='undeclared sections, missing sections of derived terms, missing and self-referring declarations'),
    dict(name='again', fn=again, kw=dict(k=1), bounds='two declarations of one term, an arbitrary one-character name, 3 ways of declaring'),
    dict(name='builtin', fn=builtin, bounds='the standard declaration, 5 terms'),
    dict(name='value-names-deep', fn=value_names, kw=dict(k=2, n=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='synonyms-deep', fn=synonyms, kw=dict(k=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='inherits-deep', fn=inherits, kw=dict(k=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='tables-deep', fn=tables, kw=dict(k=2, n=(0, 2)), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='errors-deep', fn=errors, kw=dict(k=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='places', fn=places, bounds='5 places'),
]

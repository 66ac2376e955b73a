"""C19: registered term classes"""
from sx.files import Scratch
from metatab import MetatabDoc
from metatab.parser import TermParser
from metatab.rowgen import MetatabRowGenerator
from metatab.terms import Term, SectionTerm, RootSectionTerm
from metatab.resolver import WebResolver
from .util import *

FNAME = tuple(c for c in NAME if c != '\r')


class A(Term):
    pass


class B(Term):
    pass


DOTTED = 'harness.c19.B'


def name(h, n, k):
    e = h.str(n, k, FNAME)
    m = e.strip()
    h.assume(h.neg(m == ''))
    h.assume(h.same(m, e))
    h.assume(h.neg(m.startswith('#')))
    h.assume(h.neg(m.lower() in ('section', 'root', 'header', 'include', 'declare')))
    return e


def kinds(doc):
    return [[type(t).__name__, [type(c).__name__ for c in t.children]] for t in doc.terms]


def parsed(h, k):
    """Rows"""
    reg = name(h, 'reg', k)
    use = name(h, 'use', k)
    h.assume(h.neg(use.lower() == 'k'))
    h.assume(h.neg(reg.lower() == 'k'))
    cls = h.pick('cls', [A, DOTTED])
    via = h.flag('via')
    kid = h.flag('kid')
    (MetatabDoc if via else TermParser).register_term_class(('K.' if kid else 'Root.') + reg, cls)
    rows = [[use, '1'], ['.K', '2'], ['Root.' + use, '3'], ['K', '4'], ['K.' + use, '5'], ['Section', 'S'], [use, '6']]
    doc = rowdoc(rows)
    hit = reg.lower() == use.lower()
    X = ('A' if cls is A else 'B') if hit else 'Term'
    r, c = ('Term', X) if kid else (X, 'Term')
    want = [[r, ['Term']], [r, []], ['Term', [c]], [r, []]]
    h.observe(kinds(doc))
    h.prove(h.same(kinds(doc), want), 'terms of the name have the class, others do not', lambda: [kinds(doc), want])
    h.prove(h.same(dview(doc), spec(rows)), 'the class does not change the document')
    h.prove(type(doc['S']) is SectionTerm and type(doc.root) is RootSectionTerm, 'sections keep their class')
    full = ('k.' if kid else 'root.') + use
    E = (A if cls is A else B) if hit else Term
    tp = TermParser(MetatabRowGenerator([]), resolver=WebResolver(), doc=doc)
    h.prove(tp.get_term_class(full) is E and tp.get_term_class(full.upper() if full.isascii() else full) is E, 'the parser tells the class')
    h.prove(doc.get_term_class(full) is E, 'the document tells the class')
    TermParser.unregister_term_class(('k.' if kid else 'ROOT.') + reg)
    h.prove(doc.get_term_class(full) is Term and tp.get_term_class(full) is Term, 'a class that was removed is not used')
    doc = rowdoc(rows)
    h.prove(h.same(kinds(doc), [['Term', ['Term']], ['Term', []], ['Term', ['Term']], ['Term', []]]), 'a class that was removed is not used for rows')
    TermParser.unregister_term_class('Root.NeverThere')


def made(h, k):
    """Terms made with the API"""
    reg = name(h, 'reg', k)
    use = name(h, 'use', k)
    h.assume(h.neg(use.lower() in ('k', 'value')))
    h.assume(h.neg(reg.lower() == 'k'))
    cls = h.pick('cls', [A, DOTTED])
    kid = h.flag('kid')
    TermParser.register_term_class(('k.' if kid else 'root.') + reg, cls)
    hit = reg.lower() == use.lower()
    E = (A if cls is A else B) if hit else Term
    doc = MetatabDoc()
    s = doc.new_section('S')
    how = h.choose('how', 5)
    if kid:
        t = s.new_term('K', 'v')
        h.prove(type(t) is Term, 'the parent is not of the class')
        if how == 0:
            c = t.new_child(use, '1')
        elif how == 1:
            c = t.get_or_new_child(use, '1')
        elif how == 2:
            t[use] = '1'
            c = t.children[0]
        elif how == 3:
            c = t.new_child('K.' + use, '1')
        else:
            c = t.get_or_new_child('K.' + use, '1')
        h.prove(len(t.children) == 1 and t.children[0] is c, 'one child')
    else:
        if how == 0:
            c = s.new_term(use, '1')
        elif how == 1:
            c = s.new_term('Root.' + use, '1')
        elif how == 2:
            c = s.get_or_new_term(use, '1')
        elif how == 3:
            s.set_terms(**{use: '1'})
            c = s.terms[0]
        else:
            s[use] = '1'
            c = s.terms[0]
        h.prove(len(s.terms) == 1 and s.terms[0] is c, 'one term')
    h.observe(type(c).__name__)
    h.prove(type(c) is E, 'a term made with the API has the class of its name', lambda: [type(c).__name__, E.__name__])
    h.prove(c.value == '1', 'the value is kept')


def derived(h, k):
    """Derived terms have the class of their super term, unless they have their own"""
    sub = name(h, 'sub', k)
    h.assume(h.neg(sub.lower() in ('res', 'oth')))
    own = h.flag('own')
    TermParser.register_term_class('Root.Res', A)
    if own:
        TermParser.register_term_class('Root.' + sub, DOTTED)
    files = {'d.csv': [['Section', 'DeclaredSections'], ['DeclareSection', 'S'], ['Section', 'DeclaredTerms', 'Section', 'InheritsFrom'],
                       ['DeclareTerm', 'Root.Res', 'S'], ['DeclareTerm', 'Root.' + sub, 'S', 'Root.Res']],
             'doc.csv': [['Declare', 'd'], ['Section', 'S'], [sub, '1'], ['Res', '2'], ['Oth', '3']]}
    with Scratch(h, files) as s:
        doc = MetatabDoc(s.path('doc.csv'))
    doc['S'].new_term('Root.' + sub, '4')
    doc['S'].new_term('Oth', '5')
    got = [type(t).__name__ for t in doc['S'].terms]
    h.observe(got)
    X = 'B' if own else 'A'
    h.prove(got == [X, 'A', 'Term', X, 'Term'], 'derived terms have the class of their super term unless they have their own', lambda: got)


def derived_new(h, k):
    """The same in a document that has nothing but declarations"""
    sub = name(h, 'sub', k)
    h.assume(h.neg(sub.lower() in ('res', 'oth')))
    TermParser.register_term_class('Root.Res', A)
    TermParser.register_term_class('Res.Kid', DOTTED)
    files = {'d.csv': [['Section', 'DeclaredSections'], ['DeclareSection', 'S'], ['Section', 'DeclaredTerms', 'Section', 'InheritsFrom'],
                       ['DeclareTerm', 'Root.Res', 'S'], ['DeclareTerm', 'Root.' + sub, 'S', 'Root.Res']]}
    with Scratch(h, files) as s:
        doc = MetatabDoc()
        doc.load_declarations([s.path('d.csv')])
        other = MetatabDoc()
        how = h.choose('how', 3)
        if how == 0:
            t = doc.new_section('S').new_term('Root.' + sub, '4')
        elif how == 1:
            t = doc['Root'].new_term(sub, '4')
        else:
            doc.load_rows(MetatabRowGenerator([[sub, '4']]))
            t = doc['Root'].terms[-1]
        u = other['Root'].new_term(sub, '4')
        w = other['Root'].new_term('Res', '4').new_child('Kid', '5')
    h.observe(type(t).__name__, type(u).__name__)
    h.prove(type(t) is A, 'derived terms have the class of their super term', lambda: type(t).__name__)
    h.prove(type(u) is Term, 'not so in a document without the declaration', lambda: type(u).__name__)
    h.prove(type(w).__name__ == 'B', 'a child has the class of its name', lambda: type(w).__name__)


def histories(h, n):
    """Registering and removing classes in turn"""
    model = {}
    for i in range(n):
        nm = h.pick('n%d' % i, ['Root.X', 'root.x', 'Root.Y', 'X.Y'])
        op = h.choose('op%d' % i, 3)
        if op == 0:
            TermParser.register_term_class(nm, A)
            model[nm.lower()] = 'A'
        elif op == 1:
            TermParser.register_term_class(nm, DOTTED)
            model[nm.lower()] = 'B'
        else:
            TermParser.unregister_term_class(nm)
            model.pop(nm.lower(), None)
    doc = rowdoc([['X', '1'], ['X.Y', '2'], ['Y', '3'], ['Y.X', '4'], ['Z', '5']])
    got = kinds(doc)
    g = lambda e: model.get(e, 'Term')
    want = [[g('root.x'), [g('x.y')]], [g('root.y'), ['Term']], ['Term', []]]
    h.observe(got)
    h.prove(got == want, 'the last registration of each name counts', lambda: [got, want])


JOBS = [
    dict(name='parsed', fn=parsed, kw=dict(k=1), bounds='arbitrary one-character registered name and name in the document'),
    dict(name='made', fn=made, kw=dict(k=1), bounds='arbitrary one-character names, 10 ways of making a term'),
    dict(name='derived-new', fn=derived_new, kw=dict(k=1), bounds='arbitrary one-character name of the derived term, 3 ways of making it'),
    dict(name='derived', fn=derived, kw=dict(k=1), bounds='arbitrary one-character name of the derived term'),
    dict(name='histories', fn=histories, kw=dict(n=3), bounds='3 registrations or removals of 4 names'),
    dict(name='parsed-deep', fn=parsed, kw=dict(k=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='made-deep', fn=made, kw=dict(k=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='histories-deep', fn=histories, kw=dict(n=4), tiers=('thorough',), bounds='4 registrations or removals'),
]

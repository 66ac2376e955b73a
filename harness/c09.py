"""C09: names of terms: how they are split, normalised and compared"""
from metatab.terms import Term
from .util import *


def split(name):
    """(parent, record) in lower case; parent None if it is elided"""
    if '.' in name:
        i = name.index('.')
        p = name[:i].strip().lower()
        return (p if p else None), name[i + 1:].strip().lower()
    return 'root', name.strip().lower()


def matches(parent, record, pattern):
    if '.' in pattern:
        i = pattern.index('.')
        p, r = pattern[:i].lower(), pattern[i + 1:].lower()
    else:
        p, r = 'root', pattern.lower()
    return (p == '*' or p == parent) and (r == '*' or r == record)


def names(h, n, alphabet):
    s = h.str('s', n, alphabet)
    h.assume(s.count('.') <= 1)
    p, r = split(s)
    a = Term.split_term_lower(s)
    h.observe(list(a), Term.normalize_term(s))
    h.prove(h.same(a[1], r), 'the record name is after the dot, without white space, in lower case', lambda: list(a))
    if p is None:
        t = Term(s, 'v')
        h.prove(t.has_elided_parent, 'a name that starts with a dot has an elided parent')
        h.prove(h.same(t.record_term_lc, r), 'record name of the term')
    else:
        h.prove(h.same(a[0], p), 'the parent name is before the dot, or root', lambda: list(a))
        h.prove(h.same(Term.normalize_term(s), p + '.' + r), 'the normalised name is qualified and in lower case')
        h.prove(h.same(Term.normalize_term(Term.normalize_term(s)), Term.normalize_term(s)), 'normalising again changes nothing')
        t = Term(s, 'v')
        h.prove(h.neg(t.has_elided_parent), 'not elided')
        h.prove(h.same([t.parent_term_lc, t.record_term_lc, t.join_lc], [p, r, p + '.' + r]), 'the term has the normalised names',
                lambda: [t.parent_term_lc, t.record_term_lc, t.join_lc])
        b = Term.split_term(s)
        h.prove(h.same([e.lower() for e in b], [p, r]), 'split_term() keeps the case of the same names')


def term_is(h, n, m, alphabet):
    """Any name against any pattern"""
    s = h.str('s', n, alphabet)
    q = h.str('q', m, alphabet + ('*',))
    h.assume(s.count('.') <= 1)
    h.assume(q.count('.') <= 1)
    h.assume(h.neg(q.startswith('.')))
    p, r = split(s)
    h.assume(p is not None)
    t = Term(s, 'v')
    got = t.term_is(q)
    want = matches(p, r, q)
    h.observe(bool(got))
    h.prove(bool(got) == bool(want), 'a name matches regardless of case, with wild cards for either part', lambda: [s, q, got])


def cases(h):
    """Every capitalisation; a longer or shorter name does not match"""
    base = h.pick('b', ['root.title', 'table.column', 'root.rootterm', 'root.root', 'a.b'])
    x = h.str('x', (0, 1), BIG)
    y = h.str('y', (0, 1), BIG)
    for e in (x, y):
        h.assume(h.neg('.' in e))
        h.assume(h.same(e.strip(), e))
    t = Term(base, 'v')
    p, r = split(base)
    q = y + h.pick('c', [base, base.upper(), base.title(), base.replace('root.', ''), '*.' + r, p + '.*', '*.*', r]) + x
    got = t.term_is(q)
    want = matches(p, r, q)
    h.observe(bool(got))
    h.prove(bool(got) == bool(want), 'a name matches regardless of case, with wild cards for either part', lambda: [base, q, got])


def lists(h):
    """A list of names matches if any does"""
    t = Term(h.pick('t', ['Title', 'Table.Column', 'Root.Table']), 'v')
    W = ['TITLE', 'root.table', '*.column', 'table.*', 'x', 'root.*', '*.*']
    q = [h.pick('q%d' % i, W) for i in range(h.choose('n', 4))]
    k = h.choose('kind', 2)
    got = t.term_is(q if k else tuple(q))
    h.observe(bool(got))
    h.prove(bool(got) == any(matches(t.parent_term_lc, t.record_term_lc, e) for e in q), 'a list matches if one of its names does', lambda: [t.join, q, got])


def children(h, n):
    """A child made with the API is qualified by its parent, however its name is given"""
    c = h.str('c', n, NAME)
    h.assume(h.neg(c.strip() == ''))
    doc = MetatabDoc()
    t = doc['Root'].new_term(h.pick('p', ['Table', 'root.Table', 'TABLE']), 'x')
    k = t.new_child(h.pick('f', ['{}', 'Table.{}', 'table.{}']).replace('{}', c), 'y')
    h.observe(k.join_lc)
    h.prove(h.same([k.parent_term_lc, k.record_term_lc], ['table', c.strip().lower()]), 'a child is qualified by its parent', lambda: k.join_lc)
    h.prove(h.same(k.qualified_term, 'table.' + c.strip().lower()), 'qualified name of the child')
    h.prove(h.same(t.qualified_term, 'root.table'), 'qualified name of the term')
    h.prove(k.parent is t and t.children == [k], 'the child is linked to its parent')


def values(h, n):
    """The value of a term is its text without surrounding white space; no text, no value"""
    v = h.str('v', n, BIG)
    t = Term('Title', v, ['a', v])
    h.observe(t.value, t.args)
    if v == '':
        h.prove(t.value is None, 'no text, no value')
    else:
        h.prove(h.same(t.value, v.strip()), 'the value is the text without surrounding white space')
    h.prove(h.same(t.args, ['a', v.strip()]), 'so are the arguments')
    h.prove(Term('Title', 5).value == 5 and Term('Title', None).value is None, 'other types are kept')



def numbers(h):
    """Values that are numbers are kept, 0 too"""
    v = h.pick('v', NUMBERS)
    how = h.choose('how', 4)
    doc = MetatabDoc()
    if how == 0:
        t = Term('Title', v)
    elif how == 1:
        t = doc['Root'].new_term('Title', v)
    elif how == 2:
        t = doc['Root'].get_or_new_term('Title', v)
    else:
        doc['Root'].set_terms(Title=v)
        t = doc['Root'].terms[0]
    h.observe(t.value)
    h.prove(t.value == v and type(t.value) is type(v), 'a number is kept as the value, also if it is zero', lambda: [v, t.value])
    for e in (None, ''):
        h.prove(Term('Title', e).value is None, 'no text, no value')


JOBS = [
    dict(name='names', fn=names, kw=dict(n=(0, 4), alphabet=BIG), bounds='names of up to 4 arbitrary characters'),
    dict(name='term_is', fn=term_is, kw=dict(n=(1, 3), m=(1, 3), alphabet=tuple('aAbB.é')), bounds='names and patterns of 1-3 of 7 characters'),
    dict(name='cases', fn=cases, bounds='5 names, 8 forms of pattern, arbitrary characters before and after'),
    dict(name='lists', fn=lists, bounds='lists of up to 3 of 7 patterns'),
    dict(name='children', fn=children, kw=dict(n=(1, 2)), bounds='child names of 1-2 arbitrary characters'),
    dict(name='values', fn=values, kw=dict(n=(0, 4)), bounds='values of up to 4 arbitrary characters'),
    dict(name='numbers', fn=numbers, bounds='6 numbers, 4 ways of making a term'),
    dict(name='names-deep', fn=names, kw=dict(n=(5, 6), alphabet=BIG), tiers=('thorough',), bounds='5-6 characters'),
    dict(name='term_is-deep', fn=term_is, kw=dict(n=(1, 4), m=(1, 4), alphabet=tuple('aAbB.')), tiers=('thorough',), bounds='1-4 characters'),
]

"""C12: sorting sections and terms only reorders them, as asked"""
from .util import *


def same_objects(a, b):
    return len(a) == len(b) and all(any(x is y for y in b) for x in a)


def in_order(want, order, names):
    """Names in the order given by a list, the others after them"""
    first = [n for o in order for n in names if n == o.lower()]
    return first + [n for n in want if n not in [o.lower() for o in order]]


def sections(h, k, n):
    """Sections with arbitrary names, any order"""
    names = [h.str('s%d' % i, k, NAME) for i in range(2)] + ['Data', 'Schema'][:n]
    for s in names[:2]:
        h.assume(h.neg(s.strip() == ''))
    rows = [['Title', 't']]
    for i, s in enumerate(names):
        rows += [['Section', s, 'C%d' % i], ['Term', 'v%d' % i, 'c'], ['.Kid', 'k']]
    doc = rowdoc(rows)
    before = dview(doc)
    secs = list(doc.sections.values())
    lc = [s.name.lower() for s in secs]
    o = [h.str('o%d' % i, k, NAME) for i in range(2)]
    for e in o:
        h.assume(h.neg(e == ''))
    order = [o[0], h.pick('w', ['DATA', 'root', 'Nope']), o[1]]
    doc.sort_sections(order)
    after = list(doc.sections.values())
    h.observe([s.name for s in after])
    h.prove(same_objects(secs, after), 'the same sections are there')
    want = []
    for e in order:
        for s in secs:
            if s.name.lower() == e.lower() and not any(s is x for x in want):
                want.append(s)
    want = want + [s for s in secs if not any(s is x for x in want)]
    h.prove(all(a is b for a, b in zip(after, want)), 'named sections come first in the order given, the others keep theirs',
            lambda: [order, lc, [s.name for s in after]])
    h.prove(h.same(sorted_sections(dview(doc), after, secs), before), 'the sections themselves are unchanged')
    consistent(h, doc, 'sorted')


def sorted_sections(view, after, secs):
    """The view, put back in the original order"""
    out = []
    for s in secs:
        for i, a in enumerate(after):
            if a is s:
                out.append(view[i])
    return out


def order_lists(h, n):
    """Any list of names, also repeated ones and ones that are not there"""
    doc = rowdoc([['Title', 't'], ['Section', 'One', 'A'], ['T', '1', 'a'], ['Section', 'Two'], ['T', '2'], ['Section', 'Three'], ['Section', 'Four'], ['T', '4']])
    W = ['one', 'TWO', 'Three', 'Root', 'nope', 'foUr']
    order = [h.pick('o%d' % i, W) for i in range(h.choose('n', n + 1))]
    secs = list(doc.sections.values())
    if h.flag('tuple'):
        doc.sort_sections(tuple(order))
    else:
        doc.sort_sections(order)
    after = list(doc.sections.values())
    want = []
    for o in order:
        for s in secs:
            if s.name.lower() == o.lower() and s not in want:
                want.append(s)
    want += [s for s in secs if s not in want]
    h.observe([s.name for s in after])
    h.prove([s.name for s in after] == [s.name for s in want], 'named sections come first in the order given, the others keep theirs',
            lambda: [order, [s.name for s in after]])
    consistent(h, doc, 'sorted')
    once = [s.name for s in doc]
    doc.sort_sections(order)
    h.prove([s.name for s in doc] == once, 'sorting again changes nothing')


def terms(h, k, n):
    """Terms with arbitrary names, sorted by name"""
    names = [h.str('t%d' % i, k, NAME) for i in range(n)]
    for s in names:
        x = s.strip()
        h.assume(h.neg(x == ''))
        h.assume(h.neg(x.startswith('#')))
    doc = rowdoc([['Section', 'S', 'P']] + [[s, 'v%d' % i, 'p'] for i, s in enumerate(names)] + [['Zeta', 'z'], ['Beta', 'b'], ['Zeta', 'z2'], ['Section', 'T'], ['B', '1'], ['A', '2']])
    s = doc['S']
    old = list(s.terms)
    s.sort_by_term()
    new = list(s.terms)
    h.observe([t.value for t in new])
    h.prove(same_objects(old, new), 'the same terms are there')
    for a, b in zip(new, new[1:]):
        h.prove(h.neg(b.join_lc < a.join_lc), 'terms are in alphabetical order of their names', lambda: [a.join_lc, b.join_lc])
        if a.join_lc == b.join_lc:
            h.prove(pos(old, a) < pos(old, b), 'terms of one name keep their order')
    h.prove([t.value for t in doc['T'].terms] == ['1', '2'], 'other sections are not sorted')
    consistent(h, doc, 'sorted')


def pos(l, t):
    for i, x in enumerate(l):
        if x is t:
            return i
    return -1


def by_list(h, n, m):
    """Any sequence of terms, sorted by any list of names"""
    W = ['Alpha', 'beta', 'Gamma', 'delta']
    names = [h.pick('t%d' % i, W) for i in range(n)]
    doc = rowdoc([['Section', 'S', 'P']] + [[w, 'v%d' % i] if i % 2 else [w, '', 'p'] for i, w in enumerate(names)])
    s = doc['S']
    old = list(s.terms)
    Q = ['root.gamma', 'root.beta', 'Root.ALPHA', 'beta', 'root.nope']
    order = [h.pick('o%d' % i, Q) for i in range(m)]
    s.sort_by_term(order)
    new = list(s.terms)
    h.observe([t.value for t in new])
    rank = []
    for o in order:
        q = o.lower().replace('root.', '')
        if q not in rank:
            rank.append(q)

    def key(t):
        r = t.record_term_lc
        return (rank.index(r), '') if r in rank else (len(rank), r)

    want = sorted(old, key=key)
    h.prove(len(new) == len(want) and all(a is b for a, b in zip(new, want)), 'named terms come first in the order given, then the others by name',
            lambda: [names, order, [t.record_term_lc for t in new]])
    consistent(h, doc, 'sorted')



def alike(h, k):
    """Long names that differ only in one place"""
    at = h.choose('at', 3)
    a, b = h.str('a', k, ALPHA), h.str('b', k, ALPHA)
    names = [[x + 'long' * 10, 'long' * 5 + x + 'long' * 5, 'long' * 10 + x][at] for x in (a, b)]
    doc = rowdoc([['Section', 'S'], ['Zeta', '0'], [names[0], '1'], [names[1], '2'], ['Beta', '3']])
    s = doc['S']
    if h.flag('list'):
        s.sort_by_term(['root.zeta'])
        first_ = s.terms[0].value == '0'
    else:
        s.sort_by_term()
        first_ = s.terms[-1].value == '0' or a.lower() == 'z' or b.lower() == 'z'
    h.observe([t.value for t in s.terms])
    got = [t for t in s.terms if t.value in ('1', '2')]
    h.prove(len(s.terms) == 4 and len(got) == 2 and first_, 'the same terms are there')
    swap = b.lower() < a.lower()
    h.prove(got[0].value == ('2' if swap else '1'), 'terms are in alphabetical order of their whole names', lambda: [a, b, [t.value for t in got]])


def many(h, n):
    """Many terms of one name and others in between"""
    at = h.choose('at', n)
    doc = rowdoc([['Section', 'S', 'P']] + [['Same' if i % 2 else 'N' + chr(97 + (i * 7) % 26), 'v%d' % i, 'p%d' % i] for i in range(n)] +
                 [['Same.Kid', 'k']])
    s = doc['S']
    s.new_term('Aaa' if at % 2 else 'Zzz', 'x')
    old = list(s.terms)
    if at % 3 == 0:
        s.sort_by_term()
        want = sorted(old, key=lambda t: t.record_term_lc)
    else:
        s.sort_by_term(['root.same'])
        want = [t for t in old if t.record_term_lc == 'same'] + sorted([t for t in old if t.record_term_lc != 'same'], key=lambda t: t.record_term_lc)
    h.observe([t.value for t in s.terms])
    h.prove(len(s.terms) == len(want) and all(a is b for a, b in zip(s.terms, want)), 'sorted by name, terms of one name keep their order')
    doc.sort_sections(['Nope'])
    h.prove([x.name for x in doc] == ['Root', 'S'], 'sections keep their order')
    consistent(h, doc, 'sorted')


JOBS = [
    dict(name='sections', fn=sections, kw=dict(k=1, n=2), bounds='2 arbitrary section names of 1 character and 2 fixed, lists of 3 names'),
    dict(name='order', fn=order_lists, kw=dict(n=3), bounds='lists of up to 3 out of 6 names'),
    dict(name='terms', fn=terms, kw=dict(k=1, n=2), bounds='2 terms with arbitrary one-character names among 3 others'),
    dict(name='by-list', fn=by_list, kw=dict(n=3, m=2), bounds='3 terms of 4 names, lists of 2 out of 5 names'),
    dict(name='by-list-long', fn=by_list, kw=dict(n=5, m=1), bounds='5 terms of 4 names, one name'),
    dict(name='many', fn=many, kw=dict(n=60), bounds='60 terms'),
    dict(name='alike', fn=alike, kw=dict(k=1), bounds='2 names of 41 characters that differ in one arbitrary letter'),
    dict(name='terms-deep', fn=terms, kw=dict(k=2, n=2), tiers=('thorough',), bounds='2-character names'),
    dict(name='terms-3', fn=terms, kw=dict(k=1, n=3), tiers=('thorough',), bounds='3 terms with arbitrary names'),
    dict(name='by-list-deep', fn=by_list, kw=dict(n=4, m=3), tiers=('thorough',), bounds='4 terms of 4 names, lists of 3'),
    dict(name='order-deep', fn=order_lists, kw=dict(n=5), tiers=('thorough',), bounds='lists of up to 5 names'),
]

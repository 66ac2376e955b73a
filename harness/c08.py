"""C08: what find() and its relatives return"""
from metatab.terms import SectionTerm
from .util import *


def walk(doc):
    """All terms with their section, in document order"""
    out = []
    for s in doc:
        for t in s.terms:
            out.append((s, t))
            down(s, t, out)
    return out


def down(s, t, out):
    for c in t.children:
        out.append((s, c))
        down(s, c, out)


def named(t, q):
    """Does a term have the name q: qualified or not, any case, with wild cards"""
    q = q.lower()
    if '.' in q:
        i = q.index('.')
        p, r = q[:i], q[i + 1:]
    else:
        p, r = 'root', q
    return (p == '*' or p == t.parent_term_lc) and (r == '*' or r == t.record_term_lc)


def ids(all_, terms):
    """Positions of terms in the document"""
    out = []
    for t in terms:
        if isinstance(t, SectionTerm):
            continue
        k = [i for i, (s, u) in enumerate(all_) if u is t]
        out.append(k[0] if k else -1)
    return out


def expected(all_, q, value=False, sections=None):
    out = []
    for i, (s, t) in enumerate(all_):
        if not named(t, q):
            continue
        if sections is not None and s.name.lower() not in [x.lower() for x in sections]:
            continue
        if value is not False and not value == t.value:
            continue
        out.append(i)
    return out


BASE = [['a', '1'], ['a.b', '2'], ['.c', '3'], ['b', '1'], ['b.a', '2'], ['b.b', '1'],
        ['Section', 'none'], ['Section', 'one', 'c'], ['a', '2', '9'], ['a.b', '3', '1'], ['b', None, '3'], ['b.c', '4'], ['Section', 'Two'], ['a', '1'], ['.b', '1']]


def query(h, n, alphabet):
    """Any query text on a fixed document"""
    doc = rowdoc(BASE)
    all_ = walk(doc)
    q = h.str('q', n, alphabet)
    h.assume(h.neg(q == ''))
    h.assume(q.count('.') <= 1)
    h.assume(h.neg(q.startswith('.')))
    got = ids(all_, doc.find(q))
    want = expected(all_, q)
    h.observe(got)
    h.prove(h.same(got, want), 'find() gives all of the terms of the name and no others, in order', lambda: [q, got, want])
    f = doc.find_first(q)
    if q not in ('*.*', '*.section', '*.Section'):
        h.prove(h.same(ids(all_, [f] if f is not None else []), want[:1]), 'find_first() is the first that find() gives')
        h.prove(h.same(doc.find_first_value(q), f.value if want else None), 'find_first_value() is its value')
        h.prove((doc.get(q, 7) is f) if want else doc.get(q, 7) == 7, 'get() is the first one or the default')
        h.prove(h.same(doc.get_value(q, 'dflt'), f.value if want else 'dflt'), 'get_value() is the first value or the default')


def framed(h):
    """Any capitalisation and any character in place of a wild card"""
    doc = rowdoc([['Title', '1'], ['Title.Note', '2'], ['.Lang', '3'], ['Note', '4'], ['Note.Lang', '5'], ['Title', '6'], ['Section', 'E', 'Note'], ['Section', 'S', 'Lang'],
                  ['Note', '7', '8'], ['Title.Note', '9', '10']])
    all_ = walk(doc)
    p = h.pick('p', ['', 'TITLE.', 'root.', 'Root.', 'noTe.', 'x.', '*.', 'SECTION.'])
    r = h.pick('r', ['Title', 'noTE', 'LANG', 'x', '*', 'Roo'])
    x = h.str('x', (0, 1), BIG)
    h.assume(h.neg('.' in x))
    h.assume(x.strip() == x)
    q = p + r + x
    got = ids(all_, doc.find(q))
    want = expected(all_, q)
    h.observe(got)
    h.prove(h.same(got, want), 'find() gives all of the terms of the name and no others, in order', lambda: [q, got, want])


def symbolic_doc(h, k):
    """Terms and children with arbitrary names, in two sections"""
    a = h.str('a', k, NAME)
    b = h.str('b', k, NAME)
    q = h.str('q', k, NAME)
    for s in (a, b, q):
        n = s.strip().lower()
        h.assume(h.neg(n == ''))
        h.assume(h.neg(n.startswith('#')))
        h.assume(h.neg('*' in n))
    h.assume(h.same(q.strip(), q))
    doc = rowdoc([[a, '1'], ['.' + b, '2'], ['Section', 'Empty'], ['Section', 'S'], [b, '3'], [a, '4'], [a + '.' + b, '5']])
    all_ = walk(doc)
    for f in ('{}', 'Root.{}', '*.{}', '{}.*', a.strip() + '.{}'):
        qq = f.replace('{}', q)
        got = ids(all_, doc.find(qq))
        want = expected(all_, qq)
        h.observe(got)
        h.prove(h.same(got, want), 'find() gives all of the terms of the name and no others, in order', lambda: [qq, got, want])


def values(h, k):
    """Restriction to a value"""
    v = [h.str('v%d' % i, (0, k), BIG) for i in range(2)]
    w = h.str('w', (0, k), BIG)
    doc = rowdoc([['Title', v[0]], ['Title.Kid', v[1]], ['Title', v[1]], ['Other', w], ['.Kid', v[0]], ['Title']])
    all_ = walk(doc)
    for q in ('Title', 'Title.Kid', '*.Kid', 'Root.*'):
        got = ids(all_, doc.find(q, value=w))
        want = expected(all_, q, w)
        h.observe(got)
        h.prove(h.same(got, want), 'a value restricts to the terms with exactly that value', lambda: [q, w, got, want])
        got1 = doc.find_first(q, w)
        h.prove((got1 is None) == (not want) and (not want or ids(all_, [got1]) == want[:1]), 'find_first() takes the same restriction')
    q = 'Title'
    got = ids(all_, doc.find(q, value=None))
    h.prove(h.same(got, expected(all_, q, None)), 'None restricts to the terms without a value')
    doc2 = rowdoc([['Title', v[0]], ['Bare'], ['Bare', w]])
    bare = doc2['Root'].terms[1]
    h.prove(doc2.get('Title', 7) is doc2['Root'].terms[0] and doc2.get('bare', 7) is bare, 'get() is the first one, with or without a value')
    h.prove(h.same([doc2.get_value('Bare', 'dflt'), doc2.find_first_value('Bare')], [None, None]), 'the value of the first one, if it has none')
    h.prove(h.same(doc2.get_value('Title', 'dflt'), doc2['Root'].terms[0].value), 'the value of the first one, if it is empty')
    t = all_[0][1]
    kids = list(t.find('kid', value=w))
    h.prove(len(kids) == (1 if t.children[0].value == w else 0), 'the children of a term are restricted by value', lambda: len(kids))


def sections(h, k):
    """Restriction to sections"""
    n = h.str('n', k, NAME)
    s = h.str('s', k, NAME)
    h.assume(h.neg(n.strip() == ''))
    h.assume(h.neg(s.strip() == ''))
    doc = rowdoc([['Title', '0'], ['.Kid', '0k'], ['Section', n], ['Title', '1'], ['.Kid', '1k'], ['Other', '2'], ['Section', 'Three', 'Kid'],
                  ['Title', '3', '3k'], ['Section', n], ['Title', '4'], ['.Kid', '4k']])
    all_ = walk(doc)
    for q in ('Title', 'Title.Kid', '*.Kid', 'Root.*', 'Other'):
        for sel in ('root', 'THREE', s, ['Root', 'three'], (s, 'Three'), [], [s]):
            got = ids(all_, doc.find(q, section=sel))
            want = expected(all_, q, False, [sel] if isinstance(sel, str) else sel)
            h.observe(got)
            # Among re-opened sections root-level terms keep the order in which they were added
            h.prove(h.same(sorted(got), want), 'a section, or any of a list, restricts to the terms in it', lambda: [q, sel, got, want])
            h.prove(len(set(got)) == len(got), 'each term once')
        f = doc.find_first(q, section=s)
        w = expected(all_, q, False, [s])
        h.prove((f is None) == (w == []), 'find_first() takes the same restriction')
        h.prove(h.same(doc.get_value(q, 'd', section=s), all_[w[0]][1].value if w else 'd'), 'get_value() takes the same restriction')
    for sec in doc:
        for q in ('Title', 'Title.Kid', 'Nope'):
            want = expected(all_, q, False, [sec.name])
            got = ids(all_, sec.find(q))
            h.prove(h.same(sorted(got), want), 'find() of a section looks there only', lambda: [q, got, want])
            f = sec.find_first(q)
            h.prove((f is None) == (want == []) and (not want or ids(all_, [f])[0] in want), 'find_first() of a section')
            h.prove(sec.get_term(q) is f and sec[q] is f, 'get_term() and [] of a section')
            h.prove(h.same(sec.find_first_value(q), f.value if want else None), 'find_first_value() of a section')


def properties(h, k):
    """Restriction by properties"""
    x = h.str('x', k, BIG)
    y = h.str('y', k, BIG)
    v = [h.str('v%d' % i, k, BIG) for i in range(2)]
    for e in v + [x, y]:
        h.assume(h.neg(e.strip() == ''))
        h.assume(h.same(e.strip(), e))
    doc = rowdoc([['Section', 'S', 'Name', 'Size'], ['T', '1', v[0], v[1]], ['T', '2', v[1]], ['T', '3', '', v[0]], ['.Name', 'zz'],
                  ['U', '4', v[0], v[1]], ['T', '5', 'zz'], ['.Size', v[0]], ['.Size', v[1]]])
    T = [t for s, t in walk(doc) if t.record_term_lc == 't']

    def first(t, n):
        for c in t.children:
            if c.record_term_lc == n:
                return c.value
        return None

    for kw in (dict(name=x), dict(size=y), dict(name=x, size=y), dict(Name=x), dict(nope=x), dict(name='zz', size=y)):
        got = doc.find('T', **kw)
        want = [t for t in T if all(first(t, a.lower()) == b for a, b in kw.items())]
        h.observe(len(got))
        h.prove(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'properties restrict to the terms that have all of them',
                lambda: [kw, [t.value for t in got], [t.value for t in want]])
        f = doc.find_first('T', **kw)
        h.prove(f is (want[0] if want else None), 'find_first() takes the same restriction')
        got = doc.find('T', value='1', **kw)
        h.prove(len(got) == len([t for t in want if t.value == '1']), 'properties and value together')
        got = doc.find('T', section='root', **kw)
        h.prove(got == [], 'properties and section together')


def lists(h):
    """A list of names finds what the names find one by one"""
    doc = rowdoc(BASE)
    all_ = walk(doc)
    W = ['a', 'B', 'root.c', 'a.b', 'nope', 'a.*', 'B.C']
    q = [h.pick('q%d' % i, W) for i in range(h.choose('n', 4))]
    sec = h.pick('sec', [None, 'ONE', 'root', ['one', 'two']])
    val = h.pick('val', [False, '1', None])
    got = ids(all_, doc.find(tuple(q) if h.flag('tuple') else q, value=val, section=sec))
    want = []
    for e in q:
        want += expected(all_, e, val, None if sec is None else [sec] if isinstance(sec, str) else sec)
    h.observe(got)
    h.prove(h.same(sorted(got), sorted(want)), 'a list of names finds what the names find', lambda: [q, sec, val, got, want])


def term_find(h, k):
    """Searching among the children of a term"""
    n = [h.str('n%d' % i, k, NAME) for i in range(2)]
    q = h.str('q', k, NAME)
    for e in n:
        h.assume(h.neg(e.strip() == ''))
    doc = rowdoc([['T', 'x'], ['.' + n[0], '1'], ['T.' + n[1], '2'], [n[1].strip() + '.Deep', '3'] if h.flag('deep') else ['T.Deep', '3'], ['T.' + n[0], '4']])
    h.assume(h.neg(n[1].strip().startswith('#')))
    t = doc.terms[0]
    q = q.strip()
    want = [c for c in t.children if c.record_term_lc == q.lower()]
    for form in (q, 't.' + q, 'T.' + q.upper() if False else 'T.' + q):
        got = list(t.find(form))
        h.observe([c.value for c in got])
        h.prove(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'find() of a term gives its children of the name, in order',
                lambda: [form, [c.value for c in got]])
        f = t.find_first(form)
        h.prove(f is (want[0] if want else None), 'find_first() of a term is the first of them')
        h.prove(h.same(t.find_first_value(form), want[0].value if want else None), 'find_first_value() of a term')
    for v in ('1', '2', '4', 'no'):
        got = list(t.find(q, value=v))
        w = [c for c in want if c.value == v]
        h.prove(len(got) == len(w) and all(a is b for a, b in zip(got, w)), 'find() of a term by value')
        h.prove(t.find_first(q, value=v) is (w[0] if w else None), 'find_first() of a term by value')


def derived(h):
    """A term that others inherit from finds those too, in document order"""
    doc = rowdoc([[h.pick('t%d' % i, ['Res', 'File', 'Ref', 'Other']), str(i)] for i in range(4)] + [['Section', 'S'], ['Ref', '9'], ['Res', '10'], ['.Sub', '11']])
    doc.derived_terms = {'root.res': {'root.file', 'root.ref'}}
    all_ = walk(doc)
    sec = h.pick('sec', [None, 's', 'root', ['S', 'Root']])
    q = h.pick('q', ['Root.Res', 'res', 'ROOT.RES', ['Root.Res'], ['other', 'Res'], 'Root.File', 'root.*', 'Res.Sub'])
    got = ids(all_, doc.find(q, section=sec))
    want = []
    for e in ([q] if isinstance(q, str) else q):
        w = expected(all_, e, False, None if sec is None else [sec] if isinstance(sec, str) else sec)
        if e.lower() in ('res', 'root.res'):
            for x in ('file', 'ref'):
                w += expected(all_, x, False, None if sec is None else [sec] if isinstance(sec, str) else sec)
        want += sorted(w)
    h.observe(sorted(got))
    if isinstance(q, str):
        h.prove(h.same(got, want), 'derived terms are found in document order', lambda: [q, got, want])
    else:
        h.prove(h.same(sorted(got), sorted(want)), 'derived terms are found for lists', lambda: [q, got, want])


def derived_kw(h, k):
    """Derived terms are found under a restriction by value and by properties too"""
    x = h.str('x', k, BIG)
    y = h.str('y', k, BIG)
    for e in (x, y):
        h.assume(h.neg(e.strip() == ''))
        h.assume(h.same(e.strip(), e))
    doc = rowdoc([['Section', 'S', 'Kind', 'Size'], ['Res', '1', x, 'l'], ['File', '2', y, 'l'], ['Ref', '1', x], ['Other', '1', x], ['Section', 'T', 'Kind'], ['Ref', '2', y], ['Res', '2', 'l']])
    doc.derived_terms = {'root.res': {'root.file', 'root.ref'}}
    all_ = walk(doc)
    q = h.pick('q', ['Root.Res', 'res', 'RES'])
    sec = h.pick('sec', [None, 'S', ['t', 's']])
    z = h.pick('z', ['l', x])
    for val in (False, '1', '2'):
        for kw in ({}, dict(kind=z), dict(kind=y, size='l'), dict(nope=z)):
            got = ids(all_, doc.find(q, value=val, section=sec, **kw))
            want = []
            for i, (s, t) in enumerate(all_):
                if t.join_lc not in ('root.res', 'root.file', 'root.ref'):
                    continue
                if sec is not None and s.name.lower() not in [e.lower() for e in ([sec] if isinstance(sec, str) else sec)]:
                    continue
                if val is not False and t.value != val:
                    continue
                p = {}
                for c in t.children:
                    p[c.record_term_lc] = c.value
                if all(e in p and p[e] == kw[e] for e in kw):
                    want.append(i)
            h.observe(got)
            h.prove(h.same(sorted(got), want), 'derived terms are found under the same restrictions', lambda: [q, sec, val, kw, got, want])


def choices(h, n):
    """Long lists of names and of sections"""
    a = h.choose('a', n)
    b = h.choose('b', n)
    rows = []
    for i in range(n):
        rows += [['Section', 'Sec%d' % i, 'Kid'], ['T%d' % i, 'v%d' % i, 'k'], ['Same', 's%d' % i]]
    doc = rowdoc(rows)
    all_ = walk(doc)
    lo, hi = min(a, b), max(a, b) + 1
    secs = ['sEC%d' % i for i in range(lo, hi)]
    if h.flag('rev'):
        secs.reverse()
    for q in ('Same', '*.Kid', 'T%d' % a, 'Root.*'):
        got = ids(all_, doc.find(q, section=secs))
        h.observe(got)
        h.prove(sorted(got) == expected(all_, q, False, secs), 'any of a list of sections', lambda: [q, secs, got])
    names = ['t%d' % i for i in range(lo, hi)]
    got = ids(all_, doc.find(names))
    h.prove(sorted(got) == [i for i, (s, t) in enumerate(all_) if t.record_term_lc in names], 'any of a list of names', lambda: [names, got])


def histories(h, n):
    """Any document of n rows out of 7 after a first one, searched by each kind of query"""
    rows = [['a', '1']]
    for i in range(n):
        r = h.pick('r%d' % i, [['a', '1'], ['b', '2'], ['a.b', '1'], ['.c', '3'], ['a.c', '2', 'p'], ['b.a', '1'], ['Section', 'one', 'b']])
        rows.append(r)
    try:
        want = spec(rows)
    except NoParent:
        h.assume(False)
    doc = rowdoc(rows)
    all_ = walk(doc)
    res = []
    for q in ('a', 'root.b', 'A.B', '*.c', 'b.*', 'Root.*', 'c.b', '*.*'):
        for v in (False, '1'):
            for sec in (None, 'One'):
                # a row names its section, also when it is a child of a term elsewhere
                if sec is not None and any(c.section is not s for s, c in all_):
                    continue
                got = ids(all_, doc.find(q, value=v, section=sec))
                w = expected(all_, q, v, None if sec is None else [sec])
                res.append(got)
                h.prove(sorted(got) == w, 'find() gives all of the terms of the name and no others', lambda: [q, v, sec, got, w])
    h.observe(res)


def many(h, n):
    """A large document: nothing is missed"""
    at = h.choose('at', n)
    rows = []
    for i in range(n):
        if i % 9 == 4:
            rows.append(['Section', 'Sec%d' % (i // 18), 'Kid'])
        rows.append(['Hit' if i == at else 'T%d' % (i % 5), 'v%d' % i, 'k'])
        if i in (at, at + 1):
            rows.append(['.Sub', 's'])
    doc = rowdoc(rows)
    all_ = walk(doc)
    for q in ('Hit', 'T1', 'Root.*', 'Hit.Sub', '*.Sub', 'Hit.*', '*.Kid', '*.*'):
        got = ids(all_, doc.find(q))
        h.observe(got)
        h.prove(sorted(got) == expected(all_, q), 'find() gives all of the terms of the name and no others', lambda: [q, got])


JOBS = [
    dict(name='query', fn=query, kw=dict(n=(1, 4), alphabet=tuple('aAbBcC.*')), bounds='all queries of 1-4 characters out of 8 on a document of 3 sections'),
    dict(name='framed', fn=framed, bounds='8 parents x 6 records with an arbitrary extra character'),
    dict(name='symbolic', fn=symbolic_doc, kw=dict(k=1), bounds='arbitrary one-character names and query, 5 query forms'),
    dict(name='values', fn=values, kw=dict(k=1), bounds='arbitrary values of up to 1 character'),
    dict(name='sections', fn=sections, kw=dict(k=1), bounds='arbitrary section names of 1 character, 7 kinds of selection'),
    dict(name='properties', fn=properties, kw=dict(k=1), bounds='arbitrary property values of 1 character'),
    dict(name='lists', fn=lists, bounds='lists of up to 3 out of 7 names, with section and value'),
    dict(name='term', fn=term_find, kw=dict(k=1), bounds='arbitrary one-character child names'),
    dict(name='derived', fn=derived, bounds='4 terms of 4 types, 8 queries, 4 sections'),
    dict(name='derived-restricted', fn=derived_kw, kw=dict(k=1), bounds='arbitrary property values of 1 character, 3 sections, 3 values, 4 sets of properties'),
    dict(name='choices', fn=choices, kw=dict(n=20), bounds='lists of up to 20 sections and names'),
    dict(name='histories', fn=histories, kw=dict(n=3), bounds='all documents of 3 out of 7 rows after a first one, 32 queries'),
    dict(name='many', fn=many, kw=dict(n=40), bounds='40 terms'),
    dict(name='symbolic-deep', fn=symbolic_doc, kw=dict(k=2), tiers=('thorough',), bounds='names of 2 characters'),
    dict(name='values-deep', fn=values, kw=dict(k=2), tiers=('thorough',), bounds='values of up to 2 characters'),
    dict(name='sections-deep', fn=sections, kw=dict(k=2), tiers=('thorough',), bounds='section names of 2 characters'),
    dict(name='query-deep', fn=query, kw=dict(n=(5, 6), alphabet=tuple('aAbB.*')), tiers=('thorough',), bounds='queries of 5-6 characters'),
    dict(name='histories-deep', fn=histories, kw=dict(n=5), tiers=('thorough',), bounds='documents of 5 rows'),
]

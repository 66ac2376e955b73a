"""C13: the dict form of terms, sections and documents"""
from .util import *

TYPES = ['any', 'scalar', 'sequence', 'sconcat', 'bconcat']


def conv(t, names=True):
    """A term by the rules: its value if it has no children, else a dict of its children and its value"""
    if not t.children:
        return t.value
    d = group(t.children, names)
    if t.value is not None and t.value != '':
        d[t.term_value_name.lower() if names else '@value'] = t.value
    return d


def group(terms, names):
    out = {}
    order = []
    for c in terms:
        if c.record_term_lc not in order:
            order.append(c.record_term_lc)
    for n in order:
        cs = [c for c in terms if c.record_term_lc == n]
        vs = [conv(c, names) for c in cs]
        k = cs[0].child_property_type
        if k == 'scalar':
            out[n] = vs[-1]
        elif k == 'sequence':
            out[n] = vs
        elif k == 'sconcat':
            out[n] = ' '.join(v or '' for v in vs)
        elif k == 'bconcat':
            out[n] = ''.join(v or '' for v in vs)
        else:
            out[n] = vs[0] if len(vs) == 1 else vs
    return out


def plain(d):
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    if isinstance(d, list):
        return [plain(e) for e in d]
    return d


def check(h, doc, label=''):
    v0 = dview(doc)
    want = group([t for s in doc for t in s.terms], True)
    got = plain(doc.as_dict())
    h.observe(got)
    h.prove(h.same(got, want), label + 'the dict of a document has its terms by name, as their types say', lambda: [got, want])
    h.prove(h.same(list(got), list(want)), label + 'in order of appearance')
    g2 = plain(doc.as_dict(replace_value_names=False))
    g2.pop('@value', None)
    h.prove(h.same(g2, group([t for s in doc for t in s.terms], False)), label + 'without value names the value is @value', lambda: g2)
    for s in doc:
        g = plain(s.as_dict())
        if s.terms:
            w = group(s.terms, True)
            if isinstance(g, dict):
                g.pop('@value', None)
                w.pop('@value', None)
            h.prove(h.same(g, w), label + 'the dict of a section has its terms', lambda: [g, w])
        for t in s.terms:
            h.prove(h.same(plain(t.as_dict()), conv(t)), label + 'the dict of a term has its children and value', lambda: [plain(t.as_dict()), conv(t)])
            h.prove(h.same(plain(t.as_dict(False)), conv(t, False)), label + 'the dict of a term without value names')
    h.prove(h.same(plain(doc.as_dict()), got), label + 'the same again')
    h.prove(h.same(dview(doc), v0), label + 'the document is unchanged')
    consistent(h, doc, label + 'converted')


def walk(doc):
    for s in doc:
        for t in s.terms:
            yield t
            for d in t.descendents:
                yield d


def types(h, n, m):
    """n root-level terms of two names and a child each, of any type"""
    kind = {'a': h.pick('ka', TYPES), 'b': h.pick('kb', ['any', 'sequence', 'scalar']), 'c': h.pick('kc', TYPES)}
    rows = []
    for i in range(n):
        w = h.pick('w%d' % i, ['a', 'b', 'b+c', 'b+cc', 'a-'])
        rows.append([w[0], '' if w == 'a-' else 'v%d' % i])
        for j in range(w.count('c')):
            rows.append(['.c', 'k%d%d' % (i, j)])
        if i == m:
            rows.append(['Section', 'S'])
    doc = rowdoc(rows)
    for t in walk(doc):
        t.child_property_type = kind[t.record_term_lc]
    check(h, doc)


def values(h, n):
    """Arbitrary values of two terms and their children, of any type"""
    k = h.pick('k', TYPES)
    v = [h.str('v%d' % i, n, BIG) for i in range(4)]
    doc = rowdoc([['x', v[0]], ['x', v[1]], ['y', v[2]], ['.x', v[0]], ['.x', v[3]], ['z', v[3]]])
    for t in walk(doc):
        if t.record_term_lc == 'x':
            t.child_property_type = k
    check(h, doc)


def nested(h, n):
    """Children of any type with children of their own, and names of the values"""
    kx = h.pick('kx', ['any', 'sequence', 'scalar'])
    kw = h.pick('kw', TYPES)
    vn = h.pick('vn', ['@value', 'Label'])
    v = h.str('v', n, BIG)
    rows = [['y', 'a'], ['y.x', v], ['x.w', 'b'], ['x.w', v]]
    if h.flag('twice'):
        rows += [['y.x', 'c'], ['x.w', 'd'], ['x.u', v]]
    if h.flag('plain'):
        rows += [['y.x', 'e']]
    doc = rowdoc(rows)
    for t in walk(doc):
        t.term_value_name = vn
        t.child_property_type = {'x': kx, 'w': kw}.get(t.record_term_lc, 'any')
    check(h, doc)


def names(h, n):
    """Arbitrary names of terms and children, and of the value"""
    a, b, c = [h.str(x, n, NAME) for x in 'abc']
    for e in (a, b, c):
        h.assume(h.neg(e.strip() == ''))
        h.assume(h.neg(e.strip().startswith('#')))
    doc = rowdoc([[a, '1'], ['Section', 'S', c], [b, '2', '3'], ['.' + c, '4'], [a, '', '5']])
    vn = h.pick('vn', ['@value', 'Label', 'LONGER NAME'])
    for t in walk(doc):
        h.assume(h.neg(t.record_term_lc == vn.lower()))
    for t in walk(doc):
        t.term_value_name = vn
    check(h, doc)


def deep(h, n):
    """Nested children down to depth n, repeated at any level"""
    at = h.choose('at', n)
    rep = h.choose('rep', 3)
    k = h.pick('k', ['any', 'sequence'])
    rows = [['n0', 'v0']]
    for i in range(1, n):
        rows.append(['n%s.n%s' % (i - 1, i) if False else 'n' + chr(96 + i) + '.n' + chr(97 + i) if i > 1 else 'n0.nb', 'v%d' % i])
        if i == at:
            for j in range(rep):
                rows.append(['.side', 's%d' % j])
    doc = rowdoc(rows)
    for t in walk(doc):
        t.child_property_type = k
    check(h, doc)


def empty(h):
    """Documents and sections without terms"""
    k = h.choose('k', 3)
    doc = [lambda: MetatabDoc(), lambda: rowdoc([['# nothing']]), lambda: rowdoc([['Section', 'S', 'A'], ['Section', 'T']])][k]()
    d = doc.as_dict()
    h.observe(plain(d))
    h.prove(h.same(plain(d), {}), 'an empty document is an empty dict', lambda: plain(d))
    check(h, doc)


def many(h, n):
    k = h.pick('k', TYPES)
    at = h.choose('at', n)
    rows = []
    for i in range(n):
        if i == at:
            rows.append(['Section', 'S', 'Kid'])
        rows.append(['Same', 'v%d' % i] + (['kid'] if k in ('any', 'sequence') and i % 2 and i > at else []))
    doc = rowdoc(rows)
    for t in walk(doc):
        t.child_property_type = k
    check(h, doc)



def numbers(h):
    """Values that are numbers"""
    v = [h.pick('v%d' % i, NUMBERS[:4]) for i in range(2)]
    k = h.pick('k', ['any', 'scalar', 'sequence'])
    doc = MetatabDoc()
    doc['Root'].new_term('x', v[0])
    t = doc['Root'].new_term('y', 'text')
    t.value = v[1]
    t.get_or_new_child('x', v[0])
    if h.flag('two'):
        t.get_or_new_child('z', v[1]).get_or_new_child('x', v[0])
    doc['Root'].new_term('x', 'text')
    for u in walk(doc):
        u.child_property_type = k
    check(h, doc)


JOBS = [
    dict(name='types', fn=types, kw=dict(n=3, m=1), bounds='3 terms of 5 forms, 75 combinations of types'),
    dict(name='values', fn=values, kw=dict(n=(0, 1)), bounds='4 values of up to 1 arbitrary character, 5 types'),
    dict(name='values-2', fn=values, kw=dict(n=2), bounds='4 values of 2 arbitrary characters, 5 types'),
    dict(name='names', fn=names, kw=dict(n=1), bounds='arbitrary one-character names, 3 value names'),
    dict(name='nested', fn=nested, kw=dict(n=(0, 1)), bounds='2 levels of children, 15 combinations of types, a value of up to 1 arbitrary character'),
    dict(name='deep', fn=deep, kw=dict(n=8), bounds='depth 8, repeated children at any level'),
    dict(name='empty', fn=empty, bounds='3 empty documents'),
    dict(name='many', fn=many, kw=dict(n=25), bounds='25 terms of one name, 5 types'),
    dict(name='numbers', fn=numbers, bounds='2 numbers out of 4 at 3-5 places, 3 types'),
    dict(name='types-deep', fn=types, kw=dict(n=4, m=2), tiers=('thorough',), bounds='4 terms'),
    dict(name='names-deep', fn=names, kw=dict(n=2), tiers=('thorough',), bounds='2-character names'),
]

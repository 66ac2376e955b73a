"""C20: documents loaded in pieces"""
from metatab import MetatabDoc
from metatab.parser import TermParser
from metatab.rowgen import MetatabRowGenerator, TextRowGenerator
from .util import *


def load(h, doc, rows, way):
    """One more piece, in one of the ways there are"""
    if way == 0:
        r = doc.load_rows(MetatabRowGenerator(rows))
    elif way == 1:
        r = doc.load_terms(TermParser(MetatabRowGenerator(rows), doc=doc))
    elif way == 2:
        r = doc.load_terms(TermParser(MetatabRowGenerator(rows), resolver=doc.resolver, doc=doc, remove_special=False))
    else:
        r = doc.load_rows(TextRowGenerator(lines(rows)))
    h.prove(r is doc, 'loading returns the document')


def lines(rows):
    return '\n'.join((r[0] + ': ' + '|'.join(r[1:])) if r else '' for r in rows)


def values(h, n):
    """Any values"""
    v = [h.str('v%d' % i, n, BIG) for i in range(3)]
    way = h.choose('way', 3)
    p1 = [['T', v[0]], ['.K', v[1]], ['Section', 'S', 'C'], ['T', v[1], v[2]]]
    p2 = [['T', v[2], v[1]], ['.K', v[0]], ['Section', 's', 'D'], ['U', v[0], v[1]], ['.K', v[2]]]
    doc = rowdoc(p1)
    old = [t for s in doc for t in s]
    load(h, doc, p2, way)
    want = specs([p1, p2])
    h.observe(dview(doc))
    h.prove(h.same(dview(doc), want), 'the terms of both pieces, in the sections of their rows', lambda: [dview(doc), want])
    consistent(h, doc, 'after loading')
    now = [t for s in doc for t in s]
    h.prove(all(any(t is u for u in now) for t in old), 'the terms that were there before are kept')


def specs(pieces):
    return spec([r for p in pieces for r in [None] + p][1:])


def names(h, k):
    """Any names of terms and sections"""
    a = h.str('a', k, NAME)
    b = h.str('b', k, NAME)
    s = h.str('s', k, NAME)
    s2 = h.str('s2', k, NAME)
    for e in (a, b, s, s2):
        h.assume(h.neg(e.strip() == ''))
    for e in (a, b):
        h.assume(h.neg(e.strip().startswith('#')))
        h.assume(h.neg(e.strip().lower() in ('section', 'root', 'header', 'include', 'declare')))
    p1 = [['Section', s.strip(), 'C'], [a, '1', 'x'], ['.K', '2']]
    p2 = [[b, '3'], ['Section', s2.strip(), 'D'], [b, '4', 'y'], [b + '.K', '5'], ['.L', '6']]
    doc = rowdoc(p1)
    load(h, doc, p2, 0)
    want = specs([p1, p2])
    h.observe(dview(doc))
    h.prove(h.same(dview(doc), want), 'the terms of both pieces, in their sections', lambda: [dview(doc), want])
    consistent(h, doc, 'after loading')


KINDS = [['T', '1', 'x'], ['U', '2', ''], ['.K', '3'], ['T.K', '4'], ['Section', 'S', 'C'], ['Section', 'R', 'D', 'E'], ['Section', 'Root'], ['Section', 's', 'D', 'E']]


def histories(h, na, nb, nc):
    """Any rows in up to three pieces"""
    ps = [[list(h.pick('%s%d' % (c, i), KINDS)) for i in range(n)] for c, n in zip('abc', (na, nb, nc)) if n]
    ok = []
    for i in range(len(ps)):
        try:
            specs(ps[:i + 1])
            ok.append(i)
        except NoParent:
            break
    h.assume(len(ok) > 0)
    doc = MetatabDoc()
    way = h.choose('way', 4)
    first = h.flag('first')
    for i, p in enumerate(ps):
        if i not in ok:
            try:
                load(h, doc, p, way)
                h.fail('a piece does not see the parents of another piece')
            except Exception as e:
                h.prove(type(e).__name__ == 'ParserError', 'a parent that is not in the piece raises ParserError')
            k = max(j for j in range(len(p) + 1) if good(ps[:i] + [p[:j]]))
            want = specs(ps[:i] + [p[:k]])
            h.observe(dview(doc))
            h.prove(h.same(dview(doc), want), 'the rows before the error are loaded, and nothing else changes', lambda: [dview(doc), want])
            consistent(h, doc, 'after an error')
            return
        if i == 0 and first:
            doc = rowdoc(p)
        else:
            load(h, doc, p, way)
        want = specs(ps[:i + 1])
        h.observe(dview(doc))
        h.prove(h.same(dview(doc), want), 'the terms of all of the pieces, in their sections', lambda: [dview(doc), want])
        consistent(h, doc, 'after loading')


def good(ps):
    try:
        specs(ps)
        return True
    except NoParent:
        return False


def again(h, n, k):
    """A parser that is used again, after it was used up to any row"""
    v = h.str('v', k, BIG)
    rows = [list(h.pick('r%d' % i, KINDS)) for i in range(n)]
    h.assume(good([rows]))
    rows = [['T', 'a' + v, 'x', 'y']] + rows + [['Section', 'Z', 'C', 'D'], ['W', 'w' + v, 'c']]
    stop = h.choose('stop', len(rows) + 1)
    p = TermParser(MetatabRowGenerator(rows), doc=MetatabDoc(), remove_special=False)
    it = iter(p)
    for i in range(stop):
        try:
            next(it)
        except StopIteration:
            break
    got = [[t.join_lc, t.value] for t in p]
    want = [[t.join_lc, t.value] for t in TermParser(MetatabRowGenerator(rows), doc=MetatabDoc(), remove_special=False)]
    h.observe(got)
    h.prove(h.same(got, want), 'a parser gives the terms of its rows each time', lambda: [stop, got, want])


def mixed(h, n, k):
    """Two documents that are loaded at the same time, row by row"""
    v = h.str('v', k, BIG)
    ps = [[list(h.pick('%s%d' % (c, i), KINDS)) for i in range(n)] for c in 'ab']
    for p in ps:
        h.assume(good([p]))
    ps[0].append(['W', 'w' + v])
    docs = [MetatabDoc(), MetatabDoc()]
    turn = [h.flag('t%d' % i) for i in range(n)]

    class Rows(MetatabRowGenerator):
        def __iter__(self):
            for i, r in enumerate(ps[0]):
                if i < n and turn[i]:
                    docs[1].load_rows(MetatabRowGenerator(ps[1]))
                yield r

    docs[0].load_rows(Rows([]))
    want = [specs([ps[0]]), specs([ps[1]] * (sum(turn) or 1)) if any(turn) else dview(MetatabDoc())]
    got = [dview(d) for d in docs]
    h.observe(got)
    h.prove(h.same(got, want), 'each document has the terms of its rows', lambda: [got, want])
    for d in docs:
        consistent(h, d, 'after loading')


def edits(h, n, k):
    """Loading after edits adds the rows to what the edits left"""
    v = h.str('v', k, BIG)
    doc = rowdoc([['T', '1'], ['Section', 'S', 'C'], ['T', '2', 'x'], ['U', '3', 'y'], ['Section', 'R'], ['T', '4']])
    model = dview(doc)
    for i in range(n):
        op = h.choose('op%d' % i, 7)
        if op == 0:
            h.assume('N' not in doc)
            doc.new_section('N', ['D'])
            model = model + [['N', ['D'], []]]
        elif op == 1:
            h.assume('S' in doc)
            del doc['S']
            model = [m for m in model if m[0] != 'S']
        elif op == 2:
            h.assume(len(doc['R'].terms) > 0)
            t = doc['R'].terms[0]
            doc.remove_term(t)
            for m in model:
                if m[0] == 'R':
                    m[2] = m[2][1:]
        elif op == 3:
            doc['Root'].new_term('X', v)
            [m for m in model if m[0] == 'Root'][0][2].append(['root', 'x', val(v), []])
        elif op == 4:
            t = doc.find_first('T', section='Root')
            h.assume(t is not None)
            doc['R'].move_term(t)
            m0 = [m for m in model if m[0] == 'Root'][0]
            mr = [m for m in model if m[0] == 'R'][0]
            x = [u for u in m0[2] if u[1] == 't'][0]
            m0[2] = [u for u in m0[2] if u is not x]
            mr[2].append(x)
        elif op == 5:
            doc.sort_sections(['r', 'root'])
            model = [m for m in model if m[0] == 'R'] + [m for m in model if m[0] == 'Root'] + \
                    [m for m in model if m[0] not in ('R', 'Root')]
        else:
            h.assume(len(doc['R'].terms) > 0)
            t = doc['R'].terms[0]
            t['K'] = 'k' + v
            for m in model:
                if m[0] == 'R':
                    put(m[2][0], 'k', ('k' + v).strip())
    p = [['T', '5'], ['.K', '6'], ['Section', 's', 'E'], ['T', '7', 'z'], ['Section', 'R'], ['V', v]]
    load(h, doc, p, h.choose('way', 3))
    for m in model:
        if m[0] == 'Root':
            m[2] += [['root', 't', '5', [['t', 'k', '6', []]]]]
    s = [m for m in model if m[0] == 'S']
    if not s:
        s = [['s', ['E'], []]]
        model += s
    s[0][2] += [['root', 't', '7', [['t', s[0][1][0].lower(), 'z', []]]]]
    for m in model:
        if m[0] == 'R':
            m[2] += [['root', 'v', val(v), []]]
    h.observe(dview(doc))
    h.prove(h.same(dview(doc), model), 'rows are added to the edited document', lambda: [dview(doc), model])
    consistent(h, doc, 'after loading')


def val(v):
    return v.strip() if v else None


def put(t, name, v):
    for c in t[3]:
        if c[1] == name:
            c[2] = v
            return
    t[3].append([t[1], name, v, []])


JOBS = [
    dict(name='again', fn=again, kw=dict(n=2, k=(0, 1)), bounds='2 rows of 8 kinds between 3 others, stopped after any of them'),
    dict(name='values', fn=values, kw=dict(n=2), tiers=('quick',), bounds='2 pieces, 3 values of up to 2 characters'),
    dict(name='values-deep', fn=values, kw=dict(n=3), tiers=('thorough',), bounds='2 pieces, 3 values of up to 3 characters'),
    dict(name='names', fn=names, kw=dict(k=1), tiers=('quick',), bounds='2 pieces, 2 term and 2 section names of 1 character'),
    dict(name='names-deep', fn=names, kw=dict(k=2), tiers=('thorough',), bounds='2 pieces, 2 term and 2 section names of up to 2 characters'),
    dict(name='histories', fn=histories, kw=dict(na=2, nb=2, nc=0), tiers=('quick',), bounds='2 pieces of 2 rows of 8 kinds'),
    dict(name='histories3', fn=histories, kw=dict(na=1, nb=1, nc=1), tiers=('quick',), bounds='3 pieces of 1 row of 8 kinds'),
    dict(name='histories-deep', fn=histories, kw=dict(na=3, nb=3, nc=0), tiers=('thorough',), bounds='2 pieces of 3 rows of 8 kinds'),
    dict(name='histories3-deep', fn=histories, kw=dict(na=2, nb=2, nc=1), tiers=('thorough',), bounds='3 pieces of 2, 2 and 1 rows of 8 kinds'),
    dict(name='mixed', fn=mixed, kw=dict(n=2, k=1), tiers=('quick',), bounds='2 documents of 2 rows of 8 kinds, a value of up to 1 character, loaded at any point of the other'),
    dict(name='mixed-deep', fn=mixed, kw=dict(n=3, k=1), tiers=('thorough',), bounds='2 documents of 3 rows of 8 kinds, a value of up to 1 character, loaded at any points of the other'),
    dict(name='edits', fn=edits, kw=dict(n=2, k=1), tiers=('quick',), bounds='2 of 7 edits, a value of up to 1 character, then a load'),
    dict(name='edits-deep', fn=edits, kw=dict(n=3, k=2), tiers=('thorough',), bounds='3 of 7 edits, a value of up to 2 characters, then a load'),
]

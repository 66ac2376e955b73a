"""C25: the properties of a term, and header rows"""
from .util import *


def lowers(names):
    return [n.lower() for n in names]


def views(h, n, k, shape):
    """Any values and columns"""
    v = [h.str('v%d' % i, n, BIG) for i in range(3)]
    c = h.str('c', k, NAME) if k else 'Cc'
    h.assume(h.neg(c.strip() == ''))
    c = c.strip()
    h.assume(h.neg(c.lower() in ('b', 'k', 't', 'section')))
    cols = [['A', c, 'B'], [c], [c, 'B', 'A', 'D', 'E']][h.choose('cols', 3)]
    h.assume(h.neg(c.lower() in ('a', 'd', 'e')))
    rows = [['Section', 'S'] + cols, ['T', v[0]] + [v[1], v[2], 'x' + v[0]][:len(cols)]]
    if shape == 1:
        rows += [['.K', v[1]], ['T.' + c, v[2]], [c + '.K', 'deep']]
    elif shape == 2:
        rows += [['.' + c, 'y'], ['.b', v[2]]]
    doc = rowdoc(rows)
    t = doc['S'].terms[0]
    want = spec(rows)[1][2][0]
    cells = [e.strip() for e in rows[1][2:]]
    before = dview(doc)
    arg = {}
    for i, e in enumerate(cols):
        if i < len(cells):
            arg[e.lower()] = cells[i]
    arg['@value'] = want[2]
    props = {}
    for ch in want[3]:
        props[ch[1]] = ch[2]
    al = dict(arg)
    al.update(props)
    h.observe(t.props, t.arg_props, t.all_props)
    h.prove(h.same(t.props, props), 'props has the value of every child', lambda: [t.props, props])
    h.prove(h.same(t.arg_props, arg), 'arg_props has the cells of the row by column, and the value', lambda: [t.arg_props, arg])
    h.prove(h.same(t.all_props, al), 'all_props has both', lambda: [t.all_props, al])
    h.prove(h.same(lowers(t.property_names), lowers(cols)), 'property_names are the columns of the section')
    h.prove(t.is_terminal == (len(want[3]) == 0), 'a term without children is terminal')
    flat = [x for ch in t.children for x in [ch] + list(ch.children)]
    h.prove(len(list(t.descendents)) == len(flat) and all(a is b for a, b in zip(t.descendents, flat)), 'descendents are all children, each before its own')
    h.prove(h.same(dview(doc), before), 'looking changes nothing')
    d = t.props
    d['z'] = '1'
    h.prove(h.same(t.props, props) and h.same(dview(doc), before), 'the result belongs to the caller')


def headers(h, n, k):
    """Header rows name the value and columns of the rows after them, up to the next section"""
    v = h.str('v', n, BIG)
    c = h.str('c', k, NAME)
    h.assume(h.neg(c.strip() == ''))
    vn = h.str('vn', k, NAME)
    low = c.strip().lower()
    h.assume(h.neg(low in ('t', 'u', 'b', 'a', 'k')))
    name = vn.strip().lower() or '@value'
    h.assume(h.neg(name in (low, 'b', 'a', 'k')))
    twice = h.flag('twice')
    v2 = h.pick('v2', ['V2', '', ' ']) if twice else 'V2'
    inroot = h.flag('root')
    rows = [] if inroot else [['Section', 'S', 'A', 'B']]
    rows += [['T', '1', 'x', 'y'], ['Header', vn, c, 'B'] if vn else ['Header', '', c, 'B'], ['T', '2', 'z' + v, 'w'], ['.K', v], ['U', '3', '', 'q']]
    if twice:
        rows += [['HEADER', v2, 'A'], ['T', '5', 'r' + v]]
    rows += [['Section', 'R', 'E'], ['T', '4', 'o' + v]]
    r = attempt(rowdoc, rows)
    h.prove(r[0] == 'ok', 'the document can be read', lambda: r)
    doc = r[1]
    t = doc.terms
    got = [[e.record_term_lc, e.term_value_name, e.value, e.props] for e in t]
    want = [['t', '@value', '1', {'0': 'x', '1': 'y'} if inroot else {'a': 'x', 'b': 'y'}], ['t', name, '2', {low: ('z' + v).strip(), 'b': 'w', 'k': v.strip() if v else None}],
            ['u', name, '3', {'b': 'q'}]]
    if twice:
        want += [['t', v2.strip().lower() or '@value', '5', {'a': ('r' + v).strip()}]]
    want += [['t', '@value', '4', {'e': ('o' + v).strip()}]]
    h.observe(got)
    h.prove(h.same(got, want), 'the columns and value names of a header are used up to the next header or section', lambda: [got, want])
    d = t[2].as_dict()
    h.prove(h.same(dict(d), {'b': 'q', name: '3'}), 'the value has the name of the header', lambda: [d, name])
    h.prove(h.same(lowers(t[1].property_names), [low, 'b'] if not twice else ['a']), 'property_names are those of the header')
    consistent(h, doc, 'with headers')


JOBS = [dict(name='views%d' % s, fn=views, kw=dict(n=2, k=2, shape=s), tiers=('quick',), bounds='a term with 1, 3 or 5 columns; 3 values and a column name of up to 2 character') for s in range(3)] + [
    dict(name='headers', fn=headers, kw=dict(n=2, k=2), tiers=('quick',), bounds='2 headers; a value, value name and column name of up to 2 character'),
] + [dict(name='views-deep%d' % s, fn=views, kw=dict(n=3, k=3, shape=s), tiers=('thorough',), bounds='a term with 1, 3 or 5 columns; 3 values and a column name of up to 3 characters') for s in range(3)] + [
    dict(name='headers-deep', fn=headers, kw=dict(n=3, k=3), tiers=('thorough',), bounds='2 headers; a value, value name and column name of up to 3 characters'),
]

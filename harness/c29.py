"""C29: flattening a nested structure"""
from collections import OrderedDict
from metatab.util import flatten
from .util import *


def build(h, tag, depth, vals, keys):
    """Any structure of dicts, lists and values"""
    kind = h.pick('k' + tag, ['leaf', 'none', 'dict', 'list'] if depth else ['leaf', 'none'])
    if kind == 'leaf':
        return vals[len(tag) % len(vals)]
    if kind == 'none':
        return None
    n = h.choose('n' + tag, 3)
    if kind == 'list':
        return [build(h, tag + str(i), depth - 1, vals, keys) for i in range(n)]
    d = OrderedDict() if h.flag('o' + tag) else {}
    for i in range(n):
        d[keys[i]] = build(h, tag + str(i), depth - 1, vals, keys)
    return d


def leaves(x, path, out):
    """Every value that is no dict or list, with the way to it"""
    if isinstance(x, dict):
        for k in x:
            leaves(x[k], path + [k], out)
    elif isinstance(x, list):
        for i in range(len(x)):
            leaves(x[i], path + [str(i)], out)
    else:
        out.append((path, x))


def check(h, d, by, label, **kw):
    want = []
    leaves(d, [], want)
    want = [(by.join(p), v) for p, v in want]
    got = flatten(d, **kw)
    h.observe([list(e) for e in got])
    h.prove(h.same([list(e) for e in got], [list(e) for e in want]), label, lambda: [got, want])
    h.prove(h.same([list(e) for e in flatten(d, **kw)], [list(e) for e in got]), 'flattening changes nothing')


def structures(h, depth, n):
    vals = [h.str('v', n, BIG), 5, h.str('w', n, BIG)]
    keys = [h.str('a', 1, BIG), h.str('b', (1, 2), BIG)]
    h.assume(h.neg(keys[0] == keys[1]))
    check(h, build(h, '', depth, vals, keys), '.', 'every value once, in order, with its path')


def separators(h, n):
    sep = h.str('sep', n, BIG)
    k = h.str('k', 1, BIG)
    v = h.str('v', (0, 1), BIG)
    d = {'x': {k: [v, {'y': v, k: [[v], []]}]}, 'z': v, 'e': {}}
    check(h, d, sep, 'paths are joined with the separator', sep=sep)


def documents(h, n):
    """The dict of a document"""
    v = h.str('v', n, BIG)
    h.assume(h.neg(v.strip() == ''))
    rows = [['T', v, 'x'], ['.K', v], ['T', '2'], ['U', v]] + [['V', str(i)] for i in range(h.choose('more', 3))] + [['Section', 'S', 'C'], ['W', '1', v]]
    doc = rowdoc(rows)
    check(h, doc.as_dict(), '.', 'every value of a document once, with its path')
    got = [v2 for k2, v2 in flatten(doc.as_dict())]
    have = [t.value for s in doc for t in s.terms] + [d.value for s in doc for t in s.terms for d in t.descendents]
    h.prove(len(got) == len(have), 'as many values as the document has', lambda: [got, have])


def deep(h, depth):
    v = h.str('v', 1, BIG)
    k = h.str('k', 1, BIG)
    d = v
    kind = h.pick('kind', [0, 1])
    for i in range(depth):
        d = {k: d} if kind == i % 2 else [d]
    check(h, d, '.', 'every value once, in order, with its path')
    check(h, {k + str(i): [v, i] for i in range(depth)}, '.', 'every value once, in order, with its path')


JOBS = [
    dict(name='structures', fn=structures, kw=dict(depth=2, n=1), bounds='every structure of up to 3 levels with up to 2 members each; arbitrary keys of 1 and 1-2 characters, values of 1 character'),
    dict(name='separators', fn=separators, kw=dict(n=(0, 2)), bounds='separators of up to 2 arbitrary characters, keys of 1'),
    dict(name='documents', fn=documents, kw=dict(n=(0, 2)), bounds='documents of 6-8 terms with a value of up to 2 characters'),
    dict(name='deep', fn=deep, kw=dict(depth=20), bounds='20 levels, 20 members'),
    dict(name='structures-deep', fn=structures, kw=dict(depth=2, n=(0, 2)), tiers=('thorough',), bounds='values of up to 2 characters'),
]

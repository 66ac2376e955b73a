"""C10: setting, reading and removing the properties of a term"""
from .util import *

COMMON = ('url', 'name', 'description', 'schema')


def same_model(h, t, model, value, label):
    got = [[c.record_term_lc, c.value or ''] for c in t.children]
    h.prove(h.same(got, [[k, v or ''] for k, v in model]), label + ': the term has these children', lambda: [got, model])
    h.prove(h.same(t.value, value), label + ': the term has this value', lambda: [t.value, value])
    for c in t.children:
        h.prove(c.parent is t and c.section is t.section and c.parent_term_lc == t.record_term_lc, label + ': children are linked')


def first(model, k):
    k = k.lower()
    for e in model:
        if e[0] == k:
            return e
    return None


def reads(h, t, model, k, value, label):
    """All ways of reading property k agree with the model"""
    e = first(model, k)
    if e is None:
        h.prove(attempt(lambda: t[k]) == ('raised', 'KeyError'), label + ': a missing property raises KeyError')
        h.prove(t.get(k) is None and t.get(k, 7) == 7, label + ': get() gives the default')
        h.prove(t.get_value(k, 'd') == 'd' and t.get_value(k) is None, label + ': get_value() gives the default')
        h.prove(t.find_first(k) is None and t.find_first_value(k) is None, label + ': find_first() gives nothing')
    else:
        v = e[1]
        h.prove(h.same(t[k].value or '', v or ''), label + ': [] gives the child', lambda: [k, t[k].value, v])
        h.prove(t.get(k) is t[k] and t.find_first(k) is t[k], label + ': get() and find_first() give the child')
        h.prove(h.same(t.get_value(k, 'd') or '', v or ''), label + ': get_value() gives its value')
        h.prove(h.same(t.find_first_value(k) or '', v or ''), label + ': find_first_value() gives its value')
    h.prove((k in t) == (e is not None or k.lower() in COMMON), label + ': in tells whether the property exists', lambda: k)
    last = {}
    for a, b in model:
        last[a] = b or ''
    h.prove(h.same({a: b or '' for a, b in t.props.items()}, last), label + ': props has the value of each property', lambda: [t.props, last])


def apply(h, t, model, op, k, v):
    """One operation, on the term and on the model"""
    k_ = k.strip().lower()
    if op == 'set':
        t[k] = v
        e = first(model, k_)
        if e is None:
            model.append([k_, v.strip() if v else None])
        else:
            e[1] = v.strip()
    elif op == 'none':
        t[k] = None
        e = first(model, k_)
        if e is not None:
            drop(model, e)
    elif op == 'new':
        t.new_child(k, v)
        model.append([k_, v.strip() if v else None])
    elif op == 'gon':
        t.get_or_new_child(k, v)
        e = first(model, k_)
        if e is None:
            model.append([k_, v.strip() if v else None])
        else:
            e[1] = v
    elif op == 'gon-':
        t.get_or_new_child(k)
        if first(model, k_) is None:
            model.append([k_, None])
    elif op == 'remove':
        c = t.find_first(k)
        e = first(model, k_)
        if c is not None:
            t.remove_child(c)
        if e is not None:
            drop(model, e)


def drop(model, e):
    for i in range(len(model)):
        if model[i] is e:
            del model[i]
            return


OPS = ['set', 'none', 'new', 'gon', 'gon-', 'remove']


def start(h, loaded):
    if loaded:
        doc = rowdoc([['Title', 't'], ['Section', 'S', 'Name', 'Size'], ['Thing', 'v', 'nm', ''], ['.Note', 'n1'], ['.Note', 'n2'], ['.Note', 'n1'], ['Thing', 'other', 'nm']])
        t = doc['S'].terms[0]
        return doc, t, [['name', 'nm'], ['note', 'n1'], ['note', 'n2'], ['note', 'n1']]
    doc = MetatabDoc()
    s = doc.new_section('S', ['Name', 'Size'])
    t = s.new_term('Thing', 'v')
    return doc, t, []


def history(h, n, loaded, keys):
    """Any sequence of n operations"""
    doc, t, model = start(h, loaded)
    for i in range(n):
        k = h.pick('k%d' % i, keys)
        apply(h, t, model, h.pick('op%d' % i, OPS), k, ('n1', 'x1', 'n1', 'x2')[i])
        same_model(h, t, model, 'v', 'after %d operations' % (i + 1))
    for k in ('name', 'SIZE', 'Note', 'nope'):
        reads(h, t, model, k, 'v', 'reading')
    h.observe([[c.record_term_lc, c.value] for c in t.children])
    consistent(h, doc, 'edited')
    if loaded:
        u = doc['S'].terms[1]
        same_model(h, u, [['name', 'nm']], 'other', 'another term')


def symbolic(h, k, n):
    """Arbitrary property names and values"""
    doc, t, model = start(h, False)
    keys = [h.str('k%d' % i, k, NAME) for i in range(2)]
    q = h.str('q', k, NAME)
    for e in keys + [q]:
        h.assume(h.neg(e.strip() == ''))
        h.assume(h.same(e.strip(), e))
        h.assume(h.neg(e.lower() in ('value', '@value')))
    vals = [h.str('v%d' % i, n, BIG) for i in range(2)]
    for i in range(2):
        v = vals[i]
        apply(h, t, model, h.pick('op%d' % i, ['set', 'new', 'none', 'remove']), keys[i], v)
        same_model(h, t, model, 'v', 'after %d operations' % (i + 1))
    reads(h, t, model, q, 'v', 'reading')
    h.observe([[c.record_term_lc, c.value] for c in t.children])


def values(h, n):
    """Arbitrary values, set once and again, to a new property and to an existing one"""
    doc, t, model = start(h, h.flag('loaded'))
    k = h.pick('k', ['Name', 'extra', 'size'])
    a = h.str('a', n, BIG)
    b = h.str('b', n, BIG)
    apply(h, t, model, 'set', k, a)
    same_model(h, t, model, 'v', 'set once')
    apply(h, t, model, 'set', k.upper(), b)
    same_model(h, t, model, 'v', 'set twice')
    reads(h, t, model, k, 'v', 'reading')
    h.observe([[c.record_term_lc, c.value] for c in t.children])


def own_value(h, n):
    """The value of a term by its names"""
    doc, t, model = start(h, True)
    v = h.str('v', n, BIG)
    k = h.pick('k', ['value', 'VALUE', 'Value', '@value', '@VALUE'])
    if h.flag('attr'):
        h.assume(k == 'value')
        t.value = v
    else:
        t[k] = v
    h.observe(t.value)
    same_model(h, t, model, v, 'value set')
    h.prove('value' in t, 'a term always has a value property')
    h.prove(t['@value'] is t, 'the value name gives the term itself')
    h.prove(h.same(t.get_value('@value'), v), 'get_value() of the value name')


def attributes(h, n):
    """Properties as attributes"""
    doc, t, model = start(h, h.flag('loaded'))
    v = h.str('v', n, BIG)
    h.assume(h.neg(v.strip() == ''))
    k = h.pick('k', ['name', 'size', 'Name'])
    if h.flag('set'):
        setattr(t, k, v)
        e = first(model, k)
        if e is None:
            model.append([k.lower(), v.strip()])
        else:
            e[1] = v.strip()
    same_model(h, t, model, 'v', 'attribute set')
    for q in ('name', 'size', 'note', 'description', 'url', 'nope', 'NAME', 'Note', 'Description', 'URL', 'Schema', 'Nope'):
        e = first(model, q)
        r = attempt(getattr, t, q)
        h.observe(list(r))
        if e is not None:
            h.prove(r[0] == 'ok' and r[1] == e[1], 'a property is an attribute', lambda: [q, r, e])
        elif q.lower() in COMMON:
            h.prove(h.same(list(r), ['ok', None]), 'a common property that is not set is None')
        else:
            h.prove(h.same(list(r), ['raised', 'AttributeError']), 'an attribute that is no property raises AttributeError', lambda: list(r))
    # None removes the property
    r = h.pick('gone', [None, 'name', 'Size'])
    if r is not None:
        setattr(t, r, None)
        e = first(model, r)
        if e is not None:
            drop(model, e)
        same_model(h, t, model, 'v', 'attribute set to None')
    # no property of the section: a plain attribute, and no child
    t.zig = v
    h.prove(h.same(t.zig, v), 'other attributes are plain attributes')
    same_model(h, t, model, 'v', 'plain attribute')


def nested(h, n):
    """Children with properties of their own; a removed child takes them with it"""
    doc = MetatabDoc()
    s = doc.new_section('Schema', ['Type'])
    v = h.str('v', n, BIG)
    h.assume(h.neg(v.strip() == ''))
    t = s.new_term('Table', 'tab', note=v)
    cols = [t.new_child('Column', 'c%d' % i, type='int', width=v) for i in range(3)]
    g = t.get_or_new_child('Extra', 'e', sub=v)
    want = ['table', 'tab', [['note', v.strip(), []]] + [['column', 'c%d' % i, [['type', 'int', []], ['width', v.strip(), []]]] for i in range(3)]
            + [['extra', 'e', [['sub', v.strip(), []]]]]]

    def view(t):
        return [t.record_term_lc, t.value, [view(c) for c in t.children]]

    h.observe(view(t))
    h.prove(h.same(view(t), want), 'properties given as keywords become children', lambda: view(t))
    i = h.choose('i', 3)
    op = h.choose('op', 4)
    if op == 0:
        t.remove_child(cols[i])
        del want[2][1 + i]
    elif op == 1:
        cols[i]['type'] = None
        want[2][1 + i][2] = want[2][1 + i][2][1:]
    elif op == 2:
        cols[i]['Type'] = 'str'
        want[2][1 + i][2][0][1] = 'str'
    else:
        t.get_or_new_child('Extra', 'f', sub='g', more='h')
        want[2][4] = ['extra', 'f', [['sub', 'g', []], ['more', 'h', []]]]
    h.prove(h.same(view(t), want), 'an edit of one child leaves the others alone', lambda: [view(t), want])
    consistent(h, doc, 'edited')


def many(h, n):
    """Many properties"""
    doc, t, model = start(h, True)
    at = h.choose('at', n)
    for i in range(n):
        apply(h, t, model, 'set', 'Prop%s' % chr(97 + i % 26) + 'x' * (i // 26), 'v%d' % i)
    apply(h, t, model, h.pick('op', ['set', 'none', 'new', 'remove']), 'prop%s' % chr(97 + at % 26) + 'X' * (at // 26), 'changed')
    same_model(h, t, model, 'v', 'many properties')
    h.observe(len(t.children))
    reads(h, t, model, 'prop%s' % chr(97 + at % 26) + 'x' * (at // 26), 'v', 'reading')



def numbers(h):
    """Values that are numbers, 0 too, in all ways of setting a property"""
    doc, t, model = start(h, h.flag('loaded'))
    v = h.pick('v', NUMBERS)
    k = h.pick('k', ['name', 'size', 'extra'])
    how = h.pick('how', ['set', 'set2', 'gon', 'gon2', 'attr', 'attr2', 'new', 'kw'])
    if how.endswith('2'):
        t[k] = 'before'
    old = first(model, k)
    if how[:3] == 'set':
        t[k] = v
    elif how[:3] == 'gon':
        t.get_or_new_child(k, v)
    elif how[:4] == 'attr':
        h.assume(k != 'extra')  # no column of the section
        setattr(t, k, v)
    elif how == 'new':
        h.assume(old is None)
        t.new_child(k, v)
    else:
        t = doc['S'].new_term('Thing', 'v', **{k: v})
        model, old = [], None
    if old is None:
        model.append([k, v])
    else:
        old[1] = v
    if how in ('new', 'kw'):
        model[-1][1] = str(v)  # these make text of it
    want = model[-1][1] if old is None else old[1]
    got = [[c.record_term_lc, c.value] for c in t.children]
    h.observe(got)
    h.prove(h.same(got, model), 'the term has these children', lambda: [got, model])
    h.prove(t[k].value == want and t.get_value(k, 'd') == want and t.find_first_value(k) == want and t.get(k) is t[k], 'a number can be read, also if it is zero')
    h.prove(getattr(t, k) == want, 'so can it as an attribute')
    h.prove(k in t and t.props[k] == want, 'the term has the property')
    t.value = v
    h.prove(t.value == v and t.get_value('@value') == v, 'a number can be the value of the term')
    t[k] = None
    h.prove(first([[c.record_term_lc, 0] for c in t.children], k) is None, 'None removes the property')
    consistent(h, doc, 'edited')


K = ['Name', 'SIZE', 'note', 'Extra']
JOBS = [
    dict(name='history', fn=history, kw=dict(n=2, loaded=False, keys=K), bounds='all sequences of 2 out of 6 operations on 4 names, on a new term'),
    dict(name='history-loaded', fn=history, kw=dict(n=2, loaded=True, keys=K), bounds='the same, on a term that was read'),
    dict(name='history3', fn=history, kw=dict(n=3, loaded=True, keys=['NOTE', 'name']), bounds='all sequences of 3 operations on 2 names'),
    dict(name='symbolic', fn=symbolic, kw=dict(k=1, n=(0, 1)), bounds='2 operations with arbitrary one-character names and values of up to 1 character'),
    dict(name='values', fn=values, kw=dict(n=(0, 2)), bounds='values of up to 2 arbitrary characters'),
    dict(name='own-value', fn=own_value, kw=dict(n=(0, 2)), bounds='values of up to 2 arbitrary characters, 5 names'),
    dict(name='attributes', fn=attributes, kw=dict(n=(1, 2)), bounds='values of 1-2 arbitrary characters'),
    dict(name='nested', fn=nested, kw=dict(n=(1, 2)), bounds='3 children, 4 kinds of edit'),
    dict(name='many', fn=many, kw=dict(n=40), bounds='40 properties'),
    dict(name='numbers', fn=numbers, bounds='6 numbers, 8 ways of setting, 3 names'),
    dict(name='history4', fn=history, kw=dict(n=4, loaded=True, keys=['NOTE', 'name']), tiers=('thorough',), bounds='sequences of 4 operations on 2 names'),
    dict(name='history3-deep', fn=history, kw=dict(n=3, loaded=False, keys=K), tiers=('thorough',), bounds='sequences of 3 operations on 4 names'),
    dict(name='symbolic-deep', fn=symbolic, kw=dict(k=2, n=(0, 2)), tiers=('thorough',), bounds='names of 2 characters'),
]

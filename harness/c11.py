"""C11: documents, sections and terms stay consistent under any history of edits"""
from .util import *


def tv(t):
    return [t.record_term_lc, t.value, [[c.record_term_lc, c.value] for c in t.children]]


def view(doc):
    return [[s.name, [tv(t) for t in s.terms]] for s in doc]


def mview(model):
    return [[name, [[n, v, k] for n, v, k in terms]] for name, terms in model]


def sec(model, name):
    for e in model:
        if e[0].lower() == name.lower():
            return e
    return None


def check(h, doc, model, label):
    got = view(doc)
    want = mview(model)
    h.prove(h.same(got, want), label + ': sections and terms are as the edits say', lambda: [got, want])
    consistent(h, doc, label)
    owned(h, doc, label)
    for name, terms in model:
        h.prove(name in doc and name.upper() in doc, label + ': the section is there in any case')
        for n in ('thing', 'note'):
            fs = doc.find('Root.' + n, section=name)
            kids = [c for c in doc.find(n + '.*', section=name)]
            h.prove(len(kids) == sum(len(k) for m, v, k in terms if m == n), label + ': find() sees the children')
            h.prove(h.same(sorted([t.value or '' for t in fs]), sorted([v or '' for m, v, k in terms if m == n])), label + ': find() sees the edits',
                    lambda: [name, n, [t.value for t in fs]])


OPS = ['new', 'new-args', 'remove', 'sremove', 'clean', 'delsec', 'newsec', 'gonsec', 'gonterm', 'gonterm-', 'setitem', 'delitem', 'move', 'set_terms', 're-add']


def apply(h, doc, model, op, sname, i):
    """One edit, on the document and the model. False if it does not apply"""
    m = sec(model, sname)
    if op == 'newsec':
        if sname == 'Root':
            return False
        s = doc.new_section(sname, ['Name'])
        if m is not None:
            m[1][:] = []  # it replaces the section
            m[0] = sname
        else:
            model.append([sname, []])
        h.prove(s is doc[sname], 'new_section() returns the section of the document')
        return True
    if op == 'gonsec':
        s = doc.get_or_new_section(sname)
        if m is None:
            model.append([sname, []])
        h.prove(s is doc[sname], 'get_or_new_section() returns the section of the document')
        return True
    if op == 'delsec':
        # Deleting a section that is not there does nothing
        del doc[sname]
        if m is not None:
            model.remove(m)
        return True
    if m is None:
        return False
    s = doc[sname]
    terms = m[1]
    v = 'v%d' % i
    if op == 'new':
        t = s.new_term('Thing', v)
        terms.append(['thing', v, []])
        h.prove(t.section is s and t.doc is doc and any(t is u for u in s.terms), 'new_term() adds the term to the section')
    elif op == 'new-args':
        s.new_term('Root.Note', v, name='n', size=v)
        terms.append(['note', v, [['name', 'n'], ['size', v]]])
    elif op in ('remove', 'sremove'):
        if not terms:
            return False
        k = h.choose('at%d' % i, len(terms))
        t = s.terms[k]
        if op == 'remove':
            doc.remove_term(t)
        else:
            s.remove_term(t)
        del terms[k]
    elif op == 're-add':
        if not terms:
            return False
        t = s.terms[0]
        n0 = len(doc.terms)
        doc.add_term(t)
        s.add_term(t)
        h.prove(len(doc.terms) == n0, 'adding a term that is there changes nothing')
    elif op == 'clean':
        s.clean()
        del terms[:]
    elif op == 'gonterm':
        a = s.get_or_new_term('Thing', 'first')
        for e in terms:
            if e[0] == 'thing' and e[1] == 'first':
                break
        else:
            terms.append(['thing', 'first', []])
        h.prove(a.value == 'first' and a.section is s, 'get_or_new_term() returns the term of that value')
    elif op == 'gonterm-':
        a = s.get_or_new_term('Note', size='s')
        for e in terms:
            if e[0] == 'note':
                for c in e[2]:
                    if c[0] == 'size':
                        c[1] = 's'
                        break
                else:
                    e[2].append(['size', 's'])
                h.prove(a.value == e[1], 'get_or_new_term() without a value returns the first term of the name')
                break
        else:
            terms.append(['note', None, [['size', 's']]])
    elif op == 'setitem':
        s['Note'] = 'note'
        for e in terms:
            if e[0] == 'note' and e[1] == 'note':
                break
        else:
            terms.append(['note', 'note', []])
    elif op == 'delitem':
        del s['THING']
        terms[:] = [e for e in terms if e[0] != 'thing']
    elif op == 'move':
        other = [e for e in model if e is not m]
        if not terms or not other:
            return False
        o = other[-1]
        t = s.terms[-1]
        doc[o[0]].move_term(t)
        o[1].append(terms.pop())
        h.prove(t.section is doc[o[0]], 'a moved term knows its new section')
    elif op == 'set_terms':
        s.set_terms(thing=v, note=('w', {'name': v}))
        terms.append(['thing', v, []])
        terms.append(['note', 'w', [['name', v]]])
    return True


def start(loaded):
    if loaded:
        doc = rowdoc([['Note', 'top'], ['Section', 'One', 'Name', 'Size'], ['Thing', 'first', 'a'], ['Note', 'n1', '', 's1'], ['Thing', 'second'],
                      ['Section', 'Two'], ['Thing', 'third'], ['Section', 'one'], ['Note', 'n2']])
        doc['One'].terms[0].children[0].new_child('Deep', 'd', deeper='e')
        doc['Two'].terms[0].new_child('Size', '9').new_child('Deep', 'f')
        return doc, [['Root', [['note', 'top', []]]],
                     ['One', [['thing', 'first', [['name', 'a']]], ['note', 'n1', [['size', 's1']]], ['thing', 'second', []], ['note', 'n2', []]]],
                     ['Two', [['thing', 'third', [['size', '9']]]]]]
    doc = MetatabDoc()
    return doc, [['Root', []]]


def history(h, n, loaded, ops=OPS, names=('ONE', 'root', 'Three', 'two')):
    doc, model = start(loaded)
    for i in range(n):
        op = h.pick('op%d' % i, ops)
        name = h.pick('s%d' % i, names)
        h.assume(not (op == 'delsec' and name == 'root'))
        h.assume(apply(h, doc, model, op, name, i))
        check(h, doc, model, 'after %d edits' % (i + 1))
    h.observe(view(doc))


def symbolic(h, k):
    """Arbitrary section and term names and values"""
    doc, model = start(True)
    a = h.str('a', k, NAME)
    b = h.str('b', k, NAME)
    v = h.str('v', 1, BIG)
    for e in (a, b):
        h.assume(h.neg(e.strip() == ''))
        h.assume(h.same(e.strip(), e))
    h.assume(h.neg(v.strip() == ''))
    s = doc.get_or_new_section(a)
    t = s.new_term('Thing', v)
    u = doc.get_or_new_section(b)
    h.prove((u is s) == (a.lower() == b.lower()), 'sections whose names differ only in case are one')
    y = u.new_term('Thing', 'w')
    h.observe(view(doc))
    want = mview(model)
    want.append([a, [['thing', v.strip(), []]]])
    if u is s:
        want[-1][1].append(['thing', 'w', []])
    else:
        want.append([b, [['thing', 'w', []]]])
    h.prove(h.same(view(doc), want), 'sections and terms are as the edits say', lambda: [view(doc), want])
    consistent(h, doc, 'edited')
    h.prove(doc[b] is u and doc[b.upper()] is u if b.upper().lower() == b.lower() else doc[b] is u, 'the section is found by name')
    op = h.choose('op', 3)
    if op == 0:
        del doc[b]
        h.prove(h.neg(b in doc), 'a deleted section is gone')
        h.prove(not any(x is y for x in doc.terms), 'and its terms')
    elif op == 1:
        u.move_term(t)
    else:
        doc.remove_term(t)
        h.prove(not any(t is x for x in doc.terms), 'a removed term is gone')
    consistent(h, doc, 'edited again')
    owned(h, doc, 'edited again')


def set_terms(h, n):
    """Terms set by keywords, with any value"""
    v = h.str('v', n, BIG)
    w = h.str('w', n, BIG)
    for e in (v, w):
        h.assume(h.neg(e.strip() == ''))
    doc = MetatabDoc()
    s = doc.new_section('S', ['Name'])
    k = h.choose('k', 4)
    if k == 0:
        s.set_terms(thing=v, note=w)
        want = [['thing', v.strip(), []], ['note', w.strip(), []]]
    elif k == 1:
        s.set_terms(thing=(v, {'name': w}), note='n')
        want = [['thing', v.strip(), [['name', w.strip()]]], ['note', 'n', []]]
    elif k == 3:
        s.set_terms(note='n', thing=[v, {'name': 'x', 'size': w}])
        want = [['note', 'n', []], ['thing', v.strip(), [['name', 'x'], ['size', w.strip()]]]]
    else:
        o = doc['Root'].new_term('Other', v)
        s.set_terms(o, thing=(v, {}))
        want = [['other', v.strip(), []], ['thing', v.strip(), []]]
    h.observe(view(doc))
    h.prove(h.same(view(doc), [['Root', []], ['S', want]]), 'set_terms() adds the terms with their values and properties', lambda: view(doc))
    consistent(h, doc, 'set')


def child_removal(h):
    """Removing children through the document or the parent"""
    doc = rowdoc([['Section', 'S', 'A', 'B'], ['T', '1', 'a', 'b'], ['.C', 'c'], ['T', '2', 'a', 'b']])
    t = doc['S'].terms[h.choose('t', 2)]
    i = h.choose('i', len(t.children))
    c = t.children[i]
    want = [x for x in t.children if x is not c]
    if h.flag('via'):
        doc.remove_term(c)
    else:
        t.remove_child(c)
    h.observe(view(doc))
    h.prove(len(t.children) == len(want) and all(a is b for a, b in zip(t.children, want)), 'exactly the removed child is gone')
    h.prove(len(doc.terms) == 2, 'the terms remain')
    consistent(h, doc, 'edited')


def many(h, n):
    """Many terms: the right one is removed"""
    doc = MetatabDoc()
    s = doc.new_section('S')
    o = doc.new_section('O')
    for i in range(n):
        (s if i % 3 else o).new_term('T%d' % (i % 4), 'v%d' % (i % 7), name='x')
    at = h.choose('at', len(s.terms))
    t = s.terms[at]
    want = [x for x in s.terms if x is not t]
    op = h.choose('op', 4)
    if op == 0:
        doc.remove_term(t)
    elif op == 1:
        s.remove_term(t)
    elif op == 2:
        o.move_term(t)
        h.prove(o.terms[-1] is t, 'moved to the end')
    else:
        want = [x for x in s.terms if x.record_term_lc != t.record_term_lc]
        del s[t.record_term_lc]
    h.observe(len(s.terms))
    h.prove(len(s.terms) == len(want) and all(a is b for a, b in zip(s.terms, want)), 'the other terms remain, in order')
    consistent(h, doc, 'edited')



def foreign(h):
    """A term moved to a section of another document leaves the first one"""
    a = rowdoc([['Title', 'ta'], ['Section', 'S', 'P'], ['T', '1', 'x'], ['.K', 'k'], ['T.L', 'l'], ['L.M', 'm'], ['T', '1', 'x'], ['Section', 'Q']])
    b = rowdoc([['Title', 'tb'], ['Section', 'S', 'Q'], ['T', '1', 'x'], ['Section', 'Other', 'P']])
    i = h.choose('i', 2)
    t = a['S'].terms[i]
    name = h.pick('s', ['S', 'Other', 'Root', 'New'])
    s = b.get_or_new_section(name)
    va, vb = dview(a), dview(b)
    w = tview(t)
    if h.flag('move'):
        s.move_term(t)
    else:
        s.add_term(t)
    h.observe(dview(a), dview(b))
    del va[1][2][i]
    for e in vb:
        if e[0] == name:
            e[2].append(w)
    h.prove(h.same(dview(b), vb), 'the other document has the term', lambda: [dview(b), vb])
    h.prove(h.same(dview(a), va), 'the first one does not', lambda: [dview(a), va])
    consistent(h, a, 'left')
    consistent(h, b, 'joined')
    owned(h, b, 'joined')
    h.prove(t.doc is b and t.section is s and s.terms[-1] is t, 'the term knows where it is')


JOBS = [
    dict(name='history', fn=history, kw=dict(n=2, loaded=True), bounds='all sequences of 2 out of 15 edits on 3 sections of a document that was read'),
    dict(name='history-new', fn=history, kw=dict(n=3, loaded=False, names=('Root', 'Three')), bounds='all sequences of 3 edits on a new document'),
    dict(name='symbolic', fn=symbolic, kw=dict(k=1), bounds='arbitrary section names of one character, arbitrary value'),
    dict(name='set-terms', fn=set_terms, kw=dict(n=(1, 3)), bounds='values of 1-3 arbitrary characters'),
    dict(name='children', fn=child_removal, bounds='each child of two terms, by two ways'),
    dict(name='many', fn=many, kw=dict(n=36), bounds='36 terms, each removed or moved'),
    dict(name='foreign', fn=foreign, bounds='2 terms moved to 4 sections of another document'),
    dict(name='history-deep', fn=history, kw=dict(n=3, loaded=True), tiers=('thorough',), bounds='sequences of 3 edits on a read document'),
    dict(name='history-new-deep', fn=history, kw=dict(n=4, loaded=False, names=('Root', 'Three')), tiers=('thorough',), bounds='sequences of 4 edits on a new document'),
    dict(name='symbolic-deep', fn=symbolic, kw=dict(k=2), tiers=('thorough',), bounds='section names of two characters'),
]

"""Shared by the harnesses: alphabets, views of documents, and the specification of the format"""
from metatab import MetatabDoc
from metatab.rowgen import MetatabRowGenerator

# 1 to 3 byte characters, several kinds of white space, characters whose lower case is longer, no combining marks.
ASCII = tuple(chr(i) for i in range(128))
WS = tuple(' \t\n\r\x0b\x0c\x1c\x85\xa0\u2003\u2028')
UNI = tuple('éÉßÆøŁſİǅΩяЖ中ﬁ²½€’“…\ufeff😀')
BIG = ASCII + WS[7:] + UNI

# Without line breaks, for the Lines format
NOBREAK = tuple(c for c in BIG if len(('a' + c + 'a').splitlines()) == 1)

# Names: no digits (a name that is an integer refers to a column), no dots unless the harness adds them
NAME = tuple(c for c in BIG if c not in '.0123456789' and not c.isdecimal())
ALPHA = tuple(c for c in BIG if c.isalpha() and c.isascii())
SPACES = tuple(' \t\xa0')


def rowdoc(rows, **kw):
    return MetatabDoc(MetatabRowGenerator(rows), **kw)


def tview(t):
    """A term: qualified name, value, children"""
    return [t.parent_term_lc, t.record_term_lc, t.value, [tview(c) for c in t.children]]


def dview(doc):
    """A document: its sections in order, each with name, columns and terms"""
    return [[s.name, [c for c in s.property_names], [tview(t) for t in s.terms]] for s in doc]


def owned(h, doc, label):
    """Terms at all levels know their section (child rows can be written in other sections; not so here)"""
    for s in doc:
        for t in s.terms:
            for d in t.descendents:
                h.prove(d.section is s, label + ': children are in the section of their term')


def consistent(h, doc, label):
    """Links between document, sections, terms and children agree"""
    flat = []
    for key, s in doc.sections.items():
        h.prove(h.same(key, s.name.lower()), label + ': section is filed under its name')
        h.prove(s.doc is doc, label + ': section belongs to the document')
        for t in s.terms:
            h.prove(t.section is s, label + ': term knows its section')
            h.prove(t.parent_term_lc == 'root', label + ': section holds root-level terms only')
            h.prove(not any(t is u for u in flat), label + ': term is in one section once')
            flat.append(t)
            kids(h, doc, s, t, label)
    h.prove(len(flat) == len(doc.terms), label + ': document lists exactly the terms of its sections')
    for t in flat:
        n = 0
        for u in doc.terms:
            if u is t:
                n += 1
        h.prove(n == 1, label + ': document lists a term once')


def kids(h, doc, s, t, label):
    for c in t.children:
        h.prove(c.parent is t, label + ': child knows its parent')
        h.prove(c.doc is doc, label + ': child knows its document')
        kids(h, doc, s, c, label)


# Values that are no text
NUMBERS = [0, 5, 0.0, 1.5, -1, 10 ** 12]


def attempt(fn, *a, **k):
    """('ok', result) or ('raised', exception class name)"""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('raised', type(e).__name__)


# ---------------------------------------------------------------------------------------
# The format: what a document made of rows is (no includes, declarations or headers)
# ---------------------------------------------------------------------------------------

class NoParent(Exception):
    pass


def parts(name):
    """Qualified name of a first cell: (parent or None if root-level, '' if elided; record)"""
    n = name.strip()
    if '.' in n:
        i = n.index('.')
        return n[:i].strip().lower(), n[i + 1:].strip().lower()
    return None, n.lower()


def spec(rows):
    """Interpret rows by the rules of the format. Returns the dview() of the document. None starts another piece"""
    secs = [['Root', [], []]]
    cur = secs[0]
    params = []
    root = ['', 'root', None, []]
    seen = [root]  # terms that can be parents, most recent last
    last = root

    for row in rows:
        if row is None:  # another piece: starts in Root, with no parents
            cur = secs[0]
            params = []
            seen = [root]
            last = root
            continue
        if len(row) == 0:
            continue
        name = row[0].strip()
        if name == '' or name.startswith('#'):
            continue
        value = row[1].strip() if len(row) > 1 and row[1] else None
        parent, rec = parts(name)

        if parent is None and rec == 'section':
            found = None
            for s in secs:
                if s[0].lower() == value.lower():
                    found = s
            if found is None:
                found = [value, [a.strip() for a in row[2:]], []]
                secs.append(found)
            cur = found
            params = [p.lower() for p in cur[1]]
            last = root
            continue

        if parent == '':
            t = [last[1], rec, value, []]
            owner = last
            here = owner
        else:
            pname = 'root' if parent is None else parent
            owner = None
            if pname == 'root':
                owner = root
            else:
                for u in seen:
                    if u[1] == pname:
                        owner = u
            if owner is None:
                raise NoParent()
            t = [pname, rec, value, []]
            seen.append(t)
            last = t
            here = t
        if owner is root:
            cur[2].append(t)
        else:
            owner[3].append(t)
        i = 0
        for a in row[2:]:
            a = a.strip()
            if a:
                pn = params[i] if i < len(params) and params[i] else str(i)
                here[3].append([here[1], pn, a, []])
            i += 1
    return secs

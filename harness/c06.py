"""C06: a document survives being written in the Lines format and read again"""
from .rt import *



def section(h, n):
    """The text of one section has its terms"""
    v = [val(h, 'v%d' % i, n, NOBREAK) for i in range(2)]
    doc = make(h, [['Title', v[0]], ['Title.Note', 'n'], ['Section', 'S|x', 'A', 'B'], ['Thing', v[0], v[1], ''], ['Thing.Part', v[1]], ['Part.Sub', 's'], ['Thing', '', '0'], ['Section', 'Empty', 'C'],
                   ['Section', 'Last'], ['Other', 'l', v[1]]])
    before = canon(doc)
    for s, want in zip(list(doc), before):
        text = s.as_lines()
        got = [e for e in canon(read_lines(text)) if e[0] == s.name]
        h.observe(text, got)
        h.prove(h.same(got, [want]), 'reading the text of a section gives the section', lambda: [want, text, got])
    h.prove(h.same(canon(doc), before), 'writing does not change the document')


JOBS = jobs('as_lines', read_lines, NOBREAK, ['.', ':', '\\', '='], 'lines')
JOBS += [
    dict(name='section', fn=section, kw=dict(n=(1, 2)), bounds='4 sections, 2 values of 1-2 arbitrary characters'),
]

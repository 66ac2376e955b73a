"""C22: the metatab program"""
import json
import os
from sx.files import Scratch
from sx.cli import run_main
from metatab import MetatabDoc, parse_app_url
from metatab.cli import metatab, get_table, make_metatab_file, new_metatab_file
from .util import *
from .rt import canon

FLINE = tuple(c for c in NOBREAK if c != '\r')


def start(v, w):
    return rowdoc([['Title', 't' + v], ['.K', w], ['Section', 'S', 'C', 'D'], ['T', v, 'x' + w], ['T', 'y' + w, '', 'z' + v + 'z'], ['.K', v], ['U', 'u']])


def opened(p):
    return MetatabDoc(parse_app_url(p, proto='metatab'))


def output(h, n, m):
    """Any values, every format in and out, printed or written"""
    v = h.str('v', n, FLINE)
    w = h.str('w', m, FLINE) if m else 'w'
    src = h.pick('src', ['csv', 'txt'])
    opt, ext = h.pick('out', [('-c', 'csv'), ('--csv', 'csv'), ('', 'csv'), ('-l', 'txt'), ('-j', 'json')])
    inplace = h.pick('inplace', ['', '-W', '--write-in-place'])
    where = h.flag('where')
    base = h.pick('base', ['a.', 'a.b.', 'a b-c.d.'])
    doc = start(v, w)
    with Scratch(h, {'b.csv': b'X,1\n', 'b.txt': b'X: 1', 'a.json': b'{}'}) as s:
        s.put(base + src, doc.as_csv() if src == 'csv' else doc.as_lines())
        old = {e: s.read(e) for e in s.names()}
        doc = opened(s.path(base + src))
        want = doc.as_csv() if ext == 'csv' else doc.as_lines() if ext == 'txt' else json.dumps(doc.as_dict(), indent=4)
        args = [a for a in (opt, inplace, (base + src) if where else s.path(base + src)) if a]
        code, text = run_main(h, metatab, args, cwd=s.dir if where else None)
        new = {e: s.read(e) for e in s.names()}
    h.observe(code, text)
    h.prove(code == 0, 'the program succeeds')
    if inplace:
        h.prove(text == '', 'nothing is printed')
        old[base + ext] = want
    else:
        h.prove(h.same(text, want + '\n'), 'the document is printed in the format that was asked for', lambda: [text, want])
    h.prove(h.same(new, old), 'exactly the file with the extension of the format is written', lambda: [new, old])


def fixed_json(h, n):
    """JSON, against a fixed expectation"""
    v = h.str('v', n, FLINE)
    w = h.str('w', n, FLINE)
    src = h.pick('src', ['csv', 'txt'])
    with Scratch(h) as s:
        doc = rowdoc([['A', 'a' + v], ['Section', 'S', 'C'], ['T', '1', 'c' + w]])
        s.put('a.' + src, doc.as_csv() if src == 'csv' else doc.as_lines())
        code, text = run_main(h, metatab, ['-j', s.path('a.' + src)])
    want = json.dumps({'a': ('a' + v).strip(), 't': {'c': ('c' + w).strip(), '@value': '1'}}, indent=4)
    h.observe(code, text)
    h.prove(code == 0 and h.same(text, want + '\n'), 'the values of the document as JSON', lambda: [text, want])


def first(h, n):
    """--find-first"""
    v = h.str('v', n, FLINE)
    w = h.str('w', n, FLINE)
    src = h.pick('src', ['csv', 'txt'])
    q, want = h.pick('q', [('Root.Title', 0), ('title', 0), ('ROOT.T', 1), ('T.K', 2), ('T.c', 3), ('S', 4), ('Root.None', 4), ('K', 4), ('root.u', 5)])
    opt = h.pick('opt', ['-f', '--find-first'])
    rows = [['Title', 't' + v], ['Section', 'S', 'C'], ['T', 'v' + w], ['.K', 'k' + v], ['T', '2', 'c' + w], ['T.K', '3'], ['U', '']]
    doc = rowdoc(rows)
    with Scratch(h) as s:
        s.put('a.' + src, doc.as_csv() if src == 'csv' else doc.as_lines())
        old = {e: s.read(e) for e in s.names()}
        code, text = run_main(h, metatab, [opt, q, s.path('a.' + src)])
        new = {e: s.read(e) for e in s.names()}
    h.observe(code, text)
    h.prove(h.same(new, old), 'no file is changed')
    if want == 4:
        h.prove(code != 0, 'a term that is not there is an error')
        h.prove(text == '', 'nothing is printed')
    else:
        h.prove(code == 0, 'the program succeeds')
        if want < 4:
            e = [t.strip() for t in ('t' + v, 'v' + w, 'k' + v, 'c' + w)][want]
            h.prove(h.same(text, e + '\n'), 'the value of the first term is printed', lambda: [text, e])


def missing(h):
    """Files that are not there"""
    name = h.pick('name', ['none.csv', 'none.txt', 'none', 'sub/none.csv', ''])
    opt = h.pick('opt', [[], ['-c'], ['-l', '-W'], ['-j'], ['-j', '-W'], ['-f', 'Title'], ['-t']])
    with Scratch(h, {'a.csv': b'Title,1\n', 'sub/b.csv': b'Title,2\n'}) as s:
        old = {e: s.read(e) for e in s.names()}
        code, text = run_main(h, metatab, opt + ([name] if name else []), cwd=s.dir)
        new = {e: s.read(e) for e in s.names()}
    h.observe(code, text)
    h.prove(code != 0, 'a file that is not there is an error')
    h.prove(text == '', 'nothing is printed')
    h.prove(new == old, 'nothing is written')


def create(h, n):
    """--create makes a file and never replaces one"""
    v = h.str('v', n, FLINE)
    opt = h.pick('opt', ['-C', '--create'])
    template = h.pick('template', ['', 'metatab', 'datapackage'])
    name = h.pick('name', ['', 'metadata.csv', 'a.csv', 'sub/b.csv', 'abs'])
    there = h.flag('there')
    file = name or 'metadata.csv'
    with Scratch(h, {'sub/x': b'1', 'other.csv': b'Title,2\n'}) as s:
        if name == 'abs':
            name, file = s.path('c.csv'), 'c.csv'
        h.assume(not (name and not template))
        if there:
            s.put(file, 'Title,"' + v.replace('"', '') + '"\n')
        old = {e: s.read(e) for e in s.names()}
        code, text = run_main(h, metatab, [opt] + ([template] if template else []) + ([name] if name else []), cwd=s.dir)
        new = {e: s.read(e) for e in s.names()}
        doc = MetatabDoc(s.path(file))
        made = canon(doc)
    h.observe(code, sorted(new))
    h.prove(code == 0, 'the program succeeds')
    if there:
        h.prove(h.same(new, old), 'a file that is there is not touched', lambda: [new, old])
        return
    got = new.pop(file, None)
    h.prove(got is not None, 'the file is made')
    h.prove(h.same(new, old), 'no other file is touched')
    t = make_metatab_file(template or 'metatab')
    t.cleanse()
    h.prove(h.same(made, canon(t)), 'the file has the template', lambda: [made, canon(t)])


def new_file(h, n):
    """new_metatab_file() tells whether it made the file"""
    v = h.str('v', n, FLINE)
    name = h.pick('name', ['a.csv', 'b.csv', 'd.csv', 'sub/a.csv'])
    template = h.pick('template', [None, '', 'metatab', 'datapackage'])
    with Scratch(h, {'b.csv': b'', 'sub/x': b'1'}) as s:
        os.mkdir(s.path('d.csv'))
        s.put('a.csv', 'Title,"' + v.replace('"', '') + '"\n')
        old = {e: s.read(e) for e in s.names()}
        r = new_metatab_file(s.path(name), template)
        new = {e: s.read(e) for e in s.names()}
    h.observe(r, sorted(new))
    h.prove(r is (name == 'sub/a.csv'), 'True if the file was made, False if it was there')
    if r:
        new.pop(name)
    h.prove(h.same(new, old), 'no file that is there is touched')


def table(h, n):
    """get_table() finds the table of a name, or ends the program"""
    a = h.str('a', n, BIG)
    b = h.str('b', n, BIG)
    q = h.str('q', n, BIG)
    doc = rowdoc([['Title', q], ['Section', 'Schema'], ['Table', a], ['Table.Column', q], ['Table', b], ['Table', a], ['Other', q]])
    h.assume(h.neg(a.strip() == '') )
    h.assume(h.neg(b.strip() == '') )
    try:
        t = get_table(doc, q)
        code = 0
    except SystemExit as e:
        t, code = None, e.code
    h.observe(code, t.value if t else None)
    hit = [x for x in doc['Schema'].terms if x.record_term_lc == 'table' and x.value == q]
    if hit:
        h.prove(t is hit[0], 'the first table of the name')
    else:
        h.prove(t is None and code == 1, 'exit code 1 if there is none')


def declaration(h, n):
    """--show-declaration"""
    v = h.str('v', n, FLINE)
    h.assume(h.neg(v.strip() == ''))
    opt = h.pick('opt', ['-d', '--show-declaration'])
    name = h.pick('name', ['a.csv', 'my sub/the a.csv', 'sub/a.csv'])
    where = h.flag('where')
    rows = [['Section', 'DeclaredSections', 'Args'], ['DeclareSection', 'Zed', 'One,Two'], ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType'],
            ['DeclareTerm', 'Root.Foo', v, 'sequence'], ['DeclareTerm', 'Foo.Bar', '', 'scalar']]
    with Scratch(h, {name: rows, 'b.csv': b'Title,1\n'}) as s:
        old = {e: s.read(e) for e in s.names()}
        code, text = run_main(h, metatab, [opt, '-j', name if where else s.path(name)], cwd=s.dir)
        new = {e: s.read(e) for e in s.names()}
        d = MetatabDoc(decl=s.path(name))
        want = json.dumps({'terms': d.decl_terms, 'sections': d.decl_sections}, indent=4)
        foo = d.decl_terms.get('root.foo', {}).get('termvaluename')
    h.observe(code, text)
    h.prove(code == 0, 'the program succeeds')
    h.prove(h.same(text, want + '\n'), 'the declaration is printed', lambda: [text, want])
    h.prove(h.same(foo, v.strip()) and 'zed' in d.decl_sections, 'the declaration has what is declared', lambda: [foo, v])
    h.prove(h.same(new, old), 'no file is changed')


def package(h, n):
    """The file of a directory, and the file that is used when none is named"""
    v = h.str('v', n, FLINE)
    name, file = h.pick('name', [('', 'metadata.csv'), ('.', 'metadata.csv'), ('d', 'd/metadata.csv'), ('d/', 'd/metadata.csv'), ('./d', 'd/metadata.csv'),
                                 ('my d', 'my d/metadata.csv'), ('d/e', 'd/e/metadata.csv'), ('abs', 'd/metadata.csv'), ('d/metadata.csv', 'd/metadata.csv'),
                                 ('d/x.csv', 'd/x.csv'), ('d.v1', 'd.v1/metadata.csv'), ('d.v1/', 'd.v1/metadata.csv')])
    opt, ext = h.pick('opt', [([], 'csv'), (['-l'], 'txt'), (['-j'], 'json'), (['-l', '-W'], 'txt'), (['-j', '-W'], 'json'), (['-f', 'A'], None)])
    doc = rowdoc([['A', 'a' + v], ['Section', 'S', 'C'], ['T', '1', 'c' + v]])
    with Scratch(h) as s:
        for e in ('metadata.csv', 'd/metadata.csv', 'my d/metadata.csv', 'd/e/metadata.csv', 'd/x.csv', 'd.v1/metadata.csv'):
            s.put(e, doc.as_csv() if e == file else 'A,other\n')
        old = {e: s.read(e) for e in s.names()}
        code, text = run_main(h, metatab, opt + ([s.path('d') if name == 'abs' else name] if name else []), cwd=s.dir)
        new = {e: s.read(e) for e in s.names()}
    want = {'csv': doc.as_csv, 'txt': doc.as_lines, 'json': lambda: json.dumps(doc.as_dict(), indent=4), None: lambda: doc.find_first_value('A')}[ext]()
    h.observe(code, text)
    h.prove(code == 0, 'the program succeeds', lambda: text)
    if '-W' in opt:
        h.prove(text == '', 'nothing is printed')
        old[file[:-3] + ext] = want
    else:
        h.prove(h.same(text, want + '\n'), 'the metadata file of the directory is read', lambda: [text, want])
    h.prove(h.same(new, old), 'exactly the file with the extension of the format is written', lambda: [new, old])


def terms(h, n, k):
    """-t lists the terms, in the order of their rows"""
    v = h.str('v', n, FLINE)
    src = h.pick('src', ['csv', 'txt'])
    opt = h.pick('opt', ['-t', '--terms'])
    rows = [['T', 'a' + v, '']]
    for i in range(k):
        rows.append(list(h.pick('r%d' % i, [['U', 'u' + v], ['.K', 'k' + v], ['T.K', 'l'], ['Section', 'S', 'C', 'D'], ['W', 'w', 'c' + v, 'd'], ['W', '']])))
    doc = rowdoc(rows)
    with Scratch(h, {'b.csv': b'X,1\n'}) as s:
        s.put('a.' + src, doc.as_csv() if src == 'csv' else doc.as_lines())
        old = {e: s.read(e) for e in s.names()}
        code, text = run_main(h, metatab, [opt, s.path('a.' + src)])
        new = {e: s.read(e) for e in s.names()}
        doc = opened(s.path('a.' + src))
    want = []
    for sec in doc:
        want.append([('root.root' if sec.name == 'Root' else 'root.section') + '=', sec.name])
        for t in sec.terms:
            for u in [t] + list(t.descendents):
                want.append([u.join + '=', u.value or ''])
    lines = text.split('\n')
    h.observe(code, text)
    h.prove(code == 0 and h.same(new, old), 'the program succeeds and changes no file')
    h.prove(len(lines) == len(want) + 1 and lines[-1] == '', 'one line for each section and term', lambda: [lines, want])
    i = 0
    for name, value in want:
        h.prove(name in lines[i] and (lines[i].endswith(name + value) or (value == '' and lines[i].endswith('None'))),
                'lines have the name and the value of a term, in the order of the rows', lambda: [lines, want])
        i += 1


def pretty(h):
    """-p prints the dict"""
    import ast
    opt = h.pick('opt', ['-p', '--prety'])
    v = h.pick('v', ['x', "it's", 'a"b', 'ä\u2003', 'long ' * 40, '1', '\\', '{}'])
    more = h.pick('more', [[], [['T', '2']], [['Section', 'S', 'C'], ['U', '1', v], ['.K', v]]])
    doc = rowdoc([['T', v]] + more)
    with Scratch(h) as s:
        s.put('a.csv', doc.as_csv())
        code, text = run_main(h, metatab, [opt, s.path('a.csv')])
        doc = opened(s.path('a.csv'))
    text = text.replace('OrderedDict(', '(')
    got = ast.literal_eval(text)

    def plain(x):
        if isinstance(x, dict):
            return [[k, plain(x[k])] for k in sorted(x)]
        if isinstance(x, list) and x and isinstance(x[0], tuple):
            return plain(dict(x))
        return [plain(e) for e in x] if isinstance(x, list) else x
    h.observe(code, plain(got))
    h.prove(code == 0 and plain(got) == plain(doc.as_dict()), 'the dict form is printed', lambda: [text])


JOBS = [
    dict(name='package', fn=package, kw=dict(n=1), bounds='12 names of directories and files, 6 options, a value of 1 character'),
    dict(name='terms', fn=terms, kw=dict(n=1, k=2), bounds='1 + 2 rows of 6 kinds, values of 1 arbitrary character'),
    dict(name='terms-deep', fn=terms, kw=dict(n=1, k=3), tiers=('thorough',), bounds='1 + 3 rows of 6 kinds'),
    dict(name='pretty', fn=pretty, bounds='8 values, 3 documents'),
    dict(name='declaration', fn=declaration, kw=dict(n=1), bounds='a declaration with a value name of 1 character, 3 file names'),
    dict(name='output', fn=output, kw=dict(n=1, m=0), tiers=('quick',), bounds='document of 7 rows with a value of up to 1 character, 2 formats in, 3 file names, 5 ways of asking for 3 formats out'),
    dict(name='output-deep', fn=output, kw=dict(n=2, m=1), tiers=('thorough',), bounds='document of 7 rows with values of up to 2 and 1 characters, 2 formats in, 3 file names, 5 ways of asking for 3 formats out'),
    dict(name='json', fn=fixed_json, kw=dict(n=1), bounds='2 values of up to 1 character'),
    dict(name='json-deep', fn=fixed_json, kw=dict(n=3), tiers=('thorough',), bounds='2 values of up to 3 characters'),
    dict(name='find-first', fn=first, kw=dict(n=1), tiers=('quick',), bounds='9 names, 2 values of up to 1 character'),
    dict(name='find-first-deep', fn=first, kw=dict(n=2), tiers=('thorough',), bounds='9 names, 2 values of up to 2 characters'),
    dict(name='missing', fn=missing, bounds='5 file names, 7 options'),
    dict(name='create', fn=create, kw=dict(n=1), bounds='5 file names, 3 templates, file there (with a value of up to 1 character) or not'),
    dict(name='new-file', fn=new_file, kw=dict(n=1), bounds='4 file names, 4 templates'),
    dict(name='table', fn=table, kw=dict(n=1), tiers=('quick',), bounds='3 names of up to 1 character'),
    dict(name='table-deep', fn=table, kw=dict(n=3), tiers=('thorough',), bounds='3 names of up to 3 characters'),
]

"""C14: versions and names for other versions"""
from .names import *

DIG = tuple('0123456789')


def doc_with(version, semver=(), dataset='data', extra=()):
    rows = [['Title', 't'], ['Dataset', dataset], ['Origin', 'example.com'], ['Name', 'old'], ['Identifier', 'id1']]
    if version is not False:
        rows.append(['Version', version])
    for k, v in semver:
        rows.append(['Version.' + k, v])
    return rowdoc(rows + [['Section', 'Schema'], ['Version', 'decoy']] + list(extra))


def vterm(doc):
    return doc['Root'].find_first('Root.Version')


def kids(doc):
    return [[c.record_term_lc, c.value] for c in vterm(doc).children]


def update(h, n):
    """The version is made of its components"""
    parts = []
    vals = {}
    for k in ('Major', 'Minor', 'Patch', 'Build'):
        m = h.choose('m' + k, 3)
        if m == 0:
            vals[k] = None
            continue
        v = h.str('v' + k, n, DIG) if m == 1 else ''
        parts.append((k, v))
        vals[k] = v
    doc = doc_with(h.pick('ver', ['9', '', '1.2.3']), parts)
    before = vterm(doc).value
    got = doc.update_version()
    h.observe(got)
    if any(vals[k] is not None for k in ('Major', 'Minor', 'Patch')):
        w = []
        for k in ('Major', 'Minor', 'Patch'):
            w.append('1' if vals[k] is None else '0' if vals[k] == '' else vals[k])
        want = w[0] + '.' + w[1] + '.' + w[2]
        if vals['Build'] is not None and vals['Build'] != '':
            want = want + '.' + vals['Build']
        if vals['Build'] == '':
            return
        h.prove(h.same(got, want), 'the version is Major.Minor.Patch, and the Build if there is one', lambda: [got, want])
        h.prove(h.same(vterm(doc).value, want), 'it is the value of Version')
        h.prove(h.same(doc.find_first_value('Root.Version', section='Root'), want), 'it is found')
    else:
        h.prove(h.same(got, before), 'a version without components is kept', lambda: [got, before])
    h.prove(h.same(doc.update_version(), got), 'updating again gives the same version')
    h.prove(doc['Schema'].terms[0].value == 'decoy', 'a Version in another section is not touched')


def none(h):
    doc = doc_with(False)
    got = doc.update_version()
    h.observe(got)
    h.prove(got is None, 'no Version, no version')
    h.prove(doc.as_version(None) == 'example.com-data' and doc._generate_identity_name() == 'example.com-data', 'the name has no version')
    r = attempt(doc.as_version, '+1')
    h.prove(r == ('raised', 'MetatabError'), 'version math without a version is reported', lambda: list(r))


def name_prefix():
    return 'example.com-data'


def arithmetic(h, n, m, digits=DIG):
    """+N and -N count from the current version, and leave the document as it is"""
    v = h.str('v', n, digits)
    d = h.str('d', m, digits)
    sign = h.pick('sign', ['+', '-'])
    doc = doc_with(v)
    before = dview(doc)
    got = doc.as_version(sign + d)
    h.observe(got)
    a = int(v)
    b = int(d) if d else 1
    x = a + b if sign == '+' else a - b
    want = name_prefix() + '-' + str(x).replace('-', '_')
    h.prove(h.same(got, want), 'the name has the version plus or minus the number', lambda: [got, want])
    h.prove(h.same(dview(doc), before), 'asking for another version does not change the document')
    h.prove(h.same(doc.as_version(sign + d), got), 'asking again gives the same')


def arithmetic_semver(h, n, digits=DIG):
    """With components, the patch changes"""
    v = h.str('v', n, digits)
    d = h.str('d', n, digits)
    sign = h.pick('sign', ['+', '-'])
    comps = [('Major', '3'), ('Minor', '4')]
    if h.flag('nominor'):
        comps = comps[:1]
    comps.insert(h.choose('at', len(comps) + 1), ('Patch', v))
    if h.flag('build'):
        comps.append(('Build', '7'))
    doc = doc_with(h.pick('ver', ['', '1', '3.4.1']), comps)
    before = dview(doc)
    got = doc.as_version(sign + d)
    h.observe(got)
    x = int(v) + int(d) if sign == '+' else int(v) - int(d)
    want = name_prefix() + '-3.' + ('4' if ('Minor', '4') in comps else '1') + '.' + str(x).replace('-', '_') + ('.7' if ('Build', '7') in comps else '')
    h.prove(h.same(got, want), 'the name has the patch plus or minus the number', lambda: [got, want])
    h.prove(h.same(dview(doc), before), 'asking for another version does not change the document')


def explicit(h, n):
    """A given version, or none"""
    w = h.str('w', n, tuple('abZ09._ ~'))
    h.assume(h.neg(w.strip() == ''))
    k = h.choose('k', 3)
    sem = [('Major', '3'), ('Minor', '4'), ('Patch', '5')] if h.flag('sem') else []
    doc = doc_with('8', sem)
    before = dview(doc)
    if k == 0:
        got = doc.as_version(w)
        want = name_of(['example.com', 'data'], ('3.4.' + w) if sem else w)
    elif k == 1:
        got = doc.as_version(None)
        want = name_prefix()
    else:
        got = doc.as_version(False)
        want = name_prefix() + '-' + ('3.4.5' if sem else '8')
    h.observe(got)
    h.prove(h.same(got, want), 'the name has the given version, or none', lambda: [got, want])
    h.prove(h.same(dview(doc), before), 'asking for another version does not change the document')


def bad(h, n):
    """Version math on a version that is no integer is reported, and changes nothing"""
    v = h.str('v', n, tuple('01a. x-+_'))
    h.assume(h.neg(v.strip() == ''))
    h.assume(h.all([h.neg(c in v) for c in '+-_ ']))
    h.assume(h.neg(v.isdigit()))
    sem = h.choose('sem', 3)
    doc = doc_with('' if sem else v, [[], [('Major', '2'), ('Minor', '0'), ('Patch', v)], [('Patch', v), ('Build', '7')]][sem])
    before = dview(doc)
    r = attempt(doc.as_version, h.pick('m', ['+1', '-2', '+', '-']))
    h.observe(list(r))
    h.prove(h.same(list(r), ['raised', 'MetatabError']), 'version math needs an integer', lambda: list(r))
    h.prove(h.same(dview(doc), before), 'the document is unchanged')


def signed(h):
    """Version math on integers written in other ways"""
    v = h.pick('v', ['-3', '+4', '007', '00', '-0', '-10'])
    doc = doc_with(v)
    before = dview(doc)
    d = h.pick('d', ['', '1', '2', '05', '10'])
    sign = h.pick('sign', ['+', '-'])
    got = doc.as_version(sign + d)
    h.observe(got)
    x = int(v) + int(d or '1') if sign == '+' else int(v) - int(d or '1')
    h.prove(got == name_prefix() + '-' + str(x).replace('-', '_'), 'the name has the version plus or minus the number', lambda: [v, sign, d, got])
    h.prove(h.same(dview(doc), before), 'asking for another version does not change the document')
    got = doc.as_version(False)
    h.prove(got == name_prefix() + '-' + slug_plain(v.replace('-', '_').replace('+', '')), 'the version itself is kept', lambda: got)


def persist(h, n):
    """update_name() with a version sets it for good"""
    v = h.str('v', n, DIG)
    sem = h.flag('sem')
    doc = doc_with('' if sem else v, [('Major', '2'), ('Minor', '0'), ('Patch', v)] if sem else [])
    m = h.pick('m', ['+1', '-1', '12', False])
    doc.update_name(mod_version=m)
    x = str(int(v) + 1) if m == '+1' else str(int(v) - 1) if m == '-1' else m if m else v
    want = ('2.0.' + x) if sem else x
    h.observe(vterm(doc).value)
    h.prove(h.same(vterm(doc).value, want), 'the version of the document is the new one', lambda: [vterm(doc).value, want])
    h.prove(h.same(doc.find_first_value('Root.Name'), name_prefix() + '-' + want.replace('-', '_')), 'the name has the new version', lambda: doc.find_first_value('Root.Name'))
    h.prove(doc['Schema'].terms[0].value == 'decoy', 'a Version in another section is not touched')


def sequence(h, n):
    """Any sequence of questions leaves the document as it is"""
    sem = h.flag('sem')
    doc = doc_with('5', [('Minor', '1'), ('Patch', '9')] if sem else [])
    before = dview(doc)
    cur = 9 if sem else 5
    got = []
    for i in range(n):
        q = h.pick('q%d' % i, ['+1', '-1', '+10', '-', '+', None, 'x', False])
        got.append(doc.as_version(q))
        base = name_prefix()
        f = ('1.1.' if sem else '')
        want = {'+1': base + '-' + f + str(cur + 1), '-1': base + '-' + f + str(cur - 1), '+10': base + '-' + f + str(cur + 10), '-': base + '-' + f + str(cur - 1),
                '+': base + '-' + f + str(cur + 1), None: base, 'x': base + '-' + f + 'x', False: base + '-' + f + str(cur)}[q]
        h.prove(got[-1] == want, 'every answer counts from the version of the document', lambda: [q, got, want])
        h.prove(h.same(dview(doc), before), 'asking for another version does not change the document')
    h.observe(got)


JOBS = [
    dict(name='update', fn=update, kw=dict(n=(1, 2)), bounds='components present, empty or missing, of 1-2 digits'),
    dict(name='none', fn=none, bounds='no version'),
    dict(name='arithmetic', fn=arithmetic, kw=dict(n=(1, 2), m=(0, 1)), bounds='versions of 1-2 digits, steps of up to 1 digit'),
    dict(name='arithmetic-carry', fn=arithmetic, kw=dict(n=(3, 6), m=2, digits=tuple('09')), bounds='versions of 3-6 digits 0 or 9, steps of 2 such digits'),
    dict(name='arithmetic-semver', fn=arithmetic_semver, kw=dict(n=(1, 2), digits=tuple('19')), bounds='patch and steps of 1-2 digits 1 or 9'),
    dict(name='explicit', fn=explicit, kw=dict(n=(1, 2)), bounds='versions of 1-2 characters out of 9'),
    dict(name='bad', fn=bad, kw=dict(n=(1, 3)), bounds='versions of 1-3 characters that are no integers'),
    dict(name='signed', fn=signed, bounds='6 integers with signs or leading zeros, 10 steps'),
    dict(name='persist', fn=persist, kw=dict(n=(1, 2)), bounds='versions of 1-2 digits'),
    dict(name='sequence', fn=sequence, kw=dict(n=3), bounds='all sequences of 3 out of 8 questions'),
    dict(name='arithmetic-deep', fn=arithmetic, kw=dict(n=(1, 3), m=(0, 2)), tiers=('thorough',), bounds='versions of 1-3 digits, steps of up to 2'),
    dict(name='arithmetic-semver-deep', fn=arithmetic_semver, kw=dict(n=(1, 2)), tiers=('thorough',), bounds='patch and steps of 1-2 digits'),
    dict(name='sequence-deep', fn=sequence, kw=dict(n=4), tiers=('thorough',), bounds='sequences of 4 questions'),
]

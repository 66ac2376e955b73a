"""Differential test of the models against CPython. For each operation: all paths over symbolic strings of bounded length;
every concrete assignment must satisfy exactly one path condition, and on that path the symbolic result, evaluated
under the assignment, must be what CPython computes."""
import ast
import csv
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sx.core import Engine, PathAbort  # noqa
from sx.api import SymH, ConcH, concretise, jsonable, force_lazy  # noqa
from sx import instrument, models  # noqa

SRC = r'''
import re, csv, io, unicodedata, os.path
from collections import OrderedDict, defaultdict
def lower(s, t): return s.lower(), s.upper(), s.title(), s.casefold(), s.capitalize()
def strip(s, t): return s.strip(), s.lstrip(), s.rstrip(), s.strip('a.'), s.lstrip('.'), s.rstrip(t)
def split(s, t): return s.split('.'), s.split('.', 1), s.split(), s.rsplit('.', 1), s.split(None, 1), s.rsplit(None, 1), s.partition('.'), s.rpartition('.')
def split2(s, t): return s.split(t) if t else None, s.rsplit(t) if t else None
def splitlines(s, t): return s.splitlines(), s.splitlines(True)
def find(s, t): return s.find(t), s.rfind(t), s.count(t) if t else 0, t in s, s.find('a', 1), s.startswith(t), s.endswith(t), s.startswith(('a', '.')), s.endswith(('B', ' '))
def cmp(s, t): return s == t, s != t, s < t, s <= t, s > t, s >= t, sorted([s, t, 'a'])
def repl(s, t): return s.replace('.', 'xy'), s.replace('aB', ''), s.replace(t, '-') if t else 0, s.replace('.', t, 1)
def fmt(s, t): return "{}.{}".format(s, t), '%s-%s%%' % (s, t), f'<{s}|{t:>4}|{s!r}>', s + t, s * 2, '+'.join([s, t, 'q']), ''.join(reversed(list(s)))
def fmt2(s, t): return '%s.%d' % (s, 3), '%r/%d%%' % (t, 12), '%d%s' % (0, s)
def lib(s, t):
    import itertools, operator, collections
    l = [s, 'a', t, '.']
    m = collections.ChainMap({s: 1}, {t: 2, 'a': 3})
    return (list(itertools.filterfalse(l[:2].__contains__, l)), list(itertools.takewhile(str.strip, l)), list(itertools.dropwhile(operator.methodcaller('startswith', t), l)),
            list(itertools.compress(l, [e != s for e in l])), list(itertools.starmap(operator.add, zip(l, l))), m.get('a'), m[s], m[t], list(OrderedDict.fromkeys(l)))
def tests(s, t): return s.isspace(), s.isalpha(), s.isalnum(), s.isdigit(), s.isupper(), s.islower(), bool(s), len(s), s.isascii()
def idx(s, t): return s[:1], s[1:], s[-1:], s[::-1], [c for c in s], s[0] if s else None
def dicts(s, t):
    d = {s: 1, 'a': 2}
    d[t] = 3
    e = OrderedDict([(t, 1), ('.', 5)])
    e.update(d)
    f = defaultdict(list)
    f[s].append(1)
    f[t].append(2)
    return list(d.items()), s in d, d.get(t), 'B' in d, list(e.keys()), len(e), {k: v for k, v in e.items()}, list(f.items()), d == e
def dels(s, t):
    d = {'a': 1, '.': 2, 'B': 3}
    r = d.pop(s, None)
    try:
        del d[t]
    except KeyError:
        r = (r, 'missing')
    return r, list(d.items()), d.setdefault(s, 9), list(d)
def sets(s, t):
    x = {s, t, 'a'}
    return sorted(x), len(x), '.' in x, sorted(x - {'a'}), sorted(x & {'.', s}), len(set([s]) | set(t))
def lists(s, t):
    l = [s, 'a', t]
    r = l.index('a')
    l.remove('a')
    return r, l, s in l, l.count(t), t in ['a', 'B']
def regex(s, t):
    return (re.sub(r'[^\w\s\-\.]', '', s), re.sub(r'[-\s]+', '-', s), re.split(r'(?<!\\)\|', s), bool(re.match(r'^\s*#', s)),
            re.sub(r'^=*', 'S:', s), re.findall(r'[a-z]+', s), [m.group() for m in re.finditer(r'a*', s)],
            re.sub(r'a*', '-', s), re.sub(r'(a)(B)?', r'<\1>', s), bool(re.search(r'\.$', s)), bool(re.fullmatch('(a|aB)*', s)),
            re.split(r'([.|])', s), re.sub('a', lambda m: m.group().upper(), s, count=1))
def escape(s, t): return [e.replace('\\|', '|') for e in re.split(r'(?<!\\)\|', s)]
def norm(s, t): return unicodedata.normalize('NFKD', s).encode('ascii', 'ignore').decode('utf8')
def csvw(s, t):
    f = io.StringIO()
    w = csv.writer(f)
    w.writerow([s, t])
    w.writerow([s])
    w.writerow(['', s, None, 3])
    w.writerow([])
    v = f.getvalue()
    return v
def csvr(s, t):
    f = io.StringIO()
    w = csv.writer(f)
    w.writerow([s, t])
    w.writerow(['x', s])
    return list(csv.reader(io.StringIO(f.getvalue(), newline='')))
def ints(s, t):
    try:
        i = int(s)
    except ValueError:
        i = None
    return i, str(i), (i or 0) + 1, str((i or 0) * 10 - 5), (i or 0) > 3, int(i or 0) == 7
def paths(s, t): return os.path.basename(s), os.path.dirname(s), os.path.split(s), os.path.join('d', s), os.path.splitext(s)
def attrs(s, t):
    try:
        return [s, 'zz'].index(t)
    except ValueError as e:
        return 'no'
def trysplit(s, t):
    try:
        a, b = s.split('.')
        return (a, b)
    except ValueError:
        return None
def walrus(s, t):
    out = []
    for i, c in enumerate(s):
        if (u := c.upper()) in 'AB' and c not in t:
            out.append((i, u))
    return out, any(c == '.' for c in s), all(c.isalpha() for c in s), next((c for c in s if c == 'a'), None)
def translate(s, t): return s.translate(str.maketrans('a.', 'x-')), s.zfill(4), s.center(5), s.expandtabs(2)
def maps(s, t): return list(map(str.strip, [s, t])), list(filter(None, [s, t])), sorted([s, t], key=str.lower), max(s, t), min([s, 'a'])
def match(s, t):
    m = re.match(r'(?P<n>[a-z]+)?\s*[.:](.*)', s)
    return m and (m.group('n'), m.group(2), m.groups(), m.span(), m.start(2))
def isinst(s, t): return isinstance(s, str), type(s) is str, type(s) == str, isinstance(s, (list, tuple)), hasattr(s, 'lower'), callable(s)
'''

ALPH = {
    'default': (tuple('aB. '), 3, 2),
    'splitlines': (('a', '\n', '\r', '\x0b'), 4, 0),
    'regex': (tuple('a-. |'), 4, 0),
    'escape': (('a', '|', '\\'), 5, 0),
    'norm': (('a', 'é', 'ﬁ', 'ß'), 3, 0),
    'csvw': (('a', ',', '"', '\n'), 3, 2),
    'csvr': (('a', ',', '"', '\r', '\n'), 3, 1),
    'ints': (tuple('07+-_ '), 3, 0),
    'paths': (tuple('a./'), 4, 0),
    'dicts': (tuple('aB.'), 1, 1),
    'dels': (tuple('aB.'), 1, 1),
    'sets': (tuple('aB.'), 1, 1),
    'lower': (('a', 'B', 'é', 'ß', '1', "'"), 3, 0),
    'match': (tuple('a.: '), 4, 0),
}


def native(ns, fn, s, t):
    try:
        return jsonable(ns[fn](s, t))
    except Exception as e:
        return 'EXC ' + type(e).__name__


def run(fn, sym, nat):
    alpha, n, m = ALPH.get(fn, ALPH['default'])
    e = Engine()
    work = [((), None)]
    covered = {}
    npaths = 0
    todo = [('s', (0, n), 's'), ('t', (0, m), 't')]
    while work:
        prefix, model = work.pop()
        e.reset_path(prefix, model)
        Engine.active = e
        h = SymH(e)
        s = h.str('s', (0, n), alpha)
        t = h.str('t', (0, m), alpha)
        try:
            try:
                r = force_lazy(sym[fn](s, t))
            except PathAbort:
                continue
            except Exception as x:
                r = 'EXC ' + type(x).__name__
        finally:
            work.extend(e.pending)
        npaths += 1
        # every assignment on this path
        cond = [f for _, _, f in e.solver_stack[:e.pos]]
        from sx.symstr import SymStr

        syms = [c for x in (s, t) if type(x) is SymStr for c in x.c if type(c) is not str]
        base = e.get_model()
        for combo in itertools.product(*[range(len(c.v.values)) for c in syms]):
            mm = dict(base)
            for c, i in zip(syms, combo):
                mm[c.v.vid] = i
            # digit variables of integers are functions of the inputs: solve for them
            extra = [v for v in e.vars if v.vid in e.domains and v.name[0] == 'digit']
            if extra:
                from sx.core import f_and
                mm2 = e.check(f_and([('in', c.v.vid, 1 << i) for c, i in zip(syms, combo)]))
                if mm2 is None:
                    continue
                mm = mm2
            elif not all(e.evaluate(f, mm) for f in cond):
                continue
            cs, ct = concretise(s, mm), concretise(t, mm)
            got = concretise(r, mm)
            key = (cs, ct)
            assert key not in covered, ('two paths for', fn, key)
            covered[key] = got
            want = native(nat, fn, cs, ct)
            if got != want:
                print('MISMATCH', fn, key, 'symbolic', got, 'native', want)
                return False
    total = sum(len(alpha) ** i for i in range(n + 1)) * sum(len(alpha) ** i for i in range(m + 1))
    if len(covered) != total:
        print('INCOMPLETE', fn, len(covered), total)
        return False
    print('ok {:12} paths {:5} inputs {:6} queries {:6}'.format(fn, npaths, total, e.stats.queries))
    return True


def main():
    instrument.install('/nonexistent', prefixes=('metatab_none',))
    nat, sym = {}, dict(instrument.N)
    exec(compile(SRC, 'native', 'exec'), nat)
    exec(instrument.transform(SRC, 'sym', 'selftest'), sym)
    fns = [n.name for n in ast.parse(SRC).body if isinstance(n, ast.FunctionDef)]
    only = sys.argv[1:]
    ok = True
    for f in fns:
        if only and f not in only:
            continue
        ok = run(f, sym, nat) and ok
    sys.exit(0 if ok else 1)


if __name__ == '__main__':
    main()

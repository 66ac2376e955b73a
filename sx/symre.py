"""Regular expressions over symbolic strings: a backtracking matcher over the sre parse tree. Tests of single
characters fork; the order of alternatives is that of the sre engine. Validated against `re` in selftest.py"""
__sx_internal__ = True

import re
try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc

from .core import Engine
from .symstr import SymStr, mk, chars_of, char_in, B, to_native

_cache = {}


class Unsupported(Exception):
    pass


def _parse(pattern, flags):
    k = (pattern, flags)
    t = _cache.get(k)
    if t is None:
        p = sre_parse.parse(pattern, flags)
        t = (p, p.state.flags, dict(p.state.groupdict), p.state.groups)
        _cache[k] = t
    return t


_single_cache = {}


def _single(op, av, flags):
    """A compiled regex that matches one character: CPython decides the test"""
    key = (op, repr(av), flags)
    r = _single_cache.get(key)
    if r is None:
        fl = flags & (re.IGNORECASE | re.ASCII | re.DOTALL | re.UNICODE)
        ic = bool(flags & re.IGNORECASE)

        def build():
            if op is sc.LITERAL:
                return re.compile(re.escape(chr(av)), fl)
            if op is sc.NOT_LITERAL:
                return re.compile('[^' + re.escape(chr(av)) + ']', fl)
            if op is sc.ANY:
                return re.compile('.', fl)
            if op is sc.IN:
                neg = False
                s = ''
                for o, v in av:
                    if o is sc.NEGATE:
                        neg = True
                    elif o is sc.LITERAL:
                        s += re.escape(chr(v))
                    elif o is sc.RANGE:
                        s += re.escape(chr(v[0])) + '-' + re.escape(chr(v[1]))
                    elif o is sc.CATEGORY:
                        s += {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
                              sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w',
                              sc.CATEGORY_NOT_WORD: r'\W'}[v]
                    else:
                        raise Unsupported(str(o))
                return re.compile('[' + ('^' if neg else '') + s + ']', fl)
            raise Unsupported(str(op))

        r = build()
        _single_cache[key] = r
    return key, r


class Matcher(object):

    def __init__(self, pattern, flags, s):
        self.tree, self.flags, self.gdict, self.ngroups = _parse(pattern, flags)
        self.s = chars_of(s)
        self.n = len(self.s)

    def test(self, i, op, av, flags):
        key, r = _single(op, av, flags)
        return B(char_in(self.s[i], ('re', key), lambda ch: r.fullmatch(ch) is not None))

    def word(self, i):
        if i < 0 or i >= self.n:
            return False
        fl = self.flags & re.ASCII
        r = re.compile(r'\w', fl)
        return B(char_in(self.s[i], ('reword', int(fl)), lambda ch: r.fullmatch(ch) is not None))

    def seq(self, items, k, i, groups, flags):
        """Yield (end, groups) for items[k:] from position i"""
        if k == len(items):
            yield i, groups
            return
        op, av = items[k]
        for j, g in self.one(op, av, i, groups, flags):
            yield from self.seq(items, k + 1, j, g, flags)

    def one(self, op, av, i, groups, flags):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i < self.n and self.test(i, op, av, flags):
                yield i + 1, groups
        elif op is sc.AT:
            if self.at(av, i, flags):
                yield i, groups
        elif op is sc.SUBPATTERN:
            gid, addf, delf, p = av
            for j, g in self.seq(list(p), 0, i, groups, (flags | addf) & ~delf):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                yield j, g
        elif op is sc.BRANCH:
            for p in av[1]:
                yield from self.seq(list(p), 0, i, groups, flags)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
            lo, hi, p = av
            hi = None if hi is sc.MAXREPEAT else hi
            if op is sc.MAX_REPEAT:
                yield from self.greedy(list(p), lo, hi, i, groups, flags, 0, -1)
            elif op is sc.MIN_REPEAT:
                yield from self.lazy(list(p), lo, hi, i, groups, flags, 0, -1)
            else:
                for r in self.greedy(list(p), lo, hi, i, groups, flags, 0, -1):
                    yield r
                    return
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            ok = None
            if direction >= 0:
                for j, g in self.seq(list(p), 0, i, groups, flags):
                    ok = g
                    break
            else:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('variable lookbehind')
                if i - w[0] >= 0:
                    for j, g in self.seq(list(p), 0, i - w[0], groups, flags):
                        if j == i:
                            ok = g
                            break
            if (ok is not None) == (op is sc.ASSERT):
                yield i, (ok if op is sc.ASSERT else groups)
        elif op is sc.GROUPREF:
            if av in groups:
                a, b = groups[av]
                L = b - a
                if i + L <= self.n:
                    from .symstr import eq_formula
                    if B(eq_formula(mk(self.s[a:b]), mk(self.s[i:i + L]))):
                        yield i + L, groups
        elif op is getattr(sc, 'ATOMIC_GROUP', None):
            for r in self.seq(list(av), 0, i, groups, flags):
                yield r
                return
        else:
            raise Unsupported(str(op))

    def greedy(self, p, lo, hi, i, groups, flags, count, last):
        if (hi is None or count < hi) and not (count >= lo and i == last):
            for j, g in self.seq(p, 0, i, groups, flags):
                if j == i and count >= lo:
                    continue
                yield from self.greedy(p, lo, hi, j, g, flags, count + 1, i)
        if count >= lo:
            yield i, groups

    def lazy(self, p, lo, hi, i, groups, flags, count, last):
        if count >= lo:
            yield i, groups
        if hi is None or count < hi:
            for j, g in self.seq(p, 0, i, groups, flags):
                if j == i and count >= lo:
                    continue
                yield from self.lazy(p, lo, hi, j, g, flags, count + 1, i)

    def nl(self, i):
        return B(char_in(self.s[i], 'nl', lambda ch: ch == '\n'))

    def at(self, av, i, flags):
        if av in (sc.AT_BEGINNING_STRING,):
            return i == 0
        if av is sc.AT_BEGINNING:
            if flags & re.MULTILINE:
                return i == 0 or self.nl(i - 1)
            return i == 0
        if av is sc.AT_END_STRING:
            return i == self.n
        if av is sc.AT_END:
            if flags & re.MULTILINE:
                return i == self.n or self.nl(i)
            return i == self.n or (i == self.n - 1 and self.nl(i))
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            b = self.word(i - 1) != self.word(i)
            return b if av is sc.AT_BOUNDARY else not b
        raise Unsupported(str(av))

    def match_at(self, i, full=False, not_empty_at=None):
        for j, g in self.seq(list(self.tree), 0, i, {}, self.flags):
            if full and j != self.n:
                continue
            if not_empty_at is not None and j == i == not_empty_at:
                continue
            return j, g
        return None

    def search(self, start, not_empty_at=None):
        for i in range(start, self.n + 1):
            r = self.match_at(i, not_empty_at=not_empty_at)
            if r is not None:
                return i, r[0], r[1]
        return None

    def iter(self):
        pos = 0
        not_empty = None
        while pos <= self.n:
            r = self.search(pos, not_empty)
            if r is None:
                return
            i, j, g = r
            yield i, j, g
            # Since Python 3.7: an empty match may follow a non-empty one, but not be repeated at one place
            pos = j
            not_empty = j if i == j else None


class SymMatch(object):

    def __init__(self, m, i, j, g):
        self.m, self._i, self._j, self.g = m, i, j, g
        self.re = None
        self.string = mk(m.s)

    def _span(self, k):
        if isinstance(k, str):
            k = self.m.gdict[k]
        if k == 0:
            return (self._i, self._j)
        if k < 0 or k >= self.m.ngroups:
            raise IndexError('no such group')
        return self.g.get(k, (-1, -1))

    def _grp(self, k, default=None):
        a, b = self._span(k)
        return default if a < 0 else mk(self.m.s[a:b])

    def group(self, *ks):
        if not ks:
            return self._grp(0)
        if len(ks) == 1:
            return self._grp(ks[0])
        return tuple(self._grp(k) for k in ks)

    def __getitem__(self, k):
        return self._grp(k)

    def groups(self, default=None):
        return tuple(self._grp(k, default) for k in range(1, self.m.ngroups))

    def groupdict(self, default=None):
        return {n: self._grp(k, default) for n, k in self.m.gdict.items()}

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)

    @property
    def lastindex(self):
        return max(self.g) if self.g else None

    def __bool__(self):
        return True

    def expand(self, template):
        return _expand(template, self)


def _expand(template, m):
    out = []
    t = to_native(template)
    i = 0
    while i < len(t):
        c = t[i]
        if c == '\\' and i + 1 < len(t):
            d = t[i + 1]
            if d.isdigit() and d != '0':
                out.extend(chars_of(m._grp(int(d)) or ''))
                i += 2
                continue
            if d == 'g' and t[i + 2:i + 3] == '<':
                e = t.index('>', i)
                n = t[i + 3:e]
                out.extend(chars_of(m._grp(int(n) if n.isdigit() else n) or ''))
                i = e + 1
                continue
            if d in 'nrt\\':
                out.append({'n': '\n', 'r': '\r', 't': '\t', '\\': '\\'}[d])
                i += 2
                continue
            out.append(c)
            out.append(d)
            i += 2
            continue
        out.append(c)
        i += 1
    return mk(out)


def re_call(fn, pattern, *a, **k):
    try:
        return _re_call(fn, pattern, *a, **k)
    except Unsupported:
        from .models import realise_deep
        a = realise_deep(a)
        k = realise_deep(k)
        if isinstance(pattern, re.Pattern):
            return getattr(pattern, fn)(*a, **k)
        return getattr(re, fn)(realise_deep(pattern), *a, **k)


def _re_call(fn, pattern, *a, **k):
    from .models import call
    if isinstance(pattern, re.Pattern):
        flags = pattern.flags
        pat = pattern.pattern
        compiled = True
    else:
        pat = to_native(pattern)
        flags = 0
        compiled = False

    def arg(i, name, default):
        if i < len(a):
            return a[i]
        return k.get(name, default)

    if fn in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
        s = arg(0, 'string', None)
        if compiled:
            if len(a) > 1 or 'pos' in k:
                raise Unsupported('pos')
        else:
            flags = int(arg(1, 'flags', 0))
        m = Matcher(pat, flags, s)
        if fn == 'search':
            r = m.search(0)
            return SymMatch(m, *r) if r is not None else None
        if fn in ('match', 'fullmatch'):
            r = m.match_at(0, full=(fn == 'fullmatch'))
            return SymMatch(m, 0, r[0], r[1]) if r is not None else None
        ms = (SymMatch(m, *r) for r in m.iter())
        if fn == 'finditer':
            return iter(list(ms))
        out = []
        for x in ms:
            if m.ngroups == 1:
                out.append(x.group())
            elif m.ngroups == 2:
                out.append(x._grp(1, ''))
            else:
                out.append(x.groups(''))
        return out

    if fn in ('sub', 'subn'):
        repl = arg(0, 'repl', None)
        s = arg(1, 'string', None)
        count = arg(2, 'count', 0)
        if not compiled:
            flags = int(arg(3, 'flags', 0))
        m = Matcher(pat, flags, s)
        out = []
        last = 0
        n = 0
        for i, j, g in m.iter():
            if count and n >= count:
                break
            out.extend(m.s[last:i])
            sm = SymMatch(m, i, j, g)
            if isinstance(repl, str):
                out.extend(chars_of(repl) if type(repl) is SymStr else chars_of(_expand(repl, sm)))
            else:
                out.extend(chars_of(call(repl, sm)))
            last = j
            n += 1
        out.extend(m.s[last:])
        r = mk(out)
        return (r, n) if fn == 'subn' else r

    if fn == 'split':
        s = arg(0, 'string', None)
        maxsplit = arg(1, 'maxsplit', 0)
        if not compiled:
            flags = int(arg(2, 'flags', 0))
        m = Matcher(pat, flags, s)
        out = []
        last = 0
        n = 0
        for i, j, g in m.iter():
            if maxsplit and n >= maxsplit:
                break
            out.append(mk(m.s[last:i]))
            sm = SymMatch(m, i, j, g)
            out.extend(sm.groups())
            last = j
            n += 1
        out.append(mk(m.s[last:]))
        return out

    raise Unsupported(fn)

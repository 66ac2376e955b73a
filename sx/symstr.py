"""Symbolic strings: concrete length, each element a concrete character or a symbolic one"""
__sx_internal__ = True

from .core import Engine, SymBool, mkbool, f_and, f_or, f_not, mask_for, inverse, as_formula


class SymChar(object):
    """A character variable, seen through a table"""
    __slots__ = ('v', 't')

    def __init__(self, v, t):
        self.v = v
        self.t = t


def domain_values(c):
    """The set of characters c can still be, by its domain"""
    d = Engine.active.domains[c.v.vid]
    inv = inverse(c.t)
    return [ch for ch, m in inv.items() if m & d]


def char_in(c, key, pred):
    """Formula: pred holds of character c"""
    if type(c) is str:
        return bool(pred(c))
    m = mask_for(c.t, key, pred)
    d = Engine.active.domains[c.v.vid]
    if m & d == 0:
        return False
    if m & d == d:
        return True
    return ('in', c.v.vid, m)


def char_eq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    dom = Engine.active.domains
    if type(b) is str:
        m = inverse(a.t).get(b, 0)
        d = dom[a.v.vid]
        if m & d == 0:
            return False
        if m & d == d:
            return True
        return ('in', a.v.vid, m)
    if a.v is b.v:
        if a.t is b.t or a.t == b.t:
            return True
        m = 0
        for i in range(len(a.t)):
            if a.t[i] == b.t[i]:
                m |= 1 << i
        d = dom[a.v.vid]
        if m & d == 0:
            return False
        if m & d == d:
            return True
        return ('in', a.v.vid, m)
    if a.t is a.v.values and b.t is b.v.values and a.t == b.t:
        if dom[a.v.vid] & dom[b.v.vid] == 0:
            return False
        x, y = a.v.vid, b.v.vid
        return ('veq', min(x, y), max(x, y))
    ia, ib = inverse(a.t), inverse(b.t)
    da, db = dom[a.v.vid], dom[b.v.vid]
    if len(ia) > len(ib):
        ia, ib, a, b, da, db = ib, ia, b, a, db, da
    alts = []
    for ch, ma in ia.items():
        mb = ib.get(ch)
        if mb and ma & da and mb & db:
            alts.append(f_and([('in', a.v.vid, ma), ('in', b.v.vid, mb)]))
    return f_or(alts)


def mk(chars):
    """Make a string from a sequence of characters; a native str if nothing is symbolic"""
    dom = Engine.active.domains if Engine.active is not None else {}
    out = []
    sym = False
    for c in chars:
        if type(c) is not str:
            d = dom[c.v.vid]
            if d & (d - 1) == 0 and d:
                c = c.t[d.bit_length() - 1]
            else:
                sym = True
        out.append(c)
    if not sym:
        return ''.join(out)
    return SymStr(out)


def chars_of(s):
    if type(s) is SymStr:
        return s.c
    if type(s) is str:
        return list(s)
    if isinstance(s, str):
        return list(str(s))
    raise TypeError('expected string, got {}'.format(type(s).__name__))


def is_symbolic(s):
    return type(s) is SymStr


def eq_formula(a, b):
    """Formula for the equality of two strings (native or symbolic)"""
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    fs = []
    for x, y in zip(ca, cb):
        f = char_eq(x, y)
        if f is False:
            return False
        fs.append(f)
    return f_and(fs)


_map_cache = {}


def map_char(c, key, fn):
    """Apply a character to string function; returns a list of characters. Forks if the length of the output
    depends on the character"""
    if type(c) is str:
        return list(fn(c))
    ck = (c.t, key)
    t = _map_cache.get(ck)
    if t is None:
        t = tuple(fn(x) for x in c.t)
        _map_cache[ck] = t
    d = Engine.active.domains[c.v.vid]
    # Lengths that the output can have
    lens = {}
    for i, o in enumerate(t):
        if (d >> i) & 1:
            lens[len(o)] = lens.get(len(o), 0) | (1 << i)
    items = sorted(lens.items(), key=lambda e: (e[0] != 1, e[0]))
    for n, m in items[:-1]:
        if Engine.active.branch(('in', c.v.vid, m)):
            break
    else:
        n = items[-1][0]
    if n == 0:
        return []
    if n == 1:
        tk = (ck, 1)
        t1 = _map_cache.get(tk)
        if t1 is None:
            t1 = tuple(o if len(o) == 1 else '\0' for o in t)
            if t1 == c.v.values:
                t1 = c.v.values
            _map_cache[tk] = t1
        return [SymChar(c.v, t1)]
    out = []
    for k in range(n):
        out.append(SymChar(c.v, tuple(o[k] if len(o) == n else '\0' for o in t)))
    return out


def _ws(c):
    return c.isspace()


_LINEBREAKS = set('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')


def B(f):
    return Engine.active.branch(f)


def _idx(i):
    return i


class SymStr(object):
    __slots__ = ('c',)

    __class__ = property(lambda self: str)

    def __init__(self, chars):
        self.c = chars if type(chars) is list else list(chars)

    # -- realisation ------------------------------------------------------------------

    def realise(self):
        """Return a native string; forks over every feasible value"""
        e = Engine.active
        out = []
        for c in self.c:
            if type(c) is str:
                out.append(c)
                continue
            while True:
                d = e.domains[c.v.vid]
                inv = inverse(c.t)
                poss = [(ch, m) for ch, m in inv.items() if m & d]
                if len(poss) == 1:
                    out.append(poss[0][0])
                    break
                # Deterministic order: replays must take the same decisions
                ch, m = poss[0]
                e.stats.realised += 1
                if e.branch(('in', c.v.vid, m)):
                    out.append(ch)
                    break
        return ''.join(out)

    def __str__(self):
        return self.realise()

    def __repr__(self):
        return repr(self.realise())

    def __hash__(self):
        return hash(self.realise())

    def __format__(self, spec):
        return format(self.realise(), spec)

    def __reduce__(self):
        return (str, (self.realise(),))

    # -- comparison -------------------------------------------------------------------

    def __eq__(self, o):
        if type(o) is not str and type(o) is not SymStr:
            if isinstance(o, str):
                o = str(o)
            else:
                return NotImplemented
        return mkbool(eq_formula(self, o))

    def __ne__(self, o):
        if type(o) is not str and type(o) is not SymStr:
            if isinstance(o, str):
                o = str(o)
            else:
                return NotImplemented
        return mkbool(f_not(eq_formula(self, o)))

    def _cmp(self, o):
        """-1, 0, 1 with forks"""
        a, b = self.c, chars_of(o)
        for x, y in zip(a, b):
            if B(char_eq(x, y)):
                continue
            # x != y: decide which is smaller
            return -1 if B(_char_lt(x, y)) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) < 0

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) <= 0

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) > 0

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) >= 0

    # -- sequence ---------------------------------------------------------------------

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for c in list(self.c):
            yield mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.c[i])
        return mk([self.c[i]])

    def __add__(self, o):
        if type(o) is SymStr:
            return SymStr(self.c + o.c)
        if isinstance(o, str):
            return SymStr(self.c + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(list(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.c * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        return percent_format(self.realise(), args)

    def __contains__(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand")
        return bool(mkbool(contains_formula(self, o)))

    # -- case -------------------------------------------------------------------------

    def _map(self, key, fn):
        out = []
        for c in self.c:
            out.extend(map_char(c, key, fn))
        return mk(out)

    def lower(self):
        return self._map('lower', str.lower)

    def upper(self):
        return self._map('upper', str.upper)

    def casefold(self):
        return self._map('casefold', str.casefold)

    def swapcase(self):
        return self._map('swapcase', str.swapcase)

    def title(self):
        out = []
        prev_cased = False
        for c in self.c:
            if prev_cased:
                out.extend(map_char(c, 'lower', str.lower))
            else:
                out.extend(map_char(c, 'title', str.title))
            prev_cased = B(char_in(c, 'cased', _cased))
        return mk(out)

    def capitalize(self):
        out = []
        for i, c in enumerate(self.c):
            if i:
                out.extend(map_char(c, 'lower', str.lower))
            else:
                out.extend(map_char(c, 'title', str.title))
        return mk(out)

    # -- strip ------------------------------------------------------------------------

    def _strip(self, chars, left, right):
        if chars is None:
            key, pred = 'isspace', _ws
            test = lambda c: char_in(c, key, pred)
        else:
            cs = chars_of(chars)
            test = lambda c: f_or([char_eq(c, x) for x in cs])
        i, j = 0, len(self.c)
        if left:
            while i < j and B(test(self.c[i])):
                i += 1
        if right:
            while j > i and B(test(self.c[j - 1])):
                j -= 1
        return mk(self.c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return mk(self.c[len(p):]) if p and self.startswith(p) else mk(self.c)

    def removesuffix(self, p):
        return mk(self.c[:-len(p)]) if p and self.endswith(p) else mk(self.c)

    # -- search -----------------------------------------------------------------------

    def _at(self, i, sub):
        cs = chars_of(sub)
        if i < 0 or i + len(cs) > len(self.c):
            return False
        fs = []
        for k, y in enumerate(cs):
            f = char_eq(self.c[i + k], y)
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)

    def _bounds(self, start, end):
        s, e, _ = slice(start, end).indices(len(self.c))
        return s, e

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x, start, end)) for x in p)
        s = mk(self.c[slice(start, end)])
        return mkbool(to_sym(s)._at(0, p)) if len(p) <= len(s) else False

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(bool(self.endswith(x, start, end)) for x in p)
        s = mk(self.c[slice(start, end)])
        return mkbool(to_sym(s)._at(len(s) - len(p), p)) if len(p) <= len(s) else False

    def find(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        n = len(sub)
        i = s
        while i + n <= e:
            if B(self._at(i, sub)):
                return i
            i += 1
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        n = len(sub)
        i = e - n
        while i >= s:
            if B(self._at(i, sub)):
                return i
            i -= 1
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        n = len(sub)
        if n == 0:
            return e - s + 1
        k = 0
        while s + n <= e:
            if B(self._at(s, sub)):
                k += 1
                s += n
            else:
                s += 1
        return k

    def replace(self, old, new, count=-1):
        n = len(old)
        nc = chars_of(new)
        if n == 0:
            return mk(chars_of(self.realise().replace(old, to_native(new), count)))
        out = []
        i = 0
        while i < len(self.c):
            if count != 0 and i + n <= len(self.c) and B(self._at(i, old)):
                out.extend(nc)
                i += n
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mk(out)

    # -- split ------------------------------------------------------------------------

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            i, n = 0, len(self.c)
            while True:
                while i < n and B(char_in(self.c[i], 'isspace', _ws)):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and B(char_in(self.c[j - 1], 'isspace', _ws)):
                        j -= 1
                    out.append(mk(self.c[i:j]))
                    return out
                j = i
                while j < n and not B(char_in(self.c[j], 'isspace', _ws)):
                    j += 1
                out.append(mk(self.c[i:j]))
                i = j
        n = len(sep)
        if n == 0:
            raise ValueError('empty separator')
        out = []
        last = i = 0
        while i + n <= len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and B(self._at(i, sep)):
                out.append(mk(self.c[last:i]))
                i += n
                last = i
            else:
                i += 1
        out.append(mk(self.c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            if sep is None:
                return self.split()
        if sep is None:
            rev = SymStr(self.c[::-1]).split(None, maxsplit)
            return [mk(chars_of(x)[::-1]) for x in rev[::-1]]
        n = len(sep)
        if n == 0:
            raise ValueError('empty separator')
        out = []
        last = len(self.c)
        i = last - n
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and B(self._at(i, sep)):
                out.append(mk(self.c[i + n:last]))
                last = i
                i -= n
            else:
                i -= 1
        out.append(mk(self.c[:last]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mk(self.c), '', '')
        return (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mk(self.c))
        return (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    def splitlines(self, keepends=False):
        out = []
        cur = []
        i, n = 0, len(self.c)
        while i < n:
            c = self.c[i]
            if B(char_in(c, 'linebreak', _LINEBREAKS.__contains__)):
                end = [c]
                if B(char_eq(c, '\r')) and i + 1 < n and B(char_eq(self.c[i + 1], '\n')):
                    i += 1
                    end.append(self.c[i])
                out.append(mk(cur + end) if keepends else mk(cur))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    # -- tests ------------------------------------------------------------------------

    def _all(self, key, fn):
        if not self.c:
            return False
        return mkbool(f_and([char_in(c, key, fn) for c in self.c]))

    def isspace(self):
        return self._all('isspace', _ws)

    def isalpha(self):
        return self._all('isalpha', str.isalpha)

    def isalnum(self):
        return self._all('isalnum', str.isalnum)

    def isdigit(self):
        return self._all('isdigit', str.isdigit)

    def isdecimal(self):
        return self._all('isdecimal', str.isdecimal)

    def isnumeric(self):
        return self._all('isnumeric', str.isnumeric)

    def isascii(self):
        return mkbool(f_and([char_in(c, 'isascii', str.isascii) for c in self.c]))

    def isprintable(self):
        return mkbool(f_and([char_in(c, 'isprintable', str.isprintable) for c in self.c]))

    def isupper(self):
        low = [char_in(c, 'notlow', lambda ch: not (ch.islower() or (ch.istitle() and not ch.isupper()))) for c in self.c]
        up = [char_in(c, 'isupper', str.isupper) for c in self.c]
        return mkbool(f_and([f_and(low), f_or(up)]))

    def islower(self):
        up = [char_in(c, 'notup', lambda ch: not (ch.isupper() or ch.istitle())) for c in self.c]
        low = [char_in(c, 'islower', str.islower) for c in self.c]
        return mkbool(f_and([f_and(up), f_or(low)]))

    # -- misc -------------------------------------------------------------------------

    def join(self, it):
        return join(self, it)

    def format(self, *a, **k):
        return str_format(self.realise(), a, k)

    def encode(self, encoding='utf-8', errors='strict'):
        return sym_encode(self, encoding, errors)

    def ljust(self, w, fill=' '):
        return mk(self.c + chars_of(fill) * max(0, w - len(self.c)))

    def rjust(self, w, fill=' '):
        return mk(chars_of(fill) * max(0, w - len(self.c)) + self.c)

    def translate(self, table):
        def tr(ch):
            return ch.translate(table)
        out = []
        for c in self.c:
            # not cached: tables are not hashable
            if type(c) is str:
                out.extend(tr(c))
            else:
                out.extend(map_char(c, ('translate', tuple(sorted(table.items()))), tr))
        return mk(out)

    def __getattr__(self, name):
        """A str method that has no model: realise"""
        if name.startswith('__'):
            raise AttributeError(name)
        m = getattr(str, name, None)
        if m is None:
            raise AttributeError("'str' object has no attribute '{}'".format(name))
        return getattr(self.realise(), name)


class LazyText(object):
    """Text whose characters depend on more than one needs to know unless it is looked at, such as the repr() of a
    symbolic string in the message of an exception. Looking at it realises it (forks over its values)"""
    __slots__ = ('parts', 'v')

    __class__ = property(lambda self: str)

    def __init__(self, parts):
        self.parts = parts  # strings and thunks
        self.v = None

    def realise(self):
        if self.v is None:
            self.v = ''.join(to_native(p() if callable(p) else p) for p in self.parts)
        return self.v

    def __str__(self):
        return self.realise()

    def __repr__(self):
        return repr(self.realise())

    def __hash__(self):
        return hash(self.realise())

    def __eq__(self, o):
        return self.realise() == o

    def __ne__(self, o):
        return self.realise() != o

    def __lt__(self, o):
        return self.realise() < o

    def __gt__(self, o):
        return self.realise() > o

    def __le__(self, o):
        return self.realise() <= o

    def __ge__(self, o):
        return self.realise() >= o

    def __len__(self):
        return len(self.realise())

    def __bool__(self):
        return any(not callable(p) and len(p) for p in self.parts) or bool(self.realise())

    def __iter__(self):
        return iter(self.realise())

    def __getitem__(self, i):
        return self.realise()[i]

    def __contains__(self, x):
        return to_native(x) in self.realise()

    def __add__(self, o):
        return LazyText(self.parts + [o]) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return LazyText([o] + self.parts) if isinstance(o, str) else NotImplemented

    def __mul__(self, n):
        return self.realise() * n

    def __mod__(self, a):
        return percent_format(self.realise(), a)

    def __format__(self, spec):
        return format(self.realise(), spec)

    def __reduce__(self):
        return (str, (self.realise(),))

    def format(self, *a, **k):
        return str_format(self.realise(), a, k)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.realise(), name)


def text_of(parts):
    """Concatenate strings, some of them lazy"""
    for p in parts:
        if type(p) is LazyText:
            return LazyText([x for q in parts for x in (q.parts if type(q) is LazyText else [q])])
    out = []
    for p in parts:
        out.extend(chars_of(p))
    return mk(out)


def _cased(ch):
    return ch.lower() != ch or ch.upper() != ch or ch.title() != ch or ch.islower() or ch.isupper()


def _char_lt(x, y):
    if type(x) is str and type(y) is str:
        return x < y
    if type(y) is str:
        return char_in(x, ('lt', y), lambda ch: ch < y)
    if type(x) is str:
        return char_in(y, ('gt', x), lambda ch: ch > x)
    alts = []
    dy = set(domain_values(y))
    for ch in domain_values(x):
        alts.append(f_and([char_eq(x, ch), char_in(y, ('gt', ch), lambda z, ch=ch: z > ch)]))
    return f_or(alts)


def to_sym(s):
    if type(s) is SymStr:
        return s
    return SymStr(list(s))


def to_native(s):
    if type(s) is SymStr or type(s) is LazyText:
        return s.realise()
    return s


def contains_formula(s, sub):
    s = to_sym(s)
    n = len(sub)
    if n == 0:
        return True
    return f_or([s._at(i, sub) for i in range(0, len(s.c) - n + 1)])


def join(sep, it):
    out = []
    first = True
    sc = chars_of(sep)
    for x in it:
        if not first:
            out.extend(sc)
        first = False
        if not isinstance(x, str):
            raise TypeError('sequence item: expected str instance, {} found'.format(type(x).__name__))
        out.extend(chars_of(x))
    return mk(out)


def percent_format(fmt, args):
    """'..' % args for %s, %r, %d with native integers and %%; anything else realises"""
    import re
    if not isinstance(args, tuple):
        if isinstance(args, dict):
            from .models import realise_deep
            return fmt % realise_deep(args)
        args = (args,)
    specs = [p for p in re.findall(r'%.', fmt, re.S) if p != '%%']
    if re.fullmatch(r'(?:[^%]|%[srd]|%%)*', fmt, re.S) and all(type(a) is int for p, a in zip(specs, args) if p == '%d'):
        from .models import sx_str, sx_repr
        parts = re.split(r'(%[srd]|%%)', fmt)
        out = []
        k = 0
        for p in parts:
            if p in ('%s', '%r', '%d'):
                if k >= len(args):
                    raise TypeError('not enough arguments for format string')
                out.append(sx_repr(args[k]) if p == '%r' else sx_str(args[k]))
                k += 1
            elif p == '%%':
                out.append('%')
            else:
                out.append(p)
        if k != len(args):
            raise TypeError('not all arguments converted during string formatting')
        return text_of(out)
    from .models import realise_deep
    return fmt % tuple(realise_deep(a) for a in args)


def str_format(fmt, args, kwargs):
    import string
    from .models import sx_str, sx_repr
    out = []
    auto = 0
    fm = string.Formatter()
    for lit, field, spec, conv in fm.parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = fm.get_field(field, args, kwargs)
        if conv == 'r':
            obj = sx_repr(obj)
        elif conv == 's':
            obj = sx_str(obj)
        if spec:
            obj = format(to_native(obj), spec)
        out.append(sx_str(obj))
    return text_of(out)


class SymBytes(object):
    """The result of encoding a symbolic string; only decode() and equality are modelled"""
    __slots__ = ('s', 'codec')

    def __init__(self, s, codec):
        self.s = s
        self.codec = codec

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        if enc == self.codec or (enc in ('utf8', 'ascii', 'latin1') and self.codec == 'ascii'):
            return mk(chars_of(self.s))
        return self.native().decode(encoding, errors)

    def native(self):
        return to_native(self.s).encode(self.codec)

    def __eq__(self, o):
        if isinstance(o, SymBytes) and o.codec == self.codec:
            return mkbool(eq_formula(self.s, o.s))
        return self.native() == (o.native() if isinstance(o, SymBytes) else o)

    def __len__(self):
        return len(self.native())

    def __hash__(self):
        return hash(self.native())


def sym_encode(s, encoding, errors):
    enc = encoding.lower().replace('-', '').replace('_', '')
    if enc in ('utf8', 'ascii'):
        if enc == 'utf8':
            if any(type(c) is str and '\ud800' <= c <= '\udfff' for c in s.c):
                return s.realise().encode(encoding, errors)
            return SymBytes(s, 'utf8')
        if errors == 'ignore':
            def keep(ch):
                return ch.encode('ascii', 'ignore').decode('ascii')
            return SymBytes(s._map('ascii-ignore', keep), 'ascii')
    return s.realise().encode(encoding, errors)

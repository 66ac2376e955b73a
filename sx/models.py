"""
What instrumented code calls instead of the C level of CPython: symbolic-aware dicts and sets, and
call() which stands for every call expression. Anything that has no model realises its symbolic
arguments, which forks over all of their feasible values and so loses no behaviour.
"""
import builtins
import collections
import csv as _csv_mod
import functools
import io
import itertools
import json as _json
import sys
import re
import operator
import types
import unicodedata

__sx_internal__ = True

from .core import Engine, SymBool, mkbool, f_and, f_or, f_not, Abort
from .symstr import (SymStr, SymBytes, LazyText, text_of, mk, chars_of, eq_formula, contains_formula, join, percent_format, str_format,
                     to_sym, to_native, char_in, char_eq, map_char, B)


# ---------------------------------------------------------------------------------------
# dict and set
# ---------------------------------------------------------------------------------------

class SymKey(object):
    """A symbolic string in a dict or set. Identity hash"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


def _unwrap(k):
    return k.s if type(k) is SymKey else k


def _has_sym(k):
    """Is a hashable key (or tuple key) symbolic?"""
    if type(k) is SymStr:
        return True
    if type(k) is tuple:
        for e in k:
            if _has_sym(e):
                return True
    return False


def _refresh(k):
    """A symbolic string all of whose characters are determined by now is a native one"""
    if type(k) is SymStr:
        return mk(k.c)
    if type(k) is LazyText:
        return k.realise()
    return k


class SymDict(dict):
    __slots__ = ('ordered', 'default_factory', 'nsym')

    def __new__(cls, *a, **k):
        self = dict.__new__(cls)
        self.ordered = False
        self.default_factory = None
        self.nsym = 0
        return self

    def __init__(self, *a, **k):
        if a or k:
            self.update(*a, **k)

    def _find(self, k):
        """The stored key equal to k, or None"""
        k = _refresh(k)
        if type(k) is SymStr:
            n = len(k.c)
            for q in dict.keys(self):
                if type(q) is SymKey:
                    if len(q.s.c) == n and B(eq_formula(q.s, k)):
                        return (q,)
                elif type(q) is str and len(q) == n:
                    if B(eq_formula(k, q)):
                        return (q,)
            return None
        if type(k) is tuple and _has_sym(k):
            k = realise_deep(k)
        if dict.__contains__(self, k):
            return (k,)
        if self.nsym and isinstance(k, str):
            for q in dict.keys(self):
                if type(q) is SymKey and len(q.s.c) == len(k) and B(eq_formula(q.s, k)):
                    return (q,)
        return None

    def __getitem__(self, k):
        if not self.nsym and type(k) is str:
            try:
                return dict.__getitem__(self, k)
            except KeyError:
                return self.__missing__(k)
        q = self._find(k)
        if q is None:
            return self.__missing__(k)
        return dict.__getitem__(self, q[0])

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = call(self.default_factory)
        self[k] = v
        return v

    def __setitem__(self, k, v):
        if not self.nsym and type(k) is str:
            dict.__setitem__(self, k, v)
            return
        q = self._find(k)
        if q is not None:
            dict.__setitem__(self, q[0], v)
            return
        k = _refresh(k)
        if type(k) is SymStr:
            dict.__setitem__(self, SymKey(k), v)
            self.nsym += 1
        else:
            if type(k) is tuple and _has_sym(k):
                k = realise_deep(k)
            dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        if type(q[0]) is SymKey:
            self.nsym -= 1
        dict.__delitem__(self, q[0])

    def __contains__(self, k):
        if not self.nsym and type(k) is str:
            return dict.__contains__(self, k)
        return self._find(k) is not None

    def get(self, k, default=None):
        if not self.nsym and type(k) is str:
            return dict.get(self, k, default)
        q = self._find(k)
        if q is None:
            return default
        return dict.__getitem__(self, q[0])

    _nothing = object()

    def pop(self, k, default=_nothing):
        q = self._find(k)
        if q is None:
            if default is SymDict._nothing:
                raise KeyError(k)
            return default
        v = dict.__getitem__(self, q[0])
        if type(q[0]) is SymKey:
            self.nsym -= 1
        dict.__delitem__(self, q[0])
        return v

    def popitem(self, last=True):
        ks = list(dict.keys(self))
        if not ks:
            raise KeyError('popitem(): dictionary is empty')
        k = ks[-1] if last else ks[0]
        v = dict.__getitem__(self, k)
        if type(k) is SymKey:
            self.nsym -= 1
        dict.__delitem__(self, k)
        return (_unwrap(k), v)

    def move_to_end(self, k, last=True):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        items = [(a, b) for a, b in dict.items(self) if a is not q[0] and a != q[0]]
        me = (q[0], dict.__getitem__(self, q[0]))
        items = items + [me] if last else [me] + items
        dict.clear(self)
        for a, b in items:
            dict.__setitem__(self, a, b)

    def setdefault(self, k, default=None):
        q = self._find(k)
        if q is None:
            self[k] = default
            return default
        return dict.__getitem__(self, q[0])

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                if isinstance(o, dict):
                    for x, y in list(o.items()):
                        self[x] = y
                else:
                    for x in list(o.keys()):
                        self[x] = o[x]
            else:
                for x, y in o:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def clear(self):
        dict.clear(self)
        self.nsym = 0

    def keys(self):
        if not self.nsym:
            return dict.keys(self)
        return SymKeysView(self)

    def __iter__(self):
        if not self.nsym:
            return dict.__iter__(self)
        return iter([_unwrap(k) for k in dict.keys(self)])

    def __reversed__(self):
        return iter([_unwrap(k) for k in reversed(list(dict.keys(self)))])

    def items(self):
        if not self.nsym:
            return dict.items(self)
        return [(_unwrap(k), v) for k, v in dict.items(self)]

    def copy(self):
        d = SymDict()
        d.ordered = self.ordered
        d.default_factory = self.default_factory
        for k, v in dict.items(self):
            dict.__setitem__(d, k, v)
        d.nsym = self.nsym
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = SymDict()
        d.ordered = self.ordered
        d.default_factory = self.default_factory
        memo[id(self)] = d
        for k, v in dict.items(self):
            dict.__setitem__(d, k, copy.deepcopy(v, memo))
        d.nsym = self.nsym
        return d

    def __reduce__(self):
        return (dict, (dict(realise_deep(self)),))

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        if getattr(self, 'ordered', False) and (getattr(o, 'ordered', False)
                                                or isinstance(o, collections.OrderedDict)):
            return list(self.items()) == list(o.items())
        o2 = o if type(o) is SymDict else SymDict(o)
        for k, v in self.items():
            q = o2._find(k)
            if q is None:
                return False
            if not (dict.__getitem__(o2, q[0]) == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return repr(realise_deep(self))

    __class__ = property(lambda self: collections.OrderedDict if self.ordered else
                         (collections.defaultdict if self.default_factory is not None else dict))


class SymKeysView(list):
    def __init__(self, d):
        list.__init__(self, [_unwrap(k) for k in dict.keys(d)])
        self.d = d

    def __contains__(self, k):
        return self.d._find(k) is not None

    def __sub__(self, o):
        return mkset(self) - mkset(o)

    def __and__(self, o):
        return mkset(self) & mkset(o)

    def __or__(self, o):
        return mkset(self) | mkset(o)


def mkdict(*parts):
    """Dict display. parts: ('i', k, v) or ('u', mapping)"""
    d = SymDict()
    for p in parts:
        if p[0] == 'i':
            d[p[1]] = p[2]
        else:
            d.update(p[1])
    return d


def mkdict_comp(pairs):
    d = SymDict()
    for k, v in pairs:
        d[k] = v
    return d


class SymSet(collections.abc.MutableSet):
    """Insertion ordered set of values, some of them symbolic strings"""
    __slots__ = ('d', 'frozen')

    __class__ = property(lambda self: frozenset if self.frozen else set)

    def __init__(self, it=(), frozen=False):
        self.d = SymDict()
        self.frozen = frozen
        for x in it:
            self.d[x] = True

    @classmethod
    def _from_iterable(cls, it):
        return SymSet(it)

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __hash__(self):
        return hash(frozenset(realise_deep(list(self))))

    def add(self, x):
        self.d[x] = True

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.pop(x)

    def pop(self):
        return self.d.popitem()[0]

    def copy(self):
        return SymSet(self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        s = SymSet(self)
        s.update(*its)
        return s

    def intersection(self, *its):
        s = self
        for it in its:
            o = mkset(it)
            s = SymSet(x for x in s if x in o)
        return SymSet(s)

    def difference(self, *its):
        s = self
        for it in its:
            o = mkset(it)
            s = SymSet(x for x in s if x not in o)
        return SymSet(s)

    def symmetric_difference(self, it):
        o = mkset(it)
        return SymSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        keep = self.intersection(*its)
        for x in list(self):
            if x not in keep:
                self.discard(x)

    def issubset(self, it):
        o = mkset(it)
        return all(x in o for x in self)

    def issuperset(self, it):
        return all(x in self for x in it)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return mkset(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return repr(set(realise_deep(list(self))))


def mkset(it=()):
    if type(it) is SymSet:
        return it
    return SymSet(it)


# ---------------------------------------------------------------------------------------
# realisation
# ---------------------------------------------------------------------------------------

def has_symbolic(x, depth=4):
    t = type(x)
    if t is SymStr or t is SymBytes or t is LazyText:
        return True
    if t is SymBool or t.__name__ == 'SymInt':
        return True
    if depth:
        if t is list or t is tuple or t is SymKeysView:
            for e in x:
                if has_symbolic(e, depth - 1):
                    return True
        elif t is SymDict:
            if x.nsym:
                return True
            for e in dict.values(x):
                if has_symbolic(e, depth - 1):
                    return True
        elif t is dict:
            for e in x.values():
                if has_symbolic(e, depth - 1):
                    return True
        elif t is SymSet:
            return has_symbolic(x.d, depth - 1)
        elif t is SymStringIO:
            return True
    return False


def realise_deep(x):
    """Replace everything symbolic in a structure of builtin containers by native values"""
    t = type(x)
    if t is SymStr or t is LazyText:
        return x.realise()
    if t is SymBool:
        return bool(x)
    if t is SymBytes:
        return x.native()
    if t.__name__ == 'SymInt':
        return x.realise()
    if t is SymDict:
        if x.default_factory is not None:
            d = collections.defaultdict(x.default_factory)
        else:
            d = collections.OrderedDict() if x.ordered else {}
        for k, v in list(x.items()):
            d[realise_deep(k)] = realise_deep(v)
        return d
    if t is dict:
        return {realise_deep(k): realise_deep(v) for k, v in x.items()}
    if t is list:
        return [realise_deep(e) for e in x]
    if t is tuple:
        return tuple(realise_deep(e) for e in x)
    if t is SymSet:
        s = set(realise_deep(e) for e in x)
        return frozenset(s) if x.frozen else s
    if t is SymKeysView:
        return [realise_deep(e) for e in x]
    return x


# ---------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------

def sx_str(x='', *a, **k):
    t = type(x)
    if t is str:
        return x
    if t is SymStr:
        return mk(x.c)
    if t is LazyText:
        return x
    if t is SymBool:
        return str(bool(x))
    if t is SymBytes:
        return x.decode(*a, **k)
    if t.__name__ == 'SymInt':
        return x.to_str()
    if a or k:
        return str(realise_deep(x), *a, **k)
    if isinstance(x, BaseException):
        if type(x).__str__ is BaseException.__str__ or type(x).__str__ is Exception.__str__:
            if len(x.args) == 0:
                return ''
            if len(x.args) == 1:
                return sx_str(x.args[0])
        return str(x)
    m = t.__str__
    if isinstance(m, types.FunctionType):
        return m(x)
    m2 = t.__repr__
    if m is object.__str__ and isinstance(m2, types.FunctionType) and _instrumented(m2):
        return m2(x)
    if t in (list, tuple, dict, SymDict, SymSet, SymKeysView) and has_symbolic(x):
        return LazyText([lambda: str(realise_deep(x))])
    return str(x)


def sx_repr(x):
    t = type(x)
    if t is SymStr or t is LazyText:
        return LazyText([lambda: repr(x.realise())])
    m = t.__repr__
    if isinstance(m, types.FunctionType) and _instrumented(m):
        return m(x)
    if has_symbolic(x):
        return LazyText([lambda: repr(realise_deep(x))])
    return repr(x)


def sx_format(x, spec=''):
    """One replacement field of an f-string, after conversion"""
    if spec == '':
        t = type(x)
        if t is SymStr or t is LazyText:
            return x
        if t.__format__ is object.__format__ or t is str or t.__name__ == 'SymInt':
            return sx_str(x)
        return format(realise_deep(x), '')
    return format(realise_deep(x), realise_deep(spec))


def sx_fstring(*parts):
    return text_of(list(parts))


def sx_int(*a, **k):
    if a and type(a[0]) is SymStr and len(a) == 1 and not k:
        from .symint import int_of_str
        return int_of_str(a[0])
    if a and type(a[0]).__name__ == 'SymInt':
        return a[0]
    return int(*realise_deep(a), **k)


def sx_float(*a):
    if a and type(a[0]) is SymStr:
        s = a[0].strip()
        for i, c in enumerate(chars_of(s)):
            if not B(char_in(c, 'floatchar', lambda ch: ch.isdecimal() or ch in '+-._eEinfatyINFATY')):
                raise ValueError('could not convert string to float')
        return float(to_native(s))
    if a and type(a[0]).__name__ == 'SymInt':
        return a[0]
    return float(*realise_deep(a))


def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymStr or t is LazyText:
            return str
        if t is SymBool:
            return bool
        if t is SymDict or t is SymSet:
            return a[0].__class__
        if t.__name__ == 'SymInt':
            return int
        return t
    return type(*a)


def sx_dict(*a, **k):
    d = SymDict()
    d.update(*a, **k)
    return d


def sx_odict(*a, **k):
    d = SymDict()
    d.ordered = True
    d.update(*a, **k)
    return d


def sx_defaultdict(factory=None, *a, **k):
    d = SymDict()
    d.default_factory = factory
    d.update(*a, **k)
    return d


def sx_frozenset(it=()):
    return SymSet(it, frozen=True)


def sx_set(it=()):
    return SymSet(it)


def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
    f = sys.stdout if file is None else file
    if isinstance(f, SymStringIO):  # see cli.py
        f.write(join(' ' if sep is None else sep, [sx_str(x) for x in a]))
        f.write('\n' if end is None else end)
    return None


def sx_json_dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None,
                  separators=None, default=None, sort_keys=False, **kw):
    if not has_symbolic(obj, 20) or cls or default or kw or sort_keys:
        return _json.dumps(realise_deep(obj), skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular,
                           allow_nan=allow_nan, cls=cls, indent=indent, separators=separators, default=default,
                           sort_keys=sort_keys, **kw)
    enc = _json.encoder.encode_basestring_ascii if ensure_ascii else _json.encoder.encode_basestring
    isep, ksep = separators or ((',', ': ') if indent is not None else (', ', ': '))
    tab = ' ' * indent if isinstance(indent, int) else indent

    def text(s):
        if type(s) is SymStr:
            return chars_of('"') + chars_of(s._map('json%d' % ensure_ascii, lambda ch: enc(ch)[1:-1])) + chars_of('"')
        return list(_json.dumps(s, ensure_ascii=ensure_ascii, allow_nan=allow_nan))

    def block(parts, o, c, level):
        if not parts:
            return list(o + c)
        nl = '' if tab is None else '\n' + tab * (level + 1)
        out = list(o + nl)
        for i, p in enumerate(parts):
            if i:
                out += list(isep + nl)
            out += p
        return out + list(('' if tab is None else '\n' + tab * level) + c)

    def conv(x, level):
        if isinstance(x, dict):
            return block([text(k if isinstance(k, str) else _json.dumps(k)) + list(ksep) + conv(v, level + 1) for k, v in x.items()],
                         '{', '}', level)
        if isinstance(x, (list, tuple)):
            return block([conv(v, level + 1) for v in x], '[', ']', level)
        if isinstance(x, str) or x is None or isinstance(x, (bool, int, float)):
            return text(x)
        raise TypeError('Object of type {} is not JSON serializable'.format(type(x).__name__))

    return mk(conv(obj, 0))


def sx_json_dump(obj, fp, **k):
    fp.write(sx_json_dumps(obj, **k))


def sx_hash(x):
    return hash(x)


def sx_len(x):
    return len(x)


def sx_isinstance(x, t):
    return isinstance(x, t)


def wrapcb(f):
    """Callables handed to C level functions"""
    if f is None or isinstance(f, (types.FunctionType, types.MethodType, types.LambdaType)):
        return f
    return lambda *a, **k: call(f, *a, **k)


def sx_map(f, *its):
    return map(wrapcb(f), *its)


def sx_filter(f, it):
    return filter(wrapcb(f), it)


def sx_filterfalse(f, it):
    return itertools.filterfalse(wrapcb(f), it)


def sx_takewhile(f, it):
    return itertools.takewhile(wrapcb(f), it)


def sx_dropwhile(f, it):
    return itertools.dropwhile(wrapcb(f), it)


def sx_starmap(f, it):
    return itertools.starmap(wrapcb(f), it)


def sx_methodcaller(name, /, *a, **k):
    return lambda o: call(getattr(o, name), *a, **k)


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrapcb(key), reverse=reverse)


def sx_min(*a, **k):
    if k.get('key') is not None:
        k['key'] = wrapcb(k['key'])
    return min(*a, **k)


def sx_max(*a, **k):
    if k.get('key') is not None:
        k['key'] = wrapcb(k['key'])
    return max(*a, **k)


def sx_reduce(f, *a):
    return functools.reduce(wrapcb(f), *a)


def sx_groupby(it, key=None):
    return itertools.groupby(it, wrapcb(key))


def sx_getattr(o, name, *d):
    return getattr(o, to_native(name), *d)


def sx_setattr(o, name, v):
    return setattr(o, to_native(name), v)


def sx_hasattr(o, name):
    return hasattr(o, to_native(name))


def sx_normalize(form, s):
    if type(s) is not SymStr:
        return unicodedata.normalize(form, s)
    # Exact for alphabets without combining characters (checked when alphabets are made)
    return s._map('nf' + form, lambda ch: unicodedata.normalize(form, ch))


def sx_open(f, *a, **k):
    if type(f) is SymStr:
        # Symbolic text is not the name of an existing file (assumption, see envstub)
        raise FileNotFoundError('[Errno 2] No such file or directory')
    for hook in OPEN_HOOK:
        x = hook(f, *a, **k)
        if x is not None:
            return x
    return open(f, *a, **k)


OPEN_HOOK = []  # files with symbolic contents, see files.py


def sx_ord(c):
    return ord(to_native(c))


def sx_copy(x):
    import copy
    return copy.copy(x)


def sx_contains(item, container):
    """item in container"""
    t = type(container)
    if t is str and type(item) is SymStr:
        return mkbool(contains_formula(container, item))
    if t is SymStr:
        if not isinstance(item, str):
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(contains_formula(container, item))
    if type(item) is SymStr:
        if t in (set, frozenset, dict):
            return item in (SymSet(container) if t is not dict else SymDict(container))
        if t in (type({}.keys()),):
            return item in SymSet(container)
    return item in container


def sx_not_contains(item, container):
    r = sx_contains(item, container)
    if type(r) is SymBool:
        return mkbool(f_not(r.f))
    return not r


def sx_mod(a, b):
    if type(a) is str and has_symbolic(b):
        return percent_format(a, b)
    if type(a) is SymStr:
        return percent_format(a.realise(), b)
    return a % b


def sx_index(o, k):
    """o[k] for a native dict from outside and a symbolic key"""
    if type(k) is SymStr and type(o) is dict:
        return SymDict(o)[k]
    return o[k]


def sx_abort_guard(e):
    """First statement of handlers that would swallow path steering"""
    if isinstance(e, Abort):
        raise e


# ---------------------------------------------------------------------------------------
# io and csv
# ---------------------------------------------------------------------------------------

class SymStringIO(object):
    def __init__(self, initial_value='', newline='\n'):
        self.parts = []
        self.newline = newline
        if initial_value:
            self.parts.extend(chars_of(initial_value))
        self.pos = 0

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('string argument expected')
        cs = chars_of(s)
        if self.newline is None:
            cs = _universal(cs)
        elif self.newline not in ('', '\n'):
            out = []
            for c in cs:
                if B(char_eq(c, '\n')):
                    out.extend(self.newline)
                else:
                    out.append(c)
            cs = out
        self.parts.extend(cs)
        self.pos = len(self.parts)
        return len(s)

    def getvalue(self):
        return mk(self.parts)

    def read(self, *a):
        s = mk(self.parts[self.pos:])
        self.pos = len(self.parts)
        return s

    def seek(self, n, *a):
        self.pos = n
        return n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __iter__(self):
        cur = []
        for c in self.parts[self.pos:]:
            cur.append(c)
            if B(char_eq(c, '\n')):
                yield mk(cur)
                cur = []
        if cur:
            yield mk(cur)


def _universal(cs):
    out = []
    i = 0
    while i < len(cs):
        c = cs[i]
        if B(char_eq(c, '\r')):
            out.append('\n')
            if i + 1 < len(cs) and B(char_eq(cs[i + 1], '\n')):
                i += 1
        else:
            out.append(c)
        i += 1
    return out


def sx_stringio(initial_value='', newline='\n'):
    return SymStringIO(initial_value, newline)


class SymCsvWriter(object):
    """csv.writer: delimiter, quotechar, quoting=QUOTE_MINIMAL or QUOTE_ALL, doublequote, lineterminator"""

    def __init__(self, f, dialect='excel', **fmt):
        self.f = f
        d = _csv_mod.get_dialect(dialect) if isinstance(dialect, str) else dialect
        g = lambda n: fmt.get(n, getattr(d, n))
        self.delim, self.quote, self.quoting = g('delimiter'), g('quotechar'), g('quoting')
        self.double, self.term, self.esc = g('doublequote'), g('lineterminator'), g('escapechar')
        self.simple = self.quoting in (_csv_mod.QUOTE_MINIMAL, _csv_mod.QUOTE_ALL) and self.double \
            and self.esc is None and isinstance(f, SymStringIO)
        self.fmt = fmt
        self.dialect = dialect

    def writerow(self, row):
        row = list(row)
        if not self.simple:
            s = io.StringIO(newline='')
            _csv_mod.writer(s, self.dialect, **self.fmt).writerow(realise_deep(row))
            return self.f.write(s.getvalue())
        out = []
        special = self.delim + self.quote + '\r\n' + self.term
        for i, v in enumerate(row):
            if i:
                out.append(self.delim)
            if v is None:
                cs = []
            elif isinstance(v, float):
                cs = list(repr(v))
            else:
                cs = chars_of(sx_str(v))
            need = self.quoting == _csv_mod.QUOTE_ALL
            if not need:
                need = B(f_or([char_in(c, ('csvspecial', special), special.__contains__) for c in cs]))
            if not need and not cs and len(row) == 1:
                need = True
            if need:
                out.append(self.quote)
                for c in cs:
                    if B(char_eq(c, self.quote)):
                        out.append(self.quote)
                        out.append(self.quote)
                    else:
                        out.append(c)
                out.append(self.quote)
            else:
                out.extend(cs)
        out.extend(self.term)
        return self.f.write(mk(out))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class SymCsvReader(object):
    """csv.reader for the excel dialect, over an iterable of lines or a SymStringIO"""

    def __init__(self, f, dialect='excel', **fmt):
        self.f = f
        d = _csv_mod.get_dialect(dialect) if isinstance(dialect, str) else dialect
        self.delim = fmt.get('delimiter', d.delimiter)
        self.quote = fmt.get('quotechar', d.quotechar)
        self.fmt = fmt

    def __iter__(self):
        row, field, state, seen = [], [], 'start', False
        for line in self.f:
            cs = chars_of(line)
            i = 0
            for c in cs:
                if state == 'eatnl':
                    if B(char_in(c, 'crlf', '\r\n'.__contains__)):
                        continue
                    raise _csv_mod.Error('new-line character seen in unquoted field')
                if state == 'inq':
                    if B(char_eq(c, self.quote)):
                        state = 'qinq'
                    else:
                        field.append(c)
                    continue
                if state == 'qinq':
                    if B(char_eq(c, self.quote)):
                        field.append(self.quote)
                        state = 'inq'
                        continue
                    # falls through to the field separators
                    if B(char_eq(c, self.delim)):
                        row.append(mk(field))
                        field = []
                        state = 'startfield'
                    elif B(char_in(c, 'crlf', '\r\n'.__contains__)):
                        row.append(mk(field))
                        field = []
                        state = 'eatnl'
                    else:
                        field.append(c)
                        state = 'infield'
                    continue
                if state in ('start', 'startfield'):
                    if B(char_in(c, 'crlf', '\r\n'.__contains__)):
                        if state == 'startfield':
                            row.append('')
                        state = 'eatnl'
                    elif B(char_eq(c, self.quote)):
                        state = 'inq'
                    elif B(char_eq(c, self.delim)):
                        row.append('')
                        state = 'startfield'
                    else:
                        field.append(c)
                        state = 'infield'
                    continue
                if state == 'infield':
                    if B(char_eq(c, self.delim)):
                        row.append(mk(field))
                        field = []
                        state = 'startfield'
                    elif B(char_in(c, 'crlf', '\r\n'.__contains__)):
                        row.append(mk(field))
                        field = []
                        state = 'eatnl'
                    else:
                        field.append(c)
            # end of a line
            if state == 'inq':
                continue
            if state in ('infield', 'qinq'):
                row.append(mk(field))
            elif state == 'startfield':
                row.append('')
            yield row
            row, field, state = [], [], 'start'
        if state == 'inq' or field:
            row.append(mk(field))
            yield row


def sx_csv_writer(f, *a, **k):
    if isinstance(f, SymStringIO) or hasattr(f, 'chars'):
        return SymCsvWriter(f, *a, **k)
    return _csv_mod.writer(f, *a, **k)


def sx_csv_reader(f, *a, **k):
    return SymCsvReader(f, *a, **k)


# ---------------------------------------------------------------------------------------
# call
# ---------------------------------------------------------------------------------------

def _internal(f):
    g = getattr(f, '__globals__', None)
    return g is not None and '__sx_internal__' in g


def _instrumented(f):
    g = getattr(f, '__globals__', None)
    return g is not None and '__sx_call__' in g


class SymGetCwd(object):
    pass


MODELS = {
    str: sx_str, int: sx_int, float: sx_float, type: sx_type, dict: sx_dict, set: sx_set,
    frozenset: sx_frozenset, collections.OrderedDict: sx_odict, collections.defaultdict: sx_defaultdict,
    print: sx_print, repr: sx_repr, map: sx_map, filter: sx_filter, sorted: sx_sorted, min: sx_min, max: sx_max,
    functools.reduce: sx_reduce, itertools.groupby: sx_groupby, getattr: sx_getattr, setattr: sx_setattr,
    itertools.filterfalse: sx_filterfalse, itertools.takewhile: sx_takewhile, itertools.dropwhile: sx_dropwhile,
    itertools.starmap: sx_starmap, operator.methodcaller: sx_methodcaller,
    hasattr: sx_hasattr, unicodedata.normalize: sx_normalize, ord: sx_ord, io.StringIO: sx_stringio,
    _json.dumps: sx_json_dumps, _json.dump: sx_json_dump, _csv_mod.writer: sx_csv_writer, _csv_mod.reader: sx_csv_reader, open: sx_open,
}

# C level callables that only move references around, or that go through Python level protocols of their arguments
TRANSPARENT = {
    isinstance, issubclass, len, list, tuple, bool, enumerate, zip, reversed, range, iter, next, any, all, id,
    callable, object, super, property, classmethod, staticmethod, sum, slice, hash, vars, dir,
    object.__setattr__, object.__getattribute__, object.__new__, object.__init__, BaseException.__init__,
    Exception.__init__,
    itertools.chain, itertools.chain.from_iterable, itertools.islice, itertools.compress, itertools.pairwise,
    itertools.product, itertools.repeat, itertools.tee, itertools.zip_longest, itertools.count, itertools.cycle,
    functools.partial, functools.lru_cache, functools.wraps, collections.deque, collections.namedtuple,
    types.SimpleNamespace, collections.ChainMap,
}

_PATTERN = type(re.compile('x'))
_BUILTIN_METHOD = type(re.compile('x').sub)  # C methods with a defining class have a type of their own
_RE_FUNCS = {re.match: 'match', re.search: 'search', re.fullmatch: 'fullmatch', re.sub: 'sub', re.subn: 'subn',
             re.split: 'split', re.findall: 'findall', re.finditer: 'finditer'}

_CONTAINER_TYPES = (list, dict, set, frozenset, tuple, collections.deque, SymDict, SymSet, SymKeysView, type)

# Functions replaced by instrumented copies of their own source (os.path)
COPIES = {}

STRICT = False


def _anysym(a, k):
    for x in a:
        if has_symbolic(x):
            return True
    for x in k.values():
        if has_symbolic(x):
            return True
    return False


def call(f, /, *a, **k):
    t = type(f)

    if t is types.FunctionType:
        g = f.__globals__
        if '__sx_call__' in g or '__sx_internal__' in g:
            return f(*a, **k)
        c = COPIES.get(f)
        if c is not None:
            if _anysym(a, k):
                return c(*a, **k)
            return f(*a, **k)
        r = _RE_FUNCS.get(f)
        if r is not None:
            if _anysym(a, k):
                from .symre import re_call
                return re_call(r, *a, **k)
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if _anysym(a, k):
            return _foreign(f, a, k)
        return f(*a, **k)

    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType:
            g = fn.__globals__
            if '__sx_call__' in g or '__sx_internal__' in g:
                return f(*a, **k)
            if fn.__module__ == 'logging':
                return None
            if _anysym(a, k):
                s = f.__self__
                if type(s) in _CONTAINER_TYPES or type(s) in (SymStr, SymStringIO, SymCsvWriter):
                    return f(*a, **k)
                return _foreign(f, a, k)
        return f(*a, **k)

    if t is types.BuiltinFunctionType or t is types.MethodWrapperType or t is _BUILTIN_METHOD:
        s = getattr(f, '__self__', None)
        ts = type(s)
        if ts is str:
            n = f.__name__
            if n == 'join':
                it = a[0]
                if type(it) not in (list, tuple):
                    it = list(it)
                for x in it:
                    if type(x) is SymStr:
                        return join(s, it)
                return s.join(it)
            if n == 'format':
                if _format_native(a, k):
                    return f(*a, **k)
                return str_format(s, a, k)
            if _anysym(a, k):
                m = getattr(SymStr, n, None)
                if m is not None:
                    return m(SymStr(list(s)), *a, **k)
                return f(*realise_deep(a), **realise_deep(k))
            return f(*a, **k)
        if ts is _PATTERN:
            if _anysym(a, k):
                from .symre import re_call
                return re_call(f.__name__, s, *a, **k)
            return f(*a, **k)
        if ts in _CONTAINER_TYPES:
            if ts is list and f.__name__ == 'sort' and k.get('key') is not None:
                k['key'] = wrapcb(k['key'])
            if ts is type and s is collections.OrderedDict and f.__name__ == 'fromkeys':
                return sx_odict((x, a[1] if len(a) > 1 else None) for x in a[0])
            if ts is type and s is dict and f.__name__ == 'fromkeys':
                return mkdict_comp((x, a[1] if len(a) > 1 else None) for x in a[0])
            return f(*a, **k)
        if isinstance(s, BaseException):
            return f(*a, **k)
        if t is types.MethodWrapperType and f.__objclass__ is object:
            # super().__setattr__(name, value): the name is a native text, the value is only referred to
            if f.__name__ in ('__setattr__', '__getattribute__', '__delattr__') and a:
                return f(realise_deep(a[0]), *a[1:], **k)
            return f(*a, **k)
        m = _lookup(MODELS, f)
        if m is not None:
            return m(*a, **k)
        if _lookup_set(TRANSPARENT, f):
            return f(*a, **k)
        if _anysym(a, k):
            return _foreign(f, a, k)
        return f(*a, **k)

    if isinstance(f, type):
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if f in TRANSPARENT or issubclass(f, BaseException):
            return f(*a, **k)
        if getattr(f, '__module__', None) in INSTRUMENTED_MODULES or issubclass(f, tuple):
            return f(*a, **k)
        if _anysym(a, k):
            init = f.__init__
            if _instrumented(init) or _internal(init):
                return f(*a, **k)
            return _foreign(f, a, k)
        return f(*a, **k)

    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType or t is types.ClassMethodDescriptorType:
        # str.lower, list.append, object.__setattr__
        oc = f.__objclass__
        if oc is str and a:
            if _anysym(a, k):
                return getattr(to_sym(a[0]), f.__name__)(*a[1:], **k)
            return f(*a, **k)
        if oc is object or issubclass(oc, BaseException):
            return f(*a, **k)
        if oc is dict and a and type(a[0]) is SymDict:
            return getattr(SymDict, f.__name__)(*a, **k)
        if oc in _CONTAINER_TYPES or oc.__name__ in ('object',):
            return f(*a, **k)
        if _anysym(a, k):
            return _foreign(f, a, k)
        return f(*a, **k)

    if t is functools.partial:
        return call(f.func, *(f.args + a), **{**f.keywords, **k})

    if _lookup_set(TRANSPARENT, f):
        return f(*a, **k)

    # operator.itemgetter, lru_cache wrappers, instances with __call__
    return f(*a, **k)


def _format_native(a, k):
    for x in a:
        if type(x) not in (str, int, float, type(None), bool):
            return False
    for x in k.values():
        if type(x) not in (str, int, float, type(None), bool):
            return False
    return True


def _lookup(d, f):
    try:
        return d.get(f)
    except TypeError:
        return None


def _lookup_set(d, f):
    try:
        return f in d
    except TypeError:
        return False


INSTRUMENTED_MODULES = set()
FOREIGN_SEEN = {}


def _foreign(f, a, k):
    """A callable outside the encoding, with symbolic arguments"""
    n = getattr(f, '__module__', None), getattr(f, '__qualname__', repr(f))
    FOREIGN_SEEN[n] = FOREIGN_SEEN.get(n, 0) + 1
    return f(*realise_deep(a), **{x: realise_deep(y) for x, y in k.items()})


def kwdict(m):
    """** in a call: native string keys"""
    if type(m) is SymDict and m.nsym:
        return {realise_deep(x): y for x, y in m.items()}
    return m

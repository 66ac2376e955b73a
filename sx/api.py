"""What a harness sees. SymH during symbolic execution, ConcH when a recorded input is replayed on the real code"""
import json

__sx_internal__ = True


class Skip(BaseException):
    """Concrete: an assumption does not hold"""


class Failed(BaseException):
    """Concrete: the property is violated"""

    def __init__(self, label, detail=''):
        self.label = label
        self.detail = detail


class ConcH(object):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.completed = False
        self.observations = []
        self.asserted = 0

    def _input(self, name, default):
        # An input that the symbolic run did not get to: it ended in an exception that the real code does not raise.
        # Any value will do, what the run shows is then shown for that value
        if name not in self.inputs:
            self.inputs[name] = default
            self.completed = True
        return self.inputs[name]

    def str(self, name, n, alphabet):
        return self._input(name, '')

    def choose(self, name, n):
        return self._input(name, 0)

    def pick(self, name, values):
        return values[self._input(name, 0)]

    def flag(self, name):
        return bool(self._input(name, 0))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def prove(self, cond, label, detail=''):
        self.asserted += 1
        if not cond:
            raise Failed(label, _detail(detail))

    def fail(self, label, detail=''):
        self.asserted += 1
        raise Failed(label, _detail(detail))

    def observe(self, *x):
        self.observations.append(jsonable(x))

    def same(self, a, b):
        return same(a, b)

    def differs(self, a, b):
        return not same(a, b)

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def neg(self, c):
        return not c


def _detail(d):
    try:
        return json.dumps(jsonable(d() if callable(d) else d))[:2000]
    except Exception as e:  # a detail never decides anything
        return repr(e)


def jsonable(x):
    if isinstance(x, dict):
        return {'{}'.format(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(e) for e in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(e) for e in x), key=repr)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return '<{}>'.format(type(x).__name__)


def same(a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return False
        return True
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


class SymH(object):
    symbolic = True

    def __init__(self, engine):
        self.e = engine
        self.inputs = []  # (name, kind, value)
        self.observations = []

    def _name(self, name):
        assert name not in self.e.input_names, name
        self.e.input_names.add(name)

    def str(self, name, n, alphabet):
        from .symstr import SymChar, mk
        self._name(name)
        if isinstance(n, int):
            lo = hi = n
        else:
            lo, hi = n
        if hi > lo:
            L = lo + self._choose(('len', name), hi - lo + 1)
        else:
            L = lo
        cs = []
        for i in range(L):
            v = self.e.var(('ch', name, i), alphabet)
            cs.append(SymChar(v, v.values))
        s = mk(cs)
        self.inputs.append((name, 'str', s))
        return s

    def _choose(self, key, n):
        if n == 1:
            return 0
        v = self.e.var(key, tuple(range(n)))
        # balanced binary decision
        lo, hi = 0, n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            m = ((1 << mid) - 1)
            if self.e.branch(('in', v.vid, m)):
                hi = mid
            else:
                lo = mid
        return lo

    def choose(self, name, n):
        self._name(name)
        i = self._choose(('choose', name), n)
        self.inputs.append((name, 'int', i))
        return i

    def pick(self, name, values):
        self._name(name)
        i = self._choose(('choose', name), len(values))
        self.inputs.append((name, 'int', i))
        return values[i]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def assume(self, cond):
        self.e.assume(cond)

    def prove(self, cond, label, detail=''):
        self.e.prove(cond, label, detail)

    def fail(self, label, detail=''):
        self.e.prove(False, label, detail)

    def observe(self, *x):
        self.observations.append(force_lazy(x))

    def same(self, a, b):
        from .core import mkbool
        return mkbool(sym_same(a, b))

    def differs(self, a, b):
        from .core import mkbool, f_not
        return mkbool(f_not(sym_same(a, b)))

    def all(self, conds):
        from .core import mkbool, f_and, as_formula
        return mkbool(f_and([as_formula(c) for c in conds]))

    def any(self, conds):
        from .core import mkbool, f_or, as_formula
        return mkbool(f_or([as_formula(c) for c in conds]))

    def neg(self, c):
        from .core import mkbool, f_not, as_formula
        return mkbool(f_not(as_formula(c)))

    def concrete_inputs(self, model):
        out = {}
        for name, kind, v in self.inputs:
            out[name] = concretise(v, model)
        return out


def force_lazy(x):
    from .symstr import LazyText
    if type(x) is LazyText:
        return x.realise()
    if type(x) in (list, tuple):
        return [force_lazy(e) for e in x]
    return x


def sym_same(a, b):
    """Formula: deep equality. Shapes are concrete on a path, so only strings (and dict keys) contribute"""
    from .core import f_and, as_formula
    from .symstr import SymStr, eq_formula
    from .models import SymDict
    from .symint import SymInt
    if isinstance(a, str) and isinstance(b, str):
        return eq_formula(a, b)
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        fs = []
        bd = b if type(b) is SymDict else SymDict(b)
        for k, v in list(a.items()):
            q = bd._find(k)
            if q is None:
                return False
            fs.append(sym_same(v, dict.__getitem__(bd, q[0])))
        return f_and(fs)
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = sym_same(x, y)
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)
    if type(a) is SymInt or type(b) is SymInt:
        if not isinstance(a, int) or not isinstance(b, int):
            return False
        return as_formula(a == b)
    if isinstance(a, str) != isinstance(b, str):
        return False
    if type(a) != type(b):
        return False
    return as_formula(a == b)


def concretise(x, m):
    from .symstr import SymStr, SymBytes, LazyText
    from .models import SymDict, SymSet, SymKeysView
    from .core import SymBool, Engine
    from .symint import SymInt
    t = type(x)
    if t is SymStr:
        return ''.join(c if type(c) is str else c.t[m.get(c.v.vid, 0)] for c in x.c)
    if t is LazyText:
        return ''.join(concretise(p() if callable(p) else p, m) for p in x.parts) if x.v is None else x.v
    if t is SymBool:
        return Engine.active.evaluate(x.f, m)
    if t is SymInt:
        return x.ev(m)
    if t is SymBytes:
        return concretise(x.s, m)
    if t is SymDict or t is dict:
        return {concretise(k, m) if isinstance(k, str) else '{}'.format(k): concretise(v, m) for k, v in x.items()}
    if t is SymSet or isinstance(x, (set, frozenset)):
        return sorted((concretise(e, m) for e in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [concretise(e, m) for e in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return '<{}>'.format(t.__name__)

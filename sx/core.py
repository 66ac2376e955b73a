"""
Core of the symbolic executor: finite-alphabet character variables, formulas, the path
explorer and the Z3 back end.

Inputs are named symbolic variables.  A symbolic *character* ranges over an alphabet (a
tuple of up to 256 concrete characters); the Z3 variable is a bit-vector holding the index
into it.  Any per-character function (lower(), isspace(), NFKD...) is computed by CPython
itself on every member of the alphabet, so a mapped character is (variable, table) and a
test on it is a set of indices, handed to Z3 as range constraints.

Programs under test are executed for real; every time a symbolic truth value is needed,
Engine.branch() asks Z3 which outcomes are feasible under the path condition, follows one
and leaves the other on the work list.  All paths within the bounds are executed.
"""
import os
import sys
import time

for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)

import z3  # noqa: E402


class Abort(BaseException):
    """Path steering: never an error of the code under test"""


class PathAbort(Abort):
    """The path is infeasible (assumption is false)"""


class Violated(Abort):
    """An assertion of the property can be false on this path"""

    def __init__(self, label, detail=''):
        self.label = label
        self.detail = detail


class PathLimit(Abort):
    """The path made too many decisions"""


class Diverged(Exception):
    pass


# ---------------------------------------------------------------------------------------
# Formulas.  Tuples:  True/False | ('in', vid, mask) | ('eq', key1, key2, c1, c2)
#                     ('and', (..)) | ('or', (..)) | ('not', f) | ('z3', id)
# ---------------------------------------------------------------------------------------

def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    return ('not', f)


class Var(object):
    """A finite-domain symbolic variable: an index into `values`"""
    __slots__ = ('vid', 'name', 'values', 'full', 'expr')

    def __init__(self, vid, name, values, expr):
        self.vid = vid
        self.name = name
        self.values = values
        self.full = (1 << len(values)) - 1
        self.expr = expr


class IntVar(object):
    """A symbolic mathematical integer with bounds"""
    __slots__ = ('vid', 'name', 'lo', 'hi', 'expr')

    def __init__(self, vid, name, lo, hi, expr):
        self.vid, self.name, self.lo, self.hi, self.expr = vid, name, lo, hi, expr


_mask_cache = {}


def mask_for(table, pred_key, pred):
    """Bit mask of the indices for which pred(table[i])"""
    k = (table, pred_key)
    m = _mask_cache.get(k)
    if m is None:
        m = 0
        for i, c in enumerate(table):
            if pred(c):
                m |= 1 << i
        _mask_cache[k] = m
    return m


_inv_cache = {}


def inverse(table):
    """dict: output value -> mask of indices"""
    d = _inv_cache.get(table)
    if d is None:
        d = {}
        for i, c in enumerate(table):
            d[c] = d.get(c, 0) | (1 << i)
        _inv_cache[table] = d
    return d


def ranges(mask):
    out = []
    i = 0
    while mask:
        if mask & 1:
            j = i
            while mask & 1:
                mask >>= 1
                i += 1
            out.append((j, i - 1))
        else:
            tz = (mask & -mask).bit_length() - 1
            mask >>= tz
            i += tz
    return out


class Stats(object):
    FIELDS = ('paths', 'aborted', 'branches', 'queries', 'solver_s', 'assertions', 'trivial_assertions',
              'unsat', 'sat', 'unknown', 'limit_paths', 'realised')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


class Engine(object):

    active = None  # The engine executing the current path

    def __init__(self, max_decisions=4000, solver_timeout_ms=20000):
        self.stats = Stats()
        self.max_decisions = max_decisions
        self.solver = z3.SolverFor('QF_BV')
        self.int_mode = False
        self.solver_timeout_ms = solver_timeout_ms
        self.solver.set('timeout', solver_timeout_ms)
        self.solver_stack = []  # the decision prefix that is on the solver's stack, [(bit, added)]
        self.vars_by_name = {}
        self.vars = []
        self.z3cache = {}
        self.z3forms = {}
        self.functions = set()
        self.max_samples = 3
        self.reset_path(())

    # -- path state -------------------------------------------------------------------

    def reset_path(self, prefix, model=None):
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []  # alternatives discovered on this path
        self.domains = {}
        self.model = model  # Assignment (vid -> idx) satisfying the current path condition
        self.n_inputs = []
        self.input_names = set()
        self.fresh_n = 0
        self.pos = 0
        self.synced = True  # still replaying what the solver holds
        self.observations = []

    # -- variables --------------------------------------------------------------------

    def var(self, name, values):
        key = (name, values)
        v = self.vars_by_name.get(key)
        if v is None:
            vid = len(self.vars)
            e = z3.BitVec('v%d' % vid, 8)
            v = Var(vid, name, values, e)
            self.vars.append(v)
            self.vars_by_name[key] = v
            assert len(values) <= 256
        if v.vid not in self.domains:
            self.domains[v.vid] = v.full
            if self.model is not None:
                self.model.setdefault(v.vid, 0)
            if len(values) < 256:
                self._bound_var(v)
        return v

    def _bound_var(self, v):
        # Domain bound; asserted at the bottom of each path's stack through a pseudo decision, so that
        # the solver stack stays aligned with the decisions
        self._record(1, ('in', v.vid, v.full), True)

    # -- formulas to z3 ---------------------------------------------------------------

    def to_z3(self, f):
        if f is True:
            return z3.BoolVal(True)
        if f is False:
            return z3.BoolVal(False)
        r = self.z3cache.get(f)
        if r is not None:
            return r
        op = f[0]
        if op == 'in':
            e = self.vars[f[1]].expr
            n = len(self.vars[f[1]].values)
            parts = []
            for lo, hi in ranges(f[2]):
                if lo == hi:
                    parts.append(e == lo)
                else:
                    c = []
                    if lo > 0:
                        c.append(z3.UGE(e, lo))
                    if hi < 255:
                        c.append(z3.ULE(e, hi))
                    parts.append(z3.And(c) if c else z3.BoolVal(True))
            r = z3.Or(parts) if len(parts) != 1 else parts[0]
        elif op == 'and':
            r = z3.And([self.to_z3(x) for x in f[1]])
        elif op == 'or':
            r = z3.Or([self.to_z3(x) for x in f[1]])
        elif op == 'not':
            r = z3.Not(self.to_z3(f[1]))
        elif op == 'veq':  # two variables over the same alphabet, identity tables
            r = self.vars[f[1]].expr == self.vars[f[2]].expr
        elif op == 'z3':
            r = self.z3forms[f[1]][0]
        else:
            raise AssertionError(f)
        self.z3cache[f] = r
        return r

    def evaluate(self, f, m):
        """Evaluate a formula under an assignment"""
        if f is True or f is False:
            return f
        op = f[0]
        if op == 'in':
            return bool((f[2] >> m.get(f[1], 0)) & 1)
        if op == 'and':
            for x in f[1]:
                if not self.evaluate(x, m):
                    return False
            return True
        if op == 'or':
            for x in f[1]:
                if self.evaluate(x, m):
                    return True
            return False
        if op == 'not':
            return not self.evaluate(f[1], m)
        if op == 'veq':
            return m.get(f[1], 0) == m.get(f[2], 0)
        if op == 'z3':
            return self.z3forms[f[1]][1](m)
        raise AssertionError(f)

    def quick(self, f):
        """Three valued evaluation with the current domains: True, False or None"""
        if f is True or f is False:
            return f
        op = f[0]
        if op == 'in':
            d = self.domains.get(f[1])
            x = d & f[2]
            if x == 0:
                return False
            if x == d:
                return True
            return None
        if op == 'and':
            res = True
            for x in f[1]:
                q = self.quick(x)
                if q is False:
                    return False
                if q is None:
                    res = None
            return res
        if op == 'or':
            res = False
            for x in f[1]:
                q = self.quick(x)
                if q is True:
                    return True
                if q is None:
                    res = None
            return res
        if op == 'not':
            q = self.quick(f[1])
            return None if q is None else (not q)
        if op == 'veq':
            a, b = self.domains[f[1]], self.domains[f[2]]
            if a & b == 0:
                return False
            if a == b and a & (a - 1) == 0:
                return True
            return None
        return None

    def narrow(self, f):
        """Update the domains, knowing that f holds"""
        if f is True:
            return
        op = f[0]
        if op == 'in':
            self.domains[f[1]] &= f[2]
        elif op == 'and':
            for x in f[1]:
                self.narrow(x)
        elif op == 'not':
            g = f[1]
            if g[0] == 'in':
                v = self.vars[g[1]]
                self.domains[g[1]] &= v.full & ~g[2]
            elif g[0] == 'or':
                for x in g[1]:
                    self.narrow(f_not(x))
        elif op == 'veq':
            d = self.domains[f[1]] & self.domains[f[2]]
            self.domains[f[1]] = d
            self.domains[f[2]] = d

    # -- solver -----------------------------------------------------------------------

    def _record(self, bit, f, add):
        """Record decision number self.pos; put its constraint on the solver stack if it is not there"""
        pos = self.pos
        self.pos += 1
        self.decisions.append((bit, add))
        self.narrow(f)  # Forced outcomes are implied by the path condition, so they narrow too
        if self.synced and pos < len(self.solver_stack):
            if self.solver_stack[pos] == (bit, add, f):
                return
            # Diverges from what the solver holds
            n = 0
            for e in self.solver_stack[pos:]:
                if e[1]:
                    n += 1
            if n:
                self.solver.pop(n)
            del self.solver_stack[pos:]
            self.synced = False
        self.solver_stack.append((bit, add, f))
        if add:
            self.solver.push()
            self.solver.add(self.to_z3(f))

    def check(self, extra):
        """Is the path condition and `extra` satisfiable? Returns an assignment or None"""
        self.sync()
        t = time.perf_counter()
        self.stats.queries += 1
        if extra is True:
            r = self.solver.check()
        else:
            e = self.to_z3(extra)
            self.solver.push()
            self.solver.add(e)
            r = self.solver.check()
        res = None
        if r == z3.sat:
            self.stats.sat += 1
            m = self.solver.model()
            res = {}
            for d in m.decls():
                n = d.name()
                if n[0] == 'v':
                    res[int(n[1:])] = m[d].as_long()
            # Variables Z3 left out are unconstrained
            for vid in self.domains:
                if vid not in res:
                    res[vid] = 0 if not self.vars[vid].__class__ is IntVar else 0
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        if extra is not True:
            self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise PathLimit('solver returned unknown')
        return res

    def sync(self):
        """Drop from the solver what does not belong to the current path"""
        if len(self.solver_stack) > self.pos:
            n = sum(1 for e in self.solver_stack[self.pos:] if e[1])
            if n:
                self.solver.pop(n)
            del self.solver_stack[self.pos:]
        self.synced = False

    def get_model(self):
        if self.model is None:
            self.model = self.check(True)
            if self.model is None:
                raise PathAbort()
        return self.model

    def branch(self, f):
        """Decide a symbolic truth value"""
        if f is True or f is False:
            return f

        pos = self.pos
        if pos < len(self.prefix):
            bit, add = self.prefix[pos]
            self._record(bit, (f if bit else f_not(f)), add)
            return bool(bit)

        if pos > self.max_decisions:
            self.stats.limit_paths += 1
            raise PathLimit('too many decisions')

        q = self.quick(f)
        if q is not None:
            self._record(1 if q else 0, (f if q else f_not(f)), False)
            return q

        m = self.get_model()
        side = self.evaluate(f, m)
        other = f_not(f) if side else f
        self.stats.branches += 1
        om = self.check(other)
        if om is None:
            self._record(1 if side else 0, f if side else f_not(f), False)
            return side

        # Both are feasible. Follow the one the model takes; leave the other for later
        self.pending.append((self.decisions + [(0 if side else 1, True)], om))
        self._record(1 if side else 0, f if side else f_not(f), True)
        return side

    def assume(self, f):
        f = as_formula(f)
        if f is True:
            return
        if f is False:
            raise PathAbort()
        pos = self.pos
        if pos < len(self.prefix):
            bit, add = self.prefix[pos]
            self._record(bit, f, add)
            return
        q = self.quick(f)
        if q is True:
            self._record(1, f, False)
            return
        if q is False:
            raise PathAbort()
        m = self.model
        if m is None or not self.evaluate(f, m):
            m = self.check(f)
            if m is None:
                raise PathAbort()
            self.model = m
        self._record(1, f, True)

    def prove(self, f, label, detail=''):
        """The assertion of a property: no assignment satisfying the path condition makes f false"""
        f = as_formula(f)
        self.stats.assertions += 1
        if f is True:
            self.stats.trivial_assertions += 1
            return
        if f is not False:
            m = self.check(f_not(f))
            if m is None:
                return
            self.model = m
        else:
            self.get_model()
        raise Violated(label, detail)

    # -- integers ---------------------------------------------------------------------

    def z3form(self, key, expr, ev):
        if key not in self.z3forms:
            self.z3forms[key] = (expr, ev)
        return ('z3', key)


def as_formula(x):
    if x is True or x is False:
        return x
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        return x
    return bool(x)


class SymBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return Engine.active.branch(self.f)

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __and__(self, o):
        return mkbool(f_and([self.f, as_formula(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, as_formula(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    __class__ = property(lambda self: bool)


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)

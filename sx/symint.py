"""Symbolic integers: linear terms over bounded digits, as 32 bit vectors. Bounds are tracked so that nothing wraps"""
__sx_internal__ = True

import z3

from .core import Engine, mkbool, SymBool
from .symstr import SymStr, SymChar, mk, chars_of, char_in, B, to_native

W = 32
LIMIT = 2 ** 30
DIGITS = tuple('0123456789')


class SymInt(object):
    """expr: z3 bit-vector; ev(m): value under an assignment; key: hashable identity; lo, hi: bounds"""
    __slots__ = ('expr', 'ev', 'key', 'lo', 'hi')

    __class__ = property(lambda self: int)

    def __init__(self, expr, ev, key, lo, hi):
        if lo < -LIMIT or hi > LIMIT:
            raise OverflowError('symbolic integer out of the modelled range')
        self.expr, self.ev, self.key, self.lo, self.hi = expr, ev, key, lo, hi

    def __add__(self, o):
        if type(o) is SymInt:
            return SymInt(self.expr + o.expr, lambda m, a=self.ev, b=o.ev: a(m) + b(m), ('+', self.key, o.key),
                          self.lo + o.lo, self.hi + o.hi)
        if type(o) is int:
            return SymInt(self.expr + o, lambda m, a=self.ev: a(m) + o, ('+', self.key, o), self.lo + o, self.hi + o)
        if type(o) is float:
            return float(self.realise()) + o
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return SymInt(-self.expr, lambda m, a=self.ev: -a(m), ('-', self.key), -self.hi, -self.lo)

    def __sub__(self, o):
        if type(o) is SymInt:
            return self + (-o)
        if type(o) is int:
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is int:
            c = sorted((self.lo * o, self.hi * o))
            return SymInt(self.expr * o, lambda m, a=self.ev: a(m) * o, ('*', self.key, o), c[0], c[1])
        return self.realise() * o

    __rmul__ = __mul__

    def _form(self, op, o, mkz, pyop):
        if type(o) is SymInt:
            f = Engine.active.z3form((op, self.key, o.key), mkz(self.expr, o.expr),
                                     lambda m, a=self.ev, b=o.ev: pyop(a(m), b(m)))
            return SymBool(f)
        if type(o) in (int, bool):
            f = Engine.active.z3form((op, self.key, int(o)), mkz(self.expr, z3.BitVecVal(int(o), W)),
                                     lambda m, a=self.ev: pyop(a(m), int(o)))
            return SymBool(f)
        if type(o) is float:
            return pyop(self.realise(), o)
        return NotImplemented

    def __eq__(self, o):
        return self._form('==', o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._form('!=', o, lambda a, b: a != b, lambda a, b: a != b)

    def __lt__(self, o):
        return self._form('<', o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._form('<=', o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._form('>', o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._form('>=', o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.realise())

    def __index__(self):
        return self.realise()

    __int__ = __index__

    def __float__(self):
        return float(self.realise())

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        return self.realise() // o

    def __mod__(self, o):
        return self.realise() % o

    def __truediv__(self, o):
        return self.realise() / o

    def realise(self):
        """Bisection: the candidate values do not depend on models, so that replays take the same decisions"""
        lo, hi = self.lo, self.hi
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(self <= mid):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def to_str(self):
        """Decimal digits: fresh digit variables tied to the value by a linear equation"""
        e = Engine.active
        if self < 0:
            n, sign = -self, ['-']
        else:
            n, sign = self, []
        L = 1
        while n.hi >= 10 ** L and (n >= 10 ** L):
            L += 1
        chars = []
        total = None
        for i in range(L):
            nm = ('digit', self.key, bool(sign), L, i)
            v = e.var(nm, DIGITS)
            chars.append(SymChar(v, v.values))
            d = digit_value(chars[-1])
            total = d if total is None else total * 10 + d
        eq = (total == n)
        # Exactly one assignment of the digits satisfies this: it constrains nothing else
        e.assume(eq)
        return mk([*sign, *chars])

    def __str__(self):
        return to_native(self.to_str())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.realise(), spec)


def digit_value(c):
    """The integer value of a (symbolic) decimal digit character"""
    if type(c) is str:
        return int(c)
    import unicodedata
    vals = []
    for ch in c.t:
        try:
            vals.append(unicodedata.decimal(ch))
        except ValueError:
            vals.append(0)
    # identity table 0..9 in order: the index is the value
    if tuple(vals) == tuple(range(len(vals))):
        expr = z3.ZeroExt(W - 8, c.v.expr)
    else:
        expr = z3.BitVecVal(0, W)
        for i, x in enumerate(vals):
            if x:
                expr = z3.If(c.v.expr == i, z3.BitVecVal(x, W), expr)
    vid = c.v.vid
    vals = tuple(vals)
    return SymInt(expr, lambda m: vals[m.get(vid, 0)], ('d', vid, vals), 0, 9)


def int_of_str(s):
    """int(s), base 10"""
    t = s.strip()
    cs = list(chars_of(t))
    if not cs:
        raise ValueError("invalid literal for int() with base 10")
    neg = False
    if B(char_in(cs[0], 'sign', '+-'.__contains__)):
        neg = B(char_in(cs[0], 'minus', '-'.__contains__))
        cs = cs[1:]
    digits = []
    prev = False
    if not cs:
        raise ValueError("invalid literal for int() with base 10")
    for i, c in enumerate(cs):
        if B(char_in(c, 'isdecimal', str.isdecimal)):
            digits.append(c)
            prev = True
        elif prev and i + 1 < len(cs) and B(char_in(c, 'underscore', '_'.__contains__)):
            prev = False
        else:
            raise ValueError("invalid literal for int() with base 10: {}".format('<symbolic>'))
    if not prev:
        raise ValueError("invalid literal for int() with base 10")
    if len(digits) > 8:
        return int(('-' if neg else '') + to_native(mk(digits)))
    total = None
    for c in digits:
        d = digit_value(c)
        if total is None:
            total = d
        else:
            total = total * 10 + d
    if neg:
        total = -total
    return total

"""Concolic symbolic values over z3 bit-vectors, and the path recorder.

A run of the real code carries concrete values *and* symbolic terms.  Every
branch that depends on a symbolic value is recorded in the path condition
(`Engine.branches`), which the driver negates to reach every other path.  Every
obligation (`Engine.obligations`) is a term the solver has to show valid under
the path condition in force where it was stated.
"""
import z3


class PathAbort(BaseException):
    """The path cannot be followed (unsatisfiable assumption, step limit)."""


class Engine:
    def __init__(self):
        self.reset({})

    def reset(self, inputs):
        self.inputs = dict(inputs)      # name -> concrete value (int)
        self.vars = {}                  # name -> (term, lo, hi)
        self.branches = []              # (term that holds, kind)
        self.seen = {}                  # ast id -> truth, terms already on the path
        self.keep = []
        self.extra = []                 # domain constraints of declared inputs
        self.obligations = []           # (n branches in force, term, label, info)
        self.dom = {}                   # char variable id -> set of codes still possible
        self.concretized = 0
        self.aborted = None
        self.observed = []
        self.max_branches = 20000

    # -- variables ---------------------------------------------------------
    def new_int(self, name, lo, hi, default=None):
        assert name not in self.vars, f"input {name} declared twice"
        if name in self.inputs:
            v = self.inputs[name]
            if not lo <= v <= hi:
                v = lo
        else:
            v = lo if default is None else default
        self.inputs[name] = v
        w = width(lo, hi)
        t = z3.BitVec(name, w)
        self.vars[name] = (t, lo, hi)
        return SymInt(v, t, lo, hi)

    def var_constraints(self):
        r = []
        for t, lo, hi in self.vars.values():
            r.append(t >= lo)
            r.append(t <= hi)
        return r + self.extra

    # -- branching ---------------------------------------------------------
    def branch(self, term, concrete, kind="if"):
        if z3.is_not(term):
            return not self.branch(term.arg(0), not concrete, kind)
        i = term.get_id()
        if i in self.seen:
            return self.seen[i]
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if len(self.branches) >= self.max_branches:
            self.abort("branch limit")
        self.seen[i] = concrete
        self.keep.append(term)
        self.branches.append((term if concrete else z3.Not(term), kind))
        return concrete

    def abort(self, why):
        self.aborted = why
        raise PathAbort(why)

    def obligation(self, cond, label, info=None):
        if isinstance(cond, SymBool):
            self.obligations.append((len(self.branches), cond.t, cond.v, label, info))
        else:
            self.obligations.append((len(self.branches), None, bool(cond), label, info))


ENG = Engine()


def width(lo, hi):
    """Signed width holding every value of [lo, hi]."""
    n = max(hi.bit_length() if hi >= 0 else (~hi).bit_length(),
            lo.bit_length() if lo >= 0 else (~lo).bit_length())
    return n + 1


def fit(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


class SymBool:
    """A truth value with a term; deciding it in Python records a branch."""
    __slots__ = ("v", "t")

    def __init__(self, v, t):
        self.v = v
        self.t = t

    def __bool__(self):
        return ENG.branch(self.t, self.v)

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bnot(biff(self, o))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return biff(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bnot(biff(self, o))
        return NotImplemented

    def __int__(self):
        return bite(self, 1, 0)

    def __add__(self, o):
        return bite(self, 1, 0) + o

    __radd__ = __add__

    def __sub__(self, o):
        return bite(self, 1, 0) - o

    def __rsub__(self, o):
        return o - bite(self, 1, 0)

    def __mul__(self, o):
        return bite(self, 1, 0) * o

    __rmul__ = __mul__

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"SymBool({self.v})"


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def bval(x):
    return x.v if isinstance(x, SymBool) else bool(x)


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(all(x.v for x in out), z3.And([x.t for x in out]))


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool(any(x.v for x in out), z3.Or([x.t for x in out]))


def bnot(x):
    if isinstance(x, SymBool):
        return SymBool(not x.v, z3.Not(x.t))
    return not x


def biff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(bval(a) == bval(b), bterm(a) == bterm(b))
    return bool(a) == bool(b)


def bite(c, a, b):
    """if-then-else over truth values or ints, without branching."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return SymBool(bval(a) if c.v else bval(b), z3.If(c.t, bterm(a), bterm(b)))
    lo, hi = min(ilo(a), ilo(b)), max(ihi(a), ihi(b))
    w = width(lo, hi)
    return mk(ival(a) if c.v else ival(b), z3.If(c.t, iterm(a, w), iterm(b, w)), lo, hi)


def ival(x):
    return int.__int__(x)


def ilo(x):
    return x.lo if isinstance(x, SymInt) else ival(x)


def ihi(x):
    return x.hi if isinstance(x, SymInt) else ival(x)


def iterm(x, w):
    if isinstance(x, SymInt):
        return fit(x.t, w)
    return z3.BitVecVal(ival(x), w)


def mk(v, t, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(t):
        return v
    return SymInt(v, t, lo, hi)


def _concrete(x):
    return not isinstance(x, SymInt)


class SymInt(int):
    """Exact Python integer with a term of interval-derived width."""

    def __new__(cls, v, t, lo, hi):
        assert lo <= v <= hi, (lo, v, hi)
        self = int.__new__(cls, v)
        w = width(lo, hi)
        self.t = fit(t, w)
        self.lo = lo
        self.hi = hi
        return self

    # concretise: pin the value on this path (other values are explored by negation)
    def pin(self):
        v = ival(self)
        ENG.concretized += 1
        ENG.branch(self.t == z3.BitVecVal(v, self.t.size()), True, "pin")
        return v

    def __hash__(self):
        return hash(ival(self))

    def __reduce__(self):
        return (int, (ival(self),))

    # -- arithmetic
    def _bin(self, o, f, tf, lo, hi):
        w = width(min(lo, self.lo, ilo(o)), max(hi, self.hi, ihi(o)))
        return mk(f, tf(iterm(self, w), iterm(o, w)), lo, hi)

    def __add__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._bin(o, ival(self) + ival(o), lambda a, b: a + b, self.lo + ilo(o), self.hi + ihi(o))

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._bin(o, ival(self) - ival(o), lambda a, b: a - b, self.lo - ihi(o), self.hi - ilo(o))

    def __rsub__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._bin(o, ival(o) - ival(self), lambda a, b: b - a, ilo(o) - self.hi, ihi(o) - self.lo)

    def __mul__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        c = [x * y for x in (self.lo, self.hi) for y in (ilo(o), ihi(o))]
        return self._bin(o, ival(self) * ival(o), lambda a, b: a * b, min(c), max(c))

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return -self if bool(self < 0) else self

    def __invert__(self):
        return mk(~ival(self), ~self.t, ~self.hi, ~self.lo)

    def _bits(self, o, f, tf, op):
        a_lo, a_hi, b_lo, b_hi = self.lo, self.hi, ilo(o), ihi(o)
        w = width(min(a_lo, b_lo), max(a_hi, b_hi))
        if op == "&":
            if a_lo >= 0 and b_lo >= 0:
                lo, hi = 0, min(a_hi, b_hi)
            elif a_lo >= 0:
                lo, hi = 0, a_hi
            elif b_lo >= 0:
                lo, hi = 0, b_hi
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            if a_lo >= 0 and b_lo >= 0:
                lo, hi = 0, (1 << (w - 1)) - 1
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mk(f, tf(iterm(self, w), iterm(o, w)), lo, hi)

    def __and__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._bits(o, ival(self) & ival(o), lambda a, b: a & b, "&")

    def __or__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._bits(o, ival(self) | ival(o), lambda a, b: a | b, "|")

    def __xor__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._bits(o, ival(self) ^ ival(o), lambda a, b: a ^ b, "^")

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __lshift__(self, o):
        return _shl(self, o)

    def __rlshift__(self, o):
        return _shl(o, self)

    def __rshift__(self, o):
        return _shr(self, o)

    def __rrshift__(self, o):
        return _shr(o, self)

    def __floordiv__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        if _concrete(o) and ival(o) > 0 and self.lo >= 0:
            d = ival(o)
            w = max(self.t.size(), width(0, d))
            return mk(ival(self) // d, z3.UDiv(iterm(self, w), iterm(d, w)), self.lo // d, self.hi // d)
        return self.pin() // (o.pin() if isinstance(o, SymInt) else o)

    def __mod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        if _concrete(o) and ival(o) > 0 and self.lo >= 0:
            d = ival(o)
            w = max(self.t.size(), width(0, d))
            return mk(ival(self) % d, z3.URem(iterm(self, w), iterm(d, w)), 0, min(d - 1, self.hi))
        return self.pin() % (o.pin() if isinstance(o, SymInt) else o)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        return o // self.pin()

    def __rmod__(self, o):
        return o % self.pin()

    def __truediv__(self, o):
        return self.pin() / (o.pin() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.pin()

    def __pow__(self, o, m=None):
        if m is None and _concrete(o) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.pin(), o.pin() if isinstance(o, SymInt) else o, m)

    def __rpow__(self, o, m=None):
        if m is None and _concrete(o) and o == 2 and self.lo >= 0:
            return _shl(1, self)
        return pow(o, self.pin(), m)

    def bit_length(self):
        if self.lo < 0:
            hi = max(-self.lo, abs(self.hi))
            w = width(-hi, hi)
            t = iterm(self, w)
            x = mk(abs(ival(self)), z3.If(t < 0, -t, t), 0, hi)
            return x.bit_length()
        n = self.hi.bit_length()
        w = width(0, max(n, 1))
        s = self.t.size()
        t = z3.BitVecVal(0, w)
        for b in range(n):
            t = z3.If(z3.Extract(b, b, self.t) == z3.BitVecVal(1, 1), z3.BitVecVal(b + 1, w), t)
        return mk(ival(self).bit_length(), t, 0, n)

    def bit_count(self):
        if self.lo < 0:
            return int.bit_count(self.pin())
        r = 0
        for b in range(self.hi.bit_length()):
            r = ((self >> b) & 1) + r
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return self.pin().to_bytes(length, byteorder, signed=signed)

    # -- comparison
    def _cmp(self, o, v, tf, decided):
        d = decided(self.lo, self.hi, ilo(o), ihi(o))
        if d is not None:
            return d
        w = width(min(self.lo, ilo(o)), max(self.hi, ihi(o)))
        return SymBool(v, tf(iterm(self, w), iterm(o, w)))

    def __eq__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._cmp(o, ival(self) == ival(o), lambda a, b: a == b,
                         lambda a, b, c, d: False if b < c or d < a else None)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __lt__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._cmp(o, ival(self) < ival(o), lambda a, b: a < b,
                         lambda a, b, c, d: True if b < c else False if a >= d else None)

    def __le__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._cmp(o, ival(self) <= ival(o), lambda a, b: a <= b,
                         lambda a, b, c, d: True if b <= c else False if a > d else None)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else bnot(r)

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __int__(self):
        return self

    def __index__(self):
        return self

    def __str__(self):
        from .strings import dec
        return dec(self)

    def __repr__(self):
        return self.__str__()

    def __format__(self, spec):
        if spec in ("", "d"):
            return self.__str__()
        return format(self.pin(), spec)

    def __round__(self, nd=None):
        return self if nd is None or nd >= 0 else round(self.pin(), nd)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __float__(self):
        return float(self.pin())


def _shl(a, b):
    if not isinstance(a, int) or not isinstance(b, int):
        return NotImplemented
    if ilo(b) < 0 or ihi(b) > 300:
        b = b.pin() if isinstance(b, SymInt) else b
        if b < 0:
            raise ValueError("negative shift count")
    lo = min(ilo(a) << ilo(b), ilo(a) << ihi(b))
    hi = max(ihi(a) << ilo(b), ihi(a) << ihi(b))
    w = max(width(lo, hi), width(ilo(a), ihi(a)), width(ilo(b), ihi(b)))
    return mk(ival(a) << ival(b), iterm(a, w) << iterm(b, w), lo, hi)


def _shr(a, b):
    if not isinstance(a, int) or not isinstance(b, int):
        return NotImplemented
    if ilo(b) < 0:
        b = b.pin() if isinstance(b, SymInt) else b
        if b < 0:
            raise ValueError("negative shift count")
    c = [x >> y for x in (ilo(a), ihi(a)) for y in (ilo(b), min(ihi(b), 100000))]
    lo, hi = min(c), max(c)
    w = max(width(ilo(a), ihi(a)), width(ilo(b), ihi(b)))
    return mk(ival(a) >> ival(b), iterm(a, w) >> iterm(b, w), lo, hi)


def is_sym(x):
    return isinstance(x, (SymInt, SymBool)) or (isinstance(x, str) and getattr(x, "segs", None) is not None)

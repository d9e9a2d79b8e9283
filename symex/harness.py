"""The API harnesses are written against.  The same harness function runs in two
modes: symbolic (SymH, instrumented code, z3 terms) and plain (PlainH, the
unmodified code with concrete inputs; used to validate paths and to replay
counterexamples)."""
import importlib
import sys


class Mods:
    NAMES = {"ob": "acltk.aclObjects", "caf": "acltk.cafObjects", "cafsem": "acltk.cafSemantics",
             "aclsem": "acltk.aclSemantics", "fwsm": "acltk.fwsmObjects", "fwsmsem": "acltk.fwsmSemantics",
             "ios": "acltk.iosObjects", "iossem": "acltk.iosSemantics", "pf": "acltk.pfsenseObjects",
             "pfsem": "acltk.pfsenseSemantics"}

    def __getattr__(self, k):
        n = self.NAMES[k]
        m = sys.modules.get(n)
        return m if m is not None else importlib.import_module(n)


class Rejected(Exception):
    pass


class BaseH:
    mods = Mods()

    def attempt(self, fn, *a, **k):
        """(True, value) or (False, exception)"""
        try:
            return True, fn(*a, **k)
        except Exception as e:
            return False, e

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def eqi(self, a, b):
        return a == b

    def between(self, a, lo, hi):
        return self.And(lo <= a, a <= hi)

    def same_text(self, a, b):
        """equality of two strings, tolerating None"""
        if a is None or b is None:
            return a is None and b is None
        return a == b


class PlainH(BaseH):
    mode = "plain"

    def __init__(self, inputs):
        self.inputs = dict(inputs)
        self.failures = []
        self.nchecks = 0
        self.observed = []
        self.assumed = True

    def int(self, name, lo, hi, default=None):
        v = self.inputs.get(name)
        if v is None or not lo <= v <= hi:
            v = lo if default is None else default
        self.inputs[name] = v
        return v

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.int(name, 0, len(seq) - 1)]

    def chars(self, name, n, alphabet, first=None):
        out = []
        for i in range(n):
            al = first if (first and i == 0) else alphabet
            codes = sorted(map(ord, al))
            c = self.inputs.get(f"{name}.{i}")
            if c not in codes:
                c = codes[0]
            self.inputs[f"{name}.{i}"] = c
            out.append(chr(c))
        return "".join(out)

    def code(self, s, i):
        return ord(s[i])

    def dec(self, n):
        return str(n)

    def a4(self, n):
        from .strings import render
        return render("a4", n)

    def a6(self, n):
        from .strings import render
        return render("a6", n)

    def assume(self, c):
        if not c:
            self.assumed = False
            raise Rejected()

    def check(self, cond, label, key=None, **info):
        self.nchecks += 1
        if not cond:
            self.failures.append({"label": label, "key": key or label,
                                  "info": {k: _show(v) for k, v in info.items()}})

    def oset(self, it):
        """a set, in the symbolic run one with a fixed order"""
        return set(it)

    def observe(self, *vals):
        self.observed.append(tuple(_show(v) for v in vals))

    def And(self, *x):
        return all(x)

    def Or(self, *x):
        return any(x)

    def Not(self, x):
        return not x

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def Ite(self, c, a, b):
        return a if c else b

    def truth(self, x):
        """the truth value of what the code returned (None is false, as in an `if`)"""
        return bool(x)

    def concrete(self, x):
        return x


def _show(v):
    if isinstance(v, bool):
        return str(v)
    if type(v).__name__ == "SymBool":
        return str(v.v)
    try:
        return str(v)
    except Exception as e:      # reporting only
        return f"<{type(v).__name__}: {e}>"


class SymH(BaseH):
    mode = "sym"

    def __init__(self):
        from . import core, strings
        self.core = core
        self.strings = strings
        self.observed = []

    def int(self, name, lo, hi, default=None):
        if lo == hi:
            return lo
        return self.core.ENG.new_int(name, lo, hi, default)

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        n = self.core.ENG.new_int(name, 0, len(seq) - 1)
        v = n.pin()
        self.core.ENG.concretized -= 1
        return seq[v]

    def chars(self, name, n, alphabet, first=None):
        import z3
        segs = []
        for i in range(n):
            al = first if (first and i == 0) else alphabet
            codes = sorted(map(ord, al))
            if len(codes) == 1:
                segs.append(("k", chr(codes[0])))
                continue
            nm = f"{name}.{i}"
            eng = self.core.ENG
            if eng.inputs.get(nm) not in codes:
                eng.inputs[nm] = codes[0]
            v = eng.new_int(nm, codes[0], codes[-1])
            t = v.t
            if codes != list(range(codes[0], codes[-1] + 1)):
                eng.extra.append(z3.Or([t == z3.BitVecVal(c, t.size()) for c in codes]))
            segs.append(("c", self.strings.Char(v, nm, codes)))
        return self.strings.make(segs)

    def code(self, s, i):
        """the code of one character of a text made by chars()"""
        c = s[i]
        if isinstance(c, self.strings.SymStr) and c.segs[0][0] == "c":
            return c.segs[0][1].n
        return ord(str(c))

    def dec(self, n):
        return self.strings.dec(n)

    def a4(self, n):
        return self.strings.addr4(n)

    def a6(self, n):
        return self.strings.addr6(n)

    def assume(self, c):
        if isinstance(c, self.core.SymBool):
            c = self.core.ENG.branch(c.t, c.v, "assume")
        if not c:
            self.core.ENG.abort("assume")

    def check(self, cond, label, key=None, **info):
        self.core.ENG.obligation(cond, label, info)

    def oset(self, it):
        from .ordset import OrdSet
        return OrdSet(it)

    def observe(self, *vals):
        self.observed.append(tuple(_show(v) for v in vals))

    def And(self, *x):
        return self.core.band(*x)

    def Or(self, *x):
        return self.core.bor(*x)

    def Not(self, x):
        return self.core.bnot(x)

    def Iff(self, a, b):
        return self.core.biff(a, b)

    def Ite(self, c, a, b):
        return self.core.bite(c, a, b)

    def truth(self, x):
        if isinstance(x, (bool, self.core.SymBool)):
            return x
        return bool(x)

    def concrete(self, x):
        return x

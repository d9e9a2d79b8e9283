"""A set that iterates in insertion order, so that a path is the same in every run.  (A real set has an arbitrary order; this is one of them.)"""
import builtins

from .strings import SymStr

real_set = builtins.set


class _Meta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, real_set)

    def __subclasscheck__(cls, o):
        return issubclass(o, real_set)

    def __eq__(cls, o):
        return o is cls or o is real_set

    def __hash__(cls):
        return hash(real_set)


class OrdSet(real_set, metaclass=_Meta):
    def __init__(self, it=()):
        real_set.__init__(self)
        self._o = []
        self._has_sym = False
        for x in it:
            self.add(x)

    def _find(self, x):
        if builtins.isinstance(x, str) and (self._has_sym or type(x) is SymStr):
            for y in self._o:
                if y is x:
                    return y
            for y in self._o:
                if builtins.isinstance(y, str) and (type(y) is SymStr or type(x) is SymStr) and bool(y == x):
                    return y
        return x

    def __contains__(self, x):
        return real_set.__contains__(self, self._find(x))

    def add(self, x):
        x = self._find(x)
        if not real_set.__contains__(self, x):
            real_set.add(self, x)
            self._o.append(x)
            if type(x) is SymStr:
                self._has_sym = True

    def __iter__(self):
        return iter(list(self._o))

    def remove(self, x):
        x = self._find(x)
        real_set.remove(self, x)
        self._o = [y for y in self._o if real_set.__contains__(self, y)]

    def discard(self, x):
        if x in self:
            self.remove(x)

    def pop(self):
        x = self._o[-1]
        self.remove(x)
        return x

    def clear(self):
        real_set.clear(self)
        self._o = []

    def copy(self):
        return OrdSet(self)

    __copy__ = copy

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def union(self, *its):
        r = OrdSet(self)
        r.update(*its)
        return r

    def intersection(self, *its):
        ls = [i if builtins.isinstance(i, real_set) else OrdSet(i) for i in its]
        return OrdSet(x for x in self if all(x in l for l in ls))

    def difference(self, *its):
        ls = [i if builtins.isinstance(i, real_set) else OrdSet(i) for i in its]
        return OrdSet(x for x in self if not any(x in l for l in ls))

    def symmetric_difference(self, o):
        o = OrdSet(o)
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *its):
        for x in OrdSet(self).intersection(OrdSet(y for i in its for y in i)):
            self.remove(x)

    def intersection_update(self, *its):
        for x in self.difference(self.intersection(*its)):
            self.remove(x)

    def __or__(self, o):
        return self.union(o) if builtins.isinstance(o, (real_set, frozenset)) or type(o).__name__ == "dict_keys" else NotImplemented

    def __ror__(self, o):
        return OrdSet(o).union(self)

    def __and__(self, o):
        return self.intersection(o) if builtins.isinstance(o, (real_set, frozenset)) or type(o).__name__ == "dict_keys" else NotImplemented

    def __rand__(self, o):
        return self.intersection(OrdSet(o))

    def __sub__(self, o):
        return self.difference(o) if builtins.isinstance(o, (real_set, frozenset)) or type(o).__name__ == "dict_keys" else NotImplemented

    def __rsub__(self, o):
        return OrdSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __reduce__(self):
        return (real_set, (list(self._o),))

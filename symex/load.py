"""Load /repo's current source twice: as it is, and instrumented so that string
formatting, subscripts, membership tests and int()/str()/ord() keep symbolic
values.  Nothing else about the code changes; the instrumentation is applied to
the syntax tree of whatever source is there on this run."""
import ast
import builtins
import fnmatch as _fnmatch
import importlib
import importlib.util
import os
import re
import sys
import types

from . import core, strings, rx
from .core import SymInt, SymBool, ENG, ival
from .strings import SymStr, plain
from .ordset import OrdSet

REPO = os.environ.get("ACLTK_REPO", "/repo")
LIB = os.path.join(REPO, "lib")
TATSU = "/opt/venv/lib/python3.12/site-packages"
if TATSU not in sys.path:
    sys.path.append(TATSU)

INSTRUMENTED = ["acltk", "acltk.aclObjects", "acltk.cafObjects", "acltk.cafSemantics", "acltk.aclSemantics",
                "acltk.fwsmObjects", "acltk.fwsmSemantics", "acltk.iosObjects", "acltk.iosSemantics",
                "acltk.pfsenseObjects", "acltk.pfsenseSemantics"]

GENERATED = {"acltk.caf", "acltk.fwsm", "acltk.ios"}    # TatSu output: only calls into the parser runtime


# ---------------------------------------------------------------- run-time helpers
def _s_mod(a, b):
    if isinstance(a, str):
        return strings.sym_mod(a, b)
    return a % b


def _s_in(a, b):
    if isinstance(b, str):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return strings.sym_in_str(a, b)
        return a in b
    if isinstance(b, SymRange) or isinstance(b, range) and isinstance(a, SymInt):
        if not isinstance(a, int):
            return False
        start, stop, step = (b.start, b.stop, b.step)
        if step < 0:
            return bool(a <= start) and bool(a > stop) and bool((start - a) % -step == 0)
        return bool(a >= start) and bool(a < stop) and (step == 1 or bool((a - start) % step == 0))
    if isinstance(a, (SymStr, SymInt)):
        if isinstance(b, (dict, list, tuple, set, frozenset)) or type(b).__name__ in ("dict_keys", "dict_values"):
            hashed = isinstance(b, (dict, set, frozenset)) or type(b).__name__ == "dict_keys"
            for x in list(b):
                # a hash table only compares equal hashes: never a string with another kind of object
                if x is a or (not hashed or isinstance(x, (str, int))) and bool(x == a):
                    return True
            return False
        return a in b
    if isinstance(a, str) and isinstance(b, dict):
        if a in b:
            return True
        return any(isinstance(k, SymStr) and bool(k == a) for k in list(b))
    if isinstance(a, str) and isinstance(b, (set, frozenset)):
        if a in b:
            return True
        return any(isinstance(k, SymStr) and bool(k == a) for k in list(b))
    return a in b


_MISS = object()


def _find_key(d, k):
    """the key of d equal to k (branching), or _MISS"""
    if isinstance(k, (SymStr, SymInt)):
        for x in list(d):
            if x is k:
                return x
        for x in list(d):
            if isinstance(x, (str, int)) and bool(x == k):
                return x
        return _MISS
    if isinstance(k, str):
        if dict.__contains__(d, k):
            return k
        for x in list(d):
            if isinstance(x, SymStr) and bool(x == k):
                return x
        return _MISS
    return k


def _s_get(o, k):
    if isinstance(o, dict) and type(o).__name__ != "AST" and isinstance(k, (str, SymInt)):
        q = _find_key(o, k)
        if q is _MISS:
            return o[k] if not isinstance(k, SymStr) else _missing(o, k)
        return o[q]
    if isinstance(k, SymInt) and not isinstance(o, _NoCache):
        return o[k.pin()]
    if isinstance(o, SymStr):
        return o[k]
    if isinstance(k, slice):
        k = slice(*(x.pin() if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step)))
    return o[k]


def _missing(o, k):
    f = getattr(type(o), "__missing__", None)
    if f is not None:
        return f(o, k)
    raise KeyError(k)


def _s_set(o, k, v):
    if isinstance(o, dict) and type(o).__name__ != "AST" and isinstance(k, (str, SymInt)):
        q = _find_key(o, k)
        if q is not _MISS:
            k = q
        elif isinstance(k, SymStr) and not isinstance(k, _Key):
            pass
    elif isinstance(k, SymInt) and not isinstance(o, _NoCache):
        k = k.pin()
    o[k] = v


class _Key:
    pass


def _s_call_get(o, *a):
    if isinstance(o, dict) and type(o).__name__ != "AST" and a and isinstance(a[0], (str, SymInt)):
        q = _find_key(o, a[0])
        return (a[1] if len(a) > 1 else None) if q is _MISS else o[q]
    return o.get(*a)


def _s_call_pop(o, *a):
    if isinstance(o, dict) and a and isinstance(a[0], (str, SymInt)):
        q = _find_key(o, a[0])
        if q is not _MISS:
            return o.pop(q)
        if len(a) > 1:
            return a[1]
        raise KeyError(a[0])
    return o.pop(*a)


def _s_call_setdefault(o, *a):
    if isinstance(o, dict) and isinstance(a[0], (str, SymInt)):
        q = _find_key(o, a[0])
        if q is not _MISS:
            return o[q]
    return o.setdefault(*a)


def _s_call_format(o, *a, **k):
    if isinstance(o, str):
        return strings.sym_format(o, *a, **k)
    return o.format(*a, **k)


def _s_call_join(o, *a):
    if isinstance(o, str):
        return strings.sym_join(o, list(a[0]))
    return o.join(*a)


def _finder(name):
    def f(o, *a):
        if isinstance(o, SymStr):
            a = [x.pin() if isinstance(x, SymInt) else x for x in a]
            if len(a) > 1 and o.has_atoms():
                o.fix()
            r = getattr(o, name)(*a)
            return r if name == "count" else o.sym_pos(r)
        if isinstance(o, str) and a and isinstance(a[0], SymStr):
            a = [a[0].pin(), *a[1:]]
        return getattr(o, name)(*a)
    return f


def _pinner(name):
    """methods of a plain text given a symbolic one"""
    def f(o, *a):
        if isinstance(o, str) and not isinstance(o, SymStr) and a and any(isinstance(x, (SymStr, SymInt)) or isinstance(x, tuple) for x in a):
            a = [_pin(x) for x in a]
        return getattr(o, name)(*a)
    return f


def _pin(x):
    if isinstance(x, (SymStr, SymInt)):
        return x.pin()
    if isinstance(x, tuple) and any(isinstance(y, (SymStr, SymInt)) for y in x):
        return tuple(map(_pin, x))
    return x


def _s_dict(pairs):
    d = {}
    for k, v in pairs:
        _s_set(d, k, v)
    return d


def s_dict(*a, **k):
    if not a:
        return dict(**k)
    x = a[0]
    d = _s_dict(x.items() if hasattr(x, "keys") and hasattr(x, "items") else x)
    d.update(k)
    return d


def _s_call_update(o, *a):
    if isinstance(o, dict) and type(o).__name__ != "AST" and len(a) == 1:
        x = a[0]
        for k, v in (list(x.items()) if hasattr(x, "items") else x):
            _s_set(o, k, v)
        return None
    return o.update(*a)


def _s_call_fromkeys(o, *a):
    if o is dict and a:
        return _s_dict((k, a[1] if len(a) > 1 else None) for k in a[0])
    return o.fromkeys(*a)


def _s_key(o, k):
    """the key under which o holds what k means (for o[k] += ...)"""
    if isinstance(o, dict) and isinstance(k, (str, SymInt)):
        q = _find_key(o, k)
        return k if q is _MISS else q
    return k.pin() if isinstance(k, SymInt) else k


def _s_del(o, k):
    if isinstance(o, dict) and isinstance(k, (str, SymInt)):
        q = _find_key(o, k)
        if q is _MISS:
            raise KeyError(k)
        k = q
    elif isinstance(k, SymInt):
        k = k.pin()
    del o[k]


def s_len(x):
    return x.sym_len() if isinstance(x, SymStr) and x.has_atoms() else len(x)


def _s_call_startswith(o, *a):
    if isinstance(o, str) and a and isinstance(a[0], SymStr):
        return strings.str_startswith(o, a[0])
    return o.startswith(*a)


HELPERS = {
    "symx_fstr": lambda *p: strings.sym_fstr(p), "symx_mod": _s_mod, "symx_in": _s_in, "symx_get": _s_get,
    "symx_set": _s_set, "symx_call_get": _s_call_get, "symx_call_pop": _s_call_pop,
    "symx_call_setdefault": _s_call_setdefault, "symx_call_format": _s_call_format, "symx_call_join": _s_call_join,
    "symx_call_startswith": _s_call_startswith,
}
PINNERS = ("endswith", "replace", "split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip",
           "removeprefix", "removesuffix")
HELPERS.update({"symx_call_" + n: _pinner(n) for n in PINNERS})
HELPERS.update({"symx_dict_of": _s_dict, "symx_dict": s_dict, "symx_call_update": _s_call_update,
                "symx_call_fromkeys": _s_call_fromkeys, "symx_del": _s_del, "symx_key": _s_key})
FINDERS = ("find", "rfind", "index", "rindex", "count")
HELPERS.update({"symx_call_" + n: _finder(n) for n in FINDERS})


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a, **k):
        if len(a) == 1 or (len(a) == 2 and isinstance(a[0], SymStr)) or "base" in k:
            x = a[0]
            base = a[1] if len(a) == 2 else k.get("base", 10)
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymStr):
                return strings.sym_int(x, base)
            if isinstance(x, SymBool):
                return core.bite(x, 1, 0)
            f = getattr(type(x), "__int__", None)
            if f is not None and not isinstance(x, (int, str, float, bytes)):
                return f(x)
        return int(*a, **k)

    def __getattr__(cls, name):
        return getattr(int, name)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class s_int(metaclass=_IntMeta):
    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if isinstance(b, (bytes, bytearray)) or signed:
            return int.from_bytes(b, byteorder, signed=signed)
        v, l = 0, list(b)
        for x in (l if byteorder == "big" else reversed(l)):
            v = v * 256 + x
        return v


class _StrMeta(type):
    """str, whose methods called through the class (str.strip(x), map(str.lower, xs)) keep symbolic texts"""
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __call__(cls, *a, **k):
        if a and len(a) + len(k) > 1 and hasattr(a[0], "symx_decode"):
            return a[0].symx_decode(*a[1:], **k)
        return str(*a, **k)

    def __getattr__(cls, name):
        f = getattr(str, name)
        if not callable(f) or name in ("maketrans",):
            return f

        def g(*a, **k):
            if a and isinstance(a[0], SymStr):
                h = globals()["HELPERS"].get("symx_call_" + name)
                return h(*a, **k) if h else getattr(a[0], name)(*a[1:], **k)
            if name in ("join", "format") and a:
                return HELPERS["symx_call_" + name](*a, **k)
            return f(*a, **k)
        return g

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)

    def __or__(cls, o):
        return str | (o if not isinstance(o, _StrMeta) else str)


class s_str(metaclass=_StrMeta):
    pass


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            return s_str if isinstance(x, str) and type(x) in (str, SymStr) else \
                s_int if type(x) in (int, SymInt) else bool if isinstance(x, core.SymBool) else type(x)
        return type(*a, **k)

    def __getattr__(cls, name):
        return getattr(type, name)

    def __eq__(cls, o):
        return o is type or o is cls

    def __hash__(cls):
        return hash(type)


class s_type(metaclass=_TypeMeta):
    pass


class _Chars(frozenset):
    """a set of characters, asked about the characters of a text"""

    def issuperset(self, s):
        if isinstance(s, SymStr):
            codes = frozenset(map(ord, self))
            return all(s._in(i, codes) for i in range(len(s)))
        return frozenset.issuperset(self, s)


def s_ord(c):
    if isinstance(c, SymStr):
        if len(c) == 1 and c.segs[0][0] == "c":
            return c.segs[0][1].n
        return ord(c.pin())
    return ord(c)


class SymRange:
    """a range with a symbolic end: membership is decided as it is, anything else fixes the ends"""

    def __init__(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        self.start, self.stop, self.step = start, stop, step.pin() if isinstance(step, SymInt) else step

    def fixed(self):
        return range(*(x.pin() if isinstance(x, SymInt) else x for x in (self.start, self.stop, self.step)))

    def __iter__(self):
        # one step at a time, the end of the loop is a branch
        i = self.start
        if isinstance(i, SymInt) or isinstance(self.stop, SymInt) and self.stop.hi - i > 64:
            yield from self.fixed()
            return
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i += self.step

    def __reversed__(self):
        return reversed(self.fixed())

    def __len__(self):
        return len(self.fixed())

    def __getitem__(self, i):
        return self.fixed()[i]

    def __eq__(self, o):
        return self.fixed() == (o.fixed() if isinstance(o, SymRange) else o)

    def __hash__(self):
        return hash(self.fixed())

    def __getattr__(self, name):
        return getattr(self.fixed(), name)


def s_range(*a):
    if any(isinstance(x, SymInt) for x in a):
        return SymRange(*a)
    return range(*a)


def s_chr(x):
    return chr(x.pin() if isinstance(x, SymInt) else x)


def _minmax(pick_first, name):
    real = getattr(builtins, name)

    def f(*a, **k):
        if not k and len(a) == 2 and all(isinstance(x, int) for x in a) and any(isinstance(x, SymInt) for x in a):
            x, y = a
            r = core.bite(pick_first(x, y), x, y)
            if isinstance(r, SymInt):
                lo, hi = real(core.ilo(x), core.ilo(y)), real(core.ihi(x), core.ihi(y))
                r = core.mk(ival(r), r.t, lo, hi)
            return r
        return real(*a, **k)
    return f


s_min = _minmax(lambda x, y: x <= y, "min")
s_max = _minmax(lambda x, y: x >= y, "max")


def _index_text(f):
    return lambda x: f(x.pin() if isinstance(x, SymInt) else x)


BUILTINS = {"hex": _index_text(hex), "oct": _index_text(oct), "bin": _index_text(bin), "len": s_len, "str": s_str, "type": s_type, "min": s_min, "max": s_max, "int": s_int, "ord": s_ord, "range": s_range, "chr": s_chr}


class Instrument(ast.NodeTransformer):
    def _h(self, node, name, *args, keywords=()):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), list(args), list(keywords)), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant({-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion])
                spec = ast.Constant("") if v.format_spec is None else self.visit_JoinedStr(v.format_spec)
                parts.append(ast.Tuple([val, conv, spec], ast.Load()))
        return ast.fix_missing_locations(self._h(node, "symx_fstr", *parts))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.fix_missing_locations(self._h(node, "symx_mod", node.left, node.right))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._h(node, "symx_in", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.copy_location(ast.UnaryOp(ast.Not(), r), node)
            return ast.fix_missing_locations(r)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(ast.Name("slice", ast.Load()), [sl.lower or none, sl.upper or none, sl.step or none], [])
            return ast.fix_missing_locations(self._h(node, "symx_get", node.value, sl))
        return node

    def visit_AnnAssign(self, node):
        # leave annotations alone
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(b) for b in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [None if d is None else self.visit(d) for d in node.args.kw_defaults]
        flat = []
        for b in node.body:
            flat.extend(b if isinstance(b, list) else [b])
        node.body = flat
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            call = self._h(node, "symx_set", t.value, t.slice, node.value)
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(call), node))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("get", "pop", "setdefault", "format", "join", "startswith", "update", "fromkeys",
                                                         *FINDERS, *PINNERS) \
                and not any(isinstance(a, ast.Starred) for a in node.args):
            if f.attr == "format" or not node.keywords:
                # super().x() and class attributes go through unchanged helpers
                return ast.fix_missing_locations(
                    self._h(node, "symx_call_" + f.attr, f.value, *node.args, keywords=node.keywords))
        if isinstance(f, ast.Name) and f.id == "dict" and node.args and not any(isinstance(a, ast.Starred) for a in node.args):
            return ast.fix_missing_locations(self._h(node, "symx_dict", *node.args, keywords=node.keywords))
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple([node.key, node.value], ast.Load())
        return ast.fix_missing_locations(self._h(node, "symx_dict_of", ast.GeneratorExp(pair, node.generators)))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys) or any(k is None for k in node.keys):
            return node
        return ast.fix_missing_locations(self._h(node, "symx_dict_of", ast.List(
            [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())))

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(self._h(node, "symx_del", t.value, t.slice)), node))
        return node

    def visit_AugAssign(self, node):
        # d[k] += v  ->  d[k] = d[k] + v   (with the helpers for subscripts)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and isinstance(t.value, (ast.Name, ast.Attribute)) \
                and isinstance(t.slice, (ast.Name, ast.Constant, ast.Attribute)) and not isinstance(node.op, (ast.BitOr, ast.Add)):
            load = ast.Subscript(t.value, t.slice, ast.Load())
            new = ast.Assign([t], ast.BinOp(load, node.op, node.value))
            return self.visit(ast.fix_missing_locations(ast.copy_location(new, node)))
        self.generic_visit(node)
        if isinstance(t, ast.Subscript) and isinstance(node.target, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            node.target.slice = self._h(node, "symx_key", node.target.value, node.target.slice)
        return ast.fix_missing_locations(node)


class OrderedSets(ast.NodeTransformer):
    """set displays and comprehensions become sets with a fixed order"""

    def _call(self, node, arg):
        return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name("symx_set_of", ast.Load()), [arg], []), node))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, ast.GeneratorExp(node.elt, node.generators))

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def instrument(source, filename, post=None):
    tree = ast.parse(source, filename)
    if post:
        tree = post(tree)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


def _exec(name, filename, code, package=False, extra=None):
    m = types.ModuleType(name)
    m.__file__ = filename
    if package:
        m.__path__ = [os.path.dirname(filename)]
        m.__package__ = name
    else:
        m.__package__ = name.rpartition(".")[0]
    m.__spec__ = importlib.util.spec_from_file_location(name, filename)
    m.__dict__.update(HELPERS)
    m.__dict__.update(BUILTINS)
    if extra:
        m.__dict__.update(extra)
    sys.modules[name] = m
    exec(code, m.__dict__)
    return m


# ---------------------------------------------------------------- stdlib, instrumented
class _NoCache:
    def __init__(self):
        self.last = None

    def __contains__(self, k):
        return False

    def __setitem__(self, k, v):
        self.last = v

    def __getitem__(self, k):
        return self.last


def _drop_hosts(tree):
    """drop `if self._prefixlen == ...: self.hosts = ...` from the network constructors (hosts() is unused)"""
    class T(ast.NodeTransformer):
        def visit_If(self, node):
            self.generic_visit(node)
            if any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == "hosts"
                   for x in node.body):
                return None
            return node
    return T().visit(tree)


def load_ipaddress():
    import ipaddress as real
    src = open(real.__file__).read()
    m = _exec("ipaddress", real.__file__, instrument(src, real.__file__, _drop_hosts))
    count0 = m._count_righthand_zero_bits

    def count(number, bits):
        if not isinstance(number, SymInt) or number.lo < 0:
            return count0(number, bits)
        r = bits            # same function, as one term instead of arithmetic with wide intermediate values
        for b in range(bits - 1, -1, -1):
            r = core.bite((number >> b) & 1 == 1, b, r)
        return r
    m._count_righthand_zero_bits = count
    pf0 = m._IPAddressBase._prefix_from_ip_int.__func__

    def prefix_from(cls, n):
        if not isinstance(n, SymInt):
            return pf0(cls, n)
        bits = cls._max_prefixlen       # same function, without the bytes of the number in its error message
        zeroes = m._count_righthand_zero_bits(n, bits)
        p = bits - zeroes
        if n >> zeroes != (1 << p) - 1:
            raise ValueError("Netmask pattern mixes zeroes & ones")
        return p
    m._IPAddressBase._prefix_from_ip_int = classmethod(prefix_from)
    m._BaseV6._HEX_DIGITS = _Chars(m._BaseV6._HEX_DIGITS)
    m._BaseV4._netmask_cache = _NoCache()
    m._BaseV6._netmask_cache = _NoCache()
    for cls in (m._BaseAddress, m.IPv4Address, m.IPv6Address):
        cls.__hash__ = lambda self: self._version
    for cls in (m._BaseNetwork, m.IPv4Network, m.IPv6Network):
        cls.__hash__ = lambda self: self._version + 16
    for cls in (m.IPv4Interface, m.IPv6Interface):
        cls.__hash__ = lambda self: self._version + 32
    p4, p6 = m._BaseV4._ip_int_from_string.__func__, m._BaseV6._ip_int_from_string.__func__
    s4, s6 = m._BaseV4._string_from_ip_int.__func__ if hasattr(m._BaseV4._string_from_ip_int, "__func__") else m._BaseV4._string_from_ip_int, m._BaseV6._string_from_ip_int.__func__

    def from4(cls, s):
        if isinstance(s, SymStr) and s.only_atom("a4"):
            return s.segs[0][1].n
        return p4(cls, s)

    def from6(cls, s):
        if isinstance(s, SymStr) and s.only_atom("a6"):
            return s.segs[0][1].n
        return p6(cls, s)

    def str4(cls, n):
        return strings.addr4(n) if isinstance(n, SymInt) else s4(cls, n)

    def str6(cls, n=None):
        if n is None:
            n = int(cls._ip)
        return strings.addr6(n) if isinstance(n, SymInt) else s6(cls, n)
    m._BaseV4._ip_int_from_string = classmethod(from4)
    m._BaseV6._ip_int_from_string = classmethod(from6)
    m._BaseV4._string_from_ip_int = classmethod(str4)
    m._BaseV6._string_from_ip_int = classmethod(str6)
    return m


def load_datetime():
    import _pydatetime as real
    src = open(real.__file__).read()
    m = _exec("datetime", real.__file__, instrument(src, real.__file__))
    index = m._index    # operator.index drops the term of an int subclass
    m._index = lambda x: x if isinstance(x, SymInt) else index(x)
    return m


def make_fnmatch():
    m = types.ModuleType("fnmatch")
    m.__dict__.update({k: v for k, v in _fnmatch.__dict__.items() if not k.startswith("__")})

    def fnmatchcase(name, pat):
        if isinstance(pat, SymStr):
            pat = pat.pin()
        if isinstance(name, SymStr):
            return rx.sym_match(_fnmatch.translate(pat), name) is not None
        return _fnmatch.fnmatchcase(name, pat)

    def fnm(name, pat):
        import os.path
        return fnmatchcase(name, pat)       # posix: normcase is the identity
    m.fnmatchcase = fnmatchcase
    m.fnmatch = fnm
    m.filter = lambda names, pat: [n for n in names if fnmatchcase(n, pat)]
    return m


def make_re():
    m = types.ModuleType("re")
    m.__dict__.update({k: v for k, v in re.__dict__.items() if not k.startswith("__")})

    class Pat:
        def __init__(self, p):
            self.p = p

        def match(self, s, pos=0):
            return rx.sym_match(self.p, s, pos=pos)

        def fullmatch(self, s):
            return rx.sym_match(self.p, s, full=True)

        def search(self, s):
            return search(self.p, s)

        def __getattr__(self, n):
            return getattr(self.p, n)

    def search(p, s, flags=0):
        if not isinstance(s, SymStr):
            return re.search(p, s, flags)
        for i in range(len(s) + 1):
            r = rx.sym_match(p, s, flags, pos=i)
            if r is not None:
                return r
        return None
    def pat(p, flags=0):
        return p.p if isinstance(p, Pat) else re.compile(p, flags)

    def finditer(p, s, flags=0):
        p = pat(p, flags)
        if not isinstance(s, SymStr):
            yield from p.finditer(s)
            return
        i, n, last = 0, str.__len__(s), -1
        while i <= n:
            r = rx.sym_match(p, s, pos=i)
            if r is None:
                i += 1
                continue
            a, b = r._span[0]
            if a == b and a == last:    # no empty match where the last match ended
                i += 1
                continue
            yield r
            last = b
            i = b if b > a else b + 1

    def findall(p, s, flags=0):
        out = []
        for r in finditer(p, s, flags):
            g = r.groups("")
            out.append(r.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def subn(p, repl, s, count=0, flags=0):
        if not isinstance(s, SymStr):
            if isinstance(repl, SymStr):
                repl = repl.pin()
            return pat(p, flags).subn(repl, s, count)
        if isinstance(repl, str) and "\\" in plain(repl):
            return pat(p, flags).subn(_pin(repl), s.pin(), count)
        out, pos, n = [], 0, 0
        for r in finditer(p, s, flags):
            if count and n >= count:
                break
            a, b = r._span[0]
            out += [s.slice(pos, a), repl(r) if callable(repl) else repl]
            pos, n = b, n + 1
        out.append(s.slice(pos, str.__len__(s)))
        return strings.sym_join("", out), n

    def resplit(p, s, maxsplit=0, flags=0):
        if not isinstance(s, SymStr):
            return pat(p, flags).split(s, maxsplit)
        out, pos, n = [], 0, 0
        for r in finditer(p, s, flags):
            if maxsplit and n >= maxsplit:
                break
            a, b = r._span[0]
            out.append(s.slice(pos, a))
            out.extend(r.groups())
            pos, n = b, n + 1
        out.append(s.slice(pos, str.__len__(s)))
        return out
    Pat.finditer, Pat.findall, Pat.split = finditer, findall, resplit
    Pat.subn = lambda self, repl, s, count=0: subn(self, repl, s, count)
    Pat.sub = lambda self, repl, s, count=0: subn(self, repl, s, count)[0]
    m.finditer, m.findall, m.split, m.subn = finditer, findall, resplit, subn
    m.sub = lambda *a, **k: subn(*a, **k)[0]
    m.escape = lambda x: re.escape(_pin(x))
    m.compile = lambda p, flags=0: Pat(pat(p, flags)) if not isinstance(p, Pat) else p
    m.match = lambda p, s, flags=0: rx.sym_match(p.p if isinstance(p, Pat) else p, s, flags)
    m.fullmatch = lambda p, s, flags=0: rx.sym_match(p.p if isinstance(p, Pat) else p, s, flags, full=True)
    m.search = lambda p, s, flags=0: search(p.p if isinstance(p, Pat) else p, s, flags)
    return m


def make_socket():
    import socket as real
    m = types.ModuleType("socket")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

    def pinned(f):
        return lambda *a: f(*map(_pin, a))
    for n in ("inet_aton", "inet_ntoa", "inet_pton", "inet_ntop", "getservbyport", "getprotobyname", "htons", "ntohs", "htonl", "ntohl"):
        setattr(m, n, pinned(getattr(real, n)))

    def getservbyname(name, *a):
        return real.getservbyname(plain(name) if not isinstance(name, SymStr) else name.pin(), *a)
    m.getservbyname = getservbyname
    return m


_caches = []


def make_functools():
    """lru_cache compares symbolic arguments by value, and is emptied before every path"""
    import functools as real
    m = types.ModuleType("functools")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

    def same(x, y):
        return x is y or (isinstance(x, (str, int, tuple)) or type(x) is type(y)) and bool(x == y)

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return lru_cache()(maxsize)

        def deco(fn):
            entries = []
            _caches.append(entries)

            @real.wraps(fn)
            def w(*a, **k):
                for a0, k0, r in entries:
                    if len(a) == len(a0) and list(k) == list(k0) and all(map(same, a, a0)) \
                            and all(same(k[n], k0[n]) for n in k):
                        return r
                r = fn(*a, **k)
                entries.append((a, k, r))
                if maxsize and len(entries) > maxsize:
                    del entries[0]
                return r
            w.cache_clear = entries.clear
            w.cache_info = lambda: None
            return w
        return deco
    m.lru_cache = lru_cache
    m.cache = lambda fn: lru_cache(None)(fn)
    return m


def make_etree():
    """ElementTree whose parser keeps symbolic text: symbolic segments travel through the C parser as
    placeholder tokens (they contain no XML metacharacters) and are put back into the tree."""
    import xml.etree.ElementTree as real
    m = types.ModuleType("xml.etree.ElementTree")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

    def fromstring(text, parser=None):
        if not isinstance(text, SymStr):
            return real.fromstring(text)
        table = []
        out = []
        for s in text.segs:
            if s[0] == "k":
                out.append(s[1])
            else:
                if s[0] == "c" and any(chr(c) in "<>&'\"" for c in s[1].current()):
                    s[1].test(frozenset([ival(s[1].n)]))
                    out.append(chr(ival(s[1].n)))
                    continue
                out.append(f"sYm{len(table)}mYs")
                table.append(s)
        root = real.fromstring("".join(out))

        def back(x):
            if x is None or "sYm" not in x:
                return x
            parts = re.split(r"sYm(\d+)mYs", x)
            segs = []
            for i, p in enumerate(parts):
                segs.append(table[int(p)] if i % 2 else ("k", p))
            return strings.make(segs)
        for e in root.iter():
            e.text, e.tail = back(e.text), back(e.tail)
            if "sYm" in e.tag:
                e.tag = plain(back(e.tag))
            for k in list(e.attrib):
                e.attrib[k] = back(e.attrib[k])
        return root
    m.fromstring = fromstring
    m.XML = fromstring
    return m


# ---------------------------------------------------------------- module sets
_SWAP = ["functools", "ipaddress", "datetime", "fnmatch", "re", "socket", "xml.etree.ElementTree"]


class State:
    """What the modules remember between calls (globals, class attributes, containers, caches, default arguments),
    to start every run from the state right after import."""
    PLAIN = (str, bytes, int, float, bool, type(None), tuple, re.Pattern)

    def __init__(self, mods):
        self.dicts, self.lists, self.sets, self.attrs, self.caches, self.defaults = [], [], [], [], [], []
        self.seen = {}
        self.mine = set(mods)
        for n, m in mods.items():
            if n in GENERATED:
                continue
            self.names(m, m.__dict__)

    def names(self, owner, d):
        vals = {k: v for k, v in d.items() if not (k.startswith("__") and k.endswith("__")) and not k.startswith("symx_")
                and k not in BUILTINS}
        self.attrs.append((owner, vals))
        for v in vals.values():
            self.walk(v)

    def walk(self, v):
        if type(v) in self.PLAIN:
            if isinstance(v, tuple):
                for x in v:
                    self.walk(x)
            return
        if id(v) in self.seen:
            return
        self.seen[id(v)] = v
        if isinstance(v, dict):
            self.dicts.append((v, dict(v)))
            for x in v.values():
                self.walk(x)
        elif isinstance(v, OrdSet):
            self.sets.append((v, list(v)))
        elif isinstance(v, set):
            self.sets.append((v, set(v)))
        elif isinstance(v, list):
            self.lists.append((v, list(v)))
            for x in v:
                self.walk(x)
        elif isinstance(v, type):
            if getattr(v, "__module__", None) in self.mine:
                self.names(v, v.__dict__)
        elif isinstance(v, types.FunctionType):
            if v.__module__ in self.mine:
                self.names(v, v.__dict__)
                for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                    self.walk(x)
                for c in v.__closure__ or ():
                    try:
                        self.walk(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(v, (staticmethod, classmethod)):
            self.walk(v.__func__)
        elif isinstance(v, property):
            for f in (v.fget, v.fset):
                self.walk(f) if f is not None else None
        elif hasattr(v, "cache_clear"):
            self.caches.append(v)
        elif type(v).__module__ in self.mine and hasattr(v, "__dict__"):
            self.names(v, v.__dict__)

    def restore(self):
        for c in _caches:
            c.clear()
        for c in self.caches:
            c.cache_clear()
        for o, d in self.dicts:
            if len(o) != len(d) or any(o.get(k, d) is not v for k, v in d.items()):
                dict.clear(o)
                dict.update(o, d)
        for o, l in self.lists:
            if len(o) != len(l) or any(x is not y for x, y in zip(o, l)):
                o[:] = l
        for o, l in self.sets:
            if len(o) != len(l) or any(x not in o for x in l):
                o.clear()
                for x in l:
                    o.add(x)
        for o, vals in self.attrs:
            d = o.__dict__
            for k, v in vals.items():
                if d.get(k, self) is not v:
                    setattr(o, k, v)
            extra = [k for k in d if k not in vals and not (k.startswith("__") and k.endswith("__"))
                     and not k.startswith("symx_") and k not in BUILTINS and not isinstance(d[k], types.ModuleType)]
            for k in extra:
                delattr(o, k)


class ModSet:
    def __init__(self):
        self.mods = {}
        self.state = None

    def reset(self):
        if self.state is None:
            self.state = State(self.mods)
        else:
            self.state.restore()

    def activate(self):
        for n in [n for n in sys.modules if n == "acltk" or n.startswith("acltk.")]:
            del sys.modules[n]
        sys.modules.update(self.mods)


def _save():
    return {n: sys.modules.get(n) for n in _SWAP}


def _restore(s):
    for n, m in s.items():
        if m is None:
            sys.modules.pop(n, None)
        else:
            sys.modules[n] = m


def load_plain():
    for n in [n for n in sys.modules if n == "acltk" or n.startswith("acltk.")]:
        del sys.modules[n]
    if LIB not in sys.path:
        sys.path.insert(0, LIB)
    ms = ModSet()
    importlib.invalidate_caches()
    for n in INSTRUMENTED + sorted(GENERATED):
        importlib.import_module(n)
    for n in list(sys.modules):
        if n == "acltk" or n.startswith("acltk."):
            ms.mods[n] = sys.modules[n]
    return ms


class _Finder:
    """imports acltk.* from /repo's source through the instrumenter"""

    def __init__(self):
        self.loaded = {}

    def find_spec(self, name, path=None, target=None):
        if name != "acltk" and not name.startswith("acltk."):
            return None
        rel = name.split(".")
        d = os.path.join(LIB, *rel)
        if os.path.isdir(d):
            fn = os.path.join(d, "__init__.py")
            return importlib.util.spec_from_file_location(name, fn, loader=_Loader(name, fn),
                                                          submodule_search_locations=[d])
        fn = d + ".py"
        if not os.path.exists(fn):
            return None
        return importlib.util.spec_from_file_location(name, fn, loader=_Loader(name, fn))


class _Loader:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        src = open(self.fn).read()
        if self.name in GENERATED:
            exec(compile(src, self.fn, "exec"), m.__dict__)
            return
        m.__dict__.update(HELPERS)
        m.__dict__.update(BUILTINS)
        m.__dict__.update({"set": OrdSet, "symx_set_of": OrdSet})
        exec(instrument(src, self.fn, OrderedSets().visit), m.__dict__)


def load_symbolic():
    import tatsu  # noqa: F401  (the real re/datetime stay in place for the parser runtime)
    import tatsu.contexts
    import tatsu.parsing
    import tatsu.infos
    import tatsu.ast
    from .buf import SymBuffer
    tatsu.contexts.ParseContext.tokenizercls = property(lambda self: SymBuffer)
    import urllib.request, html.parser, logging, collections, itertools, math  # noqa: F401,E401
    saved = _save()
    for n in [n for n in sys.modules if n == "acltk" or n.startswith("acltk.")]:
        del sys.modules[n]
    try:
        sys.modules["functools"] = make_functools()
        ipm = load_ipaddress()
        sys.modules["ipaddress"] = ipm
        dtm = load_datetime()
        sys.modules["datetime"] = dtm
        sys.modules["fnmatch"] = make_fnmatch()
        sys.modules["re"] = make_re()
        sys.modules["socket"] = make_socket()
        import xml.etree
        et = make_etree()
        real_et = xml.etree.ElementTree
        sys.modules["xml.etree.ElementTree"] = et
        xml.etree.ElementTree = et
        f = _Finder()
        sys.meta_path.insert(0, f)
        try:
            for n in INSTRUMENTED + sorted(GENERATED):
                importlib.import_module(n)
        finally:
            sys.meta_path.remove(f)
            xml.etree.ElementTree = real_et
    finally:
        _restore(saved)
    ms = ModSet()
    for n in list(sys.modules):
        if n == "acltk" or n.startswith("acltk."):
            ms.mods[n] = sys.modules[n]
    ms.ipaddress = ipm
    ms.datetime = dtm
    return ms

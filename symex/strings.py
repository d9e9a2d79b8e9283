"""Symbolic strings: a str with its concrete text plus a shadow of segments.

segment = ("k", text)          concrete characters
        | ("c", SymInt code)   one symbolic character (finite alphabet)
        | ("a", Atom, text)    a whole rendered value: decimal number, IPv4 or
                               IPv6 address; `text` is its concrete rendering
"""
import re
import string as _string
import z3
from .core import ENG, SymInt, SymBool, band, bor, bnot, bite, ival, mk


class Atom:
    __slots__ = ("kind", "n")

    def __init__(self, kind, n):
        self.kind = kind    # dec | a4 | a6
        self.n = n          # SymInt

    def text(self):
        return render(self.kind, ival(self.n))


def render(kind, v):
    import ipaddress as _ip
    if kind == "dec":
        return int.__repr__(v)
    if kind == "a4":
        return ".".join(str((v >> s) & 255) for s in (24, 16, 8, 0))
    if kind == "a6":
        return str(_REAL_IP6(v))
    raise AssertionError(kind)


import ipaddress as _real_ipaddress
_REAL_IP6 = _real_ipaddress.IPv6Address

ATOM_CHARS = {"dec": set("0123456789"), "a4": set("0123456789."), "a6": set("0123456789abcdef:")}


class Char:
    """A symbolic character: a SymInt code with a finite domain."""
    __slots__ = ("n", "name", "dom")

    def __init__(self, n, name, dom):
        self.n = n
        self.name = name
        self.dom = frozenset(dom)

    def current(self):
        return ENG.dom.get(self.name, self.dom)

    def cond(self, codes):
        """SymBool/bool: is the character one of `codes` (no branching)"""
        cur = self.current()
        hit = cur & codes
        if not hit:
            return False
        if hit == cur:
            return True
        return SymBool(ival(self.n) in hit, z3.Or([self.n.t == z3.BitVecVal(c, self.n.t.size()) for c in sorted(hit)]))

    def test(self, codes):
        """Branching test; narrows the domain kept for the path."""
        c = self.cond(codes)
        if isinstance(c, bool):
            return c
        r = bool(c)
        cur = self.current()
        ENG.dom[self.name] = (cur & codes) if r else (cur - codes)
        return r


def norm(segs):
    out = []
    for s in segs:
        if s[0] == "k":
            if not s[1]:
                continue
            if out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + s[1])
                continue
        out.append(s)
    return out


def segs_of(x):
    if isinstance(x, SymStr):
        return x.segs
    return [("k", str.__str__(x))] if x else []


def seg_text(s):
    if s[0] == "k":
        return s[1]
    if s[0] == "c":
        return chr(ival(s[1].n))
    return s[2]


def make(segs):
    segs = norm(segs)
    if all(s[0] == "k" for s in segs):
        return segs[0][1] if segs else ""
    r = str.__new__(SymStr, "".join(seg_text(s) for s in segs))
    r.segs = segs
    r._cells = None
    return r


def dec(n):
    if not isinstance(n, SymInt):
        return int.__repr__(n)
    if n.lo < 0:
        if bool(n < 0):
            return make([("k", "-")] + segs_of(dec(0 - n)))
        n2 = mk(ival(n), n.t, 0, n.hi)
        if not isinstance(n2, SymInt):
            return int.__repr__(n2)
        n = n2
    return make([("a", Atom("dec", n), int.__repr__(ival(n)))])


def addr4(n):
    if not isinstance(n, SymInt):
        return render("a4", n)
    return make([("a", Atom("a4", n), render("a4", ival(n)))])


def addr6(n):
    if not isinstance(n, SymInt):
        return render("a6", n)
    return make([("a", Atom("a6", n), render("a6", ival(n)))])


def plain(x):
    return str.__str__(x) if type(x) is str else "".join(seg_text(s) for s in x.segs)


def _dec_prefix(n, token):
    """n >= 0: does str(n) start with the digits `token`"""
    if token == "":
        return True
    if not token.isdigit() or (token[0] == "0" and len(token) > 1):
        return False
    v = int(token)
    if v == 0:
        return n == 0
    conds, k = [], 1
    hi = n.hi if isinstance(n, SymInt) else ival(n)
    while v * k <= hi:
        conds.append(band(v * k <= n, n < (v + 1) * k))
        k *= 10
    return bor(*conds)


def prefix_cond(atom, token):
    """does the rendering of the atom start with `token` (None: cannot say)"""
    if atom.kind == "dec":
        return _dec_prefix(atom.n, token)
    if atom.kind == "a4":
        parts = token.split(".")
        if len(parts) > 4:
            return False
        conds = []
        for i, p in enumerate(parts):
            o = (atom.n >> (24 - 8 * i)) & 255
            if i < len(parts) - 1:
                if not p.isdigit() or int(p) > 255 or str(int(p)) != p:
                    return False
                conds.append(o == int(p))
            else:
                conds.append(_dec_prefix(o, p))
        return band(*conds)
    v = _parse_atom("a6", token)
    return None if v is None else atom.n == v


def prefix_test(seg, token):
    """branch on whether an atom's text starts with `token`, when the token lies within the atom's alphabet"""
    kind = seg[1].kind
    if token and all(ch in ATOM_CHARS[kind] for ch in token):
        c = prefix_cond(seg[1], token)
        if isinstance(c, SymBool):
            return bool(c)
    return None


_classes = {}


def regex_class_test(seg, pattern, flags, nxt):
    """A pattern applied where an atom starts may treat some renderings differently from others.  Tabulate the outcome
    over all values (numbers up to 70000; every value of each octet of an address), and branch on the class."""
    kind, n = seg[1].kind, seg[1].n
    if kind == "dec" and n.lo >= 0 and n.hi <= 70000:
        key = ("dec", pattern, flags, nxt, n.lo, n.hi)
        if key not in _classes:
            _classes[key] = _tabulate(pattern, flags, lambda v: str(v) + nxt, n.lo, n.hi)
        return _branch_class(n, _classes[key])
    if kind == "dec" and n.lo >= 0:
        # larger numbers: by their count of digits (one with a first digit of each value, of every length)
        key = ("dec", pattern, flags, nxt, len(str(n.hi)))
        if key not in _classes:
            r, out = re.compile(pattern, flags), {}
            for l in range(1, len(str(n.hi)) + 1):
                ks = set()
                for d in "0123456789" if l == 1 else "123456789":
                    for rest in "059":
                        t = (d + rest * (l - 1)) + nxt
                        m = r.match(t)
                        ks.add(None if m is None else m.end() - len(t))
                for k in ks:
                    out.setdefault(k if len(ks) == 1 else tuple(sorted(map(str, ks))), []).append(
                        [0 if l == 1 else 10 ** (l - 1), 10 ** l - 1])
            _classes[key] = out
        return _branch_class(n, _classes[key])
    if kind == "a4":
        for i in range(4):
            key = ("a4", pattern, flags, nxt, i)
            if key not in _classes:
                _classes[key] = _tabulate(
                    pattern, flags, lambda v: ".".join(str(v) if j == i else "10" for j in range(4)) + nxt, 0, 255)
            if len(_classes[key]) > 1:
                _branch_class((n >> (24 - 8 * i)) & 255, _classes[key])


def _tabulate(pattern, flags, text, lo, hi):
    r = re.compile(pattern, flags)
    out = {}
    for v in range(lo, hi + 1):
        t = text(v)
        m = r.match(t)
        k = None if m is None else m.end() - len(t)
        iv = out.setdefault(k, [])
        if iv and iv[-1][1] == v - 1:
            iv[-1][1] = v
        else:
            iv.append([v, v])
    return out


def _branch_class(n, classes):
    if len(classes) <= 1:
        return
    for k, iv in sorted(classes.items(), key=lambda x: len(x[1]))[:-1]:
        if bool(bor(*[band(a <= n, n <= b) for a, b in iv])):
            return


NL = frozenset(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))
WS = frozenset(ord(c) for c in " \t\n\r\x0b\x0c")
DIGITS = frozenset(range(48, 58))
ALL = frozenset(range(256))
ALPHA = frozenset(c for c in range(256) if chr(c).isalpha())
ALNUM = frozenset(c for c in range(256) if chr(c).isalnum())


def digits_len(n):
    """number of decimal digits of n >= 0, as a term"""
    r, k = 1, 10
    hi = n.hi if isinstance(n, SymInt) else ival(n)
    while k <= hi:
        r = r + bite(n >= k, 1, 0)
        k *= 10
    return r


def _octets(n):
    return [(n >> s) & 255 for s in (24, 16, 8, 0)]


def seg_len(seg):
    """number of characters of a segment, as a term (an IPv6 address is fixed on this path)"""
    if seg[0] == "k":
        return len(seg[1])
    if seg[0] == "c":
        return 1
    a = seg[1]
    if a.kind == "dec":
        return digits_len(a.n)
    if a.kind == "a4":
        r = 3
        for o in _octets(a.n):
            r = r + digits_len(o)
        return r
    return len(pin_atom(seg)[1])


def _fix_digits(n):
    if not isinstance(n, SymInt):
        return
    k = 10
    while k <= n.hi and bool(n >= k):
        k *= 10


def fix_len(seg):
    """fix where each character of an atom stands on this path (other lengths are explored by negation)"""
    if seg[0] != "a":
        return
    if seg[1].kind == "dec":
        _fix_digits(seg[1].n)
    elif seg[1].kind == "a4":
        for o in _octets(seg[1].n):
            _fix_digits(o)
    else:
        pin_atom(seg)


def atom_test(seg, off, codes):
    """branching: is the character at `off` of an atom's text one of `codes`"""
    chars = frozenset(map(ord, ATOM_CHARS[seg[1].kind]))
    if chars <= codes:
        return True
    if not chars & codes:
        return False
    fix_len(seg)
    ch = seg[2][off]
    n = seg[1].n
    if seg[1].kind == "a6" or ch == ".":
        return ord(ch) in codes
    if seg[1].kind == "a4":
        before = seg[2][:off]
        part = before.count(".")
        start = before.rfind(".") + 1
        n = _octets(n)[part]
        t = seg[2].split(".")[part]
        off -= start
    else:
        t = seg[2]
    digit = n // 10 ** (len(t) - 1 - off) % 10
    if not isinstance(digit, int) or not isinstance(digit, SymInt):
        return ord(ch) in codes
    return bool(bor(*[digit == c - 48 for c in sorted(codes & DIGITS)]))


def pin_atom(seg):
    ENG.concretized += 1
    n = seg[1].n
    ENG.branch(n.t == z3.BitVecVal(ival(n), n.t.size()), True, "pin")
    return ("k", seg[2])


class SymStr(str):
    __slots__ = ("segs", "_cells")

    # cells: one per character of the concrete text: str | Char | (seg, offset)
    def cells(self):
        if self._cells is None:
            out = []
            for s in self.segs:
                if s[0] == "k":
                    out.extend(s[1])
                elif s[0] == "c":
                    out.append(s[1])
                else:
                    out.extend((s, i) for i in range(len(s[2])))
            self._cells = out
        return self._cells

    @property
    def text(self):
        return plain(self)

    def has_atoms(self):
        return any(s[0] == "a" for s in self.segs)

    def only_atom(self, *kinds):
        if len(self.segs) == 1 and self.segs[0][0] == "a" and self.segs[0][1].kind in kinds:
            return self.segs[0][1]
        return None

    def pin(self):
        for s in self.segs:
            if s[0] == "c":
                s[1].test(frozenset([ival(s[1].n)]))
            elif s[0] == "a":
                pin_atom(s)
        return self.text

    def slice(self, i, j):
        out = []
        pos = 0
        for s in self.segs:
            t = seg_text(s)
            a, b = max(i, pos), min(j, pos + len(t))
            if a < b:
                if s[0] == "a" and (a, b) != (pos, pos + len(t)):
                    n = s[1].n
                    if s[1].kind == "dec" and a == pos:
                        # the leading digits of a number, whose count of digits is fixed on this path
                        fix_len(s)
                        out.extend(segs_of(dec(n // 10 ** (pos + len(t) - b))))
                        pos += len(t)
                        continue
                    s = pin_atom(s)
                if s[0] == "k":
                    out.append(("k", s[1][a - pos:b - pos]))
                else:
                    out.append(s)
            pos += len(t)
        return make(out)

    def __str__(self):
        return self

    def __repr__(self):
        return make([("k", "'")] + list(self.segs) + [("k", "'")])

    def __format__(self, spec):
        if not spec:
            return self
        return format(self.pin(), spec)

    def __hash__(self):
        return hash(self.text)

    def __reduce__(self):
        return (str, (self.text,))

    def _cut(self, i):
        """fix the atoms that decide which character index i (from the front, or negative from the back) means"""
        if not self.has_atoms():
            return
        if i >= 0:
            pos = 0
            for s in self.segs:
                if pos >= i:
                    return
                if s[0] == "a":
                    fix_len(s)
                pos += len(seg_text(s))
        else:
            pos = 0
            for s in reversed(self.segs):
                if pos >= -i:
                    return
                if s[0] == "a":
                    fix_len(s)
                pos += len(seg_text(s))

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, st = (x.pin() if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step))
            if st in (None, 1):
                for x in (a, b):
                    if x:
                        self._cut(ival(x))
                i, j, st = slice(a, b, st).indices(len(self))
                return self.slice(i, max(i, j))
            self.fix()
            i, j, st = slice(a, b, st).indices(len(self))
            return make([x for p in range(i, j, st) for x in segs_of(self.slice(p, p + 1))])
        k = k.pin() if isinstance(k, SymInt) else ival(k)
        self._cut(k + 1 if k >= 0 else k)
        if k < 0:
            k += len(self)
        if not 0 <= k < len(self):
            raise IndexError("string index out of range")
        return self.slice(k, k + 1)

    def fix(self):
        for s in self.segs:
            fix_len(s)

    def __iter__(self):
        self.fix()
        for i in range(len(self)):
            yield self.slice(i, i + 1)

    def sym_len(self):
        r = 0
        for s in self.segs:
            r = r + seg_len(s)
        return r

    def sym_pos(self, i):
        """the position i of the concrete text, as a term"""
        if i < 0:
            return i
        r, pos = 0, 0
        for s in self.segs:
            n = len(seg_text(s))
            if pos + n > i:
                if s[0] == "a" and i > pos:
                    fix_len(s)
                return r + (i - pos)
            r = r + seg_len(s)
            pos += n
        return r + (i - pos)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return make(list(self.segs) + list(segs_of(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return make(list(segs_of(o)) + list(self.segs))

    def __mod__(self, o):
        return sym_mod(self, o)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return bnot(str_eq(self, o))

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_lt(self, o)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_lt(o, self)

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return bnot(str_lt(o, self))

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return bnot(str_lt(self, o))

    def __contains__(self, sub):
        if sub in (":", ".") and not isinstance(sub, SymStr):
            if any(g[0] == "a" and (g[1].kind, sub) in (("a6", ":"), ("a4", ".")) for g in self.segs):
                return True
        return self.find(sub) >= 0

    def _at(self, i, sub):
        """bool (branching): does sub occur at i"""
        return bool(str_eq(self.slice(i, i + len(sub)), sub)) if i + len(sub) <= len(self) else False

    def _may(self, i, sub):
        """cheap filter: can `sub` (concrete) be at position i without splitting an atom"""
        cells = self.cells()
        for k, ch in enumerate(plain(sub)):
            c = cells[i + k]
            if isinstance(c, str):
                if c != ch and not isinstance(sub, SymStr):
                    return False
            elif isinstance(c, Char):
                if not isinstance(sub, SymStr) and ord(ch) not in c.current():
                    return False
            else:
                seg, off = c
                if isinstance(sub, SymStr):
                    continue
                if ch not in ATOM_CHARS[seg[1].kind]:
                    return False
                if not atom_test(seg, off, frozenset([ord(ch)])):
                    return False
        return True

    def find(self, sub, start=0, end=None):
        n = len(self) if end is None else min(end, len(self))
        for i in range(start, n - len(sub) + 1):
            if self._may(i, sub) and self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self) if end is None else min(end, len(self))
        for i in range(n - len(sub), start - 1, -1):
            if self._may(i, sub) and self._at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        i = c = 0
        while sub:
            j = self.find(sub, i)
            if j < 0:
                return c
            c += 1
            i = j + len(sub)
        return str.count(self, sub, *a)

    def startswith(self, p, start=0, end=None):
        s = self if start == 0 and end is None else self[start:end]
        if isinstance(p, tuple):
            return any(str_startswith(s, q) for q in p)
        return str_startswith(s, p)

    def endswith(self, p, start=0, end=None):
        s = self if start == 0 and end is None else self[start:end]
        if isinstance(p, tuple):
            return any(s.endswith(q) for q in p)
        if isinstance(s, SymStr) and s.has_atoms() and not (s.segs[-1][0] == "k" and len(s.segs[-1][1]) >= len(p)):
            s.fix()
        if len(p) > len(s):
            return False
        return s._may(len(s) - len(p), p) and s._at(len(s) - len(p), p) if isinstance(s, SymStr) else str.endswith(s, p)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = 0
            i = 0
            n = len(self)
            while i < n and self._ws(i):
                i += 1
            while i < n:
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self.slice(i, len(self)).rstrip())
                    return out
                cur = i
                while i < n and not self._ws(i):
                    i += 1
                out.append(self.slice(cur, i))
                while i < n and self._ws(i):
                    i += 1
            return out
        start = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(self.slice(start, i))
            start = i + len(sep)
        out.append(self.slice(start, len(self)))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.pin().rsplit(sep, maxsplit)
        out = []
        end = len(self)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.insert(0, self.slice(i + len(sep), end))
            end = i
        out.insert(0, self.slice(0, end))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self.slice(0, i), sep, self.slice(i + len(sep), len(self)))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self.slice(0, i), sep, self.slice(i + len(sep), len(self)))

    def splitlines(self, keepends=False):
        out = []
        start = 0
        for c in self.cells():
            if isinstance(c, Char):
                c.test(NL)
        t = self.text
        for m in re.finditer(r"\r\n|\n|\r|\x0b|\x0c|\x1c|\x1d|\x1e|\x85|\u2028|\u2029", t):
            out.append(self.slice(start, m.end() if keepends else m.start()))
            start = m.end()
        if start < len(t):
            out.append(self.slice(start, len(self)))
        return out

    def _in(self, i, codes):
        c = self.cells()[i]
        if isinstance(c, Char):
            return c.test(codes)
        if isinstance(c, tuple):
            return atom_test(c[0], c[1], codes)
        return ord(c) in codes

    def _ws(self, i):
        return self._in(i, WS)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def lstrip(self, chars=None):
        codes = WS if chars is None else frozenset(map(ord, chars))
        i = 0
        while i < len(self) and self._in(i, codes):
            i += 1
        return self.slice(i, len(self))

    def rstrip(self, chars=None):
        codes = WS if chars is None else frozenset(map(ord, chars))
        j = len(self)
        while j > 0 and self._in(j - 1, codes):
            j -= 1
        return self.slice(0, j)

    def _all(self, codes):
        for s in self.segs:
            if s[0] == "a" and (s[1].kind, "." if s[1].kind == "a4" else ":") in (("a4", "."), ("a6", ":")) \
                    and ord("." if s[1].kind == "a4" else ":") not in codes:
                return False
        return len(self) > 0 and all(self._in(i, codes) for i in range(len(self)))

    def isdigit(self):
        return self._all(DIGITS)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALNUM)

    def isspace(self):
        return self._all(WS)

    def isascii(self):
        return all(self._in(i, frozenset(range(128))) for i in range(len(self)))

    def _map(self, f):
        out = []
        for s in self.segs:
            if s[0] == "k":
                out.append(("k", f(s[1])))
            elif s[0] == "c":
                c = s[1]
                dom = {d: ord(f(chr(d))) for d in c.current() if len(f(chr(d))) == 1}
                if all(k == v for k, v in dom.items()):
                    out.append(s)
                else:
                    c.test(frozenset([ival(c.n)]))
                    out.append(("k", f(chr(ival(c.n)))))
            else:
                t = s[2]
                same = s[1].kind != "a6" or f("abcdef") == "abcdef"     # only IPv6 addresses contain letters
                out.append(s if same and f(t) == t else ("k", f(pin_atom(s)[1])))
        return make(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def replace(self, old, new, count=-1):
        if count >= 0:
            return self.pin().replace(old, new, count)
        return sym_join(new, self.split(old))

    def join(self, it):
        return sym_join(self, it)

    def format(self, *a, **k):
        return sym_format(self, *a, **k)

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self


def _bad(name):
    f = getattr(str, name)

    def g(self, *a, **k):
        return f(self.pin(), *a, **k)
    g.__name__ = name
    return g


for _n in ("title", "capitalize", "swapcase", "center", "ljust", "rjust", "zfill", "expandtabs", "translate",
           "isidentifier", "islower", "isupper", "istitle", "isprintable", "encode", "format_map", "__mul__", "__rmul__"):
    setattr(SymStr, _n, _bad(_n))


def _starts(s, p):
    """does a text with atoms start with the concrete text p (None: cannot say without fixing lengths)"""
    conj, i = [], 0
    for q, seg in enumerate(s.segs):
        if i == len(p):
            break
        if seg[0] == "k":
            n = min(len(seg[1]), len(p) - i)
            if seg[1][:n] != p[i:i + n]:
                return False
            i += n
        elif seg[0] == "c":
            conj.append(seg[1].cond(frozenset([ord(p[i])])))
            i += 1
        else:
            chars = ATOM_CHARS[seg[1].kind]
            if not _ends(s.segs[q + 1:], chars):
                return None
            j = i
            while j < len(p) and p[j] in chars:
                j += 1
            if j == i:
                return False
            if j == len(p):
                c = prefix_cond(seg[1], p[i:]) if seg[1].kind != "a6" else None
                if c is None:
                    return None
                conj.append(c)
            else:
                v = _parse_atom(seg[1].kind, p[i:j])
                if v is None:
                    return False
                conj.append(seg[1].n == v)
            i = j
    return band(*conj) if i == len(p) else False


def str_startswith(s, p):
    if isinstance(s, SymStr) and not isinstance(p, SymStr) and s.has_atoms():
        c = _starts(s, p)
        if c is not None:
            return bool(c)
        s.fix()
    if len(p) > len(s):
        return False
    if isinstance(s, SymStr):
        return s._may(0, p) and s._at(0, p)
    if isinstance(p, SymStr):
        return bool(str_eq(s[:len(p)], p))
    return s.startswith(p)


def sym_in_str(sub, s):
    if isinstance(s, SymStr):
        return s.__contains__(sub)
    if isinstance(sub, SymStr):
        return any(bool(str_eq(s[i:i + len(sub)], sub)) for i in range(len(s) - len(sub) + 1))
    return sub in s


def str_eq(a, b):
    """Equality as a truth value with a term, without branching where possible."""
    sa, sb = list(segs_of(a)), list(segs_of(b))
    conj = []
    while sa and sb:
        x, y = sa[0], sb[0]
        if x[0] == "a" or y[0] == "a":
            if x[0] != "a":
                x, y, sa, sb = y, x, sb, sa
            if y[0] == "a":
                if x[1].kind == y[1].kind:
                    conj.append(x[1].n == y[1].n)
                    sa.pop(0)
                    sb.pop(0)
                    continue
                # a decimal never equals an address rendering; mixed address kinds neither
                if _ends(sa[1:], ATOM_CHARS[x[1].kind]) and _ends(sb[1:], ATOM_CHARS[y[1].kind]):
                    return False
                sa[0], sb[0] = pin_atom(x), pin_atom(y)
                continue
            if y[0] == "c":
                # symbolic character against an atom
                if not (y[1].current() & frozenset(map(ord, ATOM_CHARS[x[1].kind]))):
                    return False
                sa[0] = pin_atom(x)
                continue
            run = 0
            chars = ATOM_CHARS[x[1].kind]
            while run < len(y[1]) and y[1][run] in chars:
                run += 1
            if run == 0:
                return False
            ok = _ends(sa[1:], chars) and (run < len(y[1]) or _ends(sb[1:], chars))
            if not ok:
                sa[0] = pin_atom(x)
                continue
            v = _parse_atom(x[1].kind, y[1][:run])
            if v is None:
                return False
            conj.append(x[1].n == v)
            sa.pop(0)
            sb[0] = ("k", y[1][run:])
            if not sb[0][1]:
                sb.pop(0)
            continue
        if x[0] == "k" and y[0] == "k":
            n = min(len(x[1]), len(y[1]))
            if x[1][:n] != y[1][:n]:
                return False
            _adv(sa, n)
            _adv(sb, n)
            continue
        if x[0] != "c":
            x, y, sa, sb = y, x, sb, sa
        if y[0] == "c":
            cx, cy = x[1], y[1]
            if not (cx.current() & cy.current()):
                return False
            conj.append(cx.n == cy.n)
            sa.pop(0)
            sb.pop(0)
        else:
            conj.append(x[1].cond(frozenset([ord(y[1][0])])))
            if conj[-1] is False:
                return False
            sa.pop(0)
            _adv(sb, 1)
    if sa or sb:
        return False
    return band(*conj) if conj else True


def _adv(segs, n):
    if len(segs[0][1]) == n:
        segs.pop(0)
    else:
        segs[0] = ("k", segs[0][1][n:])


def _ends(segs, chars):
    """the next character (if any) cannot extend a run of `chars`"""
    if not segs:
        return True
    s = segs[0]
    if s[0] == "k":
        return s[1][0] not in chars
    if s[0] == "c":
        return not any(chr(c) in chars for c in s[1].current())
    return False


def _parse_atom(kind, text):
    try:
        if kind == "dec":
            return int(text) if text.isdigit() and str(int(text)) == text else None
        if kind == "a4":
            v = int(_real_ipaddress.IPv4Address(text))
        else:
            v = int(_real_ipaddress.IPv6Address(text))
        return v if render(kind, v) == text else None
    except ValueError:
        return None


def str_lt(a, b):
    sa, sb = segs_of(a), segs_of(b)
    da = a.only_atom("dec") if isinstance(a, SymStr) else None
    db = b.only_atom("dec") if isinstance(b, SymStr) else None
    if (da or db) and (da or a.isdigit()) and (db or b.isdigit()):
        na = da.n if da else int(a)
        nb = db.n if db else int(b)
        la, lb = len(plain(a)), len(plain(b))
        # fix the digit counts on this path, then compare as scaled numbers
        for d in (da, db):
            if d:
                _fix_digits(d.n)
        L = max(la, lb)
        xa, xb = na * 10 ** (L - la), nb * 10 ** (L - lb)
        return bor(xa < xb, band(xa == xb, la < lb))
    if any(s[0] == "a" for s in list(sa) + list(sb)):
        if isinstance(a, SymStr):
            a = a.pin()
        if isinstance(b, SymStr):
            b = b.pin()
        return a < b
    ca = a.cells() if isinstance(a, SymStr) else list(a)
    cb = b.cells() if isinstance(b, SymStr) else list(b)
    res = len(ca) < len(cb)

    def code(c):
        return c.n if isinstance(c, Char) else ord(c)
    for x, y in reversed(list(zip(ca, cb))):
        cx, cy = code(x), code(y)
        res = bor(cx < cy, band(cx == cy, res))
    return res


def to_sym_str(x):
    if isinstance(x, str):
        return x
    if isinstance(x, SymInt):
        return dec(x)
    return str(x)


def sym_join(sep, it):
    out = []
    for i, x in enumerate(it):
        if not isinstance(x, str):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        if i:
            out.extend(segs_of(sep))
        out.extend(segs_of(x))
    return make(out)


def sym_fstr(parts):
    """parts: list of str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == "r":
                v = repr(v)
            elif conv == "s":
                v = str(v)
            elif conv == "a":
                v = ascii(v)
            if spec:
                v = format(v, plain(spec))
            elif isinstance(v, (str, SymInt)):
                v = to_sym_str(v)
            else:
                v = format(v, "")
            out.extend(segs_of(v))
        else:
            out.extend(segs_of(p))
    return make(out)


_FMT = _string.Formatter()


def sym_format(fmt, *args, **kw):
    out = []
    auto = 0
    for lit, field, spec, conv in _FMT.parse(plain(fmt)):
        out.append(("k", lit)) if lit else None
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        v, _ = _FMT.get_field(field, args, kw)
        if spec and "{" in spec:
            spec = plain(sym_format(spec, *args, **kw))
        out.extend(segs_of(sym_fstr([(v, conv, spec)])))
    return make(out)


_MODRE = re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(\.\d+)?([sdrixXoeEfFgGc%])")


def _pinned(x):
    if isinstance(x, tuple):
        return tuple(map(_pinned, x))
    if isinstance(x, dict):
        return {k: _pinned(v) for k, v in x.items()}
    return x.pin() if isinstance(x, (SymStr, SymInt)) else x


def _symbolic_inside(x):
    if isinstance(x, tuple):
        return any(map(_symbolic_inside, x))
    return isinstance(x, (SymStr, SymInt))


def sym_mod(fmt, arg):
    if not isinstance(fmt, str):
        return fmt % arg
    if not isinstance(fmt, SymStr) and not isinstance(arg, (tuple, SymStr, SymInt)):
        return fmt % arg
    args = list(arg) if isinstance(arg, tuple) else [arg]
    text = plain(fmt)
    out, pos, i = [], 0, 0
    for m in _MODRE.finditer(text):
        out.append(("k", text[pos:m.start()]))
        pos = m.end()
        if m.group(5) == "%":
            out.append(("k", "%"))
            continue
        if m.group(1) or m.group(3) == "*":
            return plain(fmt) % _pinned(arg)
        v = args[i]
        i += 1
        if not m.group(2) and not m.group(3) and not m.group(4) and m.group(5) in "sdi":
            out.extend(segs_of(to_sym_str(v)))
        elif m.group(0) == "%r":
            out.extend(segs_of(repr(v)))
        else:
            out.append(("k", m.group(0) % _pinned(v)))
    out.append(("k", text[pos:]))
    return make(out)


def sym_int(x, base=10):
    """int(x) for symbolic x"""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymStr):
        a = x.only_atom("dec")
        if a is not None and base == 10:
            return a.n
        if x.has_atoms():
            y = x.strip()
            if str.__len__(y) != str.__len__(x) and isinstance(y, SymStr):
                return sym_int(y, base)
            if base == 10 and any(g[0] == "a" and g[1].kind != "dec" or g[0] == "k" and not all(c.isdigit() or c in "_+-" for c in g[1])
                                  for g in x.segs):
                return int(x.text, base)    # raises, whatever the values
            return int(x.pin(), base)
        y = x.strip()
        neg = False
        if not isinstance(y, SymStr):
            return int(y, base)
        cells = y.cells()
        if base not in (10, 16) or not cells:
            return int(y.pin(), base)
        c0 = cells[0]
        if y._in(0, frozenset([43, 45])):
            return int(y.pin(), base)
        val = 0
        for i, c in enumerate(cells):
            if isinstance(c, str):
                val = val * base + int(c, base)
                continue
            if c.test(DIGITS):
                d = c.n - 48
                d = mk(ival(d), d.t, 0, 9) if isinstance(d, SymInt) else d
            elif base == 16 and c.test(frozenset(b"abcdefABCDEF")):
                d = bite(c.n >= 97, c.n - 87, c.n - 55)
                d = mk(ival(d), d.t, 10, 15) if isinstance(d, SymInt) else d
            else:
                return int(y.pin(), base)
            val = val * base + d
        return val
    raise TypeError

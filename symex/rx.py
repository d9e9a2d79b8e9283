"""Backtracking regular-expression matcher over symbolic strings.

Walks the parse tree of Python's own `re` parser with Python's matching order
(leftmost alternative first, greedy repetition), branching on symbolic
characters.  Used by the tokenizer and by fnmatch."""
import re
import re._constants as C
import re._parser as P
from .core import ENG, PathAbort
from .strings import Char, SymStr, WS, DIGITS, ALNUM, fix_len, atom_test

_cache = {}
WORD = frozenset(c for c in range(256) if chr(c).isalnum() or chr(c) == "_")
CATS = {
    C.CATEGORY_DIGIT: (DIGITS, False), C.CATEGORY_NOT_DIGIT: (DIGITS, True),
    C.CATEGORY_SPACE: (WS | frozenset([0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0]), False),
    C.CATEGORY_NOT_SPACE: (WS | frozenset([0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0]), True),
    C.CATEGORY_WORD: (WORD, False), C.CATEGORY_NOT_WORD: (WORD, True),
}
UNIVERSE = frozenset(range(256))


class Unsupported(Exception):
    pass


def compiled(pattern, flags):
    key = (pattern, flags)
    if key not in _cache:
        tree = P.parse(pattern, flags)
        _cache[key] = (list(tree), tree.state.flags, tree.state.groups)
    return _cache[key]


def in_set(items, flags):
    s = set()
    neg = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            s.add(av)
        elif op is C.RANGE:
            s.update(range(av[0], min(av[1], 255) + 1))
        elif op is C.CATEGORY:
            base, n = CATS[av]
            s |= (UNIVERSE - base) if n else base
        else:
            raise Unsupported(op)
    if flags & re.IGNORECASE:
        s |= {ord(chr(c).swapcase()) for c in s if len(chr(c).swapcase()) == 1}
    return frozenset(UNIVERSE - s if neg else s)


class Matcher:
    """cells: list of one-char str | Char | (seg, offset)"""

    def __init__(self, cells, pattern, flags=0, strict=False):
        self.cells = cells
        self.strict = strict        # rendered values are looked into character by character
        self.tree, self.flags, self.ngroups = compiled(pattern, flags)
        self.groups = {}
        self.sets = {}
        self.steps = 0

    def test(self, i, codes):
        c = self.cells[i]
        if isinstance(c, Char):
            return c.test(codes)
        if isinstance(c, tuple):
            if self.strict:
                fix_len(c[0])
                return atom_test(c[0], c[1], codes)
            c = c[0][2][c[1]]
        o = ord(c)
        if o > 255:
            return bool(codes & {0xff}) if False else (len(codes) > 128)
        return o in codes

    def match(self, pos, endpos=None):
        """end position of the match at pos, or None"""
        self.groups = {}
        self.n = len(self.cells) if endpos is None else endpos
        return self._seq(self.tree, 0, pos, lambda p: p)

    def _seq(self, nodes, i, pos, k):
        self.steps += 1
        if self.steps > 200000:
            ENG.abort("regex step limit")
        if i == len(nodes):
            return k(pos)
        op, av = nodes[i]

        def rest(p):
            return self._seq(nodes, i + 1, p, k)
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            if pos >= self.n or not self.test(pos, self._codes(op, av)):
                return None
            return rest(pos + 1)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self._seq(list(alt), 0, pos, rest)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            group, add, dele, sub = av
            outer = self.flags

            def closed(p):
                inner, self.flags = self.flags, outer
                r = closed_(p)
                self.flags = inner
                return r

            def closed_(p):
                old = self.groups.get(group)
                if group is not None:
                    self.groups[group] = (pos, p)
                r = rest(p)
                if r is None and group is not None:
                    self.groups[group] = old
                return r
            self.flags = (outer | add) & ~dele
            r = self._seq(list(sub), 0, pos, closed)
            self.flags = outer
            return r
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if op is C.MAX_REPEAT:
                return self._greedy(sub, lo, hi, pos, rest)
            return self._lazy(sub, lo, hi, pos, rest)
        if op is C.AT:
            return rest(pos) if self._at(av, pos) else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unsupported("lookbehind")
            r = self._seq(list(sub), 0, pos, lambda p: p)
            return rest(pos) if (r is not None) == (op is C.ASSERT) else None
        if op is getattr(C, "ATOMIC_GROUP", None):
            r = self._seq(list(av), 0, pos, lambda p: p)
            return None if r is None else rest(r)
        if op is getattr(C, "POSSESSIVE_REPEAT", None):
            lo, hi, sub = av
            r = self._greedy(list(sub), lo, hi, pos, lambda p: p)
            return None if r is None else rest(r)
        raise Unsupported(op)

    def _codes(self, op, av):
        key = (id(av) if op is C.IN else (op, av), self.flags)
        if key not in self.sets:
            if op is C.LITERAL:
                s = in_set([(C.LITERAL, av)], self.flags)
            elif op is C.NOT_LITERAL:
                s = UNIVERSE - in_set([(C.LITERAL, av)], self.flags)
            elif op is C.ANY:
                s = UNIVERSE if self.flags & re.DOTALL else UNIVERSE - {10}
            else:
                s = in_set(av, self.flags)
            self.sets[key] = s
        return self.sets[key]

    def _greedy(self, sub, lo, hi, pos, rest):
        single = len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY)
        if single:
            codes = self._codes(*sub[0])
            p, c = pos, 0
            while (hi is C.MAXREPEAT or c < hi) and p < self.n and self.test(p, codes):
                p += 1
                c += 1
            while c >= lo:
                r = rest(p)
                if r is not None:
                    return r
                p -= 1
                c -= 1
            return None

        def step(count, p, last):
            if hi is C.MAXREPEAT or count < hi:
                r = self._seq(sub, 0, p, lambda q: step(count + 1, q, p) if q != p or count < lo else None)
                if r is not None:
                    return r
            return rest(p) if count >= lo else None
        return step(0, pos, -1)

    def _lazy(self, sub, lo, hi, pos, rest):
        def step(count, p):
            if count >= lo:
                r = rest(p)
                if r is not None:
                    return r
            if hi is C.MAXREPEAT or count < hi:
                return self._seq(sub, 0, p, lambda q: step(count + 1, q) if q != p else None)
            return None
        return step(0, pos)

    def _at(self, av, pos):
        if av is C.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(self.flags & re.MULTILINE) and self.test(pos - 1, frozenset([10]))
        if av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_END_STRING:
            return pos == self.n
        if av is C.AT_END:
            if pos == self.n:
                return True
            if self.flags & re.MULTILINE:
                return self.test(pos, frozenset([10]))
            return pos == self.n - 1 and self.test(pos, frozenset([10]))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = pos > 0 and self.test(pos - 1, WORD)
            b = pos < self.n and self.test(pos, WORD)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported(av)


class SymMatch:
    def __init__(self, s, pos, end, groups, ngroups, cre):
        self.string = s
        self._span = {0: (pos, end)}
        self._span.update({k: v for k, v in groups.items() if k})
        self.re = cre
        self.n = ngroups

    def _g(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        sp = self._span.get(k)
        return None if sp is None else self.string.slice(sp[0], sp[1])

    def group(self, *ks):
        if not ks:
            return self._g(0)
        if len(ks) == 1:
            return self._g(ks[0])
        return tuple(map(self._g, ks))

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(default if self._span.get(i) is None else self._g(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._g(v) for k, v in self.re.groupindex.items()}

    def start(self, g=0):
        return self.string.sym_pos(self._span.get(g, (-1, -1))[0])

    def end(self, g=0):
        return self.string.sym_pos(self._span.get(g, (-1, -1))[1])

    def span(self, g=0):
        return self.start(g), self.end(g)


def sym_match(pattern, s, flags=0, pos=0, full=False):
    """re.match / re.fullmatch on a symbolic string"""
    cre = pattern if hasattr(pattern, "match") else re.compile(pattern, flags)
    if not isinstance(s, SymStr):
        return cre.fullmatch(s, pos) if full else cre.match(s, pos)
    pat = cre.pattern if not full else f"(?:{cre.pattern})\\Z"
    m = Matcher(s.cells(), pat, cre.flags & ~re.UNICODE, strict=True)
    end = m.match(pos)
    if end is None:
        return None
    return SymMatch(s, pos, end, m.groups, cre.groups, cre)

"""Symbolic tokenizer for the TatSu parser runtime.

The buffer text is the concrete text of the run; `cells` shadows it.  Literal
tokens and regular expressions that look at symbolic characters branch; whole
rendered values (numbers, addresses) are matched through their concrete text
(assumption: a pattern treats every rendering of the same kind alike), and come
out of the tokenizer as symbolic strings.
"""
import re
from tatsu.buffering import Buffer
from tatsu.util import RETYPE
from .core import ENG
from .strings import SymStr, Char, plain, prefix_test, regex_class_test
from .rx import Matcher, Unsupported


class SymBuffer(Buffer):
    def __init__(self, text, /, config=None, **settings):
        self.sym = text if isinstance(text, SymStr) else None
        super().__init__(plain(text) if isinstance(text, str) else text, config=config, **settings)
        if self.sym is not None:
            assert self.text == self.sym.text
            self._cells = self.sym.cells()
            n = len(self._cells)
            # nxt[i]: position of the first symbolic character at or after i
            self._nxt = [n] * (n + 1)
            for i in range(n - 1, -1, -1):
                self._nxt[i] = i if isinstance(self._cells[i], Char) else self._nxt[i + 1]
            self._symchars = self._nxt[0] < n

    def _tok(self, a, b):
        return self.sym.slice(a, b)

    @property
    def current(self):
        if self._pos >= self._len:
            return None
        if self.sym is not None and isinstance(self._cells[self._pos], Char):
            return self._tok(self._pos, self._pos + 1)
        return self.text[self._pos]

    def match(self, token):
        if token is None:
            return self.atend()
        if self.sym is None and not isinstance(token, SymStr):
            return super().match(token)
        p = self._pos
        n = len(token)
        if p + n > self._len:
            if p < self._len and self.sym is not None and isinstance(self._cells[p], tuple) and self._cells[p][1] == 0:
                prefix_test(self._cells[p][0], plain(token))
            return None
        if isinstance(token, SymStr) or (self.sym is not None and self._nxt[p] < p + n):
            if self.ignorecase:
                raise Unsupported("ignorecase")
            src = self.sym.slice(p, p + n) if self.sym is not None else self.text[p:p + n]
            hit = bool(src == token) if isinstance(src, SymStr) else bool(token == src)
        else:
            if self.sym is not None and n and isinstance(self._cells[p], tuple) and self._cells[p][1] == 0:
                prefix_test(self._cells[p][0], token)
            if self.ignorecase:
                hit = self.text[p:p + n].lower() == token.lower()
            else:
                hit = self.text.startswith(token, p)
        if not hit:
            return None
        self.move(n)
        if (self.nameguard and token and token[0].isalpha() and self.is_name_char(self.current)
                and all(self.is_name_char(t) for t in token)):
            self.goto(p)
            return None
        return token

    def _fits(self, pattern, p):
        """no symbolic character can influence matching `pattern` at p"""
        q = self._nxt[p]
        if q >= self._len:
            return True
        nl = self.text.find("\n", p)
        if nl < 0 or nl >= q:
            return False
        # a symbolic character on a later line: only patterns that cross lines see it
        pat = pattern.pattern if isinstance(pattern, RETYPE) else pattern
        return not _crosses(pat)

    def matchre(self, pattern):
        if self.sym is None:
            return super().matchre(pattern)
        p = self._pos
        if p < self._len and isinstance(self._cells[p], tuple) and self._cells[p][1] == 0:
            seg = self._cells[p][0]
            e = p + len(seg[2])
            c = self._cells[e] if e < self._len else ""
            if isinstance(c, str):
                if isinstance(pattern, RETYPE):
                    regex_class_test(seg, pattern.pattern, pattern.flags, c)
                else:
                    regex_class_test(seg, pattern, re.MULTILINE, c)
        if not self._symchars or self._fits(pattern, p):
            m = self._scanre(pattern)
            if not m:
                return None
            if m.re.groups:
                return super().matchre(pattern)
            end = m.end()
            if end > p and not _uniform(pattern):
                for i in range(p + 1, end):
                    c = self._cells[i]
                    if isinstance(c, tuple) and c[1] == 0:
                        raise Unsupported(f"value inside a match of {pattern!r}")
        else:
            if isinstance(pattern, RETYPE):
                pat, flags = pattern.pattern, pattern.flags & ~re.UNICODE
            else:
                pat, flags = pattern, re.MULTILINE
            m = Matcher(self._cells, pat, flags)
            end = m.match(p)
            if end is None:
                return None
            if m.ngroups > 1:
                raise Unsupported("capturing groups over symbolic text")
        self.move(end - p)
        return self._tok(p, end)

    def _matchre_fast(self, pattern):
        if self.sym is None:
            return super()._matchre_fast(pattern)
        p = self._pos
        if self.matchre(pattern) is None:
            return
        return None

    def _eat_regex(self, regex):
        if not regex:
            return
        while True:
            p = self._pos
            self._matchre_fast(regex)
            if self._pos == p:
                return


_cr = {}
_un = {}


def _uniform(pattern):
    """every character class of the pattern treats the ten digits alike"""
    pat = pattern.pattern if isinstance(pattern, RETYPE) else pattern
    if pat not in _un:
        import re._parser as P
        _un[pat] = _tree_uniform(P.parse(pat, re.MULTILINE))
    return _un[pat]


def _tree_uniform(tree):
    import re._constants as C
    from .rx import in_set
    digits = set(range(48, 58))
    for op, av in tree:
        if op in (C.LITERAL, C.NOT_LITERAL):
            if av in digits:
                return False
        elif op is C.IN:
            if 0 < len(digits & in_set(av, 0)) < 10:
                return False
        elif op is C.BRANCH:
            if not all(_tree_uniform(a) for a in av[1]):
                return False
        elif op is C.SUBPATTERN:
            if not _tree_uniform(av[3]):
                return False
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if not _tree_uniform(av[2]) or av[1] is not C.MAXREPEAT and av[1] > 1 or av[0] > 1:
                return False
        elif op in (C.ASSERT, C.ASSERT_NOT):
            if not _tree_uniform(av[1]):
                return False
    return True


def _crosses(pat):
    if pat not in _cr:
        try:
            r = re.compile(pat, re.MULTILINE)
            # can the pattern consume a newline?  (conservative textual test on its parse tree)
            import re._parser as P
            _cr[pat] = _tree_nl(P.parse(pat, re.MULTILINE), r.flags)
        except Exception:
            _cr[pat] = True
    return _cr[pat]


def _tree_nl(tree, flags):
    import re._constants as C
    from .rx import in_set
    for op, av in tree:
        if op is C.LITERAL and av == 10:
            return True
        if op is C.NOT_LITERAL and av != 10:
            return True
        if op is C.IN and 10 in in_set(av, 0):
            return True
        if op is C.ANY and flags & re.DOTALL:
            return True
        if op is C.BRANCH and any(_tree_nl(a, flags) for a in av[1]):
            return True
        if op is C.SUBPATTERN and _tree_nl(av[3], flags):
            return True
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and _tree_nl(av[2], flags):
            return True
        if op in (C.ASSERT, C.ASSERT_NOT) and _tree_nl(av[1], flags):
            return True
    return False

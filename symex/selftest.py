"""Self-test of the engine: text operations over rendered numbers and characters, each compared with Python for every value.

For each snippet the engine explores all paths; on every path the solver has to show that the symbolic result equals what plain
Python gives, for each value of the domain on that path.  Run: python3-vt -m symex.selftest"""
import ast
import itertools
import sys
import time
import types

from . import load, core
from .explore import explore, modsets
from . import explore as ex

SNIPPETS = """
len(s) < 3
len(s)
s[:2]
s[0]
s[-1]
s[1:]
s[1:-1]
s[::-1]
s.startswith("1")
s.startswith("12")
s.startswith("10-")
s.endswith("5")
s.endswith("05")
s.find("-")
s.find("1")
s.rfind("2")
s.count("1")
s.count("11")
s.strip("1")
s.lstrip("10")
s.rstrip("0")
s.split("-")
s.split("1")
s.split("-", 1)
s.rsplit("-", 1)
s.partition("-")
s.rpartition("1")
"7" in s
"-1" in s
s.isdigit()
s.isalnum()
s.replace("1", "x")
s.replace("-", "--")
s.upper()
s.zfill(6)
s.rjust(6)
list(s)
sorted(s)
"".join(reversed(s))
[c for c in s if c != "1"]
s == "10-a"
s < "5"
s > "12-a"
max(s)
str.strip(s, "1")
list(map(str.upper, s.split("-")))
"x-12-a-y".find(s)
"12".startswith(s)
"12-a-12-a".split(s)
{c: 1 for c in s}
dict((x, len(x)) for x in s.split("-"))
re.match(r"\\d{1,2}-", s) is None
re.match(r"(\\d)(\\d*)-", s).groups()
re.sub(r"1+", "y", s)
re.findall(r"\\d", s)
re.split(r"[-1]", s)
re.search(r"2", s).start() if re.search(r"2", s) else -1
re.fullmatch(r"1\\d*-[ab]", s) is not None
fnmatch.fnmatchcase(s, "1*")
fnmatch.fnmatchcase(s, "*2-?")
s.title()
s.encode()
f"{s:>8}"
"%5s" % s
"%s/%d" % (s, n)
int(s.split("-")[0])
int(s.split("-")[0]) % 7
len(s.split("-")[0]) + len(s)
s[len(s) - 2:]
s[s.find("-") + 1:]
s[:s.index("-")]
hex(n)
str(n)[::-1]
sum(x == "1" for x in s)
any(x == "1" for x in s)
n.bit_length()
n // 3
-n
n ** 2
divmod(n, 10)
abs(n - 50)
min(n, 50)
round(n)
bool(n)
n and 1
not n
n in (1, 2, 3)
n == 5 or n == 70
[10, 20, 30][n % 3]
list(range(n % 4))
n in range(256)
n in range(10, 100, 7)
n in range(100, 10, -3)
50 in range(n)
n not in range(n % 50, 60)
sum(i for i in range(n % 5))
list(reversed(range(n % 4)))
len(range(n % 9))
s.splitlines()
s.casefold() == s
s.rindex("-")
s * 2
s + "x" + s
"b" in s
s.removeprefix("1")
s.removesuffix("a")
s.translate({49: "y"})
s.split("-")[0] == str(n)
s.split("-")[0] < "5"
s.split("-")[1] < "b"
s.isidentifier()
s.center(8, "*")
len({*s})
tuple(s)
s.index("-") == 2
enumerate(s) and [i for i, c in enumerate(s) if c == "1"]
" ".join(s.split("-"))
list(zip(s, s[1:]))
s.split("1", 1)[0]
""".strip().split("\n")
FORMS = {"dec": ["{n}-{c}"], "mid": ["a{n}.{c}-"], "a4": None}


def plain_eval(code, s, n):
    import re
    import fnmatch
    try:
        return eval(code, {"s": s, "n": n, "re": re, "fnmatch": fnmatch})
    except Exception as e:
        return type(e).__name__


def compile_sym(src):
    tree = ast.parse(f"def f(s, n):\n    return ({src})\n")
    tree = load.Instrument().visit(load.OrderedSets().visit(tree))
    ast.fix_missing_locations(tree)
    m = types.ModuleType("selftest_code")
    m.__dict__.update(load.HELPERS)
    m.__dict__.update(load.BUILTINS)
    m.__dict__.update({"set": load.OrdSet, "symx_set_of": load.OrdSet, "re": load.make_re(), "fnmatch": load.make_fnmatch()})
    exec(compile(tree, "selftest", "exec"), m.__dict__)
    return m.f


def eq(h, a, b):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return h.And(*[eq(h, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and eq(h, list(a.items()), list(b.items()))
    if isinstance(a, set):
        return isinstance(b, set) and sorted(map(str, a)) == sorted(map(str, b))
    if isinstance(a, str) != isinstance(b, str):
        return False
    r = a == b
    return r if isinstance(r, (bool, core.SymBool)) else bool(r)


def main():
    ex._sets.update(plain=_Set(), sym=_Set())
    bad = 0
    chars = "ab"
    for form in sys.argv[1:] or ["dec", "mid", "a4"]:
        dom = list(range(0, 131)) if form != "a4" else [(a << 24) | (b << 8) | 7 for a in (1, 10, 129) for b in (0, 12, 255)]
        for src in SNIPPETS:
            code = compile(src, "x", "eval")
            f = compile_sym(src)

            def text(n, c):
                if form == "dec":
                    return f"{n}-{c}"
                if form == "mid":
                    return f"a{n}.{c}-"
                return ".".join(str((n >> k) & 255) for k in (24, 16, 8, 0)) + "-" + c
            table = {(n, c): plain_eval(code, text(n, c), n) for n in dom for c in chars}

            def unit(h):
                from .strings import sym_join
                if form == "a4":
                    i = h.choice("i", range(3))
                    o = h.int("o", 0, 255)
                    n = (((1, 10, 129)[i] << 24) + (o << 8)) + 7
                    h.assume(h.Or(o == 0, o == 12, o == 255))
                    t = h.a4(n)
                else:
                    n = h.int("n", 0, 130)
                    t = h.dec(n)
                c = h.chars("c", 1, chars)
                parts = ["a", t, ".", c, "-"] if form == "mid" else [t, "-", c]
                s = sym_join("", parts) if h.mode == "sym" else "".join(parts)
                try:
                    r = f(s, n) if h.mode == "sym" else eval(code, {"s": s, "n": n})
                except Exception as e:
                    r = type(e).__name__
                for (k, ch), want in table.items():
                    h.check(h.implies(h.And(n == k, c == ch), eq(h, r, want)), f"{k} {ch}: got {r!r} want {want!r}")
            t0 = time.time()
            r = explore(src, unit, time.time() + 60, 3000, 1, validate=False)
            ok = not r.candidates and r.complete
            if not ok:
                bad += 1
                print(form, src, "paths", r.paths, "complete", r.complete, r.candidates[:1], r.aborts, r.divergences, round(time.time() - t0, 1), flush=True)
    print("bad", bad)


class _Set:
    def activate(self):
        pass

    reset = activate


if __name__ == "__main__":
    main()

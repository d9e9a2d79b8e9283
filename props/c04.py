"""Set operations of the filter language: meaning, precedence, associativity, parentheses."""
import itertools
from .common import *
from .c03 import mkrule, same   # noqa: F401

U = Units()
unit_fn = U.fn
BOUNDS = ("2 to 4 operands (quick) or 5 (thorough), every operator combination and every parenthesisation of 3 and 4 operands; "
          "each operand selects by a symbolic address, so every combination of members and non-members is covered; 1 or 2 rules")

OPS = ["union", "intersect", "except"]


def evaluate(h, e, v):
    """e: operand index | (list of sub expressions, list of operators); intersect first, then left to right"""
    if isinstance(e, int):
        return v[e]
    items = [evaluate(h, x, v) for x in e[0]]
    ops = list(e[1])
    while "intersect" in ops:
        i = ops.index("intersect")
        items[i:i + 2] = [h.And(items[i], items[i + 1])]
        del ops[i]
    r = items[0]
    for o, x in zip(ops, items[1:]):
        r = h.Or(r, x) if o == "union" else h.And(r, h.Not(x))
    return r


def render(e, leaf, top=True):
    if isinstance(e, int):
        return leaf(e)
    r = render(e[0][0], leaf, False)
    for o, x in zip(e[1], e[0][1:]):
        r = cat(r, " ", o, " ", render(x, leaf, False))
    return r if top else cat("( ", r, " )")


def shapes(n):
    """all ways to put parentheses into an expression of n operands, as nested lists"""
    def go(lo, hi):
        if hi - lo == 1:
            return [lo]
        out = []
        for k in range(2, hi - lo + 1):
            for cuts in itertools.combinations(range(lo + 1, hi), k - 1):
                b = [lo, *cuts, hi]
                for parts in itertools.product(*[go(b[i], b[i + 1]) for i in range(k)]):
                    out.append(list(parts))
        return out
    return go(0, n)


def attach(shape, ops):
    """operators by position of the operand to their right"""
    def first(s):
        return s if isinstance(s, int) else first(s[0])
    if isinstance(shape, int):
        return shape
    return ([attach(s, ops) for s in shape], [ops[first(s) - 1] for s in shape[1:]])


def run(h, e, n, nrules, kinds=None, wrapall=False):
    ob = h.mods.ob
    xs = [h.int(f"x{i}", 0, M4) for i in range(n)]
    rules = []
    for j in range(nrules):
        s, d = h.int(f"s{j}", 0, M4), h.int(f"d{j}", 0, M4)
        rules.append((s, d, mkrule(h, "a", ob.NetworkHost(h.a4(s)), ob.NetworkHost(h.a4(d)))))

    def leaf(i):
        k = kinds[i] if kinds else "src"
        t = cat("ip ", k, " ", h.a4(xs[i]))
        return cat("( ", t, " )") if wrapall else t
    text = render(e, leaf)
    ok, f = caf(h, text)
    h.check(ok, "the filter is accepted", text=text, error=None if ok else repr(f)[:200])
    if not ok:
        return
    rs = ob.ACLRules()
    for _, _, r in rules:
        rs.add(r)
    got = f.run(rs)
    h.check(len(got) <= nrules, "nothing else is selected")
    for s, d, r in rules:
        v = [(s if not kinds or kinds[i] == "src" else d) == xs[i] for i in range(n)]
        h.check(h.Iff(any(x is r for x in got), evaluate(h, e, v)), "selected as the expression says", text=text)


@U.unit(each=[(a, w) for a in OPS for w in (0, 1)])
def two(h, v):
    run(h, attach([0, 1], [v[0]]), 2, 2, wrapall=bool(v[1]))


@U.unit(each=[(a, b, c) for a in OPS for b in OPS for c in range(3)])
def three(h, v):
    a, b, c = v
    run(h, attach(shapes(3)[c], [a, b]), 3, 1)


@U.unit(each=[(a, b) for a in OPS for b in OPS])
def three_wrapped(h, v):
    run(h, attach([0, 1, 2], list(v)), 3, 1, wrapall=True)


@U.unit(each=[(a, b) for a in OPS for b in OPS])
def three_mixed(h, v):
    """operands on different sides of the rule"""
    run(h, attach([0, 1, 2], list(v)), 3, 1, kinds=["src", "dst", "src"])


@U.unit(each=[(a, b, c) for a in OPS for b in OPS for c in OPS])
def four(h, v):
    run(h, attach([0, 1, 2, 3], list(v)), 4, 1)


@U.unit(each=[(a, b, c) for a in OPS for b in OPS for c in OPS])
def four_pairs(h, v):
    run(h, attach([[0, 1], [2, 3]], list(v)), 4, 1)


@U.unit(each=[(a, b, c, i) for a in OPS for b in OPS for c in OPS for i in range(len(shapes(4)))], tiers=("thorough",))
def four_all(h, v):
    run(h, attach(shapes(4)[v[3]], list(v[:3])), 4, 1)


@U.unit(each=list(itertools.product(OPS, repeat=4)), tiers=("thorough",))
def five(h, v):
    run(h, attach([0, 1, 2, 3, 4], list(v)), 5, 1)


@U.unit(each=OPS)
def two_rules_three(h, o):
    run(h, attach([0, 1, 2], [o, "except"]), 3, 2)


@U.unit()
def readme(h):
    """the example of the documentation"""
    ob = h.mods.ob
    names = ["outside_in", "inside_in", "other"]
    nm = names[h.choice("nm", [0, 1, 2])]
    s, d = h.int("s", 0, M4), h.int("d", 0, M4)
    sk, dk = h.choice("sk", ["host", "any"]), h.choice("dk", ["host", "any"])
    r = mkrule(h, nm, ob.NetworkHost(h.a4(s)) if sk == "host" else ob.NetworkAny(),
               ob.NetworkHost(h.a4(d)) if dk == "host" else ob.NetworkAny())
    ok, f = caf(h, "/* we want */ ( /* rules */ ( id outside_in ip dst 10.1.0.0/24 ) union ( id inside_in ip src 10.1.0.0/24 ) )"
                   "\nexcept\n( ( /* any any */ ip src ANY\n ip dst ANY ) )\nexcept\n( ip dst 10.2.0.0/24 union ip src 10.2.0.0/24 )")
    h.check(ok, "the filter is accepted", error=None if ok else repr(f)[:200])
    if not ok:
        return
    rs = ob.ACLRules()
    rs.add(r)

    def within(x, k, net):
        return True if k == "any" else (x >> 8) == net
    n1, n2 = 0x0a0100, 0x0a0200
    want = h.And(h.Or(h.And(nm == "outside_in", within(d, dk, n1)), h.And(nm == "inside_in", within(s, sk, n1))),
                 not (sk == "any" and dk == "any"), h.Not(h.Or(within(d, dk, n2), within(s, sk, n2))))
    h.check(h.Iff(len(f.run(rs)) == 1, want), "selected as the expression says")

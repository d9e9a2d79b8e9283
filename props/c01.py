"""Overlap of two address sets, for every pair of ways to write one."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("all 2^32 / 2^128 addresses and all prefix lengths and wildcards are symbolic; address ranges span at most 4 addresses (quick) or 64 (thorough), "
          "or are 5 longer ones (up to 254 addresses); groups hold up to 3 members, or up to 9 hosts and networks, nesting depth up to 3")


def host4(h, n):
    a = h.int(n + ".a", 0, M4)
    return h.mods.ob.NetworkHost(h.a4(a)), Spec("net", fam=4, val=a, mask=M4)


def host6(h, n):
    a = h.int(n + ".a", 0, M6)
    return h.mods.ob.NetworkHost(h.a6(a)), Spec("net", fam=6, val=a, mask=M6)


def sub4(h, n):
    a, p = h.int(n + ".a", 0, M4), h.int(n + ".p", 0, 32)
    return h.mods.ob.Network(h.a4(a), h.dec(p)), Spec("net", fam=4, val=a, mask=mask_of(p, 4))


def mask4(h, n):
    a, p = h.int(n + ".a", 0, M4), h.int(n + ".p", 0, 32)
    return h.mods.ob.Network(h.a4(a), h.a4(mask_of(p, 4))), Spec("net", fam=4, val=a, mask=mask_of(p, 4))


def sub6(h, n):
    a, p = h.int(n + ".a", 0, M6), h.int(n + ".p", 0, 128)
    return h.mods.ob.Network(h.a6(a), h.dec(p)), Spec("net", fam=6, val=a, mask=mask_of(p, 6))


def wild4(h, n):
    a, w = h.int(n + ".a", 0, M4), h.int(n + ".w", 0, M4)
    return h.mods.ob.NetworkWildcard(h.a4(a), h.a4(w)), Spec("net", fam=4, val=a, mask=w ^ M4)


def rng(h, n, fam=4, span=3):
    a = h.int(n + ".a", 0, a_max(fam))
    k = h.int(n + ".n", 0, span)
    h.assume(a + k <= a_max(fam))
    b = a + k
    return (h.mods.ob.NetworkObject(n, "", type="range", start=addr(h, a, fam), stop=addr(h, b, fam)),
            Spec("range", fam=fam, lo=a, hi=b, span=span))


def rng6(h, n):
    return rng(h, n, 6, 3)


def objhost(h, n):
    fam = h.choice(n + ".fam", [4, 6])
    a = h.int(f"{n}.a{fam}", 0, a_max(fam))
    return (h.mods.ob.NetworkObject(n, "", type="host", address=addr(h, a, fam)),
            Spec("net", fam=fam, val=a, mask=a_max(fam)))


def objsub(h, n):
    a, p = h.int(n + ".a", 0, M4), h.int(n + ".p", 0, 32)
    return (h.mods.ob.NetworkObject(n, "", type="subnet", address=h.a4(a), mask=h.a4(mask_of(p, 4))),
            Spec("net", fam=4, val=a, mask=mask_of(p, 4)))


def group(h, n, kinds, nest=False):
    g = h.mods.ob.NetworkGroup(n, "")
    specs = []
    for i, k in enumerate(kinds):
        o, s = KINDS[k](h, f"{n}{i}")
        g.add(o)
        specs.append(s)
    if nest:
        outer = h.mods.ob.NetworkGroup(n + "o", "")
        o, s = KINDS["host4"](h, n + "x")
        outer.add(h.mods.ob.NetworkGroup("empty", ""))
        outer.add(g)
        outer.add(o)
        specs.append(s)
        g = outer
    return g, Spec("union", parts=specs)


KINDS = {
    "host4": host4, "host6": host6, "sub4": sub4, "mask4": mask4, "sub6": sub6, "wild4": wild4, "range4": rng,
    "range6": rng6, "objhost": objhost, "objsub": objsub,
    "grp": lambda h, n: group(h, n, ["sub4", "host6"]),
    "nest": lambda h, n: group(h, n, ["objsub", "sub6"], True),
    "empty": lambda h, n: (h.mods.ob.NetworkGroup(n, ""), Spec("none")),
    "any": lambda h, n: (h.mods.ob.NetworkAny(), Spec("any")),
    "any4": lambda h, n: (h.mods.ob.NetworkAny4(), Spec("any4")),
    "any6": lambda h, n: (h.mods.ob.NetworkAny6(), Spec("any6")),
    "anygrp": lambda h, n: group(h, n, ["host6", "any4"]),
}
SIMPLE = ["host4", "host6", "sub4", "mask4", "sub6", "wild4"]
# combinations a filter cannot produce, or the grammars cannot put into a group, are left out
PAIRS = [(a, b) for a in SIMPLE for b in SIMPLE] + \
        [(a, b) for a in ("host4", "host6", "sub4", "sub6", "grp") for b in
         ("range4", "range6", "objhost", "objsub", "grp", "nest", "empty")] + [("wild4", "grp"), ("grp", "wild4"),
                                                                              ("wild4", "objsub"), ("wild4", "range4")] + \
        [(a, b) for a in ("any4", "any6", "any") for b in SIMPLE + ["range4", "range6", "objhost", "objsub", "grp", "nest", "any", "any4", "any6", "anygrp"]] + \
        [(a, "empty") for a in ("any4", "any6")] + [(a, "anygrp") for a in SIMPLE]


def both(h, x, xs, y, ys):
    want = xs.meets(h, ys)
    r = h.truth(x & y)
    h.check(h.Iff(r, want), "x & y is the overlap of the two sets", x=x, y=y, got=r, want=want)
    ob = h.mods.ob
    q = h.truth(ob.ACLNode(y) & ob.ACLNode(x))
    h.check(h.Iff(q, want), "y & x is the overlap of the two sets", x=x, y=y, got=q, want=want)
    h.observe(r, q)


@U.unit(each=PAIRS)
def pair(h, v):
    x, xs = KINDS[v[0]](h, "x")
    y, ys = KINDS[v[1]](h, "y")
    both(h, x, xs, y, ys)


@U.unit(each=[(a, b) for a in ("host4", "sub4", "wild4") for b in (15, 63)], tiers=("thorough",))
def span(h, v):
    x, xs = KINDS[v[0]](h, "x")
    y, ys = rng(h, "y", 4, v[1])
    both(h, x, xs, y, ys)


@U.unit(each=[("nest", "nest"), ("grp", "wild4"), ("nest", "wild4"), ("nest", "range4"), ("grp", "nest"),
              ("range4", "range4"), ("range6", "range6"), ("range4", "objsub"), ("objsub", "objsub"),
              ("objhost", "objhost")], tiers=("thorough",))
def deep(h, v):
    x, xs = KINDS[v[0]](h, "x")
    y, ys = KINDS[v[1]](h, "y")
    both(h, x, xs, y, ys)


LONG = {"4": [(0x0A000001, 0x0A0000FE), (0xC0000207, 0xC0000207 + 20), (M4 - 8, M4)],
        "6": [((0x20010DB8 << 96) + 1, (0x20010DB8 << 96) + 30), (0xFFFD, 0x10007)]}


@U.unit(each=[(k, f, i) for f in LONG for i in range(len(LONG[f])) for k in ("host" + f, "sub" + f)])
def long_range(h, v):
    """ranges that fall into many blocks"""
    k, f, i = v
    fam, (lo, hi) = int(f), LONG[f][i]
    y = h.mods.ob.NetworkObject("y", "", type="range", start=addr(h, lo, fam), stop=addr(h, hi, fam))
    x, xs = KINDS[k](h, "x")
    if k.startswith("host"):
        a = b = num(x.address)
    else:
        a = xs.val & xs.mask
        b = a | (xs.mask ^ a_max(fam))
    want = h.And(a <= hi, b >= lo)
    h.check(h.Iff(h.truth(x & y), want), "a host or network overlaps a range exactly if they share an address", x=x, y=y)
    h.check(h.Iff(h.truth(y & x), want), "whichever is written first", x=x, y=y)


@U.unit(each=[(k, n) for k in ("host4", "sub4", "any6") for n in (6, 9)])
def long_group(h, v):
    """groups of many members"""
    k, n = v
    x, xs = KINDS[k](h, "x")
    y, ys = group(h, "y", ["host4"] * (n - 1) + ["host6" if k == "any6" else "sub4"])
    both(h, x, xs, y, ys)

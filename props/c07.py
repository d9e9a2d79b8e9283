"""Collapsing a network group: same addresses, no overlap, as few entries as possible."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("groups of 2 (networks of the last 3 bits (two IPv6 networks: 1); two networks of equal prefix length of any length in IPv4 and of the last 7 bits in IPv6; thorough: 20 bits and any length) and 3 "
          "(networks of the last bit; thorough: 8 bits) addresses and networks of one or both families, all addresses symbolic, with or without any entries and nested groups")


def member(h, k, n, lo=0, same=None):
    ob = h.mods.ob
    if k == "h4":
        return ob.NetworkHost(h.a4(h.int(n, 0, M4)))
    if k == "h6":
        return ob.NetworkHost(h.a6(h.int(n, 0, M6)))
    if k == "n4":
        return ob.Network(h.a4(h.int(n, 0, M4)), h.dec(same if same is not None else h.int(n + "p", lo, 32)))
    if k == "n6":
        return ob.Network(h.a6(h.int(n, 0, M6)), h.dec(same if same is not None else h.int(n + "p", 96 + lo if lo else 0, 128)))
    if k == "o4":
        return ob.NetworkObject("o", "", type="host", address=h.a4(h.int(n, 0, M4)))
    return {"any": ob.NetworkAny, "any4": ob.NetworkAny4, "any6": ob.NetworkAny6}[k]()


def interval(h, o):
    """(family, first, last) of an entry"""
    ob = h.mods.ob
    if isinstance(o, ob.NetworkHost):
        return o.address.version, num(o.address), num(o.address)
    n = o.network
    return n.version, num(n.network_address), num(n.network_address) | (num(n.netmask) ^ a_max(n.version))


def examine(h, g, kinds, lo, insitu, nested=False, same=None):
    ob = h.mods.ob
    inner = None
    if nested:
        inner = ob.NetworkGroup("i", "")
        g.add(inner)
    for i, k in enumerate(kinds):
        (inner if nested and i else g).add(member(h, k, f"m{i}", lo, same))
    before = list(g.objects)
    ibefore = list(inner.objects) if inner else None
    p4, p6 = h.int("probe4", 0, M4), h.int("probe6", 0, M6)
    had = {4: node_has(h, g, p4, 4), 6: node_has(h, g, p6, 6)}
    ok, r = h.attempt(lambda: g.collapse() if insitu else g.collapse(insitu=False))
    if insitu and (nested or "o4" in kinds):
        h.check(not ok and isinstance(r, ValueError), "an unexpanded group is refused", got=r)
        h.check(len(g.objects) == len(before) and all(a is b for a, b in zip(g.objects, before)), "and left alone")
        return
    h.check(ok, "collapsed", error=None if ok else repr(r)[:200])
    if not ok:
        return
    if insitu:
        h.check(r is g, "in place: the group itself is returned")
    else:
        h.check(r is not g, "a copy is returned")
        h.check(len(g.objects) == len(before) and all(a is b for a, b in zip(g.objects, before)), "the original is unchanged")
        if inner:
            h.check(len(inner.objects) == len(ibefore) and all(a is b for a, b in zip(inner.objects, ibefore)),
                    "the inner group is unchanged")
    for fam, p in ((4, p4), (6, p6)):
        h.check(h.Iff(node_has(h, r, p, fam), had[fam]), f"same IPv{fam} addresses", group=r)
    anys = [o for o in r.objects if isinstance(o, (ob.NetworkAny, ob.NetworkAny4, ob.NetworkAny6))]
    h.check(len(anys) == sum(k.startswith("any") for k in kinds), "any entries are kept", got=r)
    iv = [interval(h, o) for o in r.objects if o not in anys]
    for i in range(len(iv)):
        for j in range(i + 1, len(iv)):
            (f, a, b), (q, c, d) = iv[i], iv[j]
            if f != q:
                continue
            h.check(h.Or(b < c, d < a), "entries do not overlap", group=r)
            # two equal blocks side by side, the lower one aligned to the double size, would be one entry
            size = (b - a) + 1
            h.check(h.Not(h.And(b - a == d - c, h.Or(h.And(b + 1 == c, (a & (b - a + size)) == 0),
                                                     h.And(d + 1 == a, (c & (b - a + size)) == 0)))), "neighbours are merged", group=r)
    h.observe(len(r.objects))


@U.unit(each=[(a, b, s) for a in ("h4", "n4", "h6", "n6") for b in ("h4", "n4", "h6", "n6") for s in ("insitu", "copy")
             if (a, b, s) != ("n6", "n6", "copy")])
def two(h, v):
    examine(h, h.mods.ob.NetworkGroup("g", "d"), v[:2], 31 if v[:2] == ("n6", "n6") else 29, v[2] == "insitu")


@U.unit(each=[k + (s,) for k in (("n4",), ("n6",), ("n4", "n4"), ("n6", "n6")) for s in ("insitu", "copy") if k != ("n6", "n6") or s == "insitu"])
def every_prefix(h, v):
    """one network, or two networks of the same size, any prefix length"""
    *kinds, s = v
    p = h.int("p", 0, 32) if kinds[0] == "n4" else h.int("p", 121 if len(kinds) > 1 else 0, 128)
    examine(h, h.mods.ob.NetworkGroup("g", "d"), kinds, 0, s == "insitu", same=p)


@U.unit(tiers=("thorough",))
def every_prefix6(h):
    examine(h, h.mods.ob.NetworkGroup("g", "d"), ["n6", "n6"], 0, True, same=h.int("p", 0, 121))


@U.unit(each=[(a, b) for a in ("h4", "n4") for b in ("h4", "n4", "n6")] + [("n6", "n6"), ("n6", "h6")], tiers=("thorough",))
def two_wide(h, v):
    examine(h, h.mods.ob.NetworkGroup("g", "d"), v, 12, True)


@U.unit(each=[("h4", "h4", "h4"), ("n4", "h4", "n6"), ("any", "n4", "h4"),
              ("n4", "any4", "n4"), ("any6", "h4", "h6"), ("any4", "h4", "any6"), ("any", "any4", "h6"), ("any", "n4", "any"),
              ("any6", "any4", "any")])
def three(h, v):
    examine(h, h.mods.ob.NetworkGroup("g", "d"), v, 31, True)


@U.unit(each=[("n4", "n4", "h4"), ("n4", "n4", "n4"), ("h6", "n6", "h6"), ("n6", "n6", "n6"), ("n4", "h4", "n4"), ("h4", "h4", "h4", "h4")], tiers=("thorough",))
def more(h, v):
    examine(h, h.mods.ob.NetworkGroup("g", "d"), v, 24, True)


@U.unit(each=[(k, s, n) for k in (("n4", "n4"), ("o4", "n4"), ("h4", "n6"), ("o4", "o4")) for s in ("insitu", "copy") for n in (0, 1)])
def objects_and_groups(h, v):
    examine(h, h.mods.ob.NetworkGroup("g", "d"), v[0], 30, v[1] == "insitu", bool(v[2]))


@U.unit(each=["insitu", "copy"])
def empty(h, s):
    examine(h, h.mods.ob.NetworkGroup("g", "d"), ["any"] if h.choice("any", [0, 1]) else [], 0, s == "insitu")

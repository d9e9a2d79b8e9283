"""Sorting a group only reorders it, into ascending order."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("groups of 2 to 4 members; addresses, ports and protocol numbers symbolic; group names of symbolic characters only "
          "checked for completeness, not for order")


def member(h, kind, k, n):
    ob = h.mods.ob
    if kind == "network":
        if k == "host":
            a = h.int(n, 0, M4)
            return ob.NetworkHost(h.a4(a)), a
        if k == "net":
            a, p = h.int(n, 0, M4), h.int(n + "p", 20, 32)
            return ob.Network(h.a4(a), h.dec(p)), a & mask_of(p, 4)
        a = h.int(n, 0, M6)
        return ob.NetworkHost(h.a6(a)), a
    if kind == "port":
        a = h.int(n, 0, 65534)
        return (ob.Port(k, h.dec(a)), a) if k != "range" else (ob.PortRange(h.dec(a), h.dec(a + 1)), a)
    if kind == "protocol":
        a = h.int(n, 0, 255)
        return ob.Protocol(h.dec(a)), a
    # services: protocol, then source port, then destination port
    a, b = h.int(n, 0, 65535), h.int(n + "d", 1, 65535)
    proto = "tcp" if k == "tcp" else "udp"
    return ob.Service(ob.Protocol(proto), ob.Port("eq", h.dec(a)) if k == "tcp" else None, ob.Port("eq", h.dec(b))), (proto, a if k == "tcp" else 0, b)


KINDS = {"network": ["host", "net", "six"], "port": ["eq", "range", "gt"], "protocol": ["p"], "service": ["tcp", "udp"]}


def mkgroup(h, kind, name):
    ob = h.mods.ob
    return {"network": lambda: ob.NetworkGroup(name, "d"), "port": lambda: ob.PortGroup(name, ob.Protocol("tcp"), "d"),
            "service": lambda: ob.ServiceGroup(name, "d"), "protocol": lambda: ob.ProtocolGroup(name, "d")}[kind]()


def le(h, a, b):
    if isinstance(a, tuple):
        if not a:
            return True
        return h.Or(a[0] < b[0], h.And(a[0] == b[0], le(h, a[1:], b[1:])))
    return a <= b


def run(h, kind, ks, insitu, nested):
    g = mkgroup(h, kind, "g")
    ms = [member(h, kind, k, f"m{i}") for i, k in enumerate(ks)]
    inner = None
    for i, (m, _) in enumerate(ms):
        if nested and i == 0:
            inner = mkgroup(h, kind, "in")
            inner.add(m)
            g.add(inner)
        else:
            g.add(m)
    before = list(g.objects)
    r = g.sort() if insitu else g.sort(insitu=False)
    if insitu:
        h.check(r is g, "in place: the group itself is returned")
    else:
        h.check(r is not g and type(r) is type(g), "a copy of the same kind is returned")
        h.check(r.name == g.name and r.description == g.description, "name and description kept")
        h.check(len(g.objects) == len(before) and all(a is b for a, b in zip(g.objects, before)), "the original is unchanged")
        if inner:
            h.check(len(inner.objects) == 1 and inner.objects[0] is ms[0][0], "the inner group is unchanged")
    want = before if insitu else [m for m, _ in ms]
    h.check(len(r.objects) == len(want) and all(any(x is m for x in r.objects) for m in want), "same members", got=r.objects)
    keys = {id(m): k for m, k in ms}
    got = [keys[id(x)] for x in r.objects if id(x) in keys]
    for a, b in zip(got, got[1:]):
        h.check(le(h, a, b), "ascending", got=r.objects)
    h.observe([repr(x) for x in r.objects])


@U.unit(each=[(k, a, b, s) for k in KINDS for a in KINDS[k] for b in KINDS[k] for s in ("insitu", "copy")])
def two(h, v):
    run(h, v[0], v[1:3], v[3] == "insitu", False)


@U.unit(each=[(k, n, s) for k in KINDS for n in (3, 4) for s in ("insitu", "copy")])
def more(h, v):
    k, n, s = v
    ks = [KINDS[k][i % len(KINDS[k])] for i in range(n)]
    if k == "service" and n == 4:
        ks = ["tcp", "udp", "udp"]
    run(h, k, ks, s == "insitu", False)


@U.unit(each=[(k, s) for k in KINDS for s in ("insitu", "copy")])
def nested(h, v):
    run(h, v[0], [KINDS[v[0]][0]] * 2, v[1] == "insitu", True)


@U.unit(each=["insitu", "copy"])
def names(h, s):
    """groups, objects and any entries may stand between the addresses: nothing gets lost"""
    ob = h.mods.ob
    g = ob.NetworkGroup("g", "")
    sub = ob.NetworkGroup(h.chars("n", 2, "aZ-"), "")
    x = ob.NetworkHost(h.a4(h.int("a", 0, M4)))
    sub.add(x)
    o = ob.NetworkObject(h.chars("o", 2, "aZ-"), "", type="host", address=h.a4(h.int("b", 0, M4)))
    ms = [ob.NetworkAny(), sub, o, ob.NetworkAny4()]
    for m in ms:
        g.add(m)
    r = g.sort() if s == "insitu" else g.sort(insitu=False)
    if s == "insitu":
        h.check(len(r.objects) == 4 and all(any(x is m for x in r.objects) for m in ms), "same members")
    else:
        h.check(len(r.objects) == 4 and any(y is x for y in r.objects), "same members, expanded")

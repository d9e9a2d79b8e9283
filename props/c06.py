"""Expanding a group keeps what it denotes and leaves no group inside."""
from .common import *
from .c03 import fnet

U = Units()
unit_fn = U.fn
BOUNDS = ("groups of all five kinds, nested up to 4 levels with up to 3 members per level in 8 nesting shapes; member addresses, "
          "ports, protocol and ICMP numbers symbolic; address ranges of up to 4 addresses; the configuration wide expansion on a "
          "configuration with groups of every kind")

# shapes: a leaf number, or a list (group)
SHAPES = [[0], [0, 1], [[0]], [[0], 1], [1, [0]], [[[0]], 1], [[0, [1]], 2], [[], 0, [[1], []], [[[2]]]]]


def leafs(h, kind, i):
    ob = h.mods.ob
    if kind == "network":
        k = h.choice(f"k{i}", ["host", "net", "object", "range", "six"] if i == 0 else ["host", "object"])
        if k == "host":
            return ob.NetworkHost(h.a4(h.int(f"a{i}", 0, M4)))
        if k == "net":
            return ob.Network(h.a4(h.int(f"a{i}", 0, M4)), h.dec(h.int(f"p{i}", 0, 32)))
        if k == "six":
            return ob.Network(h.a6(h.int(f"b{i}", 0, M6)), h.dec(h.int(f"q{i}", 0, 128)))
        if k == "range":
            a = h.int(f"a{i}", 0, M4 - 3)
            return ob.NetworkObject("o", "", type="range", start=h.a4(a), stop=h.a4(a + h.int(f"r{i}", 0, 3)))
        return ob.NetworkObject("o", "", type="host", address=h.a4(h.int(f"a{i}", 0, M4)))
    if kind == "port":
        if h.choice(f"k{i}", [0, 1]):
            a = h.int(f"a{i}", 0, 65534)
            return ob.PortRange(h.dec(a), h.dec(a + 1))
        return ob.Port("eq", h.dec(h.int(f"a{i}", 0, 65535)))
    if kind == "service":
        p = ob.Port("eq", h.dec(h.int(f"a{i}", 0, 65535)))
        k = h.choice(f"k{i}", ["service", "object", "icmp"])
        if k == "object":
            return ob.ServiceObject("s", "d", protocol=ob.Protocol("tcp"), src=p, dst=ob.Port("gt", "1"))
        if k == "icmp":
            return ob.ServiceObject("s", "d", protocol=ob.Protocol("icmp"), icmp_type=h.dec(h.int(f"t{i}", 0, 255)),
                                    icmp_code=h.dec(h.int(f"c{i}", 0, 255)))
        return ob.Service(ob.Protocol("udp"), None, p)
    if kind == "protocol":
        return ob.Protocol(h.dec(h.int(f"a{i}", 0, 255)))
    return ob.ICMP(h.dec(h.int(f"a{i}", 0, 255)), None)


def mkgroup(h, kind, name):
    ob = h.mods.ob
    return {"network": lambda: ob.NetworkGroup(name, "d"), "port": lambda: ob.PortGroup(name, ob.Protocol("tcp"), "d"),
            "service": lambda: ob.ServiceGroup(name, "d"), "protocol": lambda: ob.ProtocolGroup(name, "d"),
            "icmp": lambda: ob.ICMPGroup(name, "d")}[kind]()


def build(h, kind, shape, leaves, groups, name="g"):
    g = mkgroup(h, kind, name)
    groups.append(g)
    for i, s in enumerate(shape):
        if isinstance(s, int):
            if s not in leaves:
                leaves[s] = leafs(h, kind, s)
            g.add(leaves[s])
        else:
            g.add(build(h, kind, s, leaves, groups, f"{name}{i}"))
    return g


def flat(shape):
    out = []
    for s in shape:
        out.extend([s] if isinstance(s, int) else flat(s))
    return out


def same_member(h, kind, got, leaf):
    """is the expanded member the leaf, or its documented replacement"""
    ob = h.mods.ob
    if kind == "service" and isinstance(leaf, ob.ServiceObject):
        return (type(got) is ob.Service and got.protocol is leaf.protocol and got.src is leaf.src and got.dst is leaf.dst
                and got.icmp_type is leaf.icmp_type and got.icmp_code is leaf.icmp_code)
    return got is leaf


@U.unit(each=[(k, i, s) for k in ("network", "port", "service", "protocol", "icmp") for i in range(len(SHAPES)) for s in ("insitu", "copy")])
def expand(h, v):
    kind, si, how = v
    ob = h.mods.ob
    leaves, groups = {}, []
    g = build(h, kind, SHAPES[si], leaves, groups)
    before = [(x, list(x.objects)) for x in groups]
    probe4, probe6 = h.int("probe4", 0, M4), h.int("probe6", 0, M6)
    if kind == "network":
        had4, had6 = node_has(h, g, probe4, 4), node_has(h, g, probe6, 6)
    r = g.expand() if how == "insitu" else g.expand(insitu=False)
    if how == "insitu":
        h.check(r is g, "in place: the group itself is returned")
    else:
        h.check(r is not g and type(r) is type(g), "a copy of the same kind is returned")
        h.check(all(x.objects == o and all(p is q for p, q in zip(x.objects, o)) for x, o in before),
                "the original group is unchanged")
        h.check(r.name == g.name and r.description == g.description, "name and description kept")
    for x, o in before[1:]:
        h.check(len(x.objects) == len(o) and all(p is q for p, q in zip(x.objects, o)), "inner groups are unchanged")
    if kind == "port":
        h.check(r.protocol is g.protocol, "protocol kept")
    h.check(not any(isinstance(o, (ob._Group, ob.NetworkObject, ob.ServiceObject)) for o in r.objects), "no group or object left",
            got=r.objects)
    order = flat(SHAPES[si])
    if kind == "network":
        h.check(h.Iff(node_has(h, r, probe4, 4), had4), "same IPv4 addresses", group=r)
        h.check(h.Iff(node_has(h, r, probe6, 6), had6), "same IPv6 addresses", group=r)
    else:
        h.check(len(r.objects) == len(order), "every member once per mention", got=len(r.objects), want=len(order))
        h.check(all(same_member(h, kind, o, leaves[i]) for o, i in zip(r.objects, order)), "the members in order", got=r.objects)
    again = list(r.objects)
    r2 = r.expand()
    h.check(len(r2.objects) == len(again) and all(a is b for a, b in zip(r2.objects, again)), "expanding again changes nothing")


CFG = ("object network o1\n host %1\nobject-group network g1\n network-object host %2\n network-object object o1\n"
       "object-group network g2\n group-object g1\n network-object 10.9.0.0 255.255.0.0\n"
       "object-group service p1 tcp\n port-object eq 80\nobject-group service p2 tcp\n group-object p1\n port-object range 1 9\n"
       "object-group protocol r1\n protocol-object tcp\nobject-group protocol r2\n group-object r1\n protocol-object udp\n"
       "object-group icmp-type i1\n icmp-object echo\nobject-group icmp-type i2\n group-object i1\n icmp-object 8\n"
       "object-group service s1\n service-object tcp destination eq 22\nobject-group service s2\n group-object s1\n service-object udp\n"
       "access-list in extended permit tcp object-group g2 any object-group p2\n"
       "access-list in extended deny object-group r2 any object-group g1\n"
       "access-list in extended permit object-group s2 host %3 object-group g2\n")


@U.unit(each=["src", "dst", "any6"])
def configuration(h, side):
    """the expansion of a whole configuration: all groups flat, selection unchanged"""
    ob = h.mods.ob
    t, rest = "", CFG
    for i in range(1, 4):
        a, _, rest = rest.partition(f"%{i}")
        t = cat(t, a, h.a4(h.int(f"m{i}", 0, M4)))
    c = parsed(h, "fwsm", cat(t, rest))
    if c is None:
        return
    text = "ip src any6" if side == "any6" else cat("ip ", side, " ", fnet(h, "f").text)
    ok, f = caf(h, text)
    h.check(ok, "filter accepted")
    if not ok:
        return
    a = c.filter(f)
    names = [(k, sorted(getattr(c.groups, k))) for k in ("network", "port", "service", "protocol", "icmp")]
    c.expand()
    h.check([(k, sorted(getattr(c.groups, k))) for k in ("network", "port", "service", "protocol", "icmp")] == names, "same group names")
    for k, n, sizes in (("network", "g2", 3), ("port", "p2", 2), ("service", "s2", 2), ("protocol", "r2", 2), ("icmp", "i2", 2)):
        g = getattr(c.groups, k)[n]
        h.check(not any(isinstance(o, (ob._Group, ob.NetworkObject, ob.ServiceObject)) for o in g.objects), f"{k} groups are flat")
        h.check(len(g.objects) == sizes, f"{k} group complete", got=g)
    b = c.filter(f)
    h.check(sorted(id(x) for x in a) == sorted(id(x) for x in b), "the same rules are selected")

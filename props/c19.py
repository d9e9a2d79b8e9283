"""Resolving a selection gives everything the selected rules refer to, and nothing else."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("configurations with 3 rules of 19 kinds (every one with four others, every pair in thorough runs) (and 2 NATs of 9 kinds) over 4 network groups nested up to four deep in 6 shapes, objects, names, service, port, protocol and ICMP groups, time ranges and "
          "access groups; the selection made by a filter with symbolic address and list name, reference names symbolic")

BASE = """name 10.9.9.1 nm1
name 10.9.9.2 nm2
interface E0
 nameif in
interface E1
 nameif out
time-range t1
 periodic daily 08:00 to 10:00
time-range t2
 periodic daily 08:00 to 10:00
object network o1
 host 10.0.1.1
object network o2
 host 10.0.1.2
object network o3
 host 10.0.1.3
object service s1
 service tcp destination eq 1
object service s2
 service tcp destination eq 2
object-group service p0 tcp
 port-object eq 9
object-group service p1 tcp
 port-object eq 1
 group-object p0
object-group service p2 udp
 port-object eq 2
 port-object eq 1
object-group service v0
 service-object udp destination eq 9
object-group service v1
 service-object tcp destination eq 1
 service-object object s1
 group-object v0
object-group protocol q0
 protocol-object gre
object-group protocol q1
 protocol-object tcp
 group-object q0
object-group icmp-type i0
 icmp-object echo
object-group icmp-type i1
 icmp-object unreachable
 group-object i0
"""
SHAPES = {"flat": ("", "", "", ""), "chain": ("", "1", "2", "3"), "fork": ("", "", "12", "3"), "diamond": ("", "1", "1", "23"), "two": ("", "1", "", "3"), "late": ("", "", "", "123")}


def groups(shape):
    t = ""
    for i, inner in enumerate(SHAPES[shape]):
        t += f"object-group network g{i + 1}\n network-object host 10.0.2.{i % 2 + 1}\n"
        if i == 0:
            t += " network-object object o3\n network-object host nm2\n"
        t += "".join(f" group-object g{j}\n" for j in inner)
    return t


RULES = {
    "hosts": "ip {a} host 10.0.0.9", "group": "ip {a} object-group g2", "group4": "tcp {a} object-group g4 eq 80", "object": "ip {a} object o1",
    "name": "ip {a} host nm1", "equalports": "tcp {a} eq 80 any eq 80", "ranges": "udp {a} range 1 9 any range 1 9", "equalhosts": "tcp {a} eq 9 host 10.0.1.1", "ports": "tcp {a} object-group p1 any object-group p1", "dports": "udp {a} any object-group p2", "service": "object-group v1 {a} any", "serviceobj": "object s2 {a} any",
    "proto": "object-group q1 {a} object-group g3", "icmp": "icmp {a} any object-group i1", "icmp6": "icmp6 {a} object o1 object-group i0", "netname": "ip {a} nm2 255.255.255.0", "time": "ip {a} any time-range t1", "log time": "ip {a} any log 6 interval 60 time-range t2", "time inactive": "tcp {a} any time-range t1 inactive",
}


def reach(h, c, roots):
    """every object the roots refer to, directly or not (identity)"""
    ob = h.mods.ob
    seen, todo = {}, list(roots)
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen[id(x)] = x
        if isinstance(x, ob.ACLRule):
            todo += [x.protocol, x.src.host, x.src.port, x.dst.host, x.dst.port, x.icmp]
            todo += [v for v in x.options.values() if isinstance(v, ob.TimeRange)]
            for k, l in c.access_groups.items():
                if k == x.id:
                    todo += list(l)
        elif isinstance(x, ob.NATObject):
            for s in (x.real, x.mapped):
                todo += [s.iface, s.service, None if s.src is None else s.src.node, None if s.dst is None else s.dst.node]
        elif isinstance(x, ob._Group):
            todo += list(x.objects)
        elif isinstance(x, (ob.Network, ob.NetworkHost)):
            todo.append(x.target)
        elif isinstance(x, ob.InterfaceAccessGroup):
            todo.append(x.iface)
    return seen


def definitions(c):
    l = []
    for t in (c.groups, c.objects):
        for k in ("network", "service", "port", "protocol", "icmp", "time"):
            l += list(getattr(t, k, {}).values())
    l += list(c.interfaces.values())
    l += c.names.objects
    for g in list(c.groups.network.values()) + list(c.groups.port.values()) + list(c.groups.service.values()) + list(c.groups.protocol.values()) + list(c.groups.icmp.values()):
        l += list(g.objects)
    l += c.rules.rules + c.nat[1] + c.nat[2] + c.nat[3]
    for a in c.access_groups.values():
        l += list(a)
    return l


MARK = {"NetworkGroup", "PortGroup", "ServiceGroup", "ProtocolGroup", "ICMPGroup", "NetworkObject", "ServiceObject", "TimeRange", "Names", "Interface", "NAT"}


def check(h, c, sel):
    ob = h.mods.ob
    roots = list(sel)
    want = reach(h, c, roots)
    got = c.resolve(h.oset(sel))
    objs = {id(x): x for x in got if not isinstance(x, str) and x is not None}
    h.check(set(want) <= set(objs), "everything referred to is there", missing=[x for k, x in want.items() if k not in objs], selected=roots)
    h.check(set(objs) <= set(want), "nothing else is there", extra=[x for k, x in objs.items() if k not in want], selected=roots)
    for d in definitions(c):
        if (id(d) in objs) != (id(d) in want):
            h.check(False, "a definition is there exactly if it is referred to", definition=d)
    kinds = set()
    for x in want.values():
        for k in ("NetworkGroup", "PortGroup", "ServiceGroup", "ProtocolGroup", "ICMPGroup", "NetworkObject", "ServiceObject", "TimeRange"):
            if type(x) is getattr(ob, k):
                kinds.add(k)
        if isinstance(x, ob.InterfaceAccessGroup):
            kinds.add("Interface")
        if isinstance(x, ob.NATObject):
            kinds.add("NAT")
        if isinstance(x, ob.Name):
            kinds.add("Names")
    marks = {x for x in got if isinstance(x, str)} & MARK
    h.check(marks == kinds, "the kinds of definitions are named", got=sorted(marks), want=sorted(kinds))
    for r in roots:
        if isinstance(r, ob.ACLRule):
            h.check(any(isinstance(x, str) and x == r.id for x in got), "list name", got=r.id)


@U.unit(each=[(k, s) for k in RULES for s in SHAPES])
def rules(h, v):
    k, shape = v
    k2 = list(RULES)[(list(RULES).index(k) + list(SHAPES).index(shape) + 1) % len(RULES)]
    a = h.int("a", 0, M4)
    b = h.int("b", 0, M4)
    names = [h.chars(f"l{i}", 1, "xyX") for i in range(2)]
    ag = h.chars("ag", 1, "xX")
    # the group every entry of kind "group" refers to
    text = cat(BASE, groups(shape))
    for n, kind, ad in ((names[0], k, a), (names[1], k2, b)):
        x, y = RULES[kind].split("{a}")
        text = cat(text, "access-list ", n, " extended permit ", x, "host ", h.a4(ad), y, "\n")
    text = cat(text, "access-list w extended permit ip any object-group g1\naccess-group ", ag, " in interface out\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    f = h.int("f", 0, M4)
    h.assume(h.Not(f == b))
    ok, blk = caf(h, cat("id ", h.chars("fn", 1, "xX"), " ip src ", h.a4(f)))
    if ok:
        check(h, c, blk.run(c.rules))


KINDS = list(RULES)


def near(i, j):
    return (j - i) % len(KINDS) in (0, 1, 4, 9)


@U.unit(each=[(k, k2) for i, k in enumerate(KINDS) for j, k2 in enumerate(KINDS) if near(i, j)])
def two(h, v):
    """two selected rules of different kinds"""
    pair(h, v)


@U.unit(each=[(k, k2) for i, k in enumerate(KINDS) for j, k2 in enumerate(KINDS) if not near(i, j)], tiers=("thorough",))
def every_two(h, v):
    pair(h, v)


def pair(h, v):
    text = cat(BASE, groups(h.choice("shape", ["chain", "diamond"])))
    for n, kind in zip("xy", v):
        text = cat(text, "access-list ", n, " extended permit ", RULES[kind].replace("{a}", "any"), "\n")
    text = cat(text, "access-group ", h.chars("ag", 1, "xyX"), " in interface ", h.choice("if", ["in", "out"]), "\n")
    c = parsed(h, "fwsm", text)
    if c is not None:
        check(h, c, c.rules.rules)


NATS = ["static o1 o2", "dynamic any g4", "static g3 g3 destination static o3 o1", "dynamic o1 interface", "dynamic g2 o2 service s1 s2", "static any any",
        "dynamic any pat-pool g4 interface", "static g1 g1", "static o1 o1 service s1 s2"]


@U.unit(each=[(a, b) for a in range(len(NATS)) for b in range(len(NATS))])
def nats(h, v):
    text = cat(BASE, groups(h.choice("shape", ["chain", "diamond"])), "access-list x extended permit ip any host nm1\n")
    for i in v:
        text = cat(text, "nat (in,out) source ", NATS[i], "\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    l = c.nat[1] + c.rules.rules
    pick = h.choice("pick", [(0,), (1,), (0, 1), (0, 2), (0, 1, 2)])
    check(h, c, [l[i] for i in pick if i < len(l)])


@U.unit(each=[(a, b) for a in (1, 2) for b in (1, 2)])
def access_groups(h, v):
    """exactly the interfaces whose access list is selected"""
    n1, n2 = h.chars("n1", v[0], "xX"), h.chars("n2", v[1], "xX")
    h.assume(h.Not(n1 == n2))
    text = cat(BASE, "access-list ", n1, " extended permit ip any any\naccess-list ", n2, " extended permit ip any any\n")
    for i in range(2):
        text = cat(text, "access-group ", h.chars(f"ag{i}", v[i], "xX"), " ", h.choice(f"d{i}", ["in", "out"]), " interface ", ["in", "out"][i], "\n")
    c = parsed(h, "fwsm", text)
    if c is not None:
        check(h, c, [c.rules.rules[h.choice("pick", [0, 1])]])


@U.unit()
def ios(h):
    n = [h.chars(f"n{i}", 1, "xX") for i in range(2)]
    text = cat("object-group network g1\n host 10.0.0.1\nobject-group network g2\n group-object g1\n host 10.0.0.2\ninterface E0\n ip access-group ", n[0], " in\n"
               "interface E1\n ip access-group ", n[1], " out\nip access-list extended x\n permit ip object-group g2 any\nip access-list extended y\n permit ip any object-group g1\n")
    c = parsed(h, "ios", text)
    if c is not None:
        check(h, c, [c.rules.rules[h.choice("pick", [0, 1])]])

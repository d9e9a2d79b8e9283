"""A reference denotes exactly the definition of that name and kind; a reference to nothing is refused."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("two definitions (and one of another kind with the same name) and one reference, each with a name of 1 to 3 symbolic characters over a "
          "3 letter alphabet, so names that are equal, prefixes of one another, or differ in case all occur; 33 kinds of reference")
CH = "aA-."


def host_group(n, i):
    return cat("object-group network ", n, "\n network-object host 10.0.0.", str(i), "\n")


def host_object(n, i):
    return cat("object network ", n, "\n host 10.0.0.", str(i), "\n")


def iface(n, i):
    return cat("interface Ethernet", str(i), "\n nameif ", n, "\n")


def mark_host(x):
    while not hasattr(x, "address"):
        x = (x.addresses if hasattr(x, "addresses") else x.objects)[0]
    return int(x.address) & 255


def mark_port(x):
    while hasattr(x, "objects"):
        x = x.objects[0]
    x = getattr(x, "dst", x)
    return int(x.num) - 1000


def mark_net(x):
    return int(x.network.network_address) >> 8 & 255


def rule(c):
    return c.rules.rules[0]


R = "access-list foo extended permit "
# name: (dialect, definition(name, i), reference(name), mark(config))
CTX = {
    "rule source group": ("fwsm", host_group, lambda n: cat(R, "ip object-group ", n, " any\n"), lambda c: mark_host(rule(c).src.host)),
    "rule destination group": ("fwsm", host_group, lambda n: cat(R, "ip any object-group ", n, "\n"), lambda c: mark_host(rule(c).dst.host)),
    "rule destination group, port": ("fwsm", host_group, lambda n: cat(R, "tcp any object-group ", n, " eq 80\n"), lambda c: mark_host(rule(c).dst.host)),
    "rule source object": ("fwsm", host_object, lambda n: cat(R, "ip object ", n, " any\n"), lambda c: mark_host(rule(c).src.host)),
    "rule destination object": ("fwsm", host_object, lambda n: cat(R, "icmp any object ", n, " echo\n"), lambda c: mark_host(rule(c).dst.host)),
    "group-object": ("fwsm", host_group, lambda n: cat("object-group network zz\n group-object ", n, "\n"), lambda c: mark_host(c.groups.network["zz"])),
    "network-object object": ("fwsm", host_object, lambda n: cat("object-group network zz\n network-object object ", n, "\n"),
                              lambda c: mark_host(c.groups.network["zz"])),
    "rule port group": ("fwsm", lambda n, i: cat("object-group service ", n, " tcp\n port-object eq ", str(1000 + i), "\n"),
                        lambda n: cat(R, "tcp any any object-group ", n, "\n"), lambda c: mark_port(rule(c).dst.port)),
    "rule source port group": ("fwsm", lambda n, i: cat("object-group service ", n, " tcp\n port-object eq ", str(1000 + i), "\n"),
                               lambda n: cat(R, "tcp any object-group ", n, " any eq 80\n"), lambda c: mark_port(rule(c).src.port)),
    "port group-object": ("fwsm", lambda n, i: cat("object-group service ", n, " tcp\n port-object eq ", str(1000 + i), "\n"),
                          lambda n: cat("object-group service zz tcp\n group-object ", n, "\n"), lambda c: mark_port(c.groups.port["zz"])),
    "rule service group": ("fwsm", lambda n, i: cat("object-group service ", n, "\n service-object tcp destination eq ", str(1000 + i), "\n"),
                           lambda n: cat(R, "object-group ", n, " any any\n"), lambda c: mark_port(rule(c).protocol)),
    "service group-object": ("fwsm", lambda n, i: cat("object-group service ", n, "\n service-object tcp destination eq ", str(1000 + i), "\n"),
                             lambda n: cat("object-group service zz\n group-object ", n, "\n"), lambda c: mark_port(c.groups.service["zz"])),
    "rule service object": ("fwsm", lambda n, i: cat("object service ", n, "\n service tcp destination eq ", str(1000 + i), "\n"),
                            lambda n: cat(R, "object ", n, " any any\n"), lambda c: mark_port(rule(c).protocol)),
    "service-object object": ("fwsm", lambda n, i: cat("object service ", n, "\n service tcp destination eq ", str(1000 + i), "\n"),
                              lambda n: cat("object-group service zz\n service-object object ", n, "\n"), lambda c: mark_port(c.groups.service["zz"])),
    "rule protocol group": ("fwsm", lambda n, i: cat("object-group protocol ", n, "\n protocol-object ", str(100 + i), "\n"),
                            lambda n: cat(R, "object-group ", n, " any any\n"), lambda c: int(rule(c).protocol.objects[0].name) - 100),
    "protocol group-object": ("fwsm", lambda n, i: cat("object-group protocol ", n, "\n protocol-object ", str(100 + i), "\n"),
                              lambda n: cat("object-group protocol zz\n group-object ", n, "\n"),
                              lambda c: int(c.groups.protocol["zz"].objects[0].objects[0].name) - 100),
    "rule icmp group": ("fwsm", lambda n, i: cat("object-group icmp-type ", n, "\n icmp-object ", str(100 + i), "\n"),
                        lambda n: cat(R, "icmp any any object-group ", n, "\n"), lambda c: int(rule(c).icmp.objects[0].type) - 100),
    "icmp group-object": ("fwsm", lambda n, i: cat("object-group icmp-type ", n, "\n icmp-object ", str(100 + i), "\n"),
                          lambda n: cat("object-group icmp-type zz\n group-object ", n, "\n"),
                          lambda c: int(c.groups.icmp["zz"].objects[0].objects[0].type) - 100),
    "time-range": ("fwsm", lambda n, i: cat("time-range ", n, "\n periodic daily 0", str(i), ":00 to 10:00\n"),
                   lambda n: cat(R, "ip any any time-range ", n, "\n"), lambda c: rule(c).options["time-range"].objects[0].startTime.hour),
    "name as host": ("fwsm", lambda n, i: cat("name 10.0.0.", str(i), " ", n, "\n"), lambda n: cat(R, "ip host ", n, " any\n"), lambda c: mark_host(rule(c).src.host)),
    "name as network": ("fwsm", lambda n, i: cat("name 10.0.", str(i), ".0 ", n, "\n"), lambda n: cat(R, "ip any ", n, " 255.255.255.0\n"),
                        lambda c: mark_net(rule(c).dst.host)),
    "name in group": ("fwsm", lambda n, i: cat("name 10.0.0.", str(i), " ", n, "\n"), lambda n: cat("object-group network zz\n network-object host ", n, "\n"),
                      lambda c: mark_host(c.groups.network["zz"])),
    "name in group as network": ("fwsm", lambda n, i: cat("name 10.0.", str(i), ".0 ", n, "\n"),
                                 lambda n: cat("object-group network zz\n network-object ", n, " 255.255.255.0\n"),
                                 lambda c: mark_net(c.groups.network["zz"].objects[0])),
    "nat source": ("fwsm", host_object, lambda n: cat("interface E0\n nameif in\nobject network zz\n host 10.0.0.9\n"
                                                      "nat (in,any) source static zz ", n, "\n"), lambda c: mark_host(c.nat[1][0].mapped.src.node)),
    "nat real": ("fwsm", host_object, lambda n: cat("interface E0\n nameif in\nobject network zz\n host 10.0.0.9\n"
                                                    "nat (in,any) source dynamic ", n, " zz\n"), lambda c: mark_host(c.nat[1][0].real.src.node)),
    "nat destination group": ("fwsm", host_group, lambda n: cat("interface E0\n nameif in\nobject network zz\n host 10.0.0.9\n"
                                                                "nat (in,any) source static zz zz destination static ", n, " zz\n"),
                              lambda c: mark_host(c.nat[1][0].mapped.dst.node)),
    "ios rule group": ("ios", lambda n, i: cat("object-group network ", n, "\n host 10.0.0.", str(i), "\n"),
                       lambda n: cat("ip access-list extended foo\n permit ip object-group ", n, " any\n"), lambda c: mark_host(rule(c).src.host)),
    "ios group-object": ("ios", lambda n, i: cat("object-group network ", n, "\n host 10.0.0.", str(i), "\n"),
                         lambda n: cat("object-group network zz\n group-object ", n, "\n"), lambda c: mark_host(c.groups.network["zz"])),
    "ios service group": ("ios", lambda n, i: cat("object-group service ", n, "\n ", str(100 + i), "\n"),
                          lambda n: cat("ip access-list extended foo\n permit object-group ", n, " any any\n"),
                          lambda c: int(rule(c).protocol.objects[0].protocol.name) - 100),
}
LENS = [(1, 1, 1), (1, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (1, 2, 3), (2, 3, 2)]
LENS_T = [(1, 3, 3), (3, 3, 3), (3, 2, 2), (3, 2, 3), (2, 3, 3), (2, 2, 3)]


def name(h, n, size, ident):
    if not ident:
        return h.chars(n, size, CH)
    x = h.chars(n, 1, "aA")
    return cat(x, h.chars(n + "+", size - 1, CH)) if size > 1 else x


def references(h, k, lens):
    d, define, refer, mark = CTX[k]
    ident = k.startswith("name") or k == "time-range"
    n1, n2, n3 = name(h, "n1", lens[0], ident), name(h, "n2", lens[1], ident), name(h, "n3", lens[2], ident)
    h.assume(h.Not(n1 == n2))
    is1, is2 = n3 == n1, n3 == n2
    text = cat(define(n1, 1), define(n2, 2), refer(n3))
    ok, c = parse(h, d, text)
    h.check(h.Iff(ok, h.Or(is1, is2)), "accepted exactly if the name is defined", text=text, error=None if ok else repr(c)[:200])
    if ok:
        m = mark(c)
        h.check(h.And(h.Or(h.Not(is1), m == 1), h.Or(h.Not(is2), m == 2)), "the definition of that name", text=text, got=m)


@U.unit(each=[(k,) + l for k in CTX for l in LENS])
def reference(h, v):
    references(h, v[0], v[1:])


@U.unit(each=[(k,) + l for k in CTX for l in LENS_T], tiers=("thorough",))
def reference_long(h, v):
    references(h, v[0], v[1:])


@U.unit(each=["network", "service"])
def kinds(h, k):
    """'object' refers to an object, 'object-group' to a group, whatever else has that name"""
    n = h.chars("n", 2, CH)
    m = h.chars("m", 2, CH)
    if k == "network":
        text = cat(host_object(n, 1), host_group(m, 2))
        a = cat(text, R, "ip object ", m, " any\n")
        b = cat(text, R, "ip object-group ", n, " any\n")
        mark = lambda c: mark_host(rule(c).src.host)
    else:
        text = cat("object service ", n, "\n service tcp destination eq 1001\nobject-group service ", m, "\n service-object tcp destination eq 1002\n")
        a = cat(text, R, "object ", m, " any any\n")
        b = cat(text, R, "object-group ", n, " any any\n")
        mark = lambda c: mark_port(rule(c).protocol)
    for t, want in ((a, 1), (b, 2)):
        ok, c = parse(h, "fwsm", t)
        h.check(h.Iff(ok, n == m), "accepted exactly if there is one of that kind", text=t)
        if ok:
            h.check(mark(c) == want, "the one of that kind", text=t)


@U.unit(each=["source", "destination"])
def before_definition(h, side):
    """a group has to be defined before it is used"""
    n = h.chars("n", 2, CH)
    r = cat(R, "ip object-group ", n, " any\n") if side == "source" else cat(R, "ip any object-group ", n, "\n")
    ok, c = parse(h, "fwsm", cat(r, host_group(n, 1)))
    h.check(not ok, "refused")


# -- interfaces ---------------------------------------------------------------------------
@U.unit(each=[(k,) + l for k in ("access-group", "nat real", "nat mapped", "object nat") for l in LENS])
def interfaces(h, v):
    k, *lens = v
    n1, n2, n3 = name(h, "n1", lens[0], True), name(h, "n2", lens[1], True), name(h, "n3", lens[2], True)
    h.assume(h.Not(n1 == n2))
    is1, is2 = n3 == n1, n3 == n2
    text = cat(iface(n1, 1), iface(n2, 2))
    if k == "access-group":
        text = cat(text, R, "ip any any\naccess-group foo in interface ", n3, "\n")
        c = parsed(h, "fwsm", text)
        if c is None:
            return
        for i, is_ in ((1, is1), (2, is2)):
            j = c.interfaces[f"Ethernet{i}"]
            h.check(h.Iff(is_, len(j.access_groups) == 1), "applied to the interface of that name only", text=text, got=j.access_groups)
        for a in c.access_groups.get("foo", []):
            h.check(a.iface is c.interfaces["Ethernet1" if is1 else "Ethernet2"], "its interface")
        h.check(h.Iff(len(c.access_groups.get("foo", [])) == 1, h.Or(is1, is2)), "registered once")
        return
    text = cat(text, host_object("zz", 9))
    if k == "object nat":
        text = cat(text, "object network yy\n host 10.0.0.8\n nat (any,", n3, ") static zz\n")
    else:
        text = cat(text, "nat (", n3 if k == "nat real" else "any", ",", n3 if k == "nat mapped" else "any", ") source static zz zz\n")
    ok, c = parse(h, "fwsm", text)
    h.check(h.Iff(ok, h.Or(is1, is2)), "accepted exactly if there is such an interface", text=text, error=None if ok else repr(c)[:200])
    if ok:
        n = (c.nat[2] if k == "object nat" else c.nat[1])[0]
        got = (n.real if k == "nat real" else n.mapped).iface.name
        h.check(got == n3, "that interface", got=got)


@U.unit(each=LENS)
def ios_access_group(h, lens):
    """an access-group names its list, and applies in its direction only"""
    n1, n2, n3 = (h.chars(f"n{i}", l, CH) for i, l in enumerate(lens))
    h.assume(h.Not(n1 == n2))
    d = h.choice("dir", ["in", "out"])
    text = cat("interface E0\n ip access-group ", n3, " ", d, "\ninterface E1\n no shutdown\nip access-list extended ", n1,
               "\n permit ip any any\nip access-list extended ", n2, "\n permit ip any any\n")
    c = parsed(h, "ios", text)
    if c is None:
        return
    h.check(len(c.interfaces["E0"].access_groups) == 1 and not c.interfaces["E1"].access_groups, "one application")
    a = list(c.interfaces["E0"].access_groups.values())[0]
    h.check(h.And(a.name == n3, a.direction == d, a.iface is c.interfaces["E0"]), "list, direction, interface", got=(a.name, a.direction))
    for n, i in ((n1, 0), (n2, 1)):
        h.check(c.rules.rules[i].id == n, "rule list name")
        h.check(h.Iff(len([y for x in c.access_groups.values() for y in x if y.name == n]) == 1, n3 == n), "found under the list's name")

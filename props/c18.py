"""Every IPv4 static route of an IOS configuration is read with its network and gateway, and attached to the interfaces it leaves through."""
from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("IOS configurations with up to 3 interfaces (up to 2 addresses each, IPv4 or IPv6) and up to 3 static routes via an address or an interface; all addresses, "
          "interface prefix lengths 0, 8, 24, 30, 32 and route prefix lengths symbolic; interface names of up to 3 symbolic characters; lines between the routes")
IFP = [0, 8, 24, 30, 32]


def mk_route(h, n, gw, tail=""):
    a, p = h.int("rn" + n, 0, M4), h.int("rp" + n, 0, 32)
    m = mask_of(p, 4)
    h.assume((a & m) == a)
    return (a, m), cat("ip route ", h.a4(a), " ", h.a4(m), " ", gw, tail, "\n")


def check_route(h, r, net, gw, i=None):
    h.check(h.And(num(r.network.network_address) == net[0], num(r.network.netmask) == net[1]), "network", got=r.network)
    if i is not None:
        h.check(r.gw is i, "gateway interface", got=r.gw)
    else:
        h.check(not isinstance(r.gw, h.mods.ob.Interface) and num(r.gw) == gw, "gateway address", got=r.gw)


TAILS = ["", " 200", " name foo", " 10 name ip", " permanent", " track 1"]


@U.unit(each=[(t, p) for t in TAILS for p in ("before", "after")])
def via_address(h, v):
    """one route, two interfaces"""
    tail, pos = v
    gw = h.int("gw", 0, M4)
    net, rt = mk_route(h, "", h.a4(gw), tail)
    text, ifs = "", []
    for i in range(2):
        a = h.int(f"a{i}", 0, M4)
        p = h.choice(f"p{i}", [24, 32] if i else IFP)
        m = mask_of(p, 4)
        ifs.append((a, m))
        text = cat(text, "interface E", str(i), "\n ip address ", h.a4(a), " ", h.a4(m), "\n!\n")
    c = parsed(h, "ios", cat(rt, text) if pos == "before" else cat(text, rt))
    if c is None:
        return
    h.check(len(c.routes) == 1, "one route", got=c.routes)
    for r in c.routes:
        check_route(h, r, net, gw)
        for i, (a, m) in enumerate(ifs):
            at = r in c.interfaces[f"E{i}"].routes
            h.check(h.Iff(at, ((gw ^ a) & m) == 0), "attached exactly to the interfaces connected to the gateway", interface=i, got=at)


@U.unit(each=["two v4", "v6+v4", "v4 secondary", "none", "v6"])
def addresses(h, k):
    """any address of the interface counts"""
    gw = h.int("gw", 0, M4)
    net, rt = mk_route(h, "", h.a4(gw))
    spec, text = [], "interface E0\n"
    for i in range(2):
        if k in ("none",) or (k == "v6" and i == 0):
            continue
        if k.startswith("v6") and i == 0 or k == "v6":
            a, p = h.int(f"a{i}", 0, M6), h.int(f"p{i}", 0, 128)
            text = cat(text, " ipv6 address ", h.a6(a), "/", h.dec(p), "\n")
        else:
            a = h.int(f"a{i}", 0, M4)
            m = mask_of(h.choice(f"p{i}", IFP), 4)
            spec.append((a, m))
            text = cat(text, " ip address ", h.a4(a), " ", h.a4(m), " secondary" if i and "sec" in k else "", "\n")
    c = parsed(h, "ios", cat(text, rt))
    if c is None:
        return
    h.check(len(c.routes) == 1, "one route")
    for r in c.routes:
        check_route(h, r, net, gw)
        at = r in c.interfaces["E0"].routes
        h.check(len(c.interfaces["E0"].routes) == (1 if at else 0), "once")
        h.check(h.Iff(at, h.Or(*[((gw ^ a) & m) == 0 for a, m in spec])), "attached exactly if one of the addresses is connected to the gateway", got=at)


@U.unit(each=[(a, b, c) for a in (1, 2) for b in (1, 2) for c in (1, 2)] + [(2, 3, 2), (2, 3, 3), (3, 2, 1)])
def via_interface(h, v):
    """the gateway is the interface of exactly that name; a name that is no interface is no route"""
    n1, n2 = h.chars("n1", v[0], "eE1/"), h.chars("n2", v[1], "eE1/")
    x = h.chars("x", v[2], "eE1/")
    for n in (n1, n2):
        h.assume(h.Not(h.Or(n[0] == "1", n[0] == "/")))
    h.assume(h.Not(n1 == n2))
    tail = h.choice("tail", ["", " 10.0.0.1", " 200"])
    net, rt = mk_route(h, "", x, tail)
    c = parsed(h, "ios", cat("interface ", n1, "\n ip address 10.0.0.2 255.0.0.0\n!\ninterface ", n2, "\n!\n", rt))
    if c is None:
        return
    i1, i2 = c.interfaces[n1], c.interfaces[n2]
    is1, is2 = x == n1, x == n2
    k = len(c.routes)
    h.check(h.Iff(k == 1, h.Or(is1, is2)) and k <= 1, "a route exactly if the interface exists", got=k)
    for r in c.routes:
        h.check(h.And(num(r.network.network_address) == net[0], num(r.network.netmask) == net[1]), "network")
        h.check(h.Iff(r.gw is i1, is1), "gateway is that interface", got=r.gw)
        h.check(h.Iff(r.gw is i2, is2), "gateway is that interface", got=r.gw)
        for i, w in ((i1, is1), (i2, is2)):
            h.check(h.Iff(r in i.routes, w), "attached to that interface only", got=i.routes)


@U.unit(each=[(a, b) for a in ("addr", "if") for b in ("addr", "if")])
def several(h, v):
    """all routes are kept in order, also around other lines"""
    want, text = [], "interface E0\n ip address 10.0.0.1 255.255.255.0\n!\ninterface E1\n ip address 10.0.1.1 255.255.255.0\n!\n"
    for i, k in enumerate(v + (h.choice("third", ["addr", "if"]),)):
        gw = h.int(f"gw{i}", 0, M4) if k == "addr" else None
        net, rt = mk_route(h, str(i), h.a4(gw) if k == "addr" else "E1")
        text = cat(text, rt, h.choice(f"mid{i}", ["", "!\n", "ip route vrf x 1.0.0.0 255.0.0.0 10.0.0.1\n"] if i == 0 else ["", "ip http server\n"]))
        want.append((net, gw))
    c = parsed(h, "ios", text)
    if c is None:
        return
    h.check(len(c.routes) == 3, "three routes", got=len(c.routes))
    on = [h.mods.ob and c.interfaces["E0"], c.interfaces["E1"]]
    for r, (net, gw) in zip(c.routes, want):
        check_route(h, r, net, gw, on[1] if gw is None else None)
        for i, f in enumerate(on):
            h.check(h.Iff(r in f.routes, i == 1 if gw is None else (gw ^ (0x0a000001 + 256 * i)) & 0xffffff00 == 0), "attached to the interface it leaves through",
                    got=f.routes)


@U.unit()
def host_bits(h):
    """a network with host bits set is refused, never silently another network"""
    a, p = h.int("a", 0, M4), h.int("p", 0, 32)
    m = mask_of(p, 4)
    ok, c = parse(h, "ios", cat("ip route ", h.a4(a), " ", h.a4(m), " 10.0.0.1\n"))
    if ok:
        h.check(len(c.routes) <= 1, "at most one route")
        for r in c.routes:
            h.check(h.And(num(r.network.network_address) == a, num(r.network.netmask) == m), "the network written", got=r.network)
    else:
        h.check(h.Not((a & m) == a), "a proper network is accepted")


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("ios", "ip route", second="all"))
def neighbours(h, v):
    c28.rotated(h, v)

"""Interfaces carry exactly the names, addresses, access lists, description and VLANs written for them."""
from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("configurations of up to 3 interfaces with up to 3 detail lines of 15 (ASA/FWSM) and 17 (IOS) kinds in every order; addresses, prefix lengths, names (1-2 characters), descriptions "
          "(3 characters) and VLAN numbers symbolic; up to 3 access-group statements; VLAN lists of up to 4 ranges in up to 2 lines")
TXT = "ab -!"


def desc(h, n):
    d = h.chars(n, 3, TXT)
    h.assume(h.Not(d[0] == " "))
    h.assume(h.Not(d[2] == " "))
    return d


def detail(h, d, k, n, e):
    """one line below an interface; e: what is expected so far"""
    if k == "desc":
        e["description"] = x = desc(h, "d" + n)
        return cat(" description ", x, "\n")
    if k == "nameif":
        e["nameif"] = x = h.chars("n" + n, 2, "aA1")
        h.assume(h.Not(x[0] == "1"))
        return cat(" nameif ", x, "\n")
    if k in ("ip", "standby", "secondary"):
        a, p = h.int("a" + n, 0, M4), h.int("p" + n, 0, 32)
        e["addresses"].append((4, a, p))
        tail = "" if k == "ip" else (cat(" standby ", h.a4(h.int("s" + n, 0, M4))) if k == "standby" else " secondary")
        return cat(" ip address ", h.a4(a), " ", h.a4(mask_of(p, 4)), tail, "\n")
    if k in ("ip6", "standby6"):
        a, p = h.int("a" + n, 0, M6), h.int("p" + n, 0, 128)
        e["addresses"].append((6, a, p))
        return cat(" ipv6 address ", h.a6(a), "/", h.dec(p), cat(" standby ", h.a6(h.int("s" + n, 0, M6))) if k == "standby6" else "", "\n")
    if k == "linklocal":
        a = h.int("a" + n, 0, M6)
        e["addresses"].append((6, a, 128))
        return cat(" ipv6 address ", h.a6(a), " link-local\n")
    if k in ("in", "out"):
        x = h.chars("g" + n, 2, "aA1")
        e["groups"]["ip-" + k] = x
        return cat(" ip access-group ", x, " ", k, "\n")
    if k in ("in6", "out6"):
        x = h.chars("g" + n, 2, "aA1")
        e["groups"]["ipv6-" + k[:-1]] = x
        return cat(" ipv6 traffic-filter ", x, " ", k[:-1], "\n")
    return {"shut": " shutdown\n", "no": " no ip address\n", "dhcp": " ip address dhcp\n", "level": " security-level 50\n", "noname": " no nameif\n",
            "vlan": " vlan 17\n", "trail": " speed 100 \n", "blank": " \n", "nodesc": " no description foo\n", "helper": " ip helper-address 10.1.2.3\n",
            "mode": None}[k]


def check_iface(h, i, e):
    h.check(i.alias == e["alias"], "interface name", got=i.alias)
    for a in ("nameif", "description"):
        if e[a] is None:
            h.check(i.__dict__[a] is None, "no " + a, got=i.__dict__[a])
        else:
            h.check(i.__dict__[a] == e[a], a, got=i.__dict__[a])
    h.check(len(i.addresses) == len(e["addresses"]), "number of addresses", got=i.addresses)
    for x, (fam, a, p) in zip(i.addresses, e["addresses"]):
        f = x.interface
        h.check(f.version == fam, "address family", got=f)
        if f.version == fam:
            h.check(num(f.ip) == a, "address", got=f)
            h.check(num(f.network.netmask) == mask_of(p, fam), "prefix length", got=f)
            h.check(num(f.network.network_address) == (a & mask_of(p, fam)), "connected network", got=f)
    h.check(set(i.access_groups) == set(e["groups"]), "access list directions", got=list(i.access_groups))
    for k, x in e["groups"].items():
        g = i.access_groups.get(k)
        if g is not None:
            h.check(g.name == x, "access list of that direction", got=g.name)
            h.check(g.iface is i, "bound to the interface")


def new(alias):
    return dict(alias=alias, nameif=None, description=None, addresses=[], groups={})


ASA = ["desc", "nameif", "ip", "standby", "ip6", "standby6", "shut", "no", "dhcp", "level", "noname", "vlan", "trail", "blank", "nodesc"]
IOS = ["desc", "ip", "secondary", "ip6", "linklocal", "in", "out", "in6", "out6", "shut", "no", "dhcp", "trail", "blank", "nodesc", "helper", "vlan"]


def once(kinds):
    """lines that may stand only once"""
    l = [k for k in kinds if k in ("desc", "nameif", "in", "out", "in6", "out6")]
    return len(l) == len(set(l))


def details(h, d, kinds):
    e = new("Ethernet0/1")
    text = cat("interface Ethernet0/1\n", *[detail(h, d, k, str(i), e) for i, k in enumerate(kinds)])
    c = parsed(h, d, text)
    if c is not None:
        h.check(len(c.interfaces) == 1 and "Ethernet0/1" in c.interfaces, "one interface", got=list(c.interfaces), text=text)
        for i in c.interfaces.values():
            check_iface(h, i, e)


@U.unit(each=[(d, a, b) for d, l in (("fwsm", ASA), ("ios", IOS)) for a in l for b in l if once((a, b))])
def lines(h, v):
    details(h, v[0], v[1:])


@U.unit(each=[(d, a, b) for d, l in (("fwsm", ASA), ("ios", IOS)) for a in l for b in l if once((a, b))], tiers=("thorough",))
def lines3(h, v):
    d, a, b = v
    details(h, d, (a, b, h.choice("third", [k for k in (ASA if d == "fwsm" else IOS) if once((a, b, k))])))


@U.unit(each=["fwsm", "ios"])
def keyword_description(h, d):
    """a description that looks like configuration is a description"""
    t = h.choice("text", ["ip address 10.0.0.1 255.0.0.0", "nameif x", "interface Ethernet0/2", "description x", "ip access-group 101 in", "no description", "! x"])
    e = new("Ethernet0/1")
    e["description"] = t
    c = parsed(h, d, cat("interface Ethernet0/1\n description ", t, "\n"))
    if c is not None:
        h.check(len(c.interfaces) == 1, "one interface", got=list(c.interfaces))
        for i in c.interfaces.values():
            check_iface(h, i, e)


@U.unit(each=[(d, s, k) for d in ("fwsm", "ios") for s in ("", "!\n") for k in (1, 2)])
def several(h, v):
    """each line belongs to the interface above it"""
    d, sep, n = v
    es, text = [], ""
    for i in range(3):
        al = h.chars(f"al{i}", n, "Ee1.")
        for o in es:
            h.assume(h.Not(al == o["alias"]))
        e = new(al)
        ks = [(["nameif", "ip"] if d == "fwsm" else ["in", "ip"]), ["desc"], (["ip"] if d == "fwsm" else ["ip", "out"])][i]
        body = [detail(h, d, k, f"{i}{k}", e) for k in ks]
        es.append(e)
        text = cat(text, "interface ", al, "\n", *body, sep)
    c = parsed(h, d, text)
    if c is None:
        return
    got = list(c.interfaces.values())
    h.check(len(got) == 3, "three interfaces", got=got)
    for i, e in zip(got, es):
        check_iface(h, i, e)
    if d == "ios":
        for e in es:
            for x in e["groups"].values():
                h.check(x in c.access_groups and any(b.name == x for b in c.access_groups[x]), "listed with the access groups")


# -- ASA access-group ------------------------------------------------------------------------
@U.unit(each=[(n, o) for n in (1, 2, 3) for o in (False, True)])
def access_group(h, v):
    """an access-group statement binds its list to the interface of that name, in that direction"""
    n, more = v
    text = ""
    names = [h.chars(f"n{i}", 2, "aA") for i in range(2)]
    h.assume(h.Not(names[0] == names[1]))
    for i, x in enumerate(names):
        text = cat(text, "interface Ethernet", str(i), "\n nameif ", x, "\n" if not more else "\n security-level 50\n", " ip address 10.0.0.", str(i + 1), " 255.0.0.0\n")
    want = {0: {}, 1: {}}
    groups = []
    for k in range(n):
        g = h.chars(f"g{k}", 2, "xX")
        t = h.choice(f"t{k}", [0, 1])
        dr = h.choice(f"dir{k}", ["in", "out"])
        if dr in want[t]:
            return
        want[t][dr] = g
        groups.append((g, t, dr))
        text = cat(text, "access-group ", g, " ", dr, " interface ", names[t], "\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    ifs = list(c.interfaces.values())
    h.check(len(ifs) == 2, "two interfaces")
    for i, x in enumerate(ifs):
        h.check(set(x.access_groups) == set(want[i]), "bound to the named interface only", got=list(x.access_groups), text=text)
        for dr, g in want[i].items():
            if dr in x.access_groups:
                b = x.access_groups[dr]
                h.check(b.name == g and b.iface is x and b.direction == dr, "list and direction", got=b.name)
    for g, t, dr in groups:
        ok = g in c.access_groups
        h.check(ok, "listed under the name of the list")
        if ok:
            h.check(any(b.iface is ifs[t] and b.direction == dr for b in c.access_groups[g]), "with its interface and direction")
    h.check(sum(len(l) for l in c.access_groups.values()) == n, "nothing else is listed")


@U.unit(each=[(a, b, t) for a, b in ((1, 2), (2, 1), (3, 2), (2, 3)) for t in (0, 1)])
def access_group_name(h, v):
    """names that begin, end or contain one another, or differ in case"""
    la, lb, t = v
    names = [h.chars("n0", la, "aA"), h.chars("n1", lb, "aA")]
    g, d = h.chars("g", 1, "xX"), h.choice("dir", ["in", "out"])
    text = ""
    for i, x in enumerate(names):
        text = cat(text, "interface Ethernet", str(i), "\n nameif ", x, "\n")
    c = parsed(h, "fwsm", cat(text, "interface Ethernet2\n shutdown\naccess-group ", g, " ", d, " interface ", names[t], "\n"))
    if c is None:
        return
    ifs = list(c.interfaces.values())
    h.check(len(ifs) == 3, "three interfaces")
    for i, x in enumerate(ifs):
        h.check(list(x.access_groups) == ([d] if i == t else []), "bound to the named interface only", got=list(x.access_groups), text=text)
    h.check([(b.name, b.iface is ifs[t]) for l in c.access_groups.values() for b in l] == [(g, True)], "listed once, with its interface")


# -- VLANs --------------------------------------------------------------------------------------
SHAPES = ["v", "r", "vv", "vr", "rv", "rr", "vrv", "rvvr"]


def vlans(h, n, shape):
    text, want = "", []
    for i, k in enumerate(shape):
        a = h.int(f"v{n}{i}", 1, 4094)
        if i:
            text = cat(text, ",")
        if k == "v":
            want.append((a, a))
            text = cat(text, h.dec(a))
        else:
            b = h.int(f"w{n}{i}", 1, 4094)
            h.assume(a < b)
            want.append((a, b))
            text = cat(text, h.dec(a), "-", h.dec(b))
    return text, want


@U.unit(each=[(a, b, m) for a in SHAPES for b in [""] + SHAPES[:4] for m in ("trunk", "")])
def trunk(h, v):
    a, b, m = v
    t1, w1 = vlans(h, "a", a)
    text = cat("interface Ethernet0\n", " switchport mode trunk\n" if m else "", " switchport trunk allowed vlan ", t1, "\n")
    want = w1
    if b:
        t2, w2 = vlans(h, "b", b)
        op = h.choice("op", ["add ", ""])
        text = cat(text, " switchport trunk allowed vlan ", op, t2, "\n")
        want = w1 + w2 if op else w2
    c = parsed(h, "ios", text)
    if c is None:
        return
    s = c.interfaces["Ethernet0"].switchport
    h.check(s is not None and s.mode == m, "switchport mode", got=None if s is None else s.mode)
    items = s.trunk.items if s is not None and s.trunk is not None else []
    h.check(len(items) == len(want), "number of VLAN ranges", got=items)
    for x, (lo, hi) in zip(items, want):
        ob = h.mods.ob
        g = (x.value, x.value) if isinstance(x, ob.VLAN) else (x.start, x.end)
        h.check(h.And(numeq(h, g[0], lo), numeq(h, g[1], hi)), "the VLANs written", got=x)


@U.unit(each=["access", "trunk"])
def mode(h, m):
    c = parsed(h, "ios", cat("interface Ethernet0\n switchport mode ", m, "\n description ", desc(h, "d"), "\ninterface Ethernet1\n"))
    if c is not None:
        s, o = c.interfaces["Ethernet0"].switchport, c.interfaces["Ethernet1"].switchport
        h.check(s is not None and s.mode == m and s.trunk is None, "mode", got=s)
        h.check(o is None, "the other interface has no switchport", got=o)


# -- names ----------------------------------------------------------------------------------------
@U.unit(each=["fwsm", "ios"])
def hostname(h, d):
    x = h.chars("x", 3, "aA-1")
    h.assume(h.Not(h.Or(x[0] == "-", x[0] == "1")))
    y = h.chars("y", 3, "aA.1")
    h.assume(h.Not(h.Or(y[0] == ".", y[2] == ".", h.And(y[0] == "1"))))
    dn = h.choice("domain", ["domain-name ", "ip domain name "] if d == "ios" else ["domain-name "])
    hl, dl = cat("hostname ", x, "\n"), cat(dn, y, "\n")
    rule = "access-list 101 permit ip any any\n" if d == "ios" else "access-list foo extended permit ip any any\n"
    text = {"host first": cat(hl, dl, rule), "domain first": cat(dl, hl, rule), "apart": cat(hl, rule, dl), "domain apart": cat(dl, rule, hl)}[
        h.choice("order", ["host first", "domain first", "apart", "domain apart"])]
    c = parsed(h, d, text)
    if c is not None:
        h.check(c.hostname == x, "host name", got=c.hostname)
        h.check(c.domainname == y, "domain name", got=c.domainname)
        h.check(c.name == cat(x, ".", y), "full name", got=c.name)


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("fwsm", "interface", second="all") + c28.pairs("ios", "interface", second="all"))
def neighbours(h, v):
    c28.rotated(h, v)

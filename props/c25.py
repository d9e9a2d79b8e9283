"""Every textual form of an address denotes that address, and text that is no address is refused."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("24 places an address can be written at; IPv4: every length of every octet, its digits symbolic; IPv6: every position of :: and every number of groups, upper and lower case, an embedded IPv4 address, "
          "one group of 1 to 5 symbolic hexadecimal digits at every position; 20 malformed shapes")
HEX = "0123456789abcdefABCDEF"


PLACES4 = {
    "asa host": ("fwsm", "access-list a extended permit ip host @ any\n", lambda c: c.rules.rules[0].src.host),
    "asa net": ("fwsm", "access-list a extended permit ip any @ 255.255.255.255\n", lambda c: c.rules.rules[0].dst.host),
    "asa standard": ("fwsm", "access-list a standard permit host @\n", lambda c: c.rules.rules[0].src.host),
    "asa object": ("fwsm", "object network o\n host @\n", lambda c: c.objects.network["o"].addresses[0]),
    "asa group": ("fwsm", "object-group network g\n network-object host @\n", lambda c: c.groups.network["g"].objects[0]),
    "name": ("fwsm", "names\nname @ n\naccess-list a extended permit ip host n any\n", lambda c: c.rules.rules[0].src.host),
    "ios host": ("ios", "ip access-list extended a\n permit ip host @ any\n", lambda c: c.rules.rules[0].src.host),
    "ios wild": ("ios", "ip access-list extended a\n permit ip any @ 0.0.0.0\n", lambda c: c.rules.rules[0].dst.host),
    "ios plain": ("ios", "access-list 10 permit @\n", lambda c: c.rules.rules[0].src.host),
    "filter": ("caf", "ip src @\n", None),
    "filter list": ("caf", "ip dst 10.0.0.1 @\n", None),
    "pf": ("pf", "<pfsense><filter><rule><type>pass</type><interface>lan</interface><descr>d</descr><source><address>@</address></source>"
                 "<destination><any/></destination></rule></filter></pfsense>", lambda c: c.rules.rules[0].src.host),
    "pf alias": ("pf", "<pfsense><aliases><alias><name>x</name><type>network</type><address>@/32</address><descr/></alias></aliases></pfsense>",
                 lambda c: c.groups.network["x"].objects[0]),
}
PLACES6 = {
    "asa host": PLACES4["asa host"],
    "asa net": ("fwsm", "access-list a extended permit ip any @/128\n", lambda c: c.rules.rules[0].dst.host),
    "asa object": PLACES4["asa object"],
    "asa group": ("fwsm", "object-group network g\n network-object @/128\n", lambda c: c.groups.network["g"].objects[0]),
    "asa group host": PLACES4["asa group"],
    "ios host": ("ios", "ipv6 access-list a\n sequence 1 permit ipv6 host @ any\n", lambda c: c.rules.rules[0].src.host),
    "ios net": ("ios", "ipv6 access-list a\n sequence 1 permit tcp any @/128 eq 80\n", lambda c: c.rules.rules[0].dst.host),
    "filter": PLACES4["filter"],
    "filter net": ("caf", "ip src @/128\n", None),
    "pf": PLACES4["pf"],
    "pf alias": ("pf", PLACES4["pf alias"][1].replace("/32", "/128"), PLACES4["pf alias"][2]),
}


def read(h, place, text):
    """(accepted, the node the text became)"""
    d, t, get = place
    a, b = t.split("@")
    t = cat(a, text, b)
    if d == "caf":
        ok, c = caf(h, t)
        return ok, c
    ok, c = parse(h, d, t)
    return ok, (get(c) if ok and get else c)


def value_is(h, place, node, fam, v, label):
    """what was read denotes the one address v"""
    ob = h.mods.ob
    if place[0] == "caf" or place[2] is None:
        return
    check_node(h, node, Spec("net", "", fam, v, a_max(fam)), label, "n")


def selects(h, blk, fam, side, v):
    """the filter selects a rule on that address, and not one next to it"""
    ob = h.mods.ob
    p = h.int("probe", 0, a_max(fam))
    import ipaddress
    host = ob.NetworkHost(h.a4(p) if fam == 4 else h.a6(p))
    rs = ob.ACLRules()
    src, dst = ob.ACLNode(host), ob.ACLNode(ob.NetworkHost("192.0.2.1"))
    r = ob.ACLRule(id="a", mode="permit", protocol=ob.Protocol("ip"), src=src if side == "src" else dst, dst=dst if side == "src" else src)
    rs.add(r)
    got = len(blk.run(rs)) == 1
    h.check(h.Iff(got, h.Or(p == v, h.And(p == 0x0a000001, fam == 4) if side == "dst" else False)), "the filter means that address", got=got)


def digits(h, s, n):
    """value of n decimal digits"""
    v = 0
    for i in range(n):
        v = v * 10 + (h.code(s, i) - 48)
    return v


def hexval(h, s, n):
    v = 0
    for i in range(n):
        c = h.code(s, i)
        v = v * 16 + h.Ite(c <= 57, c - 48, h.Ite(c >= 97, c - 87, c - 55))
    return v


OTHER = [10, 0, 255, 7]


@U.unit(each=[(p, i, n) for p in PLACES4 for i in range(4) for n in (1, 2, 3, 4)])
def octets(h, v):
    """an octet is 0 to 255 without leading zeros"""
    pl, i, n = v
    s = h.chars("o", n, "0123456789" if n < 3 else "01256")
    x = digits(h, s, n)
    parts = [str(o) for o in OTHER]
    parts[i] = s
    text = cat(parts[0], ".", parts[1], ".", parts[2], ".", parts[3])
    good = h.And(x <= 255, h.Not(s[0] == "0") if n > 1 else True) if n < 4 else False
    place = PLACES4[pl]
    ok, node = read(h, place, text)
    h.check(h.Iff(ok, good), "accepted exactly if it is an address", text=text, got=node)
    if ok:
        val = sum((o << (24 - 8 * j) for j, o in enumerate(OTHER) if j != i), 0) + (x << (24 - 8 * i))
        if place[0] == "caf":
            selects(h, node, 4, "dst" if "list" in pl else "src", val)
        else:
            value_is(h, place, node, 4, val, "address")


BAD4 = ["1.2.3", "1.2.3.4.5", "1..2.3", ".1.2.3", "1.2.3.", "1.2.3.-4", "1.2.3.4x", "x.2.3.4", "1,2,3,4", "1.2.3 .4"]


@U.unit(each=[(p, i) for p in PLACES4 for i in range(len(BAD4))])
def malformed4(h, v):
    pl, i = v
    t = BAD4[i]
    ok, node = read(h, PLACES4[pl], t)
    h.check(not ok, "refused", text=t, got=node)


# the groups before and after ::, 8 in all without it
SHAPES6 = [(8, None)] + [(b, a) for b in range(8) for a in range(8) if b + a <= 7]


def text6(h, b, a, k, g, tail=None):
    """(text, value): b groups, ::, a groups; group k is g"""
    vals = [0x20 + 0x111 * j for j in range(b + (a or 0))]
    ts = [("%x" if j % 2 else "%04X") % x for j, x in enumerate(vals)]
    out = ""
    for j in range(len(vals)):
        if j == b and a is not None:
            out = cat(out, "::")
        elif j:
            out = cat(out, ":")
        out = cat(out, g if j == k else ts[j])
    if a is not None and b == len(vals):
        out = cat(out, "::")
    return out, vals


def val6(vals, b, a, k, x):
    v = 0
    n = len(vals)
    for j, y in enumerate(vals):
        pos = j if j < b or a is None else 8 - (n - j)
        v = v + ((x if j == k else y) << (112 - 16 * pos))
    return v


def ask6(h, pl, text, val, good=True):
    place = PLACES6[pl]
    ok, node = read(h, place, text)
    h.check(h.Iff(ok, good), "accepted exactly if it is an address", text=text, got=node)
    if ok:
        if place[0] == "caf":
            selects(h, node, 6, "src", val)
        else:
            value_is(h, place, node, 6, val, "address")


@U.unit(each=[(p, s) for p in ("asa host", "ios net", "filter", "pf") for s in range(len(SHAPES6))])
def shapes(h, v):
    """every position of :: and every number of groups"""
    b, a = SHAPES6[v[1]]
    n = b + (a or 0)
    k = h.choice("k", range(n)) if n else 0
    g = h.chars("g", 1 if n != 3 else 2, HEX)
    x = hexval(h, g, len(g))
    t, vals = text6(h, b, a, k, g)
    ask6(h, v[0], t, val6(vals, b, a, k, x))


@U.unit(each=[(p, k, n) for p in PLACES6 for k in (0, 3, 7) for n in (1, 2, 3, 4, 5)])
def groups(h, v):
    """a group is one to four hexadecimal digits"""
    pl, k, n = v
    g = h.chars("g", n, HEX if n < 3 else "0a9F")
    x = hexval(h, g, n)
    t, vals = text6(h, 8, None, k, g)
    ask6(h, pl, t, val6(vals, 8, None, k, x), n < 5)


@U.unit(each=[(p, s) for p in PLACES6 for s in ("::ffff:", "64:ff9b::", "1:2:3:4:5:6:", "::")])
def embedded4(h, v):
    pl, s = v
    g = h.chars("o", 2, "0123456789")
    good = h.Not(g[0] == "0")
    base = {"::ffff:": 0xffff << 32, "64:ff9b::": 0x64ff9b << 96, "1:2:3:4:5:6:": 0x000100020003000400050006 << 32, "::": 0}[s]
    ask6(h, pl, cat(s, "10.0.", g, ".1"), base + 0x0a000001 + (digits(h, g, 2) << 8), good)


BAD6 = ["1::2::3", ":::", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1:2:3:4:5:6:7:8", "12345::", "1:2:3:4:5:6:7:", ":1:2:3:4:5:6:7", "g::1", "::1.2.3", "::1.2.3.256", "::1.2.3.4:5",
        "1:2:3:4:5:6:7:1.2.3.4", "::-1"]


@U.unit(each=[(p, i) for p in PLACES6 for i in range(len(BAD6))])
def malformed6(h, v):
    ok, node = read(h, PLACES6[v[0]], BAD6[v[1]])
    h.check(not ok, "refused", text=BAD6[v[1]], got=node)

"""A Cisco IOS IPv6 access list entry is read as exactly the rule it writes, and its interface application is kept."""
from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("one IPv6 access list with up to 3 entries; all 2^128 addresses, prefix lengths, ports, protocol numbers and "
          "sequence numbers are symbolic; the list name has up to 3 symbolic characters")

PORTS = ["none", "eq", "gt", "lt", "neq", "range"]
HOST = {"any": lambda h, n: anyk("any"), "host": host6, "net": net6}
OPTS = ["", "log", "dscp ef", "fragments", "routing", "time-range work", "flow-label x1", "dest-option-type d1",
        "mobility", "dscp ef log", "time-range work log"]


def rules(h, text, n):
    c = parsed(h, "ios", text)
    if c is None:
        return None
    h.check(len(c.rules.rules) == n, "number of rules", text=text, n=len(c.rules.rules))
    return c.rules.rules if len(c.rules.rules) == n else None


def acl(h, *bodies, name="v6"):
    seqs, t = [], cat("ipv6 access-list ", name, "\n")
    for i, b in enumerate(bodies):
        q = h.int(f"seq{i}", 1, 4294967294)
        seqs.append(q)
        t = cat(t, " sequence ", h.dec(q), " ", b, "\n")
    return seqs, t


def check6(h, node, spec, label, tag):
    p = h.int(f"probe.{tag}", 0, M6)
    h.check(h.Iff(node_has(h, node, p, 6), spec.has(h, p, 6)), f"{label}: addresses", node=node, text=spec.text)
    if spec.kind == "net":
        p = h.int(f"probe4.{tag}", 0, M4)
        h.check(h.Not(node_has(h, node, p, 4)), f"{label}: no IPv4 address", node=node)


def frame(h, r, name, mode, proto, seq, opts=()):
    h.check(r.id == name, "list name", got=r.id)
    h.check(r.mode == mode, "mode", got=r.mode)
    h.check(r.protocol.name == proto if isinstance(proto, str) else numeq(h, r.protocol.name, proto), "protocol", got=r.protocol)
    h.check("sequence" in r.options and numeq(h, r.options["sequence"], seq), "sequence number", got=r.options)
    h.check(set(r.options) == {"sequence", *opts}, "options", got=sorted(r.options))


@U.unit(each=[(1, 10, 100), (10, 100, 101), (10, 100, 1), (20, 2, 200), (10, 11, 12), (4294967290, 4294967291, 42)])
def sequences(h, q):
    """entries keep apart, whatever their sequence numbers have in common"""
    s = [HOST[k](h, k) for k in ("host", "net", "any")]
    modes = [h.choice(f"m{i}", ["permit", "deny"]) for i in range(3)]
    t = "ipv6 access-list v6\n"
    for i in range(3):
        t = cat(t, " sequence ", str(q[i]), " ", modes[i], " ", ["ipv6", "tcp", "udp"][i], " ", s[i].text, " any\n")
    rr = rules(h, t, 3)
    if rr is None:
        return
    for i in range(3):
        frame(h, rr[i], "v6", modes[i], ["ipv6", "tcp", "udp"][i], q[i])
        check6(h, rr[i].src.host, s[i], "source", f"s{i}")


@U.unit(each=[(a, b) for a in HOST for b in HOST])
def hosts(h, v):
    s, d = HOST[v[0]](h, "s"), HOST[v[1]](h, "d")
    mode = h.choice("mode", ["permit", "deny"])
    proto = h.choice("proto", ["ipv6", "ip", "tcp", "udp", "icmp"])
    (q,), text = acl(h, cat(mode, " ", proto, " ", s.text, " ", d.text))
    rr = rules(h, text, 1)
    if rr is None:
        return
    frame(h, rr[0], "v6", mode, proto, q)
    check6(h, rr[0].src.host, s, "source", "s")
    check6(h, rr[0].dst.host, d, "destination", "d")
    h.check(rr[0].src.port is None and rr[0].dst.port is None, "no ports")


@U.unit(each=[(a, b) for a in PORTS for b in PORTS])
def ports(h, v):
    p, q = port(h, "p", v[0]), port(h, "q", v[1])
    s, d = HOST["net"](h, "s"), HOST[h.choice("dk", list(HOST))](h, "d")
    (n,), text = acl(h, cat("deny udp ", s.text, p.text, " ", d.text, q.text))
    rr = rules(h, text, 1)
    if rr is None:
        return
    frame(h, rr[0], "v6", "deny", "udp", n)
    check6(h, rr[0].src.host, s, "source", "s")
    check6(h, rr[0].dst.host, d, "destination", "d")
    check_port(h, rr[0].src.port, p, "source port")
    check_port(h, rr[0].dst.port, q, "destination port")


@U.unit()
def protocol_number(h):
    p = h.int("proto", 0, 255)
    (n,), text = acl(h, cat("permit ", h.dec(p), " any any"))
    rr = rules(h, text, 1)
    if rr is not None:
        frame(h, rr[0], "v6", "permit", p, n)


@U.unit(each=OPTS)
def options(h, o):
    s, d = HOST[h.choice("sk", list(HOST))](h, "s"), HOST[h.choice("dk", list(HOST))](h, "d")
    q = port(h, "q", h.choice("port", ["none", "eq"]))
    (n,), text = acl(h, cat("permit tcp ", s.text, " ", d.text, q.text, " " + o if o else ""))
    rr = rules(h, text, 1)
    if rr is None:
        return
    want, w = {}, o.split()
    while w:
        k = w.pop(0)
        want[k] = w.pop(0) if k in ("dscp", "time-range", "flow-label", "dest-option-type") else None
    frame(h, rr[0], "v6", "permit", "tcp", n, want)
    h.check(all(rr[0].options[k] == x for k, x in want.items() if k in rr[0].options), "option values", got=rr[0].options)
    check6(h, rr[0].dst.host, d, "destination", "d")
    check_port(h, rr[0].dst.port, q, "destination port")


@U.unit()
def icmp(h):
    o = h.choice("o", ["nd-ns", "nd-na", "router-solicitation", "router-advertisement", "redirect", "echo-request",
                       "echo-reply", "packet-too-big", "time-exceeded", "unreachable"])
    s, d = HOST[h.choice("sk", list(HOST))](h, "s"), HOST["any"](h, "d")
    (n,), text = acl(h, cat("permit icmp ", s.text, " ", d.text, " ", o))
    rr = rules(h, text, 1)
    if rr is not None:
        frame(h, rr[0], "v6", "permit", "icmp", n, [o])
        check6(h, rr[0].src.host, s, "source", "s")


@U.unit()
def several(h):
    s, d = HOST["host"](h, "s"), HOST["net"](h, "d")
    q = port(h, "q", "range")
    seqs, text = acl(h, cat("permit ipv6 ", s.text, " any"), cat("deny tcp any ", d.text, q.text), "permit ipv6 any any log")
    rr = rules(h, cat("hostname x\n", text, "ipv6 unicast-routing\n!\n"), 3)
    if rr is None:
        return
    frame(h, rr[0], "v6", "permit", "ipv6", seqs[0])
    frame(h, rr[1], "v6", "deny", "tcp", seqs[1])
    frame(h, rr[2], "v6", "permit", "ipv6", seqs[2], ["log"])
    check6(h, rr[0].src.host, s, "source", "s")
    check6(h, rr[1].dst.host, d, "destination", "d")
    check_port(h, rr[1].dst.port, q, "destination port")


@U.unit(each=[1, 2, 3])
def listname(h, n):
    nm = h.chars("n", n, "aB9_-.")
    dr = h.choice("dir", ["in", "out"])
    (q,), text = acl(h, "permit ipv6 any any", name=nm)
    pre = cat("interface Vlan7\n ipv6 address 2001:db8::1/64\n ipv6 traffic-filter ", nm, " ", dr, "\n!\n")
    ok, c = parse(h, "ios", cat(pre, text))
    h.check(ok, "accepted", error=None if ok else repr(c)[:200])
    if not ok:
        return
    h.check(len(c.rules.rules) == 1, "one rule")
    frame(h, c.rules.rules[0], nm, "permit", "ipv6", q)
    i = c.interfaces["Vlan7"]
    h.check(set(i.access_groups) == {"ipv6-" + dr}, "applied in that direction", got=sorted(i.access_groups))
    g = i.access_groups.get("ipv6-" + dr)
    h.check(g is not None and g.name == nm and g.direction == dr and g.iface is i, "applied list", got=g)


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("ios", "ipv6 access-list", second="all"))
def neighbours(h, v):
    c28.rotated(h, v)

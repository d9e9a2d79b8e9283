"""An ASA/FWSM access list line is read as exactly the rule it writes."""
from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("one access list entry per configuration (plus the name/time-range statements it refers to); all addresses, "
          "contiguous netmasks, prefix lengths, ports, protocol and ICMP numbers are symbolic; the list name has up to 3 "
          "symbolic characters; keywords come from the documented lists")

PORTS = ["none", "eq", "gt", "lt", "neq", "range"]
CODES = ["ip", "tcp", "udp", "ipv6", "gre", "esp", "ah", "ospf", "eigrp", "igmp", "igrp", "ipinip", "ipsec", "nos", "pcp",
         "pim", "pptp", "snp", "ahp", "icmpv6"]
ICMPNAMES = ["echo", "echo-reply", "unreachable", "time-exceeded", "redirect", "traceroute", "timestamp-request",
             "packet-too-big", "host-unreachable", "information-reply", "mask-request", "router-advertisement"]
PORTNAMES = ["www", "who", "whois", "https", "http", "ftp", "ftp-data", "domain", "snmp", "snmptrap", "radius",
             "radius-acct", "pop3", "ssh", "telnet", "netbios-ns", "netbios-ss", "netbios-ssn", "ldap", "ldaps", "tftp",
             "time", "rip", "citrix-ica", "sqlnet", "lotusnotes", "echo", "bootps", "non500-isakmp", "isakmp", "pcanywhere-data"]


def one(h, text):
    c = parsed(h, "fwsm", text)
    if c is None:
        return None
    h.check(len(c.rules.rules) == 1, "exactly one rule", text=text, n=len(c.rules.rules))
    return c.rules.rules[0] if c.rules.rules else None


def line(h, proto, src, dst, rest="", mode="permit", name="foo", kind="extended"):
    return cat("access-list ", name, " ", kind, " ", mode, " ", proto, " ", src, " ", dst, rest, "\n")


def frame(h, r, name="foo", kind="extended", mode="permit", proto=None):
    h.check(r.id == name, "list name", got=r.id)
    h.check(r.extended == kind, "list type", got=r.extended)
    h.check(r.mode == mode, "mode", got=r.mode)
    if proto is not None:
        h.check(numeq(h, r.protocol.name, proto) if not isinstance(proto, str) else r.protocol.name == proto, "protocol",
                got=r.protocol)


@U.unit(each=[(s, d) for s in ASA_HOST for d in ("any", "net4", "host6")] + [(s, d) for s in ("any", "host4", "net6") for d in ASA_HOST])
def hosts(h, v):
    s, d = ASA_HOST[v[0]](h, "s"), ASA_HOST[v[1]](h, "d")
    mode = h.choice("mode", ["permit", "deny"])
    r = one(h, line(h, "ip", s.text, d.text, mode=mode))
    if r is None:
        return
    frame(h, r, mode=mode, proto="ip")
    check_node(h, r.src.host, s, "source", "s")
    check_node(h, r.dst.host, d, "destination", "d")
    h.check(r.src.port is None and r.dst.port is None, "no ports")
    h.check(not r.options, "no options")
    h.check(not r.remark, "no remark")
    h.observe(r)


@U.unit(each=[(a, b) for a in PORTS for b in PORTS])
def ports(h, v):
    p, q = port(h, "p", v[0]), port(h, "q", v[1])
    proto = h.choice("proto", ["tcp", "udp"])
    s = ASA_HOST["host4"](h, "s")
    d = ASA_HOST["net4"](h, "d")
    r = one(h, line(h, proto, cat(s.text, p.text), cat(d.text, q.text)))
    if r is None:
        return
    frame(h, r, proto=proto)
    check_node(h, r.src.host, s, "source", "s")
    check_node(h, r.dst.host, d, "destination", "d")
    check_port(h, r.src.port, p, "source port")
    check_port(h, r.dst.port, q, "destination port")
    h.observe(r)


@U.unit(each=["eq", "range", "none"])
def ports_any(h, v):
    k = h.choice("any", ["any", "any4", "any6", "net6"])
    p, q = port(h, "p", v), port(h, "q", "gt")
    d = ASA_HOST[k](h, "d")
    r = one(h, line(h, "tcp", cat("any", p.text), cat(d.text, q.text)))
    if r is None:
        return
    check_node(h, r.dst.host, d, "destination", "d")
    check_port(h, r.src.port, p, "source port")
    check_port(h, r.dst.port, q, "destination port")


@U.unit()
def portnames(h):
    n = h.choice("name", PORTNAMES)
    op = h.choice("op", ["eq", "neq"])
    where = h.choice("where", ["src", "dst"])
    t = cat("any ", op, " ", n)
    r = one(h, line(h, "tcp", t if where == "src" else "any", t if where == "dst" else "any"))
    if r is None:
        return
    got, other = (r.src.port, r.dst.port) if where == "src" else (r.dst.port, r.src.port)
    h.check(other is None, "no other port", got=other)
    h.check(got is not None and got.op == op and got.num == n, "named port", got=got, want=n)


@U.unit()
def protocols(h):
    code = h.choice("code", CODES)
    r = one(h, line(h, code, "any", "any"))
    if r is not None:
        frame(h, r, proto=code)


@U.unit()
def protocol_number(h):
    n = h.int("n", 0, 255)
    s = ASA_HOST["host4"](h, "s")
    r = one(h, line(h, h.dec(n), s.text, "any"))
    if r is not None:
        frame(h, r, proto=n)
        check_node(h, r.src.host, s, "source", "s")
        check_node(h, r.dst.host, anyk("any"), "destination", "d")


@U.unit(each=["icmp", "icmp6"])
def icmp(h, proto):
    form = h.choice("form", ["none", "name", "name+code", "int", "int+code"])
    t = h.int("t", 0, 255)
    c = h.int("c", 0, 255)
    nm = h.choice("name", ICMPNAMES) if form.startswith("name") else None
    rest = ""
    if form != "none":
        rest = cat(" ", nm if nm else h.dec(t))
    if form.endswith("code"):
        rest = cat(rest, " ", h.dec(c))
    mode = h.choice("mode", ["permit", "deny"])
    s, d = ASA_HOST["net4"](h, "s"), ASA_HOST["host4"](h, "d")
    tail = h.choice("tail", ["", " log", " inactive"])
    r = one(h, line(h, proto, s.text, d.text, cat(rest, tail), mode=mode))
    if r is None:
        return
    frame(h, r, proto=proto, mode=mode)
    check_node(h, r.src.host, s, "source", "s")
    check_node(h, r.dst.host, d, "destination", "d")
    if form == "none":
        h.check(r.icmp is None, "no icmp type", got=r.icmp)
    else:
        h.check(r.icmp is not None and (r.icmp.type == nm if nm else numeq(h, r.icmp.type, t)), "icmp type", got=r.icmp)
        if form.endswith("code"):
            h.check(r.icmp.code is not None and numeq(h, r.icmp.code, c), "icmp code", got=r.icmp)
        else:
            h.check(r.icmp.code is None, "no icmp code", got=r.icmp)
    h.check(set(r.options) == ({tail.strip()} if tail else set()), "options", got=sorted(r.options))


LOGS = ["", " 6", " debugging", " disable", " default", " interval 300", " 3 interval 600", " warnings interval 10"]


@U.unit(each=["tcp", "icmp"])
def options(h, proto):
    ob = h.mods.ob
    order = h.choice("order", ["", "log", "inactive", "time", "log inactive", "log time", "time inactive", "inactive log",
                               "log time inactive"])
    lg = h.choice("log", LOGS) if "log" in order else ""
    ws = h.choice("ws", ["", " "])
    rest = ""
    for w in order.split():
        rest = rest + {"log": " log" + lg, "inactive": " inactive", "time": " time-range t1"}[w]
    q = port(h, "q", "eq") if proto == "tcp" else PortSpec("")
    d = ASA_HOST["host4"](h, "d")
    text = cat("time-range t1\n periodic weekdays 8:00 to 18:00\n", line(h, proto, "any", cat(d.text, q.text), cat(rest, ws)))
    r = one(h, text)
    if r is None:
        return
    want = {"log": "log", "inactive": "inactive", "time": "time-range"}
    h.check(set(r.options) == {want[w] for w in order.split()}, "options", got=sorted(r.options), text=text)
    if "time" in order:
        t = r.options.get("time-range")
        h.check(isinstance(t, ob.TimeRange) and t.name == "t1", "time range object", got=t)
    if "log" in order:
        h.check(isinstance(r.options.get("log"), ob.ACLRuleOptionLog), "log option")
    check_port(h, r.dst.port, q, "destination port")
    check_node(h, r.dst.host, d, "destination", "d")
    frame(h, r, proto=proto)


@U.unit(each=["any", "any4", "any6", "host4", "host6", "net4", "net6"])
def standard(h, k):
    s = ASA_HOST[k](h, "s")
    mode = h.choice("mode", ["permit", "deny"])
    text = cat("access-list foo standard ", mode, " ", s.text, h.choice("ws", ["", " "]), "\n")
    r = one(h, text)
    if r is None:
        return
    frame(h, r, kind="standard", mode=mode, proto="ip")
    check_node(h, r.src.host, s, "source", "s")
    check_node(h, r.dst.host, anyk("any"), "destination", "d")


@U.unit(each=["any", "host4", "net4"])
def webtype_tcp(h, k):
    d = ASA_HOST[k](h, "d")
    q = port(h, "q", h.choice("port", ["none", "eq", "range"]))
    mode = h.choice("mode", ["permit", "deny"])
    tail = h.choice("tail", ["", " log", " log 4 interval 10", " inactive"])
    r = one(h, cat("access-list foo webtype ", mode, " tcp ", d.text, q.text, tail, "\n"))
    if r is None:
        return
    frame(h, r, kind="webtype", mode=mode, proto="tcp")
    check_node(h, r.dst.host, d, "destination", "d")
    check_node(h, r.src.host, anyk("any"), "source", "s")
    check_port(h, r.dst.port, q, "destination port")
    h.check(set(r.options) == ({tail.split()[0]} if tail else set()), "options", got=sorted(r.options))


@U.unit()
def webtype_url(h):
    u = h.chars("url", 3, "ab/:")
    mode = h.choice("mode", ["permit", "deny"])
    tail = h.choice("tail", ["", " log"])
    r = one(h, cat("access-list foo webtype ", mode, " url http", u, tail, "\n"))
    if r is None:
        return
    frame(h, r, kind="webtype", mode=mode, proto="url")
    h.check(r.dst.host.url == cat("http", u), "url", got=r.dst.host.url)
    h.check(set(r.options) == ({"log"} if tail else set()), "options")


@U.unit()
def ethertype(h):
    """an ethertype entry is no IP rule; it is read over without disturbing its neighbours"""
    t = h.choice("t", ["any", "ipx", "bpdu", "0x800"])
    a = ASA_HOST["host4"](h, "s")
    r = one(h, cat("access-list e ethertype permit ", t, "\n", line(h, "ip", a.text, "any")))
    if r is not None:
        frame(h, r, proto="ip")
        check_node(h, r.src.host, a, "source", "s")
        h.check(not r.remark, "no remark")


NAMECHARS = "aB9_-.+"


@U.unit(each=[1, 2, 3])
def listname(h, n):
    nm = h.chars("n", n, NAMECHARS)
    mode = h.choice("mode", ["permit", "deny"])
    kind = h.choice("kind", ["extended", "standard"])
    if kind == "standard":
        r = one(h, cat("access-list ", nm, " standard ", mode, " any\n"))
    else:
        r = one(h, line(h, "ip", "any", "any", name=nm, mode=mode))
    if r is None:
        return
    frame(h, r, name=nm, kind=kind, mode=mode, proto="ip")


@U.unit(each=["src", "dst"])
def ifname(h, where):
    nm = h.chars("n", 2, "ab1-", first="ab")
    t = cat("interface ", nm)
    r = one(h, line(h, "ip", t if where == "src" else "any", t if where == "dst" else "any"))
    if r is None:
        return
    node = r.src.host if where == "src" else r.dst.host
    h.check(isinstance(node, h.mods.ob.NetworkInterface) and node.name == nm, "interface name", got=node)


@U.unit(each=[(f, w) for f in ("host4", "host6", "net4", "net6", "group") for w in ("src", "dst")])
def names(h, v):
    """an address written by name is the address the name statement gives"""
    form, where = v
    fam = 6 if form.endswith("6") else 4
    a, b = h.int("a", 0, a_max(fam)), h.int("b", 0, a_max(fam))
    pre = cat("name ", addr(h, a, fam), " srv description x\n", "name ", addr(h, b, fam), " srv2\n")
    pick = h.choice("pick", ["srv", "srv2"])
    val = a if pick == "srv" else b
    if form == "group":
        m = M4
        pre = cat(pre, "object-group network g\n network-object host ", pick, "\n")
        t = "object-group g"
    elif form.startswith("host"):
        m = a_max(fam)
        t = cat("host ", pick)
    elif form == "net4":
        m = mask_of(h.int("p", 0, 32), 4)
        t = cat(pick, " ", h.a4(m))
    else:
        p = h.int("p", 0, 128)
        m = mask_of(p, 6)
        t = cat(pick, "/", h.dec(p))
    r = one(h, cat(pre, line(h, "ip", t if where == "src" else "any", t if where == "dst" else "any")))
    if r is None:
        return
    node = r.src.host if where == "src" else r.dst.host
    check_node(h, node, Spec("net", t, fam, val, m), "named address", "n")
    if form != "group":
        h.check(node.target is not None and node.target.hostname == pick, "name kept", got=node.target)


@U.unit(each=["ip", "tcp"])
def spacing(h, proto):
    """any run of blanks and tabs separates the words"""
    w = h.choice("w", [" ", "  ", "\t", " \t "])
    e = h.choice("e", ["", " ", "\t"])
    nl = h.choice("nl", ["\n", "\r\n"])
    s, d = ASA_HOST["host4"](h, "s"), ASA_HOST["net4"](h, "d")
    q = port(h, "q", "eq") if proto == "tcp" else PortSpec("")
    t = cat("access-list", w, "foo", w, "extended", w, "deny", w, proto, w, s.text, w, d.text)
    if proto == "tcp":
        t = cat(t, w, "eq", w, h.dec(q.a))
    r = one(h, cat(t, e, nl))
    if r is None:
        return
    frame(h, r, mode="deny", proto=proto)
    check_node(h, r.src.host, s, "source", "s")
    check_node(h, r.dst.host, d, "destination", "d")
    check_port(h, r.dst.port, q, "destination port")


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("fwsm", "access-list"))
def neighbours(h, v):
    c28.rotated(h, v)

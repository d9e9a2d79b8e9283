"""A Cisco IOS IPv4 access list entry is read as exactly the rule it writes."""
from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("one named or numbered access list with up to 2 entries; all addresses, wildcards (also with holes), ports, protocol "
          "and ICMP numbers, sequence numbers and list numbers are symbolic; the list name has up to 3 symbolic characters")

PORTS = ["none", "eq", "gt", "lt", "neq", "range"]
CODES = ["ip", "tcp", "udp", "gre", "esp", "ospf", "eigrp", "igmp", "ipinip", "pim", "ahp", "pcp", "nos"]
ICMPNAMES = ["echo", "echo-reply", "unreachable", "time-exceeded", "redirect", "traceroute", "packet-too-big", "ttl-exceeded",
             "administratively-prohibited", "host-unreachable", "net-unreachable", "net-redirect", "port-unreachable"]
OPTS = ["established", "log", "log-input", "fragments", "precedence critical", "dscp ef", "tos max-throughput",
        "time-range work", "log tag", "log-input tag", "established log", "dscp ef fragments log", "time-range work log"]


def wild(h, n):
    a = h.int(n, 0, M4)
    w = h.int(n + ".w", 0, M4)
    return Spec("net", cat(h.a4(a), " ", h.a4(w)), 4, a, w ^ M4)


def bare(h, n):
    return host4(h, n, "")


HOST = {"any": lambda h, n: anyk("any"), "host": host4, "wild": wild}


def rules(h, text, n):
    c = parsed(h, "ios", text)
    if c is None:
        return None
    h.check(len(c.rules.rules) == n, "number of rules", text=text, n=len(c.rules.rules))
    return c.rules.rules if len(c.rules.rules) == n else None


def frame(h, r, name, mode, proto):
    h.check(numeq(h, r.id, name) if not isinstance(name, str) else r.id == name, "list name", got=r.id)
    h.check(r.mode == mode, "mode", got=r.mode)
    h.check(r.protocol.name == proto if isinstance(proto, str) else numeq(h, r.protocol.name, proto), "protocol", got=r.protocol)


def hosts_ok(h, r, s, d):
    check_node(h, r.src.host, s, "source", "s")
    check_node(h, r.dst.host, d, "destination", "d")


def named(h, body, seq=True, name="foo"):
    pre = ""
    if seq:
        k = h.choice("seq", ["none", "num"])
        if k == "num":
            pre = cat(h.dec(h.int("seqno", 1, 2147483647)), " ")
    return cat("ip access-list extended ", name, "\n ", pre, body, "\n")


def numbered(h, body):
    n = h.int("no", 100, 199) if h.choice("range", [0, 1]) == 0 else h.int("no2", 2000, 2699)
    return n, cat("access-list ", h.dec(n), " ", body, "\n")


def wrap(h, form, body):
    if form == "named":
        return "foo", named(h, body)
    return numbered(h, body)


@U.unit(each=[(f, s, d) for f in ("named", "numbered") for s in HOST for d in HOST])
def hosts(h, v):
    f, a, b = v
    s, d = HOST[a](h, "s"), HOST[b](h, "d")
    mode = h.choice("mode", ["permit", "deny"])
    name, text = wrap(h, f, cat(mode, " ip ", s.text, " ", d.text))
    rr = rules(h, text, 1)
    if rr is None:
        return
    r = rr[0]
    frame(h, r, name, mode, "ip")
    hosts_ok(h, r, s, d)
    h.check(r.src.port is None and r.dst.port is None, "no ports")
    h.check(not r.options, "no options")
    h.observe(r)


@U.unit(each=[(f, a, b) for f in ("named", "numbered") for a in PORTS for b in PORTS])
def ports(h, v):
    f, a, b = v
    p, q = port(h, "p", a), port(h, "q", b)
    s, d = HOST["host"](h, "s"), HOST["wild"](h, "d")
    proto = h.choice("proto", ["tcp", "udp"])
    name, text = wrap(h, f, cat("permit ", proto, " ", s.text, p.text, " ", d.text, q.text))
    rr = rules(h, text, 1)
    if rr is None:
        return
    r = rr[0]
    frame(h, r, name, "permit", proto)
    hosts_ok(h, r, s, d)
    check_port(h, r.src.port, p, "source port")
    check_port(h, r.dst.port, q, "destination port")


@U.unit(each=["named", "numbered"])
def portnames(h, f):
    n = h.choice("name", ["www", "who", "whois", "domain", "ftp", "ftp-data", "bootps", "snmp", "snmptrap", "pop3", "telnet",
                          "tftp", "isakmp", "non500-isakmp", "syslog", "time", "lpd", "echo"])
    op = h.choice("op", ["eq", "neq", "gt"])
    w = h.choice("where", ["src", "dst"])
    p = cat("any ", op, " ", n)
    name, text = wrap(h, f, cat("permit tcp ", p if w == "src" else "any", " ", p if w == "dst" else "any"))
    rr = rules(h, text, 1)
    if rr is None:
        return
    r = rr[0]
    g, o = (r.src.port, r.dst.port) if w == "src" else (r.dst.port, r.src.port)
    h.check(o is None, "no other port", got=o)
    h.check(g is not None and g.op == op and g.num == n, "named port", got=g)


@U.unit(each=["named", "numbered"])
def protocols(h, f):
    k = h.choice("kind", ["code", "int"])
    if k == "code":
        proto = ptext = h.choice("code", CODES)
    else:
        proto = h.int("proto", 0, 255)
        ptext = h.dec(proto)
    s, d = HOST["wild"](h, "s"), HOST["any"](h, "d")
    mode = h.choice("mode", ["permit", "deny"])
    name, text = wrap(h, f, cat(mode, " ", ptext, " ", s.text, " ", d.text))
    rr = rules(h, text, 1)
    if rr is None:
        return
    frame(h, rr[0], name, mode, proto)
    hosts_ok(h, rr[0], s, d)


@U.unit(each=["named", "numbered"])
def icmp(h, f):
    form = h.choice("form", ["none", "name", "int", "int+code"])
    t, c = h.int("t", 0, 255), h.int("c", 0, 255)
    nm = h.choice("name", ICMPNAMES) if form == "name" else None
    rest = "" if form == "none" else cat(" ", nm or h.dec(t))
    if form.endswith("code"):
        rest = cat(rest, " ", h.dec(c))
    tail = h.choice("tail", ["", " log", " fragments"])
    s, d = HOST["host"](h, "s"), HOST["wild"](h, "d")
    name, text = wrap(h, f, cat("deny icmp ", s.text, " ", d.text, rest, tail))
    rr = rules(h, text, 1)
    if rr is None:
        return
    r = rr[0]
    frame(h, r, name, "deny", "icmp")
    hosts_ok(h, r, s, d)
    if form == "none":
        h.check(r.icmp is None, "no icmp type", got=r.icmp)
    else:
        h.check(r.icmp is not None and (r.icmp.type == nm if nm else numeq(h, r.icmp.type, t)), "icmp type", got=r.icmp)
        if form.endswith("code"):
            h.check(r.icmp.code is not None and numeq(h, r.icmp.code, c), "icmp code", got=r.icmp)
        else:
            h.check(r.icmp.code is None, "no icmp code", got=r.icmp)
    h.check(set(r.options) == ({tail.strip()} if tail else set()), "options", got=sorted(r.options))


@U.unit(each=[(f, o) for f in ("named", "numbered") for o in OPTS])
def options(h, v):
    f, o = v
    s, d = HOST[h.choice("sk", list(HOST))](h, "s"), HOST[h.choice("dk", list(HOST))](h, "d")
    q = port(h, "q", h.choice("port", ["none", "eq"]))
    name, text = wrap(h, f, cat("permit tcp ", s.text, " ", d.text, q.text, " ", o))
    rr = rules(h, text, 1)
    if rr is None:
        return
    r = rr[0]
    frame(h, r, name, "permit", "tcp")
    hosts_ok(h, r, s, d)
    check_port(h, r.dst.port, q, "destination port")
    want, w = {}, o.split()
    while w:
        k = w.pop(0)
        takes = k in ("precedence", "dscp", "tos", "time-range") or (k in ("log", "log-input") and w)
        want[k] = w.pop(0) if takes else None
    h.check({k: v for k, v in r.options.items()} == want, "options", got=sorted(r.options.items(), key=str), want=o)


@U.unit(each=[(f, k) for f in ("named", "numbered", "numbered2") for k in ("any", "host", "wild", "bare")])
def standard(h, v):
    f, k = v
    s = bare(h, "s") if k == "bare" else HOST[k](h, "s")
    mode = h.choice("mode", ["permit", "deny"])
    tail = h.choice("tail", ["", " log"])
    if f == "named":
        name = "foo"
        seq = h.choice("seq", ["none", "num"])
        pre = cat(h.dec(h.int("seqno", 1, 2147483647)), " ") if seq == "num" else ""
        text = cat("ip access-list standard foo\n ", pre, mode, " ", s.text, tail, "\n")
    else:
        name = h.int("no", 1, 99) if f == "numbered" else h.int("no2", 1300, 1399)
        text = cat("access-list ", h.dec(name), " ", mode, " ", s.text, tail, "\n")
    rr = rules(h, text, 1)
    if rr is None:
        return
    r = rr[0]
    frame(h, r, name, mode, "ip")
    hosts_ok(h, r, s, anyk("any"))
    h.check(set(r.options or {}) == ({"log"} if tail else set()), "options", got=r.options)


@U.unit(each=["extended", "standard"])
def group(h, kind):
    a, b = host4(h, "a", "host "), net_member(h, "b")
    pre = cat("object-group network g1\n ", a.text, "\n ", b.text, "\nobject-group network g12\n host 9.9.9.9\n")
    spec = Spec("union", "g1", parts=[a, b])
    if kind == "extended":
        w = h.choice("where", ["src", "dst"])
        t = "object-group g1"
        text = cat(pre, named(h, cat("permit tcp ", t if w == "src" else "any", " ", t if w == "dst" else "any", " eq 80"), False))
    else:
        w = "src"
        text = cat(pre, "ip access-list standard foo\n permit object-group g1\n")
    rr = rules(h, text, 1)
    if rr is None:
        return
    check_node(h, rr[0].src.host if w == "src" else rr[0].dst.host, spec, "group", "g")


def net_member(h, n):
    a, p = h.int(n, 0, M4), h.int(n + ".p", 1, 32)
    m = mask_of(p, 4)
    return Spec("net", cat(h.a4(a), " ", h.a4(m)), 4, a, m)


@U.unit(each=[1, 2, 3])
def listname(h, n):
    nm = h.chars("n", n, "aB9_-.")
    kind = h.choice("kind", ["extended", "standard"])
    body = " permit ip any any\n deny ip any any log\n" if kind == "extended" else " permit any\n deny any log\n"
    rr = rules(h, cat("ip access-list ", kind, " ", nm, "\n", body), 2)
    if rr is None:
        return
    for r, m in zip(rr, ("permit", "deny")):
        frame(h, r, nm, m, "ip")


@U.unit(each=["named", "numbered", "standard", "numberedstd"])
def two(h, f):
    """two entries, each with a remark: order and remarks"""
    s, d = HOST["wild"](h, "s"), HOST["host"](h, "d")
    x = h.chars("x", 2, "a #!")
    y = h.chars("y", 1, "b\"")
    mk = h.choice("remarks", ["both", "first", "second", "none"])
    r1 = mk in ("both", "first")
    r2 = mk in ("both", "second")
    if f in ("named", "standard"):
        kind = "extended" if f == "named" else "standard"
        e1 = cat("permit ip ", s.text, " any") if f == "named" else cat("permit ", s.text)
        e2 = cat("deny ip ", d.text, " any") if f == "named" else cat("deny ", d.text)
        seq = h.choice("seq", [0, 1])
        p = ["10 ", "20 ", "30 ", "40 "] if seq else ["", "", "", ""]
        text = cat("ip access-list ", kind, " foo\n", cat(" ", p[0], "remark r", x, "\n") if r1 else "", " ", p[1], e1, "\n",
                   cat(" ", p[2], "remark r", y, "\n") if r2 else "", " ", p[3], e2, "\n")
        name = "foo"
    else:
        no = "10" if f == "numberedstd" else "110"
        e1 = cat("permit ip ", s.text, " any") if no == "110" else cat("permit ", s.text)
        e2 = cat("deny ip ", d.text, " any") if no == "110" else cat("deny ", d.text)
        pre = cat("access-list ", no, " ")
        text = cat(cat(pre, "remark r", x, "\n") if r1 else "", pre, e1, "\n", cat(pre, "remark r", y, "\n") if r2 else "", pre, e2, "\n")
        name = no
    rr = rules(h, text, 2)
    if rr is None:
        return
    frame(h, rr[0], name, "permit", "ip")
    frame(h, rr[1], name, "deny", "ip")
    hosts_ok(h, rr[0], s, anyk("any"))
    check_node(h, rr[1].src.host, d, "second source", "t")
    for r, on, t in ((rr[0], r1, x), (rr[1], r2, y)):
        h.check(len(r.remark) == (1 if on else 0), "remark count", got=r.remark)
        if on and len(r.remark) == 1:
            h.check(r.remark[0] == cat("r", t), "remark text", got=r.remark)


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("ios", "access-list extended", "access-list standard", "access-list 1"))
def neighbours(h, v):
    c28.rotated(h, v)

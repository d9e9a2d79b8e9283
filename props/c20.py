"""A pfSense/OPNsense filter rule and interface is read as exactly what its elements say."""
import datetime

from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("configurations with 1 to 3 filter rules, 3 interfaces and 3 aliases; every pair of 8 source and 8 destination forms with 4 port forms each side; child elements in every order; all addresses, "
          "prefix lengths, ports and tracker numbers symbolic; interface descriptions and alias names of 1 to 3, rule descriptions of 3 symbolic characters; 14 elements that are not understood at every level")
TXT = "aZ .ü"


def el(tag, *body):
    return cat("<", tag, ">", *body, "</", tag, ">")


def iface(tag, descr="", addr="<ipaddr>dhcp</ipaddr>"):
    return el(tag, el("if", "em", str(len(tag))), addr, el("descr", descr))


IFS = [("wan", "WAN"), ("lan", "LAN"), ("opt1", "DMZ")]


def ifaces(h, opt="DMZ"):
    return el("interfaces", iface("wan", "WAN"), iface("lan", "LAN"), iface("opt1", opt))


def alias(name, typ, address, descr=""):
    return el("alias", el("name", name), el("type", typ), el("address", address), el("descr", descr), el("detail"))


class World:
    """the aliases the ends of a rule refer to: alias -> what it denotes"""

    def __init__(self, h):
        self.h = h
        self.text, self.specs, self.ports = [], {}, {}

    def end(self, k, n):
        """(elements, Spec or interface name)"""
        h = self.h
        if k == "any":
            return "<any/>", anyk("any")
        if k in ("host4", "host6"):
            s = (host4 if k == "host4" else host6)(h, n, "")
            return el("address", s.text), s
        if k in ("net4", "net6"):
            s = self.net(n, 4 if k == "net4" else 6)
            return el("address", s.text), s
        if k == "alias":
            a, b = host4(h, n + "a", ""), host6(h, n + "b", "")
            self.text.append(alias("al" + n, "host", cat(a.text, " ", b.text)))
            return el("address", "al" + n), Spec("union", parts=[a, b])
        if k == "lan":
            return el("network", "lan"), "lan"
        if k == "opt":
            return el("network", "opt1"), "DMZ"
        raise AssertionError(k)

    def net(self, n, fam):
        h = self.h
        a, p = h.int(n, 0, a_max(fam)), h.int(n + ".p", 0, 32 if fam == 4 else 128)
        return Spec("net", cat(addr(h, a, fam), "/", h.dec(p)), fam, a, mask_of(p, fam))

    def port(self, k, n):
        """(elements, what is expected)"""
        h = self.h
        if k == "none":
            return "", PortSpec("")
        a = h.int(n, 0, 65535)
        if k == "eq":
            return el("port", h.dec(a)), PortSpec("", "eq", a)
        b = h.int(n + ".hi", 0, 65535)
        h.assume(a < b)
        if k == "range":
            return el("port", h.dec(a), "-", h.dec(b)), PortSpec("", "range", a, b)
        self.text.append(alias("po" + n, "port", cat(h.dec(a), ":", h.dec(b))))
        return el("port", "po" + n), ("alias", "po" + n, PortSpec("", "range", a, b))


def config(h, rules, w=None, opt="DMZ", root="pfsense", ifs=None):
    return el(root, el("aliases", *(w.text if w else [])), ifs or ifaces(h, opt), el("filter", *rules))


def rule(body, typ="pass", ifn="lan", descr="d"):
    return el("rule", el("type", typ), el("interface", ifn), el("descr", descr), body)


def check_end(h, c, node, s, ps, label, tag):
    ob = h.mods.ob
    if isinstance(s, str):
        h.check(isinstance(node.host, ob.NetworkInterface) and node.host.name == s, label + ": the interface", got=node.host)
    elif s.kind == "any":
        h.check(type(node.host) is ob.NetworkAny, label + ": any", got=node.host)
    else:
        check_node(h, node.host, s, label, tag)
    if isinstance(ps, tuple):
        h.check(node.port is c.groups.port.get(ps[1]), label + ": the port alias", got=node.port)
        h.check(len(node.port.objects) == 1, label + ": members of the port alias")
        check_port(h, node.port.objects[0], ps[2], label)
    else:
        check_port(h, node.port, ps, label)


def one(h, text):
    c = parsed(h, "pf", text)
    if c is None:
        return None, None
    rs = c.rules.rules
    h.check(len(rs) == 1, "one rule", got=rs, text=text)
    return c, (rs[0] if len(rs) == 1 else None)


FORMS = ["any", "host4", "host6", "net4", "net6", "alias", "lan", "opt"]
PORTS = ["none", "eq", "range", "alias"]


@U.unit(each=[(a, b) for a in FORMS for b in FORMS])
def ends(h, v):
    w = World(h)
    s, sv = w.end(v[0], "s")
    d, dv = w.end(v[1], "d")
    c, r = one(h, config(h, [rule(cat(el("source", s), el("destination", d)))], w))
    if r is None:
        return
    check_end(h, c, r.src, sv, PortSpec(""), "source", "s")
    check_end(h, c, r.dst, dv, PortSpec(""), "destination", "d")
    h.observe(r)


@U.unit(each=[(a, b, o) for a in PORTS for b in PORTS for o in (0, 1)])
def ports(h, v):
    w = World(h)
    s, sv = w.end("net4", "s")
    d, dv = w.end("host4", "d")
    p, pv = w.port(v[0], "p")
    q, qv = w.port(v[1], "q")
    proto = h.choice("proto", ["tcp", "udp", "tcp/udp"])
    sx = el("source", *([s, p] if v[2] else [p, s]))
    dx = el("destination", *([q, d] if v[2] else [d, q]))
    c, r = one(h, config(h, [rule(cat(el("protocol", proto), *([sx, dx] if v[2] else [dx, sx])))], w))
    if r is None:
        return
    check_end(h, c, r.src, sv, pv, "source", "s")
    check_end(h, c, r.dst, dv, qv, "destination", "d")
    h.check(r.protocol.name == proto, "protocol", got=r.protocol)


ATTR = ["tracker", "disabled", "log", "state", "direction", "quick", "ipprotocol", "tag", "created", "icmp"]


@U.unit(each=[(a, b) for a in ATTR for b in ATTR if a < b] + [(a,) for a in ATTR] + [()])
def attributes(h, v):
    ob = h.mods.ob
    full = len(v) < 2
    typ = h.choice("type", ["pass", "block", "reject"])
    proto = h.choice("proto", ["", "tcp", "esp", "icmp"] if full else ["tcp"])
    d = h.chars("descr", 3, TXT)
    a = host4(h, "s", "")
    parts = {"type": el("type", typ), "interface": el("interface", h.choice("if", ["lan", "wan", "openvpn"] if full else ["wan"])), "descr": el("descr", d),
             "source": el("source", el("address", a.text)), "destination": el("destination", "<any/>")}
    if proto:
        parts["protocol"] = el("protocol", proto)
    want = {"xref": -1}
    for k in v:
        if k == "tracker":
            n = h.int("tracker", 0, 2 ** 31)
            parts[k] = el(k, h.dec(n))
            want["xref"] = n
        elif k == "disabled":
            parts[k] = h.choice("dis", ["<disabled/>", "<disabled>yes</disabled>", "<disabled></disabled>"])
            want["inactive"] = True
        elif k == "log":
            parts[k] = "<log/>"
            want["log"] = True
        elif k == "state":
            st = h.choice("st", ["keep state", "sloppy state", "none"])
            parts[k] = el("statetype", st)
            if st != "keep state":
                want["statetype"] = st
        elif k == "direction":
            parts[k] = el("direction", "in")
        elif k == "quick":
            parts[k] = el("quick", "yes")
        elif k == "ipprotocol":
            parts[k] = el("ipprotocol", h.choice("ipp", ["inet", "inet6", "inet46"]))
        elif k == "tag":
            parts[k] = "<id/><tag/><tagged/><max/><max-src-nodes/><max-src-conn/><max-src-states/><statetimeout/><os/>"
        elif k == "created":
            parts[k] = "<created><time>1500000000</time><username>x</username></created><updated><time>1600000000</time></updated>"
        elif k == "icmp":
            it = h.choice("icmp", ["echoreq", "unreach"])
            parts[k] = el("icmptype", it)
    order = list(parts)
    r = h.int("rot", 0, len(order) - 1)     # every element comes first once
    for i in range(len(order)):
        if r == i:
            order = order[i:] + order[:i]
            break
    text = config(h, [el("rule", *[parts[k] for k in order])])
    c, r = one(h, text)
    if r is None:
        return
    h.check(r.mode == ("permit" if typ == "pass" else "deny"), "permit or deny", got=r.mode)
    h.check(r.protocol.name == (proto or "any"), "protocol", got=r.protocol)
    h.check(r.id == parts["interface"][11:-12], "list name", got=r.id, text=text)
    h.check(len(r.remark) == 2 and r.remark[0] == d, "description", got=r.remark)
    check_end(h, c, r.src, a, PortSpec(""), "source", "s")
    check_end(h, c, r.dst, anyk("any"), PortSpec(""), "destination", "d")
    h.check(set(r.options) == set(want), "options", got=sorted(r.options), want=sorted(want))
    x = r.options.get("xref")
    h.check(numeq(h, x, want["xref"]) if "tracker" in v else x == -1, "tracker", got=x)
    if "inactive" in want:
        h.check(isinstance(r.options.get("inactive"), ob.ACLRuleOptionInActive), "inactive")
    if "log" in want:
        h.check(isinstance(r.options.get("log"), ob.ACLRuleOptionLog), "log")
    if "statetype" in want:
        h.check(r.options.get("statetype") == want["statetype"], "state type")
    if "icmp" in v:
        h.check(r.icmp is not None and r.icmp.type == it, "icmp type", got=r.icmp)
    else:
        h.check(r.icmp is None, "no icmp type", got=r.icmp)
    if "created" in v:
        day = [datetime.datetime.fromtimestamp(t).strftime("%Y-%m-%d") for t in (1500000000, 1600000000)]
        t = str(r.remark[1])
        h.check(t.startswith("c: " + day[0]) and ("m: " + day[1]) in t, "dates", got=t)


@U.unit(each=[(a, b, c) for a in ("wan", "lan", "opt1") for b in ("wan", "lan", "opt1") for c in ("wan", "lan", "opt1")])
def order(h, v):
    """rules stay in order, each with what it says"""
    body, want = [], []
    opt = h.chars("opt", 2, "dDl")
    for i, k in enumerate(v):
        a, d = host4(h, f"s{i}", ""), h.chars(f"d{i}", 2, TXT)
        m = h.choice(f"m{i}", ["pass", "block"])
        body.append(rule(cat(el("source", el("address", a.text)), el("destination", "<any/>"), "<log/>" if i == 1 else ""), m, k, d))
        want.append((a, d, m, opt if k == "opt1" else k))
    c = parsed(h, "pf", config(h, body, opt=opt))
    if c is None:
        return
    rs = c.rules.rules
    h.check(len(rs) == 3, "three rules", got=rs)
    for i, (r, (a, d, m, n)) in enumerate(zip(rs, want)):
        check_node(h, r.src.host, a, "source", f"s{i}")
        h.check(r.remark[0] == d, "description", got=r.remark)
        h.check(r.mode == ("permit" if m == "pass" else "deny"), "permit or deny", got=r.mode)
        h.check(r.id == n, "list name", got=r.id)
        h.check(("log" in r.options) == (i == 1), "log of that rule only", got=r.options)


@U.unit(each=[(i, d, f) for i in ("lan", "lan,opt1", "opt1,wan", "openvpn", "wan,lan,opt1") for d in ("any", "in", "out") for f in ("yes", "no")])
def floating(h, v):
    i, d, f = v
    opt = h.chars("opt", 2, "dDl")
    c, r = one(h, config(h, [rule(cat(el("floating", f), el("direction", d), el("source", "<any/>"), el("destination", "<any/>")), ifn=i)], opt=opt))
    if r is None:
        return
    if f == "no":
        h.check("floating" not in r.options, "not floating", got=r.options)
        h.check(r.id == (opt if i == "opt1" else i), "list name", got=r.id)
        return
    h.check(r.id == "floating", "list name", got=r.id)
    o = r.options.get("floating")
    h.check(o is not None and o.direction == d, "direction", got=o)
    want = [opt if x == "opt1" else x for x in i.split(",")]
    h.check(o is not None and len(o.interfaces) == len(want) and h.And(*[a == b for a, b in zip(o.interfaces, want)]), "interfaces", got=o and o.interfaces, want=want)


BAD = {"rule": ["gateway", "sched", "dscp", "tos", "ackqueue", "not", "port", "any", "vlanprio", "associated-rule-id"],
       "source": ["not", "mac", "protocol", "log"], "destination": ["not", "mac", "descr", "interface"]}


@U.unit(each=[(w, t, p) for w in BAD for t in BAD[w] for p in (0, 1)])
def not_understood(h, v):
    """an element that is not understood makes the file be refused instead of widening the rule"""
    where, tag, pos = v
    a = host4(h, "s", "")
    x = el(tag, h.choice("body", ["", "1", "lan"]))
    s, d, r = [el("address", a.text)], ["<any/>"], []
    {"rule": r, "source": s, "destination": d}[where].insert(pos, x)
    body = cat(el("source", *s), el("destination", *d), *r)
    ok, c = parse(h, "pf", config(h, [rule("<source><any/></source><destination><any/></destination>"), rule(body)]))
    h.check(not ok, "refused", got=c if ok else None)


@U.unit(each=["src", "dst"])
def unknown_network(h, side):
    n = h.chars("n", 3, "lanopt1")
    x = el("network", n)
    e = [el("source", x if side == "src" else "<any/>"), el("destination", x if side == "dst" else "<any/>")]
    ok, c = parse(h, "pf", config(h, [rule(cat(*e))]))
    good = h.Or(n == "lan", n == "wan")
    h.check(h.Iff(ok, good), "exactly the interfaces there are", got=n)
    if ok:
        node = (c.rules.rules[0].src if side == "src" else c.rules.rules[0].dst).host
        h.check(isinstance(node, h.mods.ob.NetworkInterface) and node.name == n, "that interface", got=node)


@U.unit(each=[(a, b, r) for a in (1, 2) for b in (1, 2) for r in (1, 2)])
def alias_names(h, v):
    """a rule means the alias of exactly that name"""
    n1, n2, r = h.chars("n1", v[0], "abA"), h.chars("n2", v[1], "abA"), h.chars("r", v[2], "abA")
    h.assume(h.Not(n1 == n2))
    a, b = host4(h, "a", ""), host4(h, "b", "")
    al = el("aliases", alias(n1, "host", a.text), alias(n2, "network", cat(b.text, "/32")), alias("b", "port", "80"), alias("q", "port", "90"))
    side = h.choice("side", ["source", "destination"])
    other = "destination" if side == "source" else "source"
    text = el("pfsense", al, ifaces(h), el("filter", rule(cat(el(side, el("address", r)), el(other, "<any/>")))))
    ok, c = parse(h, "pf", text)
    h.check(h.Iff(ok, h.Or(r == n1, r == n2)), "accepted exactly if there is such an alias", got=r)
    if not ok:
        return
    node = c.rules.rules[0].src if side == "source" else c.rules.rules[0].dst
    g = node.host
    h.check(isinstance(g, h.mods.ob.NetworkGroup) and len(g.objects) == 1, "the alias", got=g)
    want = Spec("net", "", 4, h.Ite(r == n1, a.val, b.val), M4)
    check_node(h, g.objects[0], want, "member", "m")


@U.unit(each=[(a, b) for a in (1, 2) for b in (1, 2)])
def port_alias_names(h, v):
    n1, n2 = h.chars("n1", v[0], "abA"), h.chars("n2", v[1], "abA")
    h.assume(h.Not(n1 == n2))
    w = h.choice("which", [0, 1])
    p, q = h.int("p", 1, 65535), h.int("q", 1, 65535)
    al = el("aliases", alias(n1, "port", h.dec(p)), alias(n2, "port", h.dec(q)))
    side = h.choice("side", ["source", "destination"])
    other = "destination" if side == "source" else "source"
    text = el("pfsense", al, ifaces(h), el("filter", rule(cat(el(side, "<any/>", el("port", n2 if w else n1)), el(other, "<any/>")))))
    c, r = one(h, text)
    if r is None:
        return
    node = r.src if side == "source" else r.dst
    g = node.port
    h.check(isinstance(g, h.mods.ob.PortGroup) and len(g.objects) == 1, "the alias", got=g)
    check_port(h, g.objects[0], PortSpec("", "eq", q if w else p), "member")
    h.check((r.dst if side == "source" else r.src).port is None, "no port on the other side")


@U.unit(each=["pfsense", "opnsense", "ipfire"])
def root(h, t):
    """sections may stand in any order; another kind of file is refused"""
    a = host4(h, "s", "")
    parts = [el("aliases", alias("al", "host", a.text)), ifaces(h), el("filter", rule(cat(el("source", el("address", "al")), el("destination", el("network", "opt1"))))),
             "<system><domain>ex.org</domain><hostname>fw</hostname><x/></system>", "<revision><time>1500000000</time></revision>", "<dhcpd><lan/></dhcpd>"]
    r = h.choice("rot", list(range(6)))
    parts = parts[r:] + parts[:r]
    if h.choice("rev", [0, 1]):
        parts.reverse()
    ok, c = parse(h, "pf", el(t, *parts))
    h.check(ok == (t != "ipfire"), "accepted", got=t, error=None if ok else repr(c))
    if not ok:
        return
    rs = c.rules.rules
    h.check(len(rs) == 1, "one rule")
    check_node(h, rs[0].src.host, a, "source", "s")
    check_end(h, c, rs[0].dst, "DMZ", PortSpec(""), "destination", "d")
    h.check(c.hostname == "fw.ex.org", "hostname", got=c.hostname)


STATIC = ["static", "dhcp", "none", "pppoe", "empty"]


@U.unit(each=[(a, b) for a in STATIC for b in STATIC])
def interfaces(h, v):
    """tag, description, address and device of each interface"""
    want, text = [], []
    for i, k in enumerate(v):
        for tag in (("lan", "wan")[i], f"opt{i + 1}"):
            d = h.chars("d" + tag, 2, "abE ")
            h.assume(h.Not(d[0] == " "))
            for w in want:
                h.assume(h.Not(w[1] == d))
            dev = "em" + tag
            addr = ""
            e = None
            if k == "static":
                a, p = h.int("a" + tag, 0, M4), h.choice("p" + tag, [0, 8, 24, 32])
                e = (a, p)
                addr = cat(el("ipaddr", h.a4(a)), el("subnet", str(p)))
            elif k in ("dhcp", "pppoe"):
                addr = el("ipaddr", k)
            elif k == "empty":
                addr = "<ipaddr/><subnet/>"
            parts = [el("if", dev), el("descr", d), addr, "<enable/>"]
            if tag == "lan":
                parts.reverse()
            text.append(el(tag, *parts))
            want.append((tag, d, dev, e))
    c = parsed(h, "pf", el("pfsense", el("interfaces", *text)))
    if c is None:
        return
    got = list(c.interfaces.values())
    h.check(len(got) == len(want), "number of interfaces", got=got)
    for i, (tag, d, dev, e) in zip(got, want):
        h.check(i.alias == (d if tag.startswith("opt") else tag), "interface name", got=i.alias)
        h.check(i.description == (tag if tag.startswith("opt") else d), "description", got=i.description)
        h.check(len(i.addresses) == (1 if e else 0), "number of addresses", got=i.addresses)
        if e:
            f = i.addresses[0].interface
            h.check(f.version == 4 and num(f.ip) == e[0], "address", got=f)
            h.check(num(f.network.netmask) == mask_of(e[1], 4), "prefix length", got=f)
        else:
            h.check(i.nameif == dev, "device", got=i.nameif)


@U.unit(each=["lan", "opt1", "descr"])
def no_text(h, k):
    """an empty or missing description is no reason to refuse a file"""
    d = h.choice("d", ["", "<descr/>", "<descr></descr>"])
    i = cat("<lan><if>em0</if><ipaddr>dhcp</ipaddr>", d if k == "lan" else "", "</lan><opt1><if>em1</if>", d if k == "opt1" else "<descr>DMZ</descr>", "</opt1>")
    a = host4(h, "s", "")
    r = el("rule", "<type>pass</type>", el("interface", k if k != "descr" else "lan"), d, el("source", el("address", a.text)), el("destination", "<any/>"))
    c, r = one(h, el("pfsense", el("interfaces", i), el("filter", r)))
    if r is None:
        return
    h.check(r.id == ("opt1" if k == "opt1" else "lan"), "list name", got=r.id)
    check_node(h, r.src.host, a, "source", "s")
    h.check(len(r.remark) == 2 and not r.remark[0], "no description", got=r.remark)


@U.unit(each=[(k, n) for k in ("host4", "net4", "alias", "opt", "any") for n in ("DMZ", "lan", "/D*/")])
def filtered(h, v):
    """what was read is what a filter sees"""
    k, name = v
    w = World(h)
    s, sv = w.end(k, "s")
    c = parsed(h, "pf", config(h, [rule(cat(el("source", s), el("destination", "<any/>")), ifn="opt1")], w))
    if c is None:
        return
    f = h.int("f", 0, M4)
    fs = Spec("net", "", 4, f, M4)
    ok, b = caf(h, cat("id ", name, " ip src ", h.a4(f), "\n"))
    h.check(ok, "filter", error=None if ok else repr(b)[:300])
    if not ok:
        return
    got = list(c.filter(b))
    want = h.And(name != "lan", True if isinstance(sv, str) else sv.meets(h, fs))
    h.check(h.Iff(len(got) == 1, want), "selected", got=got)


DESCR = ["opt1", "opt2", "opt3", "DMZ", "wan2"]


@U.unit(each=[(a, b) for a in DESCR for b in DESCR if a != b])
def descr_tags(h, v):
    """an optional interface may be described by the tag of another one: rules refer to interfaces by tag"""
    ifs = el("interfaces", iface("wan", "WAN"), iface("opt1", v[0]), iface("opt2", v[1]), iface("lan", "LAN"))
    name = {"opt1": v[0], "opt2": v[1], "lan": "lan", "wan": "wan"}
    i, s, d = h.choice("i", ["opt1", "opt2", "lan"]), h.choice("s", ["opt1", "opt2", "wan"]), h.choice("d", ["opt1", "opt2"])
    f = h.choice("floating", [0, 1])
    body = cat(el("source", el("network", s)), el("destination", el("network", d)), "<floating>yes</floating><direction>in</direction>" if f else "")
    c, r = one(h, config(h, [rule(body, ifn=i)], ifs=ifs))
    if r is None:
        return
    if f:
        o = r.options.get("floating")
        h.check(o is not None and list(o.interfaces) == [name[i]], "interfaces", got=o)
    else:
        h.check(r.id == name[i], "list name", got=r.id)
    check_end(h, c, r.src, name[s], PortSpec(""), "source", "s")
    check_end(h, c, r.dst, name[d], PortSpec(""), "destination", "d")
    h.check({x.alias for x in c.interfaces.values()} == set(name.values()), "interfaces by name", got=list(c.interfaces.values()))


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=[(a, b) for a in c28.PF for b in c28.PF if "filter" in c28.PF[a] or "filter" in c28.PF[b]])
def neighbours(h, v):
    c28.pf_two(h, v)

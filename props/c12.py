"""Objects and object groups hold exactly the members their configuration block lists."""
from .common import *
from . import c28
from .c09 import PORTNAMES, ICMPNAMES, CODES

U = Units()
unit_fn = U.fn
BOUNDS = ("one to three object or object-group blocks with up to 3 members, of every documented kind, ASA/FWSM and IOS syntax; "
          "addresses, netmasks, prefix lengths, ports, protocol and ICMP numbers symbolic; ranges of up to 4 addresses and 6 long ones (quick) or "
          "16 (thorough); names of up to 3 and descriptions of up to 2 symbolic characters")
NAMECHARS = "aB9_-."


def net_object_body(h, k, n, span=3):
    """(body line, Spec)"""
    if k.startswith("host") or k.startswith("subnet"):
        fam = int(k[-1])
        a = h.int(n, 0, a_max(fam))
        if k.startswith("host"):
            return cat(" host ", addr(h, a, fam), "\n"), Spec("net", "", fam, a, a_max(fam))
        if fam == 4:
            m = mask_of(h.int(n + ".p", 0, 32), 4)
            return cat(" subnet ", h.a4(a), " ", h.a4(m), "\n"), Spec("net", "", 4, a, m)
        p = h.int(n + ".p", 0, 128)
        return cat(" subnet ", h.a6(a), "/", h.dec(p), "\n"), Spec("net", "", 6, a, mask_of(p, 6))
    if k.startswith("range"):
        fam = int(k[-1])
        a = h.int(n, 0, a_max(fam))
        b = h.int(n + ".e", 0, a_max(fam))
        h.assume(a <= b)
        h.assume(b - a <= span)
        return cat(" range ", addr(h, a, fam), " ", addr(h, b, fam), "\n"), Spec("range", "", fam, lo=a, hi=b, span=span)
    lim = {"fqdn": "", "fqdn4": "v4 ", "fqdn6": "v6 "}[k]
    nm = h.chars(n, 2, "ab.v4")
    return cat(" fqdn ", lim, "x", nm, "\n"), Spec({"fqdn": "any", "fqdn4": "any4", "fqdn6": "any6"}[k])


NETOBJ = ["host4", "host6", "subnet4", "subnet6", "fqdn", "fqdn4", "fqdn6"]


def net_object(h, k, span):
    body, spec = net_object_body(h, k, "a", span)
    plain = not k.startswith("range")
    nm = h.choice("name", ["srv", "any1", "h"]) if plain else "srv"
    desc = h.choice("desc", ["", " d", "host 1.2.3.4", "object network z"]) if plain else "d"
    use = h.choice("use", [True, False]) if plain else True
    text = cat("object network ", nm, "\n", body, cat(" description ", desc, "\n") if desc else "")
    if use:
        text = cat(text, "access-list foo extended permit ip object ", nm, " any\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    h.check(len(c.objects.network) == 1 and nm in c.objects.network, "one object of that name", got=list(c.objects.network))
    o = c.objects.network.get(nm)
    if o is None:
        return
    h.check(o.name == nm, "name", got=o.name)
    h.check((o.description or "") == desc.lstrip(" "), "description", got=o.description)
    check_node(h, o, spec, "object", "o")
    h.check(len(c.rules.rules) == (1 if use else 0), "rules", n=len(c.rules.rules))
    if use and c.rules.rules:
        h.check(c.rules.rules[0].src.host is o, "the rule refers to the object")
    h.observe(o)


@U.unit(each=NETOBJ)
def network_object(h, k):
    net_object(h, k, 3)


@U.unit(each=["range4", "range6"])
def network_range(h, k):
    net_object(h, k, 3)


LONG = [(4, 0x0A000001, 0x0A0000FE), (4, 0xC0000207, 0xC0000207 + 20), (4, 0, M4), (4, 1, M4 - 1), (6, (0x20010DB8 << 96) + 1, (0x20010DB8 << 96) + 62), (6, 0xFFFD, 0x10007)]


@U.unit(each=range(len(LONG)))
def network_range_long(h, k):
    """ranges that fall into many blocks"""
    fam, lo, hi = LONG[k]
    f = h.a4 if fam == 4 else h.a6
    c = parsed(h, "fwsm", cat("object network r\n range ", f(lo), " ", f(hi), "\naccess-list foo extended permit ip object r any\n"))
    if c is None:
        return
    o = c.objects.network.get("r")
    h.check(o is not None, "an object of that name", got=list(c.objects.network))
    if o is not None:
        check_node(h, o, Spec("range", "", fam, lo=lo, hi=hi, span=hi - lo), "object", "o")


@U.unit(each=["range4", "range6"], tiers=("thorough",))
def network_range_wide(h, k):
    net_object(h, k, 15)


@U.unit(each=["network", "service", "netgroup", "svcgroup", "portgroup", "icmpgroup", "protogroup"])
def block_name(h, kind):
    """the name and the description of a block, any characters a name may have"""
    n = h.choice("len", [1, 2, 3])
    nm = h.chars("n", n, NAMECHARS)
    d = h.chars("d", 2, "a 9(")
    described = h.choice("described", [True, False])
    dt = cat(" description x", d, "\n") if described else ""
    proto = h.choice("proto", ["tcp", "udp", "tcp-udp"]) if kind == "portgroup" else ""
    text = {"network": cat("object network ", nm, "\n host 1.2.3.4\n", dt),
            "service": cat("object service ", nm, "\n service tcp destination eq 80\n", dt),
            "netgroup": cat("object-group network ", nm, "\n", dt, " network-object host 1.2.3.4\n"),
            "svcgroup": cat("object-group service ", nm, "\n", dt, " service-object tcp destination eq 80\n"),
            "portgroup": cat("object-group service ", nm, " ", proto, "\n", dt, " port-object eq 80\n"),
            "icmpgroup": cat("object-group icmp-type ", nm, "\n", dt, " icmp-object echo\n"),
            "protogroup": cat("object-group protocol ", nm, "\n", dt, " protocol-object tcp\n")}[kind]
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    store = {"network": c.objects.network, "service": c.objects.service, "netgroup": c.groups.network, "svcgroup": c.groups.service,
             "portgroup": c.groups.port, "icmpgroup": c.groups.icmp, "protogroup": c.groups.protocol}[kind]
    all_ = [c.objects.network, c.objects.service, c.groups.network, c.groups.service, c.groups.port, c.groups.icmp, c.groups.protocol]
    h.check(sum(len(x) for x in all_) == 1 and len(store) == 1, "one block, of its kind", got=[list(x) for x in all_])
    for k, o in store.items():
        h.check(h.And(k == nm, o.name == nm), "name", got=o.name)
        if described:
            h.check(h.same_text(o.description, cat("x", d)), "description", got=o.description)
        else:
            h.check(not o.description, "no description", got=o.description)


MEMBER = ["host4", "net4", "host6", "net6", "object", "group", "name", "namenet"]


def group_member(h, k, n, pre):
    """(prefix text, line, Spec)"""
    if k == "host4":
        s = host4(h, n)
        return pre, cat(" network-object ", s.text, "\n"), s
    if k == "host6":
        s = host6(h, n)
        return pre, cat(" network-object ", s.text, "\n"), s
    if k == "net4":
        s = net4(h, n)
        return pre, cat(" network-object ", s.text, "\n"), s
    if k == "net6":
        s = net6(h, n)
        return pre, cat(" network-object ", s.text, "\n"), s
    a = h.int(n, 0, M4)
    s = Spec("net", "", 4, a, M4)
    if k == "object":
        return cat(pre, "object network o", n, "\n host ", h.a4(a), "\n"), cat(" network-object object o", n, "\n"), s
    if k == "group":
        return (cat(pre, "object-group network g", n, "\n network-object host ", h.a4(a), "\n"), cat(" group-object g", n, "\n"), s)
    if k == "name":
        return cat(pre, "name ", h.a4(a), " n", n, "\n"), cat(" network-object host n", n, "\n"), s
    m = mask_of(h.int(n + ".p", 0, 32), 4)
    return cat(pre, "name ", h.a4(a), " n", n, "\n"), cat(" network-object n", n, " ", h.a4(m), "\n"), Spec("net", "", 4, a, m)


def network_groups(h, kinds):
    pre, lines, specs = "", "", []
    for i, k in enumerate(kinds):
        pre, t, s = group_member(h, k, f"m{i}", pre)
        lines = cat(lines, t)
        specs.append(s)
    ws = h.choice("ws", ["", " "]) if "net6" not in kinds else ""
    text = cat(pre, "object-group network grp", ws, "\n", lines, "access-list foo extended permit ip any object-group grp\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    h.check("grp" in c.groups.network, "the group exists", got=list(c.groups.network))
    g = c.groups.network.get("grp")
    if g is None:
        return
    h.check(len(g.objects) == len(kinds), "number of members", n=len(g.objects))
    for i, (o, s) in enumerate(zip(g.objects, specs)):
        check_node(h, o, s, "member in its place", f"m{i}")
    if not any("net" in k for k in kinds):
        check_node(h, g, Spec("union", text, parts=specs), "the group", "g")
    h.check(len(c.rules.rules) == 1 and c.rules.rules[0].dst.host is g, "the rule refers to the group")
    h.check(len(c.groups.network) == 1 + sum(k == "group" for k in kinds), "no other group")
    h.check(len(c.objects.network) == sum(k == "object" for k in kinds), "no other object")
    h.check(len(c.names.objects) == sum(k in ("name", "namenet") for k in kinds), "names are listed")


@U.unit(each=[(a, b) for a in MEMBER for b in MEMBER])
def network_group(h, v):
    network_groups(h, v)


@U.unit(each=[("net4", "group", "host6"), ("object", "net6", "group"), ("name", "host4", "object"), ("host4", "host4", "host4")])
def network_group3(h, v):
    network_groups(h, v)


OPS = ["none", "eq", "lt", "gt", "neq", "range"]


@U.unit(each=[(a, b) for a in OPS for b in OPS if (a, b) != ("none", "none")])
def service_object(h, v):
    """a tcp/udp service with its source and destination ports, as an object and as a group member"""
    p, q = port(h, "p", v[0]), port(h, "q", v[1])
    proto = h.choice("proto", ["tcp", "udp", "tcp-udp"])
    body = cat(proto, cat(" source", p.text) if p.op else "", cat(" destination", q.text) if q.op else "")
    as_ = h.choice("as", ["object", "member", "object member"])
    if as_ == "member":
        text = cat("object-group service g\n service-object ", body, "\n")
    else:
        text = cat("object service s\n service ", body, "\n")
        if as_ == "object member":
            text = cat(text, "object-group service g\n service-object object s\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    if as_ == "object":
        o = c.objects.service.get("s")
        h.check(len(c.groups.service) == 0, "no group")
    else:
        g = c.groups.service.get("g")
        h.check(g is not None and len(g.objects) == 1, "one member", got=g)
        o = g.objects[0] if g is not None and g.objects else None
        if as_ == "object member":
            h.check(o is c.objects.service.get("s"), "the object itself")
    h.check(o is not None, "service")
    if o is None:
        return
    h.check(o.protocol.name == proto, "protocol", got=o.protocol)
    check_port(h, o.src, p, "source port")
    check_port(h, o.dst, q, "destination port")
    h.check(o.icmp_type is None and o.icmp_code is None, "no icmp type")


@U.unit(each=["icmp", "icmp6"])
def service_icmp(h, proto):
    form = h.choice("form", ["none", "name", "name+code", "int", "int+code"])
    t, cd = h.int("t", 0, 255), h.int("c", 0, 255)
    nm = h.choice("name", ICMPNAMES) if form.startswith("name") else None
    body = cat(proto, "" if form == "none" else cat(" ", nm if nm else h.dec(t)), cat(" ", h.dec(cd)) if form.endswith("code") else "")
    member = h.choice("as", [True, False])
    text = cat("object-group service g\n service-object ", body, "\n") if member else cat("object service s\n service ", body, "\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    o = (c.groups.service["g"].objects if member else list(c.objects.service.values()))
    h.check(len(o) == 1, "one service")
    if not o:
        return
    o = o[0]
    h.check(o.protocol.name == proto, "protocol", got=o.protocol)
    h.check(o.src is None and o.dst is None, "no ports")
    if form == "none":
        h.check(o.icmp_type is None, "no type", got=o.icmp_type)
    else:
        h.check(o.icmp_type is not None and (o.icmp_type == nm if nm else numeq(h, o.icmp_type, t)), "icmp type", got=o.icmp_type)
    if form.endswith("code"):
        h.check(o.icmp_code is not None and numeq(h, o.icmp_code, cd), "icmp code", got=o.icmp_code)
    else:
        h.check(o.icmp_code is None, "no code", got=o.icmp_code)


@U.unit(each=["code", "int", "object int"])
def service_protocol(h, form):
    """a service that is just a protocol"""
    n = h.int("n", 0, 255)
    code = h.choice("code", [x for x in CODES if x not in ("tcp", "udp")]) if form == "code" else None
    t = code if code else h.dec(n)
    text = cat("object service s\n service ", t, "\n") if form.startswith("object") else cat("object-group service g\n service-object ", t, "\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    o = list(c.objects.service.values()) if form.startswith("object") else c.groups.service["g"].objects
    h.check(len(o) == 1, "one service")
    for x in o:
        h.check(x.protocol.name == code if code else numeq(h, x.protocol.name, n), "protocol", got=x)
        h.check(x.src is None and x.dst is None and x.icmp_type is None, "nothing else", got=x)


PM = ["eq", "range", "name", "group"]


def port_groups(h, kinds):
    proto = h.choice("proto", ["tcp", "udp", "tcp-udp"])
    pre, lines, want = "", "", []
    for i, k in enumerate(kinds):
        n = f"m{i}"
        if k == "name":
            nm = h.choice(n, PORTNAMES[:12] if len(kinds) == 1 else ["www", "who", "ldaps"])
            lines = cat(lines, " port-object eq ", nm, "\n")
            want.append(nm)
        else:
            s = port(h, n, "eq" if k == "group" else k)
            want.append(s)
            if k == "group":
                pre = cat(pre, "object-group service i", n, " ", proto, "\n port-object", s.text, "\n")
                lines = cat(lines, " group-object i", n, "\n")
            else:
                lines = cat(lines, " port-object", s.text, "\n")
    text = cat(pre, "object-group service grp ", proto, h.choice("ws", ["", " "]), "\n", lines,
               "access-list foo extended permit tcp any any object-group grp\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    g = c.groups.port.get("grp")
    h.check(g is not None, "the group exists", got=list(c.groups.port))
    if g is None:
        return
    h.check(g.protocol.name == proto, "protocol", got=g.protocol)
    h.check(len(g.objects) == len(kinds), "number of members", got=g)
    for o, k, w in zip(g.objects, kinds, want):
        if k == "name":
            h.check(isinstance(o, h.mods.ob.Port) and o.op == "eq" and o.num == w, "named port", got=o)
        elif k == "group":
            h.check(isinstance(o, h.mods.ob.PortGroup) and len(o.objects) == 1, "inner group", got=o)
            check_port(h, o.objects[0], w, "inner member")
        else:
            check_port(h, o, w, "member")
    h.check(len(c.rules.rules) == 1 and c.rules.rules[0].dst.port is g, "the rule refers to the group")


@U.unit(each=[(a,) for a in PM] + [(a, b) for a in PM for b in PM])
def port_group(h, v):
    port_groups(h, v)


@U.unit(each=[("int",), ("name",), ("int", "int"), ("name", "int"), ("group", "int"), ("int", "group"), ("group", "name")])
def protocol_group(h, kinds):
    pre, lines, want = "", "", []
    for i, k in enumerate(kinds):
        n = f"m{i}"
        x = h.int(n, 0, 255) if k != "name" else h.choice(n, CODES)
        want.append(x)
        t = x if k == "name" else h.dec(x)
        if k == "group":
            pre = cat(pre, "object-group protocol i", n, "\n protocol-object ", t, "\n")
            lines = cat(lines, " group-object i", n, "\n")
        else:
            lines = cat(lines, " protocol-object ", t, "\n")
    c = parsed(h, "fwsm", cat(pre, "object-group protocol grp\n", lines, "access-list foo extended permit object-group grp any any\n"))
    if c is None:
        return
    g = c.groups.protocol.get("grp")
    h.check(g is not None and len(g.objects) == len(kinds), "number of members", got=g)
    if g is None:
        return
    for o, k, w in zip(g.objects, kinds, want):
        if k == "group":
            h.check(isinstance(o, h.mods.ob.ProtocolGroup) and len(o.objects) == 1, "inner group", got=o)
            o = o.objects[0]
        h.check(o.name == w if k == "name" else numeq(h, o.name, w), "member", got=o)
    h.check(len(c.rules.rules) == 1 and c.rules.rules[0].protocol is g, "the rule refers to the group")


@U.unit(each=[("int",), ("name",), ("int", "int"), ("name", "int"), ("group", "int"), ("int", "group"), ("group", "name")])
def icmp_group(h, kinds):
    pre, lines, want = "", "", []
    for i, k in enumerate(kinds):
        n = f"m{i}"
        x = h.int(n, 0, 255) if k != "name" else h.choice(n, ICMPNAMES)
        want.append(x)
        t = x if k == "name" else h.dec(x)
        if k == "group":
            pre = cat(pre, "object-group icmp-type i", n, "\n icmp-object ", t, "\n")
            lines = cat(lines, " group-object i", n, "\n")
        else:
            lines = cat(lines, " icmp-object ", t, "\n")
    c = parsed(h, "fwsm", cat(pre, "object-group icmp-type grp\n", lines, "access-list foo extended permit icmp any any object-group grp\n"))
    if c is None:
        return
    g = c.groups.icmp.get("grp")
    h.check(g is not None and len(g.objects) == len(kinds), "number of members", got=g)
    if g is None:
        return
    for o, k, w in zip(g.objects, kinds, want):
        if k == "group":
            h.check(isinstance(o, h.mods.ob.ICMPGroup) and len(o.objects) == 1, "inner group", got=o)
            o = o.objects[0]
        h.check(o.code is None and (o.type == w if k == "name" else numeq(h, o.type, w)), "member", got=o)
    h.check(len(c.rules.rules) == 1 and c.rules.rules[0].icmp is g, "the rule refers to the group")


@U.unit(each=[(a,) for a in ("host4", "net4", "host6", "net6", "group")] + [("host4", "net4"), ("net4", "group"), ("group", "host6"), ("net6", "host4")])
def ios_network_group(h, kinds):
    pre, lines, specs = "", "", []
    for i, k in enumerate(kinds):
        n = f"m{i}"
        if k == "group":
            s = host4(h, n)
            pre = cat(pre, "object-group network i", n, "\n ", s.text, "\n")
            lines = cat(lines, " group-object i", n, "\n")
        else:
            s = {"host4": host4, "net4": net4, "host6": host6, "net6": net6}[k](h, n)
            lines = cat(lines, " ", s.text, h.choice(n + "w", ["", " "]), "\n")
        specs.append(s)
    text = cat(pre, "object-group network grp\n", h.choice("desc", ["", " description foo bar\n"]), lines,
               "ip access-list extended foo\n permit ip object-group grp any\n")
    c = parsed(h, "ios", text)
    if c is None:
        return
    g = c.groups.network.get("grp")
    h.check(g is not None, "the group exists", got=list(c.groups.network))
    if g is None:
        return
    h.check(len(g.objects) == len(kinds), "number of members", got=g)
    for i, (o, s) in enumerate(zip(g.objects, specs)):
        check_node(h, o, s, "member in its place", f"m{i}")
    h.check(len(c.rules.rules) == 1 and c.rules.rules[0].src.host is g, "the rule refers to the group")


@U.unit(each=["port", "icmp", "int", "code", "group"])
def ios_service_group(h, k):
    ob = h.mods.ob
    n = h.int("n", 0, 255)
    p = port(h, "p", h.choice("op", ["eq", "range", "lt", "gt", "neq"]) if k == "port" else "none")
    q = port(h, "q", h.choice("oq", ["none", "eq", "range"]) if k == "port" else "none")
    proto = h.choice("proto", ["tcp", "udp", "tcp-udp"])
    code = h.choice("code", ["ip", "esp", "gre", "ospf"])
    nm = h.choice("nm", ["echo", "unreachable"])
    line = {"port": cat(proto, " source", p.text, cat(" destination", q.text) if q.op else ""), "icmp": cat("icmp ", nm),
            "int": h.dec(n), "code": code, "group": "group-object i"}[k]
    pre = cat("object-group service i\n ", h.dec(n), "\n") if k == "group" else ""
    c = parsed(h, "ios", cat(pre, "object-group service grp\n ", line, "\nip access-list extended foo\n permit object-group grp any any\n"))
    if c is None:
        return
    g = c.groups.service.get("grp")
    h.check(g is not None and len(g.objects) == 1, "one member", got=g)
    if g is None or not g.objects:
        return
    o = g.objects[0]
    if k == "group":
        h.check(isinstance(o, ob.ServiceGroup) and len(o.objects) == 1, "inner group", got=o)
        o = o.objects[0]
    want = {"port": proto, "icmp": "icmp", "code": code}.get(k)
    h.check(o.protocol.name == want if want else numeq(h, o.protocol.name, n), "protocol", got=o)
    check_port(h, o.src, p, "source port")
    check_port(h, o.dst, q, "destination port")
    h.check(o.icmp_type == (nm if k == "icmp" else None), "icmp type", got=o.icmp_type)
    h.check(len(c.rules.rules) == 1 and c.rules.rules[0].protocol is g, "the rule refers to the group")


@U.unit(each=["network", "service", "netgroup"])
def several(h, kind):
    """blocks next to each other keep their own members"""
    a, b = h.int("a", 0, M4), h.int("b", 0, M4)
    if kind == "network":
        text = cat("object network x\n host ", h.a4(a), "\nobject network xy\n host ", h.a4(b), "\n description d\nhostname fw\n")
    elif kind == "netgroup":
        text = cat("object-group network x\n network-object host ", h.a4(a), "\nobject-group network xy\n network-object host ", h.a4(b),
                   "\n group-object x\nhostname fw\n")
    else:
        text = cat("object service x\n service tcp destination eq ", h.dec(h.int("p", 0, 65535)), "\nobject service xy\n service udp source eq ",
                   h.dec(h.int("q", 0, 65535)), "\nhostname fw\n")
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    h.check(c.hostname == "fw", "hostname", got=c.hostname)
    st = {"network": c.objects.network, "service": c.objects.service, "netgroup": c.groups.network}[kind]
    h.check(sorted(st) == ["x", "xy"], "both blocks", got=sorted(st))
    if sorted(st) != ["x", "xy"]:
        return
    if kind == "service":
        h.check(st["x"].protocol.name == "tcp" and st["xy"].protocol.name == "udp", "own protocol")
        h.check(st["x"].src is None and st["xy"].dst is None, "own ports")
        return
    x, y = Spec("net", "", 4, a, M4), Spec("net", "", 4, b, M4)
    check_node(h, st["x"], x, "first", "x")
    check_node(h, st["xy"], y if kind == "network" else Spec("union", parts=[x, y]), "second", "xy")


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("fwsm", "object") + c28.pairs("ios", "object-group", second="all"))
def neighbours(h, v):
    c28.rotated(h, v)

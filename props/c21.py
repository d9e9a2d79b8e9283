"""pfSense aliases hold exactly the members written, captions stand at their rules."""
from .common import *
from . import c28
from .c20 import el, iface, ifaces, alias, rule, config, numeq

U = Units()
unit_fn = U.fn
BOUNDS = ("configurations of up to 3 aliases of 5 kinds with up to 3 members of every form; URL tables of up to 2 lines of 10 forms; up to 3 rules with up to 3 captions at every row; all addresses, prefix lengths "
          "and ports symbolic; names of 1 to 3, descriptions of 3 symbolic characters")
TXT = "aZ .ü"


def member(h, k, n):
    """(text, what it denotes)"""
    if k in ("host4", "host6"):
        s = (host4 if k == "host4" else host6)(h, n, "")
        return s.text, s
    if k in ("net4", "net6"):
        fam = 4 if k == "net4" else 6
        a, p = h.int(n, 0, a_max(fam)), h.int(n + ".p", 0, 32 if fam == 4 else 128)
        return cat(addr(h, a, fam), "/", h.dec(p)), Spec("net", "", fam, a, mask_of(p, fam))
    if k == "name":
        return "fw-1.example.org", anyk("any")
    a = h.int(n, 0, 65535)
    if k == "port":
        return h.dec(a), PortSpec("", "eq", a)
    b = h.int(n + ".hi", 0, 65535)
    h.assume(a < b)
    return cat(h.dec(a), ":", h.dec(b)), PortSpec("", "range", a, b)


KINDS = {"host": ["host4", "host6", "name"], "network": ["net4", "net6"], "port": ["port", "range"]}


def check_members(h, g, want, label, tag):
    ob = h.mods.ob
    h.check(len(g.objects) == len(want), label + ": number of members", got=g.objects)
    for i, (o, s) in enumerate(zip(g.objects, want)):
        if isinstance(s, PortSpec):
            check_port(h, o, s, label)
        elif s.kind == "any":
            h.check(type(o) is ob.NetworkAny, label + ": a name may be any address", got=o)
        else:
            check_node(h, o, s, label, f"{tag}{i}")


def one_of(h, typ, ks, n):
    ms = [member(h, k, f"{n}{i}") for i, k in enumerate(ks)]
    text = ""
    for i, m in enumerate(ms):
        text = cat(text, " " if i else "", m[0])
    return text, [m[1] for m in ms]


@U.unit(each=[(t, a) for t in KINDS for a in [()] + [(x,) for x in KINDS[t]] + [(x, y) for x in KINDS[t] for y in KINDS[t]]] +
             [(t, (x, y, z)) for t in KINDS for x in KINDS[t] for y in KINDS[t] for z in KINDS[t]])
def members(h, v):
    typ, ks = v
    text, want = one_of(h, typ, ks, "m")
    d = h.chars("d", 3, TXT)
    n = h.chars("n", 2, "abA_")
    parts = [el("name", n), el("type", typ), el("address", text), el("descr", d), el("detail", "x||y")]
    r = h.choice("rot", [0, 1, 2, 3, 4])
    c = parsed(h, "pf", el("pfsense", el("aliases", el("alias", *(parts[r:] + parts[:r])))))
    if c is None:
        return
    t = c.groups.port if typ == "port" else c.groups.network
    h.check(len(t) == 1 and len(c.groups.network) + len(c.groups.port) == 1, "one group of that kind", got=t)
    for g in t.values():
        h.check(g.name == n, "name", got=g.name)
        h.check(g.description == d, "description", got=g.description)
        check_members(h, g, want, "member", "m")


@U.unit(each=[(a, b, c) for a in KINDS for b in KINDS for c in KINDS])
def several(h, v):
    """members and descriptions stay with their alias"""
    text, want = [], []
    for i, t in enumerate(v):
        n, d = h.chars(f"n{i}", 1, "abcA"), h.chars(f"d{i}", 2, TXT)
        for w in want:
            h.assume(h.Not(w[1] == n))
        ks = KINDS[t][:2] if i != 1 else [KINDS[t][0]]
        x, s = one_of(h, t, ks, f"m{i}")
        text.append(alias(n, t, x, d))
        want.append((t, n, d, s))
    c = parsed(h, "pf", el("pfsense", el("aliases", *text)))
    if c is None:
        return
    nets, ports = list(c.groups.network.values()), list(c.groups.port.values())
    h.check(len(nets) == sum(t != "port" for t in v) and len(ports) == sum(t == "port" for t in v), "groups of each kind", got=nets + ports)
    for i, (t, n, d, s) in enumerate(want):
        l = ports if t == "port" else nets
        if not l:
            continue
        g = l.pop(0)
        h.check(g.name == n, "name", got=g.name)
        h.check(g.description == d, "description", got=g.description)
        check_members(h, g, s, "member", f"m{i}")


@U.unit(each=["openvpn", "url", "urltable_ports", "geoip", "", "hosts"])
def other_kind(h, k):
    """an alias of a kind that is not understood makes the file be refused"""
    ok, c = parse(h, "pf", el("pfsense", el("aliases", alias("x", "host", "10.0.0.1"), alias("a", k, h.choice("m", ["", "10.0.0.1", "80"])))))
    h.check(not ok, "refused", got=c if ok else None)


BADM = {"network": ["10.0.0.0/33", "10.0.0.256/8", "foo", "10.0.0.1/x", "a:b::/129", "10.0.0.0/"],
        "port": ["9:8", "80:80", "1:2:3"]}


@U.unit(each=[(t, i, p) for t in BADM for i in range(len(BADM[t])) for p in (0, 1, 2)])
def bad_member(h, v):
    """a damaged member makes the file be refused, it never vanishes"""
    t, i, pos = v
    m = [member(h, "net4" if t == "network" else "port", f"m{j}")[0] for j in range(2)]
    m.insert(pos, BADM[t][i])
    ok, c = parse(h, "pf", el("pfsense", el("aliases", alias("a", t, cat(m[0], " ", m[1], " ", m[2])))))
    h.check(not ok, "refused", got=c if ok else None)


def table(h, lines, fetch=True):
    """parse a configuration with a URL table; what the server sends is stood in for"""
    import urllib.request
    text = cat("<pfsense><aliases><alias><name>t</name><type>urltable</type><url>https://x/y</url><descr>d</descr></alias>", alias("z", "host", "10.9.9.9"),
               "</aliases>", "<filter>", rule("<source><address>t</address></source><destination><address>z</address></destination>"), "</filter></pfsense>")
    asked = []

    class Data:
        def decode(self, enc="utf-8", *a):
            return lines

    class Resp:
        status = 200

        def read(self):
            return Data()

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def urlopen(url, *a, **k):
        asked.append(url)
        return Resp()
    real = urllib.request.urlopen
    urllib.request.urlopen = urlopen
    try:
        ok, c = h.attempt(h.mods.pf.pfsenseConfig.fromString, text, None, h.mods.pf.pfsenseParserOptions(fetch_urltable=fetch))
    finally:
        urllib.request.urlopen = real
    h.check(ok, "accepted", error=None if ok else repr(c)[:200])
    return (c if ok else None), asked


LINES = ["host4", "net4", "net4host", "host6", "net6", "blank", "spaces", "cr", "comment", "junk"]


@U.unit(each=[(a, b) for a in LINES for b in LINES] + [(a,) for a in LINES] + [()])
def url_table(h, v):
    """every address and every network of the table is a member, other lines are not"""
    text, want = "", []
    for i, k in enumerate(v):
        if k in ("host4", "spaces", "cr", "host6"):
            s = (host6 if k == "host6" else host4)(h, f"l{i}", "")
            want.append(s)
            l = cat("  " if k == "spaces" else "", s.text, " " if k == "spaces" else ("\r" if k == "cr" else ""))
        elif k in ("net4", "net6", "net4host"):
            l, s = member(h, k[:4], f"l{i}")
            if k != "net4host":
                h.assume((s.val & s.mask) == s.val)
            else:
                h.assume(h.Not((s.val & s.mask) == s.val))
            want.append(s)
        else:
            l = {"blank": "", "comment": "# 10.0.0.1", "junk": "example.org"}[k]
        text = cat(text, l, "\n")
    c, asked = table(h, text)
    if c is None:
        return
    h.check(asked == ["https://x/y"], "asked for the table once", got=asked)
    g = c.groups.network.get("t")
    h.check(g is not None and c.rules.rules[0].src.host is g, "the rule means the table", got=g)
    if g is not None:
        check_members(h, g, want, "member", "t")


@U.unit()
def no_fetch(h):
    """without asking the server a table may be any address"""
    c, asked = table(h, "", False)
    if c is None:
        return
    g = c.groups.network.get("t")
    h.check(asked == [], "nothing is fetched", got=asked)
    h.check(g is not None and len(g.objects) == 1 and type(g.objects[0]) is h.mods.ob.NetworkAny, "any", got=g)


def caption(h, n, row, ifn):
    t, col = h.chars("t" + n, 2, TXT), h.choice("c" + n, ["bg-info", "bg-danger"])
    return (t, col), lambda i: el("sep" + str(i), el("row", "fr" + str(row)), el("text", t), el("color", col), el("if", ifn))


def captions(h, layout, seps, opt="DMZ", place=None):
    """layout: interface of each rule; seps: (interface, row) of each caption; place: number of rules written in front of the captions"""
    body, want = [], [[] for _ in layout]
    for i, k in enumerate(layout):
        body.append(rule(cat("<source><any/></source><destination><any/></destination>", "<floating>yes</floating><direction>any</direction>" if k == "floatingrules" else ""),
                         ifn="lan,wan" if k == "floatingrules" else k, descr="d" + str(i)))
    per = {}
    for j, (k, row) in enumerate(seps):
        e, f = caption(h, str(j), row, k)
        per.setdefault(k, []).append(f(len(per.get(k, []))))
        at = [i for i, x in enumerate(layout) if x == k]
        if row < len(at):
            want[at[row]].append(e)
    body.insert(len(body) if place is None else place, el("separator", *[el(k, *v) for k, v in per.items()]))
    c = parsed(h, "pf", config(h, body, opt=opt))
    if c is None:
        return
    rs = c.rules.rules
    h.check(len(rs) == len(layout), "a caption is no rule", got=rs)
    for i, (r, w) in enumerate(zip(rs, want)):
        got = r.head or []
        h.check(len(got) == len(w), "number of captions", got=got, want=len(w), rule=i)
        for g, (t, col) in zip(got, w):
            h.check(g.text == t, "text of the caption", got=g.text)
            h.check(g.bg == col, "colour of the caption", got=g.bg)


LAYOUT = [("lan", "lan", "lan"), ("wan", "lan", "lan"), ("floatingrules", "floatingrules", "wan"), ("opt1", "opt1", "lan"), ("lan", "opt1", "wan"),
          ("lan", "wan", "lan"), ("wan", "floatingrules", "wan")]


@U.unit(each=[(l, k, r) for l in range(len(LAYOUT)) for k in dict.fromkeys(LAYOUT[l]) for r in (0, 1, 2, 3)])
def caption_rows(h, v):
    l, k, r = v
    lay = LAYOUT[l]
    opt = h.chars("opt", 2, "dDl")
    ks = list(dict.fromkeys(lay))
    captions(h, lay, [(k, r), (ks[-1], 0), (k, r)], opt)


@U.unit(each=[(a, b) for a in range(4) for b in range(4)])
def caption_pairs(h, v):
    captions(h, ("wan", "lan", "lan", "lan"), [("lan", v[0]), ("lan", v[1]), ("wan", 0)])


@U.unit(each=[(l, p) for l in range(len(LAYOUT)) for p in (0, 1, 2)])
def caption_places(h, v):
    l, p = v
    lay = LAYOUT[l]
    captions(h, lay, [(lay[-1], 0), (lay[0], 1), (lay[0], 0)], place=p)


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=[(a, b) for a in c28.PF for b in c28.PF if "aliases" in c28.PF[a] or "aliases" in c28.PF[b]])
def neighbours(h, v):
    c28.pf_two(h, v)

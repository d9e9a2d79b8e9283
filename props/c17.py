"""Every NAT statement is read as exactly the translation it writes, in its section and in order."""
from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("twice NAT: 2 types x 4 real x up to 9 mapped sources x 5 destinations x services x sections x up to 2 options, description of 3 symbolic characters; "
          "object NAT: 15 mapped forms x services x options, with the definition before, in the same block or after it; up to 3 NAT statements in "
          "one configuration; addresses, ports and interface names symbolic")


class World:
    """interfaces, objects and groups a NAT statement can refer to"""

    def __init__(self, h, objs="abcdng", svcs="", names=False):
        self.h = h
        self.tag = 0
        self.i1, self.i2 = "in", "out"
        if names:
            self.i1, self.i2 = h.chars("if1", 2, "iI"), h.chars("if2", 2, "iI")
            h.assume(h.Not(self.i1 == self.i2))
        self.text = cat("interface E0\n nameif ", self.i1, "\ninterface E1\n nameif ", self.i2, "\n")
        self.spec = {"any": anyk("any")}
        for o in objs:
            if o in "abcd":
                s = host4(h, o)
                self.text = cat(self.text, "object network ", o, "\n ", s.text, "\n")
            elif o == "n":
                a = h.int("n", 0, M4)
                s = Spec("net", "", 4, a, 0xffffff00)
                self.text = cat(self.text, "object network n\n subnet ", h.a4(a), " 255.255.255.0\n")
            else:
                s1, s2 = host4(h, "g1"), host4(h, "g2")
                s = Spec("union", parts=[s1, s2])
                self.text = cat(self.text, "object-group network g\n network-object ", s1.text, "\n network-object ", s2.text, "\n")
            self.spec[o] = s
        self.port = {}
        for s in svcs:
            self.port[s] = p = h.int("port." + s, 0, 65535)
            self.text = cat(self.text, "object service ", s, "\n service ", "udp" if s in "eu" else "tcp", " ", "source" if s in "stu" else "destination",
                            " eq ", h.dec(p), "\n")


def nodes(h, w, got, want, label):
    """the address set of one end of a translation"""
    ob = h.mods.ob
    if want is None:
        h.check(got is None, label + ": not translated", got=got)
    elif want == "interface1" or want == "interface2":
        h.check(isinstance(got, ob.NetworkInterface) and got.name == (w.i1 if want[-1] == "1" else w.i2), label + ": that interface", got=got)
    else:
        ok = not isinstance(got, (str, ob.NetworkInterface)) and got is not None
        h.check(ok, label + ": addresses", got=got)
        if ok:
            w.tag += 1
            check_node(h, got, w.spec[want] if isinstance(want, str) else want, label, str(w.tag))


def service(h, got, want, label, w):
    if want is None:
        h.check(got is None, label + ": no service", got=got)
        return
    if isinstance(want, tuple):
        proto, p, side = want
    else:
        proto, p, side = "udp" if want in "eu" else "tcp", w.port[want], "src" if want in "stu" else "dst"
    h.check(got is not None and got.protocol.name == proto, label + ": protocol", got=got)
    if got is None:
        return
    pr, other = (got.src, got.dst) if side == "src" else (got.dst, got.src)
    if side == "either":
        pr = got.src or got.dst
        other = None
    h.check(other is None, label + ": one port", got=got)
    if isinstance(pr, h.mods.ob.Port):
        h.check(h.And(pr.op == "eq", numeq(h, pr.num, p)), label + ": port", got=pr)
    else:
        h.check(numeq(h, pr, p), label + ": port", got=pr)


def check_nat(h, w, n, want):
    ob = h.mods.ob
    h.check(isinstance(n, ob.NATObject), "a NAT", got=n)
    g = want.get
    anys = {"any": "any"}
    for side in ("real", "mapped"):
        x = getattr(n, side)
        ifn = g(side + "_if")
        h.check(x.iface.name == (anys.get(ifn) or (w.i1 if ifn == 1 else w.i2)), side + " interface", got=x.iface)
        nodes(h, w, x.src.node, g(side + "_src"), side + " source")
        nodes(h, w, None if x.dst is None else x.dst.node, g(side + "_dst"), side + " destination")
        service(h, x.service, g(side + "_svc"), side + " service", w)
    h.check(n.mapped.src.type == g("type"), "static or dynamic", got=n.mapped.src.type)
    fb, wf = n.mapped.src.fallback, g("fallback")
    if wf is None:
        h.check(fb is None, "no fallback", got=fb)
    else:
        h.check(fb is not None, "falls back to the interface")
        if fb is not None:
            h.check(isinstance(fb.interface, ob.NetworkInterface) and fb.interface.name == (anys.get(g("mapped_if")) or (w.i1 if g("mapped_if") == 1 else w.i2)),
                    "fallback interface", got=fb.interface)
            h.check((fb.ipv6 is not None and fb.ipv6 is not False) == (wf == "ipv6"), "fallback ipv6", got=fb.ipv6)
    if g("description") is None:
        h.check(not n.description, "no description", got=n.description)
    else:
        h.check(n.description == g("description"), "description", got=n.description)
    h.check(set(n.options) == set(g("options", ())), "options", got=list(n.options))


def expect(h, w, text, sections):
    """sections: {1: [...], 2: [...], 3: [...]} of expected NATs"""
    c = parsed(h, "fwsm", cat(w.text, text))
    if c is None:
        return
    for k in (1, 2, 3):
        want = sections.get(k, [])
        h.check(len(c.nat[k]) == len(want), f"number of NATs in section {k}", got=len(c.nat[k]), text=text)
        for n, x in zip(c.nat[k], want):
            check_nat(h, w, n, x)


IFS = {"12": (1, 2), "21": (2, 1), "a2": ("any", 2), "1a": (1, "any"), "aa": ("any", "any")}


def ifs(w, k):
    t = [("any" if x == "any" else (w.i1 if x == 1 else w.i2)) for x in IFS[k]]
    return cat("(", t[0], ",", t[1], ")"), IFS[k]


MAPPED_S = {"b": "b", "g": "g", "any": "any", "interface": "interface2"}
# text: (source, fallback)
MAPPED_D = {"b": ("b", None), "g": ("g", None), "interface": ("interface2", None), "b interface": ("b", "ipv4"), "g interface": ("g", "ipv4"),
            "b interface ipv6": ("b", "ipv6"), "pat-pool b": ("b", None), "pat-pool g": ("g", None), "pat-pool b interface": ("b", "ipv4"),
            "pat-pool g interface ipv6": ("g", "ipv6")}
DEST = {"": (None, None), " destination static c d": ("c", "d"), " destination static n c": ("n", "c"), " destination static g c": ("g", "c"),
        " destination static c g": ("c", "g"), " destination static interface d": ("interface2", "d")}
# text: (real, mapped)
SVC_S = {"": (None, None), " service s t": ("s", "t"), " service x e": ("e", "x")}
SVC_D = {"": (None, None), " service x e": ("e", "x")}


def twice(h, typ, real, mapped, d, sv, iface="12", pos="", opts=(), desc=None, names=False):
    m, fb = (MAPPED_S[mapped], None) if typ == "static" else MAPPED_D[mapped]
    dm, dr = DEST[d]
    sr, sm = (SVC_S if typ == "static" else SVC_D)[sv]
    letters = {x for x in (real, m, dm, dr) if x in set("abcdng")}
    w = World(h, "".join(sorted(letters)), "".join(x for x in (sr, sm) if x), names)
    it, (ri, mi) = ifs(w, iface)
    text = cat("nat ", it, pos, " source ", typ, " ", real, " ", mapped, d, sv, *[" " + o for o in opts])
    if desc is not None:
        text = cat(text, " description ", desc)
    if m == "interface2" and mi != 2:
        m = "interface1"
    if dm == "interface2" and mi != 2:
        dm = "interface1"
    o = list(opts) + (["after-auto"] if pos else [])
    return w, cat(text, "\n"), dict(type=typ, real_if=ri, mapped_if=mi, real_src=real, mapped_src=m, real_dst=dr, mapped_dst=dm, real_svc=sr, mapped_svc=sm,
                                    fallback=fb, options=o, description=desc)


@U.unit(each=[("static", r, m) for r in ("a", "n", "g", "any") for m in MAPPED_S] + [("dynamic", r, m) for r in ("a", "n", "g", "any") for m in MAPPED_D])
def manual(h, v):
    t, r, m = v
    w, text, want = twice(h, t, r, m, h.choice("dest", list(DEST)), h.choice("svc", list(SVC_S if t == "static" else SVC_D)))
    expect(h, w, text, {1: [want]})


@U.unit(each=[(t, i, p) for t in ("static", "dynamic") for i in IFS for p in ("", " after-auto", " after-object", " after-auto 3")])
def interfaces(h, v):
    t, i, p = v
    w, text, want = twice(h, t, "a", "b" if IFS[i][1] == "any" else h.choice("m", ["b", "interface"]),
                          h.choice("dest", ["", " destination static c d"] + ([] if IFS[i][1] == "any" else [" destination static interface d"])), "", i, p, names=True)
    expect(h, w, text, {3 if p else 1: [want]})


OPTS = ["dns", "unidirectional", "inactive", "no-proxy-arp", "route-lookup", "net-to-net"]


@U.unit(each=[(t, o) for t in ("static", "dynamic") for o in OPTS + [None]])
def options(h, v):
    t, o = v
    os = [o] if o else []
    x = h.choice("second", [None] + [y for y in OPTS if y != o])
    os += [x] if x else []
    desc = h.choice("described", [None, "text", "keyword"])
    if desc == "text":
        desc = h.chars("d", 3, "ab -!")
        h.assume(h.Not(desc[0] == " "))
        h.assume(h.Not(desc[2] == " "))
    elif desc == "keyword":
        desc = "dns inactive"
    w, text, want = twice(h, t, "a", "b", "", h.choice("svc", ["", " service x e"]), pos=h.choice("pos", ["", " after-auto"]), opts=os, desc=desc)
    expect(h, w, text, {3 if "after-auto" in want["options"] else 1: [want]})


# -- object NAT ----------------------------------------------------------------------------
def omapped(h, w, k):
    """(text, source, fallback)"""
    if k in ("addr", "addr interface", "addr interface ipv6"):
        a = h.int("ma", 0, M4)
        return cat(h.a4(a), k[4:]), Spec("net", "", 4, a, M4), {"addr": None, "addr interface": "ipv4"}.get(k, "ipv6")
    if k == "addr6":
        a = h.int("ma", 0, M6)
        return h.a6(a), Spec("net", "", 6, a, M6), None
    if k == "net6":
        a, p = h.int("ma", 0, M6), h.int("mp", 0, 128)
        return cat(h.a6(a), "/", h.dec(p)), Spec("net", "", 6, a, mask_of(p, 6)), None
    m, fb = MAPPED_D[k]
    return k, m, fb


OM = ["b", "g", "interface", "b interface", "g interface", "b interface ipv6", "pat-pool b", "pat-pool g", "pat-pool b interface",
      "pat-pool g interface ipv6", "addr", "addr interface", "addr interface ipv6", "addr6", "net6"]


def onat(h, typ, m, svc="", opts=(), iface="12", where="same", real="a", names=False):
    w = World(h, "bg", "", names)
    mt, ms, fb = omapped(h, w, m)
    it, (ri, mi) = ifs(w, iface)
    if ms == "interface2" and mi != 2:
        ms = "interface1"
    if real == "a":
        r = host4(h, "ra")
        df = r.text
    elif real == "n":
        a = h.int("ra", 0, M4)
        r, df = Spec("net", "", 4, a, 0xfffff000), cat("subnet ", h.a4(a), " 255.255.240.0")
    else:
        a = h.int("ra", 0, M6)
        r, df = Spec("net", "", 6, a, M6), cat("host ", h.a6(a))
    sr = sm = None
    st = ""
    o = ["auto"] + list(opts)
    if svc in ("tcp", "udp"):
        p, q = h.int("rp1", 0, 65535), h.int("mp1", 0, 65535)
        sr, sm = (svc, p, "dst"), (svc, q, "dst")
        st = cat(" service ", svc, " ", h.dec(p), " ", h.dec(q))
    nt = cat(" nat ", it, " ", typ, " ", mt, st, *[" " + x for x in opts], "\n")
    text = cat(w.text, "object network ", "o\n ", df, "\n", nt if where == "same" else "object network o\n" + nt)
    return w, text, dict(type=typ, real_if=ri, mapped_if=mi, real_src=r, mapped_src=ms, real_dst="any", mapped_dst="any", real_svc=sr, mapped_svc=sm,
                         fallback=fb, options=o, description=None)


def oexpect(h, w, text, want):
    w.text = ""
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    h.check([len(c.nat[k]) for k in (1, 2, 3)] == [0, 1, 0], "one NAT, in section 2", got={k: len(v) for k, v in c.nat.items()}, text=text)
    for n in c.nat[2]:
        check_nat(h, w, n, want)
        h.check(n.real.src.node is c.objects.network["o"], "translates the object it stands in")
        check_node(h, c.objects.network["o"], want["real_src"], "the object keeps its addresses", "obj")


@U.unit(each=[(t, m) for t in ("static", "dynamic") for m in OM])
def object_nat(h, v):
    t, m = v
    w, text, want = onat(h, t, m, h.choice("svc", ["", "tcp", "udp"] if t == "static" else [""]), h.choice("opts", [(), ("dns",), ("no-proxy-arp",), ("no-proxy-arp", "route-lookup")]),
                         "12", h.choice("where", ["same", "later"]), h.choice("real", ["a", "n", "6"]))
    oexpect(h, w, text, want)


@U.unit(each=[(t, i) for t in ("static", "dynamic") for i in IFS])
def object_interfaces(h, v):
    t, i = v
    w, text, want = onat(h, t, h.choice("m", ["addr", "b"] if IFS[i][1] == "any" else ["addr", "interface", "b interface"]), iface=i, names=True)
    oexpect(h, w, text, want)


# -- several statements -----------------------------------------------------------------------
@U.unit(each=[(a, b) for a in "1235" for b in "1235"])
def several(h, v):
    """sections are kept apart and in file order"""
    w = World(h, "abcdg")
    text, sec = "", {1: [], 2: [], 3: []}
    it, _ = ifs(w, "12")
    for i, k in enumerate(v + (h.choice("third", list("1235")),)):
        r, m = [("a", "b"), ("c", "d"), ("g", "a")][i]
        base = dict(real_if=1, mapped_if=2, mapped_src=m, real_src=r)
        if k == "2":
            x = host4(h, f"o{i}")
            text = cat(text, "object network o", str(i), "\n ", x.text, "\n nat ", it, " static ", m, "\n")
            sec[2].append(dict(base, type="static", real_src=x, real_dst="any", mapped_dst="any", options=["auto"]))
        elif k == "5":
            text = cat(text, "nat ", it, " after-object source static ", r, " ", m, " inactive\n")
            sec[3].append(dict(base, type="static", options=["after-auto", "inactive"]))
        else:
            text = cat(text, "nat ", it, " after-auto" if k == "3" else "", " source dynamic ", r, " ", m, "\n")
            sec[int(k)].append(dict(base, type="dynamic", options=["after-auto"] if k == "3" else []))
    expect(h, w, text, sec)


@U.unit()
def both_ports(h):
    """a static service translation with both ports, or of mixed kinds, is refused rather than read as something else"""
    w = World(h, "ab", "sx")
    it, _ = ifs(w, "12")
    t = h.choice("svc", ["s x", "x s", "z z", "z s", "z x", "x z", "s z"])
    text = cat(w.text, "object service z\n service tcp source eq 1 destination eq 2\nnat ", it, " source static a b service ", t, "\n")
    ok, c = parse(h, "fwsm", text)
    h.check(not ok, "refused", got=c)
    h.observe(ok)


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("fwsm", "nat (", second="all"))
def neighbours(h, v):
    c28.rotated(h, v)

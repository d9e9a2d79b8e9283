"""A filter text over a configuration text selects exactly the entries whose written addresses meet it."""
from .common import *
from . import c16

U = Units()
unit_fn = U.fn
BOUNDS = ("configurations of 1 to 3 entries or NATs with their definitions: 21 ways to write the end of an ASA/FWSM entry, 8 of an IOS IPv4 entry (named, numbered, standard), 4 of "
          "an IOS IPv6 entry and 8 of a pfSense rule; filters of 12 forms on source, destination or both, and of two sets joined by union, intersect or except; every address "
          "and prefix length symbolic, ranges of up to 4 addresses; groups before and after expand, sort and collapse")
ASSUMPTIONS = ["an end written as an interface has no known addresses and meets every condition except ANY, ANY4 and ANY6"]
M = "object-group network "


class End:
    """one way to write an end of an entry: definitions before it, its text, and what it denotes"""

    def __init__(self, spec, text=None, defs="", iface=False):
        self.spec, self.defs, self.iface = spec, defs, iface
        self.text = spec.text if text is None else text


def union(*s):
    return Spec("union", parts=list(s))


def rng(h, n):
    a, b = h.int(n, 0, M4), h.int(n + ".hi", 0, M4)
    h.assume(h.And(a < b, b - a <= 3))
    return Spec("range", cat(h.a4(a), " ", h.a4(b)), 4, lo=a, hi=b, span=3)


def asa_end(h, k, n):
    if k in ASA_HOST:
        return End(ASA_HOST[k](h, n))
    if k == "name":
        s = host4(h, n, "")
        return End(s, cat("host nm", n), cat("name ", s.text, " nm", n, "\n"))
    if k == "name net":
        a, m = h.int(n, 0, M4), mask_of(h.int(n + ".p", 0, 32), 4)
        return End(Spec("net", "", 4, a, m), cat("nm", n, " ", h.a4(m)), cat("name ", h.a4(a), " nm", n, "\n"))
    if k == "if":
        return End(anyk("any"), cat("interface if", n), cat("interface Vlan", n[-1], "\n nameif if", n, "\n ip address 192.0.2.1 255.255.255.0\n!\n"), True)
    if k.startswith("obj"):
        s, t = {"obj host": lambda: host4(h, n), "obj host6": lambda: host6(h, n), "obj net": lambda: net4(h, n), "obj net6": lambda: net6(h, n),
                "obj range": lambda: rng(h, n)}[k](), {"obj net": "subnet ", "obj net6": "subnet ", "obj range": "range "}.get(k, "")
        return End(s, "object o" + n, cat("object network o", n, "\n ", t, s.text, "\n"))
    a, b, c = host4(h, n), net4(h, n + "n"), host6(h, n + "s")
    no = "\n network-object "
    g = cat(M, "g", n, no, a.text)
    if k == "pair":
        return End(union(a, c), "object-group g" + n, cat(g, no, c.text, "\n"))
    if k == "grp":
        return End(union(a, b), "object-group g" + n, cat(g, no, b.text, "\n"))
    if k == "grp mixed":
        return End(union(c, a), "object-group g" + n, cat(M, "g", n, no, c.text, no, a.text, "\n"))
    if k == "grp obj":
        return End(union(a, b), "object-group g" + n, cat("object network o", n, "\n subnet ", b.text, "\n", g, no, "object o", n, "\n"))
    if k == "grp range":
        r = rng(h, n + "r")
        return End(union(r, a), "object-group g" + n, cat("object network o", n, "\n range ", r.text, "\n", M, "g", n, no, "object o", n, no, a.text, "\n"))
    if k == "nest":
        return End(union(c, a, b), "object-group h" + n, cat(g, no, b.text, "\n", M, "h", n, no, c.text, "\n group-object g", n, "\n"))
    if k == "nest first":
        return End(union(a, b), "object-group h" + n, cat(g, "\n", M, "h", n, "\n group-object g", n, no, b.text, "\n"))
    if k == "nest deep":
        return End(union(a, b), "object-group i" + n, cat(g, "\n", M, "h", n, "\n group-object g", n, "\n", M, "i", n, no, b.text, "\n group-object h", n, "\n"))
    if k == "grp name":
        return End(union(a, b), "object-group g" + n, cat("name ", a.text[5:], " nm", n, "\n", M, "g", n, no, "host nm", n, no, b.text, "\n"))
    raise AssertionError(k)


GROUPS = ["grp", "grp mixed", "grp obj", "grp range", "nest", "nest first", "nest deep", "grp name"]
ASA_KINDS = ["host4", "net4", "host6", "net6", "any", "any4", "any6", "name", "name net", "if", "obj host", "obj host6", "obj net", "obj net6", "obj range"] + GROUPS


def ios_end(h, k, n):
    if k == "any":
        return End(anyk("any"))
    if k == "host4":
        return End(host4(h, n))
    if k == "wild":
        return End(wild4(h, n))
    a, b = host4(h, n), wild4(h, n + "w")
    og = M + "g"
    if k == "grp":
        c = net4(h, n + "n")
        return End(union(a, c), "object-group g" + n, cat(og, n, "\n ", a.text, "\n ", c.text, "\n"))
    if k == "nest":
        c = net4(h, n + "n")
        return End(union(a, c), "object-group h" + n, cat(og, n, "\n ", a.text, "\n", M, "h", n, "\n ", c.text, "\n group-object g", n, "\n"))
    raise AssertionError(k)


IOS_KINDS = ["any", "host4", "wild", "grp", "nest"]
SIX = {"any": lambda h, n: End(anyk("any")), "host6": lambda h, n: End(host6(h, n)), "net6": lambda h, n: End(net6(h, n))}


def fwsm_config(h, ends, ids=("acl",), w=""):
    t = w
    for s, d in ends:
        t = cat(t, s.defs, "" if d is None else d.defs)
    for i, (s, d) in enumerate(ends):
        nm = ids[i % len(ids)]
        if d is None:
            t = cat(t, "access-list ", nm, " standard permit ", s.text, "\n")
        else:
            t = cat(t, "access-list ", nm, " extended ", ["permit", "deny"][i % 2], " ip ", s.text, " ", d.text, "\n")
    return t


def ios_config(h, ends, ids=("acl",)):
    t = ""
    for s, d in ends:
        t = cat(t, s.defs, "" if d is None else d.defs)
    for i, (s, d) in enumerate(ends):
        nm = ids[i % len(ids)]
        if d is None:
            t = cat(t, "ip access-list standard ", nm, "\n permit ", s.text, "\n")
        elif nm.isdigit():
            t = cat(t, "access-list ", nm, " ", ["permit", "deny"][i % 2], " ip ", s.text, " ", d.text, "\n")
        else:
            t = cat(t, "ip access-list extended ", nm, "\n ", ["permit", "deny"][i % 2], " ip ", s.text, " ", d.text, "\n")
    return t


def six_config(h, ends, ids=("acl",)):
    t = cat("ipv6 access-list ", ids[0], "\n")
    for i, (s, d) in enumerate(ends):
        t = cat(t, " sequence ", str(10 * i + 10), " permit ip ", s.text, " ", d.text, "\n")
    return t


# -- filters ------------------------------------------------------------------------------
FORMS = ["host", "net", "list", "host6", "net6", "any", "any4", "any6", "ANY", "ANY4", "ANY6"]


def fnet(h, k, n):
    """(text, condition on an End)"""
    if k in ("ANY", "ANY4", "ANY6"):
        return k, lambda e: k.lower() in lits(e)
    if k in ("any", "any4", "any6"):
        s = anyk(k)
    elif k == "host":
        s = host4(h, n, "")
    elif k == "host6":
        s = host6(h, n, "")
    elif k == "net":
        a, p = h.int(n, 0, M4), h.int(n + ".p", 0, 32)
        s = Spec("net", cat(h.a4(a), "/", h.dec(p)), 4, a, mask_of(p, 4))
    elif k == "net6":
        s = net6(h, n)
    else:
        a, b = host4(h, n, ""), net6(h, n + "b")
        s = Spec("union", cat(a.text, " ", b.text), parts=[a, b])
    return s.text, lambda e: True if e.iface else s.meets(h, e.spec)


def lits(e):
    if e.iface:
        return set()
    return {p.kind for p in (e.spec.parts if e.spec.kind == "union" else [e.spec])}


def fset(h, forms, n="f"):
    """a filter set: forms maps src and dst to a form; (text, condition on (source, destination))"""
    t, cs = "", []
    for side in ("src", "dst"):
        if side in forms:
            x, c = fnet(h, forms[side], n + side)
            t = cat(t, "ip ", side, " ", x, "\n")
            cs.append((side, c))

    def cond(src, dst):
        return h.And(*[c(src if s == "src" else dst) for s, c in cs])
    return t, cond


ANYEND = End(anyk("any"))


def check(h, c, rules, ends, text, cond, label="selected exactly when it meets the filter"):
    ok, f = caf(h, text)
    h.check(ok, "the filter is accepted", text=text)
    if not ok:
        return
    got = c.filter(f)
    known = list(c.rules.rules) + [x for l in c.nat.values() for x in l]
    h.check(all(any(x is k for k in known) for x in got), "only entries of the configuration")
    for i, (s, d) in enumerate(ends):
        sel = any(x is rules[i] for x in got)
        h.check(h.Iff(sel, cond(i)), label, filter=text, entry=rules[i], selected=sel)


def entries(h, dialect, text, ends):
    c = parsed(h, dialect, text)
    if c is None:
        return None, None
    rs = c.rules.rules
    h.check(len(rs) == len(ends), "as many rules as entries", n=len(rs))
    return (c, rs) if len(rs) == len(ends) else (None, None)


def one(h, dialect, text, s, d, forms):
    c, rs = entries(h, dialect, text, [(s, d)])
    if c is None:
        return
    t, cond = fset(h, forms)
    check(h, c, rs, [(s, d)], t, lambda i: cond(s, d or ANYEND))


HEAVY = {"obj range": {"net", "list"}, "grp range": {"net", "list"}, "obj net6": {"net6", "list"}, "net6": {"net6", "list"},
         "nest": {"list", "net6"}, "grp mixed": {"list"}, "nest deep": {"list"}}


@U.unit(each=[(k, side) for k in ASA_KINDS for side in ("src", "dst")])
def asa(h, v):
    """every way to write an end against every form of filter on that side"""
    asa_one(h, *v, [f for f in FORMS if f not in HEAVY.get(v[0], ())])


@U.unit(each=[(k, side, f) for k, fs in HEAVY.items() for f in sorted(fs) for side in ("src", "dst")], tiers=("thorough",))
def asa_heavy(h, v):
    asa_one(h, v[0], v[1], [v[2]])


def asa_one(h, k, side, forms):
    e = asa_end(h, k, "x1")
    o = asa_end(h, h.choice("other", ["any", "host6"]), "y2")
    s, d = (e, o) if side == "src" else (o, e)
    one(h, "fwsm", fwsm_config(h, [(s, d)]), s, d, {side: h.choice("form", forms)})


@U.unit(each=[(a, b) for a in ASA_KINDS for b in ("host4", "grp mixed") if "range" not in a] + [("host4", "obj range"), ("any", "grp obj")])
def asa_both(h, v):
    s, d = asa_end(h, v[0], "x1"), asa_end(h, v[1], "y2")
    one(h, "fwsm", fwsm_config(h, [(s, d)]), s, d, {"src": h.choice("fs", ["net", "any6"]), "dst": h.choice("fd", ["host", "net6"])})


@U.unit(each=[(a, b) for a in ASA_KINDS for b in ASA_KINDS], tiers=("thorough",))
def asa_all(h, v):
    s, d = asa_end(h, v[0], "x1"), asa_end(h, v[1], "y2")
    one(h, "fwsm", fwsm_config(h, [(s, d)]), s, d, {"src": h.choice("fs", ["net", "any6", "net6"]), "dst": h.choice("fd", ["host", "net6", "ANY"])})


@U.unit(each=["host4", "net4", "any", "any4", "ip4", "obj host", "grp", "nest"])
def asa_standard(h, k):
    s = asa_end(h, k, "x1")
    one(h, "fwsm", fwsm_config(h, [(s, None)]), s, None, {h.choice("side", ["src", "dst"]): h.choice("form", FORMS)})


@U.unit(each=[(a, b, "101" if a == b else "acl") for a in IOS_KINDS for b in IOS_KINDS if "any" in (a, b) or a == b])
def ios(h, v):
    ios_one(h, v)


@U.unit(each=[(a, b, i) for a in IOS_KINDS for b in IOS_KINDS for i in ("acl", "101")], tiers=("thorough",))
def ios_all(h, v):
    ios_one(h, v)


def ios_one(h, v):
    s, d = ios_end(h, v[0], "x1"), ios_end(h, v[1], "y2")
    side = h.choice("side", ["src", "dst"])
    one(h, "ios", ios_config(h, [(s, d)], (v[2],)), s, d, {side: h.choice("form", FORMS)})


@U.unit(each=[(k,) for k in ("any", "host4", "wild")])
def ios_standard(h, v):
    s = ios_end(h, v[0], "x1")
    one(h, "ios", ios_config(h, [(s, None)]), s, None, {h.choice("side", ["src", "dst"]): h.choice("form", FORMS)})


@U.unit(each=[(a, b) for a in SIX for b in SIX])
def ios_six(h, v):
    s, d = SIX[v[0]](h, "x1"), SIX[v[1]](h, "y2")
    side = h.choice("side", ["src", "dst"])
    here = v[0] if side == "src" else v[1]
    one(h, "ios", six_config(h, [(s, d)]), s, d, {side: h.choice("form", [f for f in FORMS if f not in HEAVY.get(here, ())])})


# -- pfSense --------------------------------------------------------------------------------
def pf_end(h, k, n):
    def al(kind, text):
        return cat("<alias><name>al", n, "</name><type>", kind, "</type><address>", text, "</address><descr/><detail/></alias>")
    ad = lambda t: cat("<address>", t, "</address>")    # noqa: E731
    if k == "any":
        return End(anyk("any"), "<any/>")
    if k == "lan":
        return End(anyk("any"), "<network>lan</network>", iface=True)
    if k in ("host4", "host6"):
        s = (host4 if k == "host4" else host6)(h, n, "")
        return End(s, ad(s.text))
    if k == "net4":
        a, p = h.int(n, 0, M4), h.int(n + ".p", 0, 32)
        m = mask_of(p, 4)
        return End(Spec("net", "", 4, a & m, m), ad(cat(h.a4(a & m), "/", h.dec(p))))
    if k == "alias host":
        a, b = host4(h, n, ""), host6(h, n + "b", "")
        return End(union(a, b), ad("al" + n), al("host", cat(a.text, " ", b.text)))
    a, p = h.int(n, 0, M4), h.int(n + ".p", 0, 32)
    m = mask_of(p, 4)
    b = host6(h, n + "b", "")
    return End(union(Spec("net", "", 4, a & m, m), Spec("net", "", 6, b.val, M6)), ad("al" + n),
               al("network", cat(h.a4(a & m), "/", h.dec(p), " ", b.text, "/128")))


PF_KINDS = ["any", "lan", "host4", "host6", "net4", "alias host", "alias net"]


@U.unit(each=[(a, b) for a in PF_KINDS for b in PF_KINDS])
def pf(h, v):
    s, d = pf_end(h, v[0], "x1"), pf_end(h, v[1], "y2")
    t = cat("<pfsense><system><hostname>a</hostname><domain>b</domain></system><interfaces><wan><if>em0</if><descr>W</descr></wan>",
            "<lan><if>em1</if><descr>L</descr></lan></interfaces><aliases>", s.defs, d.defs, "</aliases><filter><rule><type>pass</type>",
            "<interface>wan</interface><source>", s.text, "</source><destination>", d.text, "</destination></rule></filter></pfsense>")
    one(h, "pf", t, s, d, {h.choice("side", ["src", "dst"]): h.choice("form", FORMS)})


# -- groups prepared before ----------------------------------------------------------------
def prepare(h, c, what):
    gs = list(c.groups.network.values())
    for w in what:
        if w == "expand":
            ok, e = h.attempt(c.expand)
            h.check(ok, "expand", error=repr(e))
            continue
        for g in gs:
            ok, e = h.attempt(getattr(g, w))
            h.check(ok, w, error=repr(e))


PREP = [("expand", "collapse"), ("expand",), ("sort",), ("expand", "sort"), ("sort", "expand"), ("expand", "expand")]


@U.unit(each=[(k, p) for k in GROUPS for p in range(1, len(PREP))] + [("pair", 0)])
def prepared(h, v):
    """expanding, sorting and collapsing the groups does not change what a filter selects"""
    prep_one(h, v)


@U.unit(each=[(k, 0) for k in GROUPS], tiers=("thorough",))
def collapsed(h, v):
    prep_one(h, v)


def prep_one(h, v):
    k, p = v
    s, d = asa_end(h, k, "x1"), asa_end(h, "any", "y2")
    if h.choice("swap", [False, True]):
        s, d = d, s
    c, rs = entries(h, "fwsm", fwsm_config(h, [(s, d)]), [(s, d)])
    if c is None:
        return
    prepare(h, c, PREP[p])
    t, cond = fset(h, {h.choice("side", ["src", "dst"]): h.choice("form", ["host", "net6", "any6", "ANY"])})
    check(h, c, rs, [(s, d)], t, lambda i: cond(s, d))


# -- several sets, several lists --------------------------------------------------------------
OPS = ["union", "intersect", "except"]


@U.unit(each=[(d, o, n) for d in ("fwsm", "ios") for o in OPS for n in (0, 1, 2)])
def joined(h, v):
    """two sets joined, over three entries of two lists"""
    d, op, n = v
    mk = asa_end if d == "fwsm" else ios_end
    kinds = {"fwsm": [("host4", "any"), ("grp", "host4"), ("any", "obj net")], "ios": [("host4", "any"), ("grp", "host4"), ("any", "wild")]}[d]
    ends = [(mk(h, a, f"x{i}1"), mk(h, b, f"y{i}2")) for i, (a, b) in enumerate(kinds)]
    ids = ("aa", "ab", "aa")
    c, rs = entries(h, d, (fwsm_config if d == "fwsm" else ios_config)(h, ends, ids), ends)
    if c is None:
        return
    na, nb = [("aa", None), ("/a*/", "ab"), ("/?b/", "aa")][n]
    ta, ca = fset(h, {"src": "host"}, "f")
    tb, cb = fset(h, {"dst": "net"}, "g")
    hit = {"aa": {"aa"}, "ab": {"ab"}, "/a*/": {"aa", "ab"}, "/?b/": {"ab"}, None: {"aa", "ab"}}
    text = cat("id ", na, "\n", ta, op, "\n", "" if nb is None else cat("id ", nb, "\n"), tb)
    if n == 2:
        text = cat("( ", text, ")\n")

    def cond(i):
        s, dd = ends[i]
        a = h.And(ids[i] in hit[na], ca(s, dd))
        b = h.And(ids[i] in hit[nb], cb(s, dd))
        return {"union": lambda: h.Or(a, b), "intersect": lambda: h.And(a, b), "except": lambda: h.And(a, h.Not(b))}[op]()
    check(h, c, rs, ends, text, cond)


# -- NATs and entries together ----------------------------------------------------------------
@U.unit(each=[(f, "host4") for f in c16.FORMS_ALL if "g" not in f.split()] + [("s a b", "grp"), ("d a if", "grp")])
def with_nat(h, v):
    nat_one(h, v)


@U.unit(each=[(f, k) for f in c16.FORMS_ALL for k in ("host4", "grp", "obj range")], tiers=("thorough",))
def with_nat_all(h, v):
    nat_one(h, v)


def nat_one(h, v):
    """one filter over a configuration with a NAT and an entry: each is judged by its own addresses"""
    f, k = v
    w, nat, real, mapped = c16.build(h, f)
    e = asa_end(h, k, "x1")
    o = asa_end(h, "any", "y2")
    c = parsed(h, "fwsm", cat(w.text, nat, e.defs, "access-list acl extended permit ip ", e.text, " any\n"))
    if c is None:
        return
    nats = [x for l in c.nat.values() for x in l]
    h.check(len(nats) == 1 and len(c.rules.rules) == 1, "one NAT, one rule")
    if len(nats) != 1 or len(c.rules.rules) != 1:
        return
    fs, fd, text = c16.conds(h, h.choice("side", ["src", "dst", "both"]), "host")

    def cond(i):
        if i == 0:
            return h.And(*([fs.meets(h, e.spec)] if fs is not None else []), *([fd.meets(h, o.spec)] if fd is not None else []))
        return h.Or(c16.matches(h, real, fs, fd), c16.matches(h, mapped, fs, fd))
    check(h, c, [c.rules.rules[0], nats[0]], [(e, o), (None, None)], text, cond)

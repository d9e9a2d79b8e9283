"""A filter set selects exactly the rules that meet its list name, its source and its destination."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("up to 3 rules; list names and filter names of 1 to 4 characters over a 6 letter alphabet, all symbolic; a fixed list "
          "of 24 glob patterns (quick: 14); all rule and filter addresses symbolic; "
          "rule ends of 12 kinds, ranges of up to 4 addresses")

ALPHA = "aAb1-_"
GLOBS = ["*", "a*", "*a", "?", "??", "a?", "[ab]*", "[!a]*", "*b*", "a*b", "a-*", "[a-b]1*", "?*_", "*?b"]
MORE = ["a*b*", "*[1-9]", "[!a-b]?", "A*", "a??", "***", "a[!b]*1", "*-*-*", "[_-]*", "??*b"]


def mkrule(h, name, src, dst, ob=None):
    ob = h.mods.ob
    return ob.ACLRule(id=name, extended="extended", mode="permit", protocol=ob.Protocol("ip"), src=ob.ACLNode(src),
                      dst=ob.ACLNode(dst))


def select(h, text, rules):
    ok, f = caf(h, text)
    h.check(ok, "the filter is accepted", text=text, error=None if ok else repr(f)[:200])
    if not ok:
        return None
    rs = h.mods.ob.ACLRules()
    for r in rules:
        rs.add(r)
    got = f.run(rs)
    h.check(all(any(x is r for r in rules) for x in got), "only rules of the configuration are selected")
    return [any(x is r for x in got) for r in rules]


def same(h, a, b):
    """equality of two symbolic strings, character by character"""
    return h.And(*[x == y for x, y in zip(a, b)]) if len(a) == len(b) else False


@U.unit(each=[(a, b) for a in (1, 2, 3) for b in (1, 2, 3)])
def name_exact(h, v):
    n, m = v
    x, y = h.chars("x", n, ALPHA), h.chars("y", m, ALPHA)
    ob = h.mods.ob
    got = select(h, cat("id ", y), [mkrule(h, x, ob.NetworkAny(), ob.NetworkAny())])
    if got is not None:
        h.check(h.Iff(got[0], x == y), "selected exactly when the names are equal", name=x, wanted=y, got=got[0])
        h.observe(got[0])


def glob(h, p, s):
    """the documented meaning of a shell pattern, over the characters of s"""
    if not p:
        return len(s) == 0
    if p[0] == "*":
        return h.Or(*[glob(h, p[1:], s[i:]) for i in range(len(s) + 1)])
    if p[0] == "[":
        e = p.index("]", 2 if p[1] != "!" else 3)
        body, neg = p[1:e], False
        if body[0] == "!":
            body, neg = body[1:], True
        rest = p[e + 1:]
        cs = set()
        i = 0
        while i < len(body):
            if i + 2 < len(body) and body[i + 1] == "-":
                cs |= {chr(c) for c in range(ord(body[i]), ord(body[i + 2]) + 1)}
                i += 3
            else:
                cs.add(body[i])
                i += 1
    elif p[0] == "?":
        cs, neg, rest = set(ALPHA), False, p[1:]
    else:
        cs, neg, rest = {p[0]}, False, p[1:]
    if not s:
        return False
    hit = h.Or(*[s[0] == c for c in sorted(cs)])
    return h.And(h.Not(hit) if neg else hit, glob(h, rest, s[1:]))


def globcase(h, v, n):
    g, side = v
    x = h.chars("x", n, ALPHA)
    ob = h.mods.ob
    pat = "/" + g + "/"
    if side == "filter":
        got = select(h, "id " + pat, [mkrule(h, x, ob.NetworkAny(), ob.NetworkAny())])
        got = None if got is None else got[0]
    else:
        got = h.truth(mkrule(h, x, ob.NetworkAny(), ob.NetworkAny()) & mkrule(h, pat, ob.NetworkAny(), ob.NetworkAny()))
    if got is not None:
        h.check(h.Iff(got, glob(h, g, [x[i] for i in range(n)])), "selected exactly when the pattern matches", name=x,
                pattern=g, got=got)


@U.unit(each=[(g, s, n) for g in GLOBS for s in ("filter",) for n in (1, 3)] + [(g, "swapped", 2) for g in GLOBS])
def name_glob(h, v):
    globcase(h, v[:2], v[2])


@U.unit(each=[(g, "filter", n) for g in GLOBS + MORE for n in (2, 4)] + [(g, "filter", n) for g in MORE for n in (1, 3)],
        tiers=("thorough",))
def name_glob_more(h, v):
    globcase(h, v[:2], v[2])


@U.unit(each=[(a, b) for a in (1, 2) for b in (1, 2, 3, 4)])
def name_slash(h, v):
    """a pattern stands between two slashes; any other name with slashes is a plain name"""
    n, m = v
    x, y = h.chars("x", n, "aA/"), h.chars("y", m, "aA/")
    h.assume(h.Not(h.And(x[0] == "/", x[n - 1] == "/")))
    ob = h.mods.ob
    got = select(h, cat("id ", y), [mkrule(h, x, ob.NetworkAny(), ob.NetworkAny())])
    if got is not None:
        pat = h.And(y[0] == "/", y[m - 1] == "/") if m > 2 else False
        want = h.Or(h.And(pat, same(h, x, y[1:m - 1])) if m > 2 else False, h.And(h.Not(pat), same(h, x, y)))
        h.check(h.Iff(got[0], want), "selected exactly when the names are equal or the pattern matches", name=x, wanted=y, got=got[0])


@U.unit(each=[1, 2])
def name_unset(h, n):
    """without a name in the filter every list qualifies"""
    x = h.chars("x", n, ALPHA)
    a = h.int("a", 0, M4)
    ob = h.mods.ob
    got = select(h, cat("ip src ", h.a4(a)), [mkrule(h, x, ob.NetworkHost(h.a4(a)), ob.NetworkAny())])
    if got is not None:
        h.check(got[0], "selected")


def fnet(h, n, fam=4, form=None):
    a = h.int(n, 0, a_max(fam))
    k = form or h.choice(n + ".form", ["host", "net"])
    if k == "host":
        return Spec("net", addr(h, a, fam), fam, a, a_max(fam))
    p = h.int(n + ".p", 0, 32 if fam == 4 else 128)
    return Spec("net", cat(addr(h, a, fam), "/", h.dec(p)), fam, a, mask_of(p, fam))


KINDS = ["object", "range", "wild", "group", "nest", "empty", "any4", "any6", "host6"]
FORMS = {k: ("host", "net") if k not in ("range", "nest", "group") else ("host",) for k in KINDS}


def rnode(h, k, n):
    ob = h.mods.ob
    if k == "any":
        return ob.NetworkAny(), anyk("any")
    if k in ("any4", "any6"):
        return (ob.NetworkAny4 if k == "any4" else ob.NetworkAny6)(), anyk(k)
    if k == "host6":
        a = h.int(n, 0, M6)
        return ob.NetworkHost(h.a6(a)), Spec("net", "", 6, a, M6)
    a = h.int(n, 0, M4)
    if k == "host":
        return ob.NetworkHost(h.a4(a)), Spec("net", "", 4, a, M4)
    if k == "object":
        return ob.NetworkObject("o", None, type="host", address=h.a4(a)), Spec("net", "", 4, a, M4)
    if k == "range":
        b = h.int(n + ".hi", 0, M4)
        h.assume(h.And(a <= b, b - a <= 3))
        return ob.NetworkObject("o", None, type="range", start=h.a4(a), stop=h.a4(b)), Spec("range", fam=4, lo=a, hi=b, span=3)
    if k == "wild":
        w = h.int(n + ".w", 0, M4)
        return ob.NetworkWildcard(h.a4(a), h.a4(w)), Spec("net", "", 4, a, w ^ M4)
    if k in ("group", "nest", "empty"):
        g = ob.NetworkGroup("g", None)
        parts = []
        for i in range(2 if k != "empty" else 0):
            o, sp = rnode(h, "host" if i else "net", f"{n}.{i}")
            g.add(o)
            parts.append(sp)
        if k == "nest":
            q = ob.NetworkGroup("q", None)
            q.add(g)
            o, sp = rnode(h, "object", f"{n}.o")
            q.add(o)
            return q, Spec("union", parts=parts + [sp])
        return g, Spec("union", parts=parts)
    p = h.int(n + ".p", 0, 32)
    return ob.Network(h.a4(a), h.dec(p)), Spec("net", "", 4, a, mask_of(p, 4))


@U.unit(each=[(s, d, f) for s in ("any", "host", "net") for d in ("any", "host", "net") for f in ("src", "dst", "both", "none")])
def hosts(h, v):
    """source and destination conditions apply to source and destination of the rule, and both have to hold"""
    sk, dk, f = v[:3]
    form = v[3] if len(v) > 3 else None
    s, ss = rnode(h, sk, "s")
    d, ds = rnode(h, dk, "d")
    parts, cond = [], []
    if f in ("src", "both"):
        x = fnet(h, "fs", form=form)
        parts.append(cat("ip src ", x.text))
        cond.append(x.meets(h, ss))
    if f in ("dst", "both"):
        y = fnet(h, "fd", form=form)
        parts.append(cat("ip dst ", y.text))
        cond.append(y.meets(h, ds))
    if not parts:
        parts = ["id a"]
    got = select(h, cat(*[cat(p, "\n") for p in parts]), [mkrule(h, "a", s, d)])
    if got is not None:
        h.check(h.Iff(got[0], h.And(*cond)), "selected exactly when both conditions hold", got=got[0])
        h.observe(got[0])


@U.unit(each=[(s, "host", f) for s in KINDS for f in FORMS[s]] + [("host", d, f) for d in KINDS for f in FORMS[d]])
def ends(h, v):
    """every kind of rule end is judged by its addresses, on either side"""
    hosts(h, v[:2] + ("both", v[2]))


@U.unit(each=[(s, d) for s in KINDS for d in KINDS], tiers=("thorough",))
def ends2(h, v):
    hosts(h, v + ("both", "host"))


@U.unit(each=[(s, d) for s in KINDS for d in ("host", "net")] + [(s, d) for s in ("host", "net") for d in KINDS], tiers=("thorough",))
def ends3(h, v):
    hosts(h, v + ("both", "net"))


@U.unit(each=["name+src", "name+dst", "glob+both"])
def combined(h, v):
    """list name, source and destination are all required"""
    x = h.chars("x", 1, "aAb")
    y = h.chars("y", 1, "aAb")
    s, ss = rnode(h, "host", "s")
    d, ds = rnode(h, "net", "d")
    fs, fd = fnet(h, "fs"), fnet(h, "fd")
    text = cat("id ", y, " ") if not v.startswith("glob") else "id /?/ "
    cond = [x == y] if not v.startswith("glob") else []
    if v.endswith("src") or v.endswith("both"):
        text = cat(text, "ip src ", fs.text, " ")
        cond.append(fs.meets(h, ss))
    if v.endswith("dst") or v.endswith("both"):
        text = cat(text, "ip dst ", fd.text)
        cond.append(fd.meets(h, ds))
    got = select(h, text, [mkrule(h, x, s, d)])
    if got is not None:
        h.check(h.Iff(got[0], h.And(*cond)), "selected exactly when all conditions hold", got=got[0])


@U.unit(each=["src", "dst"])
def several(h, side):
    """every rule is judged on its own: equal rules are not merged, no rule hides another"""
    ob = h.mods.ob
    rs, specs = [], []
    for i in range(3):
        n, sp = rnode(h, "host", f"r{i}")
        rs.append(mkrule(h, "a", n if side == "src" else ob.NetworkAny(), n if side == "dst" else ob.NetworkAny()))
        specs.append(sp)
    f = fnet(h, "f")
    got = select(h, cat("ip ", side, " ", f.text), rs)
    if got is not None:
        for g, sp in zip(got, specs):
            h.check(h.Iff(g, f.meets(h, sp)), "each rule selected on its own merit", got=got)

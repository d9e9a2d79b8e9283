"""A filter selects a NAT exactly if the addresses on its real or on its mapped side match."""
from .common import *
from .c17 import World

U = Units()
unit_fn = U.fn
BOUNDS = ("17 forms of twice NAT and object NAT (hosts, a subnet, a group, any, interface; with and without destination), all addresses symbolic; "
          "filter conditions on source, destination or both with symbolic host or network; two NATs and a rule in one configuration")

FORMS = {
    "s a b": ("source static a b", ("a", None), ("b", None)),
    "s a a": ("source static a a", ("a", None), ("a", None)),
    "s n b": ("source static n b", ("n", None), ("b", None)),
    "s g b": ("source static g b", ("g", None), ("b", None)),
    "s any any": ("source static any any", ("any", None), ("any", None)),
    "d a b": ("source dynamic a b", ("a", None), ("b", None)),
    "d n pool": ("source dynamic n pat-pool g", ("n", None), ("g", None)),
    "d a if": ("source dynamic a interface", ("a", None), ("any", None)),
    "s a b dst": ("source static a b destination static c d", ("a", "d"), ("b", "c")),
    "s n g dst": ("source static n g destination static c d", ("n", "d"), ("g", "c")),
    "s a b dst n": ("source static a b destination static n d", ("a", "d"), ("b", "n")),
    "d a b dst g": ("source dynamic a b destination static g d", ("a", "d"), ("b", "g")),
    "d a if dst": ("source dynamic a interface destination static c d", ("a", "d"), ("any", "c")),
    "s a b dst if": ("source static a b destination static interface d", ("a", "d"), ("b", "any")),
}
OBJ = {"o addr": "static ", "o b": "dynamic b", "o g": "static g"}
FORMS_ALL = list(FORMS) + list(OBJ)


def build(h, form, n=0, w=None):
    """(world, text, real (source, destination), mapped)"""
    if form in FORMS:
        text, real, mapped = FORMS[form]
        w = w or World(h, "".join(sorted({x for x in real + mapped if x in set("abcdng")})))
        side = [tuple(None if x is None else w.spec[x] for x in s) for s in (real, mapped)]
        return w, cat("nat (in,out) ", text, "\n"), side[0], side[1]
    w = w or World(h, {"o b": "b", "o g": "g"}.get(form, ""))
    r = host4(h, f"o{n}")
    if form == "o addr":
        a = h.int(f"m{n}", 0, M4)
        m, mt = Spec("net", "", 4, a, M4), h.a4(a)
    else:
        m, mt = w.spec[form[2]], ""
    return w, cat("object network o", str(n), "\n ", r.text, "\n nat (in,out) ", OBJ[form], mt, "\n"), (r, anyk("any")), (m, anyk("any"))


def fnet(h, n, k):
    a = h.int(n, 0, M4)
    if k == "host":
        return Spec("net", h.a4(a), 4, a, M4)
    if k == "host6":
        return Spec("net", h.a6(a), 6, a, M6)
    p = h.int(n + ".p", 0, 32)
    return Spec("net", cat(h.a4(a), "/", h.dec(p)), 4, a, mask_of(p, 4))


def matches(h, side, fs, fd):
    src, dst = side
    c = []
    if fs is not None:
        c.append(fs.meets(h, src))
    if fd is not None and dst is not None:
        c.append(fd.meets(h, dst))
    return h.And(*c)


def ask(h, c, text):
    ok, f = caf(h, text)
    h.check(ok, "the filter is accepted", text=text)
    if not ok:
        return None
    return c.filter(f)


def conds(h, f, k, n=""):
    fs = fnet(h, "fs" + n, k) if f in ("src", "both") else None
    fd = fnet(h, "fd" + n, k) if f in ("dst", "both") else None
    return fs, fd, cat("" if fs is None else cat("ip src ", fs.text, "\n"), "" if fd is None else cat("ip dst ", fd.text, "\n"))


@U.unit(each=[(m, f, k) for m in FORMS_ALL for f in ("src", "dst", "both") for k in ("host", "net")] +
             [(m, f, "host6") for m in ("s a b", "s any any", "s a b dst", "o addr", "s g b") for f in ("src", "dst")])
def selected(h, v):
    m, f, k = v
    w, text, real, mapped = build(h, m)
    c = parsed(h, "fwsm", cat(w.text, text))
    if c is None:
        return
    nats = c.nat[1] + c.nat[2] + c.nat[3]
    fs, fd, ft = conds(h, f, k)
    got = ask(h, c, ft)
    if got is None:
        return
    h.check(len(nats) == 1 and all(any(x is n for n in nats) for x in got), "only NATs of the configuration", got=list(got))
    sel = len(got) == 1
    h.check(h.Iff(sel, h.Or(matches(h, real, fs, fd), matches(h, mapped, fs, fd))), "selected exactly if the real or the mapped side matches",
            got=sel, filter=ft, text=text)
    h.observe(sel)


@U.unit(each=[(a, b, p) for a in ("s a b", "o addr", "s a b dst") for b in ("d a b", "o b", "s n b") for p in ("", "after-auto ")])
def independent(h, v):
    """every NAT, in whatever section, is judged on its own, and so are the rules"""
    a, b, p = v
    w = World(h, "abcdn")
    w, t1, r1, m1 = build(h, a, 1, w)
    w, t2, r2, m2 = build(h, b, 2, w)
    if b in FORMS and p:
        t2 = cat("nat (in,out) ", p, FORMS[b][0], "\n")
    x = host4(h, "x")
    c = parsed(h, "fwsm", cat(w.text, t1, t2, "access-list foo extended permit ip ", x.text, " any\n"))
    if c is None:
        return
    fs, fd, ft = conds(h, "src", "host")
    got = ask(h, c, ft)
    if got is None:
        return
    by = {}
    for sec in (1, 2, 3):
        for i, n in enumerate(c.nat[sec]):
            by[(sec, i)] = any(n is g for g in got)
    s1 = 2 if a in OBJ else 1
    s2 = 2 if b in OBJ else (3 if p else 1)
    k1, k2 = (s1, 0), (s2, 1 if s1 == s2 else 0)
    h.check(set(by) == {k1, k2}, "both NATs are there", got=list(by))
    if set(by) != {k1, k2}:
        return
    for k, r, m in ((k1, r1, m1), (k2, r2, m2)):
        h.check(h.Iff(by[k], h.Or(matches(h, r, fs, fd), matches(h, m, fs, fd))), "selected on its own merit", got=by, filter=ft)
    rule = any(g is c.rules.rules[0] for g in got)
    h.check(h.Iff(rule, fs.meets(h, x)), "the rule is selected on its own merit", got=rule)
    h.check(len(got) == sum(by.values()) + rule, "nothing else is selected")


@U.unit(each=["union", "intersect", "except"])
def operations(h, op):
    w, text, real, mapped = build(h, "s a b dst")
    c = parsed(h, "fwsm", cat(w.text, text))
    if c is None:
        return
    fs, _, t1 = conds(h, "src", "host", "1")
    _, fd, t2 = conds(h, "dst", "host", "2")
    got = ask(h, c, cat(t1, op, " ", t2))
    if got is None:
        return
    x = h.Or(matches(h, real, fs, None), matches(h, mapped, fs, None))
    y = h.Or(matches(h, real, None, fd), matches(h, mapped, None, fd))
    want = {"union": h.Or(x, y), "intersect": h.And(x, y), "except": h.And(x, h.Not(y))}[op]
    h.check(h.Iff(len(got) == 1, want), "the set operation over NATs", got=len(got))


@U.unit(each=[(w, m) for w in ("any", "any4", "any6", "ANY", "ANY4", "ANY6") for m in ("s a b", "s any any", "s a b dst")])
def words(h, v):
    wd, m = v
    side = h.choice("side", ["src", "dst"])
    w, text, real, mapped = build(h, m)
    c = parsed(h, "fwsm", cat(w.text, text))
    if c is None:
        return
    got = ask(h, c, cat("ip ", side, " ", wd))
    if got is None:
        return
    ends = [s[0 if side == "src" else 1] for s in (real, mapped)]
    hit = [e is None or (e.kind == "any" if wd == "ANY" else wd in ("any", "any4") or e.kind == "any" and wd == "any6") for e in ends]
    if wd in ("ANY4", "ANY6"):
        hit = [e is None for e in ends]
    h.check((len(got) == 1) == any(hit), "selected by the word", got=len(got), filter=wd, text=text)

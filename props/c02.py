"""The words any, any4, any6 and ANY, ANY4, ANY6 of a filter."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("one rule, its addresses symbolic; groups nested up to 3 deep with up to 3 members per level; every filter word on "
          "either side, parsed from filter text")

WORDS = ["any", "any4", "any6", "ANY", "ANY4", "ANY6"]


def leaf(h, k, n):
    """node and the families it can hold, and which literal any it is"""
    ob = h.mods.ob
    if k == "host4":
        return ob.NetworkHost(h.a4(h.int(n, 0, M4))), {4}, None
    if k == "host6":
        return ob.NetworkHost(h.a6(h.int(n, 0, M6))), {6}, None
    if k == "net4":
        return ob.Network(h.a4(h.int(n, 0, M4)), h.dec(h.int(n + "p", 0, 32))), {4}, None
    if k == "net6":
        return ob.Network(h.a6(h.int(n, 0, M6)), h.dec(h.int(n + "p", 0, 128))), {6}, None
    if k == "wild":
        return ob.NetworkWildcard(h.a4(h.int(n, 0, M4)), h.a4(h.int(n + "w", 0, M4))), {4}, None
    if k == "obj4":
        return ob.NetworkObject(n, "", type="host", address=h.a4(h.int(n, 0, M4))), {4}, None
    if k == "obj6":
        return ob.NetworkObject(n, "", type="host", address=h.a6(h.int(n, 0, M6))), {6}, None
    if k == "range4":
        a = h.int(n, 0, M4 - 3)
        return ob.NetworkObject(n, "", type="range", start=h.a4(a), stop=h.a4(a + 3)), {4}, None
    if k == "any":
        return ob.NetworkAny(), {4, 6}, "any"
    if k == "any4":
        return ob.NetworkAny4(), {4}, "any4"
    if k == "any6":
        return ob.NetworkAny6(), {6}, "any6"
    raise AssertionError(k)


LEAVES = ["host4", "host6", "net4", "net6", "wild", "obj4", "obj6", "range4", "any", "any4", "any6"]
INGROUP = [k for k in LEAVES if k != "wild"]


def want(word, fams, lits):
    if word == "any":
        return True
    if word in ("any4", "any6"):
        return int(word[3]) in fams
    return word.lower() in lits


def run(h, word, side, node):
    ob = h.mods.ob
    other = ob.NetworkHost("192.0.2.1")
    rule = ob.ACLRule(id="a", extended="extended", mode="permit", protocol=ob.Protocol("ip"),
                      src=ob.ACLNode(node if side == "src" else other), dst=ob.ACLNode(other if side == "src" else node))
    ok, f = caf(h, "ip " + side + " " + word)
    h.check(ok, "the filter is accepted", error=None if ok else repr(f)[:200])
    if not ok:
        return None
    rules = ob.ACLRules()
    rules.add(rule)
    return rule in f.run(rules)


@U.unit(each=[(w, s) for w in WORDS for s in ("src", "dst")])
def single(h, v):
    w, side = v
    k = h.choice("kind", LEAVES)
    node, fams, lit = leaf(h, k, "x")
    got = run(h, w, side, node)
    if got is not None:
        h.check(got == want(w, fams, {lit}), "selected", word=w, node=node, got=got)
        h.observe(got)


def groupof(h, name, *nodes):
    g = h.mods.ob.NetworkGroup(name, "")
    for n in nodes:
        g.add(n)
    return g


@U.unit(each=[(w, lay) for w in WORDS for lay in ("flat2", "nested", "deep", "empty+nested")])
def groups(h, v):
    w, lay = v
    a, fa, la = leaf(h, h.choice("k1", INGROUP), "x")
    b, fb, lb = leaf(h, h.choice("k2", ["host4", "net6", "any", "any4", "any6"]), "y")
    if lay == "flat2":
        g = groupof(h, "g", a, b)
    elif lay == "nested":
        g = groupof(h, "g", b, groupof(h, "i", a))
    elif lay == "deep":
        g = groupof(h, "g", groupof(h, "i", b, groupof(h, "j", a)))
    else:
        g = groupof(h, "g", groupof(h, "e"), groupof(h, "i", a, b))
    got = run(h, w, "src", g)
    if got is not None:
        h.check(got == want(w, fa | fb, {la, lb}), "selected", word=w, node=g, got=got)


@U.unit(each=WORDS)
def webtype(h, w):
    """the destination of a web access list entry counts as any"""
    c = parsed(h, "fwsm", cat("access-list w webtype permit url http://", h.chars("u", 2, "ab/"), "\n"))
    ok, f = caf(h, "ip dst " + w)
    h.check(ok, "the filter is accepted")
    if c is not None and ok:
        got = len(f.run(c.rules)) == 1
        h.check(got == (w in ("any", "any4", "any6", "ANY")), "selected", got=got)


@U.unit(each=WORDS)
def both_sides(h, w):
    """the words apply to source and destination independently"""
    a, fa, la = leaf(h, h.choice("k1", ["host4", "net6", "any", "any4", "any6"]), "x")
    b, fb, lb = leaf(h, h.choice("k2", ["host6", "net4", "any", "any4", "any6"]), "y")
    v = h.choice("w2", WORDS)
    ob = h.mods.ob
    rule = ob.ACLRule(id="a", mode="permit", protocol=ob.Protocol("ip"), src=ob.ACLNode(a), dst=ob.ACLNode(b))
    ok, f = caf(h, "ip src " + w + " ip dst " + v)
    h.check(ok, "the filter is accepted")
    if ok:
        rules = ob.ACLRules()
        rules.add(rule)
        got = rule in f.run(rules)
        h.check(got == (want(w, fa, {la}) and want(v, fb, {lb})), "selected", got=got)


@U.unit(each=["any", "any4", "any6"])
def rule_any(h, k):
    """a rule for any / any4 / any6 is found by every address of that family"""
    fam = h.choice("fam", [4, 6])
    form = h.choice("form", ["host", "net"])
    a = h.int(f"a{fam}", 0, a_max(fam))
    t = addr(h, a, fam)
    if form == "net":
        t = cat(t, "/", h.dec(h.int(f"p{fam}", 0, 32 if fam == 4 else 128)))
    c = parsed(h, "fwsm", "access-list a extended permit ip " + k + " host 192.0.2.1\n")
    ok, f = caf(h, cat("ip src ", t))
    h.check(ok, "the filter is accepted")
    if c is not None and ok:
        got = len(f.run(c.rules)) == 1
        h.check(got == (k == "any" or k == f"any{fam}"), "selected", got=got)

"""Filter text denotes what is written: networks, alternatives, conditions, comments, layout."""
from .common import *
from .c03 import mkrule, select, fnet

U = Units()
unit_fn = U.fn
BOUNDS = ("one filter set with up to 4 networks per direction, one rule; all addresses and prefix lengths symbolic, both "
          "families; list names of 2 symbolic characters; comments of up to 3 symbolic characters at every position")


def rule(h, fam=4, sk="host", dk="host"):
    ob = h.mods.ob
    s, d = h.int("rs", 0, a_max(fam)), h.int("rd", 0, a_max(fam))
    node = lambda x: ob.NetworkHost(addr(h, x, fam))
    return (mkrule(h, "ab", node(s), node(d)), Spec("net", "", fam, s, a_max(fam)), Spec("net", "", fam, d, a_max(fam)))


def one(h, text, r, want, label="selected as written"):
    got = select(h, text, [r])
    if got is not None:
        h.check(h.Iff(got[0], want), label, text=text, got=got[0])
        h.observe(got[0])


@U.unit(each=[(fam, n, side) for fam in (4, 6) for n in (1, 2, 3) for side in ("src", "dst")])
def alternatives(h, v):
    """several networks after one direction are alternatives"""
    fam, n, side = v
    r, s, d = rule(h, fam)
    fs = []
    for i in range(n):
        if n < 3 or i == 1:
            fs.append(fnet(h, f"f{i}", fam))
        else:
            a = h.int(f"f{i}", 0, a_max(fam))
            fs.append(Spec("net", addr(h, a, fam), fam, a, a_max(fam)))
    want = h.Or(*[x.meets(h, s if side == "src" else d) for x in fs])
    one(h, cat("ip ", side, *[cat(" ", x.text) for x in fs]), r, want)


@U.unit(each=[(4, 3), (4, 4), (6, 3)], tiers=("thorough",))
def alternatives_free(h, v):
    fam, n = v
    r, s, d = rule(h, fam)
    fs = [fnet(h, f"f{i}", fam) for i in range(n)]
    one(h, cat("ip src", *[cat(" ", x.text) for x in fs]), r, h.Or(*[x.meets(h, s) for x in fs]))


@U.unit(each=[(a, b) for a in ("src", "dst") for b in ("src", "dst")])
def conditions(h, v):
    """two ip conditions: the same direction adds an alternative, the other direction has to hold too"""
    r, s, d = rule(h)
    x, y = fnet(h, "f0"), fnet(h, "f1")
    a, b = v
    hit = [x.meets(h, s if a == "src" else d), y.meets(h, s if b == "src" else d)]
    one(h, cat("ip ", a, " ", x.text, "\nip ", b, " ", y.text), r, h.Or(*hit) if a == b else h.And(*hit))


@U.unit(each=[(4, 6), (6, 4), (4, 4)])
def mixed_family(h, v):
    """alternatives of different families"""
    r, s, d = rule(h, v[0])
    x, y = fnet(h, "f0", v[0]), fnet(h, "f1", v[1])
    one(h, cat("ip src ", x.text, " ", y.text), r, h.Or(x.meets(h, s), y.meets(h, s)))


@U.unit(each=[4, 6])
def network_rule(h, fam):
    """a network in the filter against a network in the rule"""
    ob = h.mods.ob
    a, p = h.int("ra", 0, a_max(fam)), h.int("rp", 0, 32 if fam == 4 else 128)
    r = mkrule(h, "ab", ob.Network(addr(h, a, fam), h.dec(p)), ob.NetworkAny())
    x = fnet(h, "f0", fam)
    one(h, cat("ip src ", x.text), r, x.meets(h, Spec("net", "", fam, a, mask_of(p, fam))))


@U.unit(each=["id", "id+ip", "id+paren", "id+paren2", "ip+paren", "paren+ip", "paren paren", "id+ip+paren", "nested", "id+union"])
def sets(h, form):
    """every part of a set has to hold, also parts in parentheses"""
    r, s, d = rule(h)
    nm = h.chars("n", 2, "abA")
    isname = nm == "ab"
    x, y = fnet(h, "f0"), fnet(h, "f1")
    xs, yd, ys = x.meets(h, s), y.meets(h, d), y.meets(h, s)
    sx, dy, sy = cat("ip src ", x.text), cat("ip dst ", y.text), cat("ip src ", y.text)
    text, want = {
        "id": (cat("id ", nm), isname),
        "id+ip": (cat("id ", nm, " ", sx), h.And(isname, xs)),
        "id+paren": (cat("id ", nm, " ( ", sx, " )"), h.And(isname, xs)),
        "id+paren2": (cat("id ", nm, "\n( ", sx, " ) ( ", dy, " )"), h.And(isname, xs, yd)),
        "ip+paren": (cat(sx, " ( ", dy, " )"), h.And(xs, yd)),
        "paren+ip": (cat("( ", sx, " ) ", dy), h.And(xs, yd)),
        "paren paren": (cat("( ", sx, " ) ( ", dy, " )"), h.And(xs, yd)),
        "id+ip+paren": (cat("id ", nm, " ", sx, " ( ", dy, " )"), h.And(isname, xs, yd)),
        "nested": (cat("( ( id ", nm, " ( ( ", sx, " ) ) ) )"), h.And(isname, xs)),
        "id+union": (cat("id ", nm, " ( ", sx, " union ", sy, " )"), h.And(isname, h.Or(xs, ys))),
    }[form]
    one(h, text, r, want)


@U.unit(each=["front", "after id", "after ip", "inside parens", "between sets", "end", "two"])
def comments(h, where):
    """a comment changes nothing, whatever it says"""
    c = cat("/*", h.chars("c", 3, "a*( \nu"), "x*/")
    r, s, d = rule(h)
    x, y = fnet(h, "f0"), fnet(h, "f1")
    sx, dy = cat("ip src ", x.text), cat("ip dst ", y.text)
    xs, yd = x.meets(h, s), y.meets(h, d)
    text, want = {
        "front": (cat(c, " ", sx), xs),
        "after id": (cat("id ab ", c, " ", sx), xs),
        "after ip": (cat(sx, " ", c, " ", dy), h.And(xs, yd)),
        "inside parens": (cat("( ", c, " ", sx, " )"), xs),
        "between sets": (cat(sx, " ", c, " union ", c, " ", dy), h.Or(xs, yd)),
        "end": (cat(sx, " ", c), xs),
        "two": (cat(c, "\n", c, " ", sx, " ", c, c), xs),
    }[where]
    one(h, text, r, want)


@U.unit(each=[0, 1, 2])
def layout(h, k):
    """blanks, tabs and line breaks separate the words"""
    w = h.choice("w", [" ", "\n", "\t", "  \r\n "])
    r, s, d = rule(h)
    x, y = fnet(h, "f0"), fnet(h, "f1")
    parts = [["ip", "src", x.text, "ip", "dst", y.text], ["(", "ip", "src", x.text, ")", "union", "(", "ip", "dst", y.text, ")"],
             ["id", "ab", "ip", "src", x.text, y.text]][k]
    t = parts[0]
    for p in parts[1:]:
        t = cat(t, w, p)
    xs = x.meets(h, s)
    want = [h.And(xs, y.meets(h, d)), h.Or(xs, y.meets(h, d)), h.Or(xs, y.meets(h, s))][k]
    one(h, cat(h.choice("lead", ["", "\n"]), t, h.choice("trail", ["", "\n"])), r, want)


BAD = ["id", "ip", "ip src", "ip 10.0.0.1", "( ip src 10.0.0.1", "ip src 10.0.0.1 )",
       "id a id b", "ip src 10.0.0.256", "ip src 10.0.0.1/33", "ip src 10.0.0", "ip src ::1/129", "ip to 10.0.0.1",
       "ip src 10.0.0.1 minus ip src 10.0.0.2", "src 10.0.0.1", "ip src 10.0.0.1 /* open"]


@U.unit(each=BAD)
def rejected(h, t):
    """text that is no filter is refused, not read as another filter"""
    x = h.int("x", 0, M4)
    ok, f = caf(h, t.replace("10.0.0.2", "10.0.0.2"))
    h.check(not ok, "refused", text=t)
    ok, f = caf(h, cat(t, " ( ip src ", h.a4(x), " "))
    h.check(not ok, "refused with an unclosed parenthesis behind it", text=t)

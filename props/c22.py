"""Filtering is a pure question: repeatable, independent of other filters, and it leaves the configuration as it was."""
from .common import *
from .c03 import fnet

U = Units()
unit_fn = U.fn
BOUNDS = ("one filter over two lists of 2 entries with symbolic addresses; an ASA configuration with a group, a nested group, objects, 4 rules and 2 NAT statements; group members and filter "
          "networks symbolic; sequences of 2 and 3 filter runs")

CFG = ("interface Ethernet0\n nameif inside\ninterface Ethernet1\n nameif outside\n"
       "object network o1\n host %1\nobject network o2\n subnet 10.2.0.0 255.255.0.0\n"
       "object-group network g1\n network-object host %2\n network-object object o1\n"
       "object-group network g2\n group-object g1\n network-object 10.9.0.0 255.255.0.0\n"
       "access-list in remark first\naccess-list in extended permit tcp object-group g2 any eq 80\n"
       "access-list in extended deny ip any object o2 log\n"
       "access-list out extended permit ip host %3 object-group g1\naccess-list out extended deny ip any any\n"
       "nat (inside,outside) source static o1 o2\nobject network o3\n host %4\n nat (inside,outside) dynamic interface\n")


def config(h, free=4):
    t, rest = "", CFG
    for i in range(1, 5):
        a, _, rest = rest.partition(f"%{i}")
        t = cat(t, a, h.a4(h.int(f"m{i}", 0, M4)) if i <= free else f"10.9.8.{i}")
    return parsed(h, "fwsm", cat(t, rest))


def snapshot(h, c):
    """what a user can see of the configuration"""
    ob = h.mods.ob
    out = []

    def walk(o, depth=0):
        if depth > 8 or o is None or isinstance(o, (str, int, bool, float)):
            return (o,) if isinstance(o, (str, int)) else ()
        if isinstance(o, (list, tuple)):
            return tuple((id(x) if not isinstance(x, (str, int)) else x, walk(x, depth + 1)) for x in o)
        if isinstance(o, dict):
            return tuple((str(k), walk(v, depth + 1)) for k, v in o.items())
        if type(o).__module__.startswith("acltk"):
            return (type(o).__name__, tuple((k, id(v) if not isinstance(v, (str, int)) else v,
                                             walk(v, depth + 1) if k != "access_groups" else ()) for k, v in vars(o).items()))
        return ()
    for part in (c.rules.rules, c.nat, c.groups.network, c.objects.network):
        out.append(walk(part))
    return out


def ids(rs):
    return sorted(id(r) for r in rs)


def text(h, k, n, host=False):
    x = fnet(h, n) if not host else host4(h, n, "")
    return {"src": cat("ip src ", x.text), "dst": cat("ip dst ", x.text), "both": cat("ip src ", x.text, " ip dst ANY"),
            "not": cat("id in except ip src ", x.text), "or": cat("( ip src ", x.text, " ) union ( ip dst ", x.text, " )"),
            "all": "ip src any", "name": "id /o*/"}[k]


@U.unit(each=["src", "dst", "both", "not", "or", "all", "name"], paths=2000)
def pure(h, k):
    c = config(h)
    if c is None:
        return
    ok, f = caf(h, text(h, k, "f"))
    h.check(ok, "the filter is accepted")
    if not ok:
        return
    before = snapshot(h, c)
    everything = list(c.rules.rules) + [n for l in c.nat.values() for n in l]
    a = c.filter(f)
    h.check(all(any(x is y for y in everything) for x in a), "only rules and NAT statements of the configuration are returned")
    h.check(snapshot(h, c) == before, "the configuration is unchanged")
    b = c.filter(f)
    h.check(ids(a) == ids(b), "the same filter selects the same rules again")
    h.observe(len(a))


@U.unit(each=[("src", "dst"), ("not", "src"), ("both", "all"), ("name", "or")], paths=1500)
def interleaved(h, v):
    """running another filter, resolving a result or running the filter on another configuration in between changes nothing"""
    c = config(h, 1)
    ok1, f = caf(h, text(h, v[0], "f", True))
    ok2, g = caf(h, text(h, v[1], "g", True))
    h.check(ok1 and ok2, "the filters are accepted")
    if c is None or not ok1 or not ok2:
        return
    other = h.choice("between", ["filter", "resolve", "rules"])
    a = c.filter(f)
    before = snapshot(h, c)
    if other == "filter":
        c.filter(g)
    elif other == "resolve":
        c.resolve(set(a))
    else:
        g.run(c.rules)
    h.check(snapshot(h, c) == before, "the configuration is unchanged")
    h.check(ids(c.filter(f)) == ids(a), "the first filter selects the same rules again")


@U.unit(each=["src", "not"])
def rules_only(h, k):
    """filtering the rules is filtering the configuration restricted to its rules"""
    c = config(h)
    ok, f = caf(h, text(h, k, "f"))
    h.check(ok, "the filter is accepted")
    if c is None or not ok:
        return
    a = f.run(c.rules)
    b = [x for x in c.filter(f) if isinstance(x, h.mods.ob.ACLRule)]
    h.check(ids(a) == ids(b), "both ways select the same rules")


@U.unit(each=["same dialect", "other dialect", "refused"])
def two_configurations(h, k):
    """reading another configuration in between, with the same names in it, changes nothing in the first and takes nothing from it"""
    c = config(h, 2)
    ok, f = caf(h, "ip src any")
    if c is None or not ok:
        return
    before = snapshot(h, c)
    names = sorted(c.groups.network), sorted(c.objects.network), sorted(c.interfaces), sorted(c.access_groups)
    rules = ids(c.filter(f))
    x = h.int("other", 0, M4)
    if k == "same dialect":
        ok2, d = parse(h, "fwsm", cat("interface Ethernet0\n nameif inside\nobject-group network g1\n network-object host ", h.a4(x),
                                      "\naccess-list in extended permit ip object-group g1 any\naccess-group in in interface inside\n"))
    elif k == "other dialect":
        ok2, d = parse(h, "ios", cat("object-group network g1\n host ", h.a4(x), "\nip access-list extended in\n permit ip object-group g1 any\n"
                                     "interface Ethernet0\n ip access-group in in\n"))
    else:
        ok2, d = parse(h, "fwsm", cat("object-group network g1\n network-object host ", h.a4(x), "\naccess-list in extended permit ip object-group g9 any\n"))
        h.check(not ok2, "refused")
    h.check(snapshot(h, c) == before, "the first configuration is unchanged")
    h.check((sorted(c.groups.network), sorted(c.objects.network), sorted(c.interfaces), sorted(c.access_groups)) == names, "its names are unchanged")
    h.check(ids(c.filter(f)) == rules, "its selection is unchanged")
    if k == "refused":
        ok2, d = parse(h, "fwsm", cat("object-group network g1\n network-object host ", h.a4(x), "\naccess-list in extended permit ip object-group g1 any\n"))
    h.check(ok2, "the other one is read")
    if ok2:
        h.check(sorted(d.groups.network) == ["g1"] and len(d.groups.network["g1"].objects) == 1 and not d.objects.network
                and not any(d.nat.values()), "nothing is carried over")
        h.check(num(d.groups.network["g1"].objects[0].address) == x, "its own address")
        h.check(len(d.rules.rules) == 1 and len(d.filter(f)) == 1, "its own rule")


@U.unit(each=["src", "dst", "not", "or", "both"])
def one_filter(h, k):
    """a filter asked of a second list of as many rules answers for that list, as a filter read anew does"""
    x = host4(h, "f", "")
    t = {"src": cat("ip src ", x.text), "dst": cat("ip dst ", x.text), "both": cat("ip src ", x.text, " ip dst ANY"),
         "not": cat("id a except ip src ", x.text), "or": cat("( ip src ", x.text, " ) union ( ip dst ", x.text, " )")}[k]
    ok1, f = caf(h, t)
    ok2, g = caf(h, t)
    h.check(ok1 and ok2, "the filter is accepted")
    cs, ds = [], h.choice("dialects", ["fwsm fwsm", "ios ios", "fwsm ios"]).split()
    for i in range(2):
        a, b = h.a4(h.int(f"a{i}", 0, M4)), h.a4(h.int(f"b{i}", 0, M4))
        d = ds[i]
        e = "extended " if d == "fwsm" else ""
        n = "a" if d == "fwsm" else "101"
        cs.append(parsed(h, d, cat("access-list ", n, " ", e, "permit ip host ", a, " any\naccess-list ", n, " ", e, "deny ip any host ", b, "\n")))
    if None in cs or not (ok1 and ok2):
        return
    way = h.choice("way", ["rules", "configuration"])

    def ask(q, c):
        return ids(q.run(c.rules) if way == "rules" else c.filter(q))
    first = ask(f, cs[0])
    second = ask(f, cs[1])
    h.check(second == ask(g, cs[1]), "the second selection is that of the second list", got=second)
    h.check(ask(f, cs[0]) == first, "asked again, the first selection is as it was", got=first)
    every = [id(r) for r in cs[1].rules.rules]
    h.check(all(i in every for i in second), "rules of the second list only")

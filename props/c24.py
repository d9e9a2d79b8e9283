"""A time range denotes exactly the periods its block lists."""
from .common import *
from . import c28

U = Units()
unit_fn = U.fn
BOUNDS = ("ASA/FWSM time-range blocks of up to 3 entries of 8 kinds in every order, two blocks in one configuration; all hours, minutes, days of the month, months and years symbolic or enumerated in full; "
          "lists of up to 3 days of the week; names of 2 symbolic characters")
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def clock(h, n, pad):
    """(text, hour, minute); the minute is written with two digits"""
    if pad == "two":
        a = h.int(n + ".h", 0, 23)
        b = h.int(n + ".m", 10, 59)
        return cat(h.dec(a), ":", h.dec(b)), a, b
    if pad == "zero":
        a = h.int(n + ".h", 0, 23)
        m = h.chars(n + ".m", 1, "0123456789")
        return cat(h.dec(a), ":0", m), a, h.code(m, 0) - 48
    a = h.chars(n + ".h0", 1, "0123456789")
    b = h.int(n + ".m", 10, 59)
    return cat("0", a, ":", h.dec(b)), h.code(a, 0) - 48, b


PADS = ["two", "zero", "lead"]


def stamp(h, n, pad, month=None):
    t, a, b = clock(h, n, pad)
    d, y = h.int(n + ".d", 1, 28), h.int(n + ".y", 1993, 2035)
    m = month if month is not None else 3
    return cat(t, " ", h.dec(d), " ", MONTHS[m], " ", h.dec(y)), (a, b, d, m + 1, y)


def entry(h, k, n, pad="two"):
    """(text, what is expected)"""
    if k in ("start", "end", "both"):
        text, want = " absolute", [None, None]
        if k != "end":
            t, want[0] = stamp(h, n + "s", pad)
            text = cat(text, " start ", t)
        if k != "start":
            t, want[1] = stamp(h, n + "e", pad, 11)
            text = cat(text, " end ", t)
        return cat(text, "\n"), ("abs", want)
    if k == "no":
        return " no periodic\n", None
    s, a, b = clock(h, n + "s", pad)
    e, c, d = clock(h, n + "e", pad)
    if k in ("daily", "weekdays", "weekend"):
        return cat(" periodic ", k, " ", s, " to ", e, "\n"), ("per", [k], (a, b), None, (c, d))
    ds = k.split(">")[0].split("+")
    to = k.split(">")[1] if ">" in k else None
    return cat(" periodic ", " ".join(ds), " ", s, " to ", cat(to, " ") if to else "", e, "\n"), ("per", ds, (a, b), to, (c, d))


def check_entry(h, o, w, label):
    ob = h.mods.ob
    if w[0] == "abs":
        ok = isinstance(o, ob.TimeRangeObjectAbsolute)
        h.check(ok, label + ": absolute", got=o)
        if not ok:
            return
        for g, x, n in ((o.start, w[1][0], "start"), (o.end, w[1][1], "end")):
            if x is None:
                h.check(g is None, f"{label}: no {n}", got=g)
                continue
            h.check(g is not None, f"{label}: {n}")
            if g is not None:
                h.check(h.And(g.hour == x[0], g.minute == x[1], g.day == x[2], g.month == x[3], g.year == x[4], g.second == 0), f"{label}: {n}", got=g, want=x)
        return
    ok = isinstance(o, ob.TimeRangeObjectPeriodic)
    h.check(ok, label + ": periodic", got=o)
    if not ok:
        return
    h.check(list(o.startDays) == w[1], label + ": days", got=o.startDays, want=w[1])
    h.check(h.And(o.startTime.hour == w[2][0], o.startTime.minute == w[2][1]), label + ": start", got=o.startTime)
    h.check(h.And(o.endTime.hour == w[4][0], o.endTime.minute == w[4][1]), label + ": end", got=o.endTime)
    h.check(o.endDays == w[3], label + ": day of the end", got=o.endDays, want=w[3])


def block(h, kinds, n="", name="t1", pad="two"):
    es = [entry(h, k, f"{n}{i}", pad) for i, k in enumerate(kinds)]
    return cat("time-range ", name, "\n", *[e[0] for e in es]), [e[1] for e in es if e[1]]


def check_range(h, t, name, want, label="entry"):
    h.check(t.name == name, "name", got=t.name)
    h.check(len(t.objects) == len(want), "number of entries", got=t.objects)
    for i, (o, w) in enumerate(zip(t.objects, want)):
        check_entry(h, o, w, f"{label} {i}")


KINDS = ["start", "end", "both", "daily", "weekdays", "Monday", "Monday>Tuesday", "no"]


@U.unit(each=[(a,) for a in KINDS] + [(a, b) for a in KINDS for b in KINDS] + [(a, b, c) for a in KINDS[2:6] for b in KINDS[2:] for c in KINDS[2:]])
def entries(h, v):
    text, want = block(h, v)
    c = parsed(h, "fwsm", text)
    if c is None:
        return
    h.check(len(c.objects.time) == 1 and "t1" in c.objects.time, "one time range", got=list(c.objects.time))
    for t in c.objects.time.values():
        check_range(h, t, "t1", want)


@U.unit(each=[(k, p) for k in ("start", "both", "daily", "weekend", "Friday>Sunday") for p in PADS])
def clocks(h, v):
    text, want = block(h, [v[0]], pad=v[1])
    c = parsed(h, "fwsm", text)
    if c is not None:
        for t in c.objects.time.values():
            check_range(h, t, "t1", want)


@U.unit(each=DAYS)
def days(h, d):
    """every list of up to three days and every day an entry can end at"""
    l = [d]
    for i in (1, 2):
        x = h.choice(f"d{i}", ["", "Monday", "Thursday", "Sunday"])
        if x:
            l.append(x)
    to = h.choice("to", [""] + DAYS)
    k = "+".join(l) + (">" + to if to else "")
    text, want = block(h, [k])
    c = parsed(h, "fwsm", text)
    if c is not None:
        h.check(len(c.objects.time) == 1, "one time range")
        for t in c.objects.time.values():
            check_range(h, t, "t1", want)


@U.unit(each=range(12))
def months(h, m):
    last = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
    d, y = h.int("d", 1, 31), h.int("y", 1993, 2035)
    text = cat("time-range t1\n absolute start 8:00 ", h.dec(d), " ", MONTHS[m], " ", h.dec(y), " end 9:30 1 ", MONTHS[11 - m], " 2035\n")
    ok, c = parse(h, "fwsm", text)
    leap = h.And(y % 4 == 0, h.Or(h.Not(y % 100 == 0), y % 400 == 0))
    exists = d <= last if m != 1 else h.Or(d <= 28, h.And(d == 29, leap))
    h.check(h.Iff(ok, exists), "accepted exactly if there is such a day", text=text, got=c)
    if ok:
        check_range(h, c.objects.time.get("t1"), "t1", [("abs", [(8, 0, d, m + 1, y), (9, 30, 1, 12 - m, 2035)])])


@U.unit(each=["daily", "Monday", "start"])
def out_of_range(h, k):
    """an hour or minute that does not exist is refused"""
    a, b = h.int("h", 0, 99), h.int("m", 10, 99)
    t = cat(h.dec(a), ":", h.dec(b))
    body = cat("absolute start ", t, " 1 May 2010") if k == "start" else cat("periodic ", k, " 1:00 to ", t)
    ok, c = parse(h, "fwsm", cat("time-range t1\n ", body, "\n"))
    h.check(h.Iff(ok, h.And(a <= 23, b <= 59)), "accepted exactly if there is such a time", got=c)


@U.unit(each=[(a, b) for a in KINDS[:7] for b in KINDS[:7]])
def two(h, v):
    """two time ranges and the rules between them"""
    n1, n2 = h.chars("n1", 2, "aA-."), h.chars("n2", 2, "aA-.")
    h.assume(h.Not(n1 == n2))
    t1, w1 = block(h, [v[0]], "x", n1)
    t2, w2 = block(h, [v[1]], "y", n2)
    mid = cat("access-list a extended permit ip any any time-range ", n1, "\n")
    end = cat("access-list a extended deny ip any any time-range ", n2, "\n")
    c = parsed(h, "fwsm", cat(t1, mid, t2, end))
    if c is None:
        return
    ts = list(c.objects.time.values())
    h.check(len(ts) == 2 and len(c.rules.rules) == 2, "two time ranges, two rules", got=ts)
    if len(ts) == 2:
        check_range(h, ts[0], n1, w1, "first")
        check_range(h, ts[1], n2, w2, "second")
        for r, t in zip(c.rules.rules, ts):
            h.check(r.options.get("time-range") is t, "the rule's time range", got=r.options)


# the entry is read the same way in front of and behind every other one (each alone is decided above)
@U.unit(each=c28.pairs("fwsm", "time-range", second="all"))
def neighbours(h, v):
    c28.rotated(h, v)

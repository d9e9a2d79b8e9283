"""Shared pieces of the harnesses: configuration text builders and the reading of parsed objects as address sets."""
from symex.unit import Units   # noqa: F401

M4 = 2 ** 32 - 1
M6 = 2 ** 128 - 1


def a_max(fam):
    return M4 if fam == 4 else M6


def mask_of(p, fam):
    """network mask of a prefix length (symbolic-safe)"""
    w = 32 if fam == 4 else 128
    return ((1 << p) - 1) << (w - p)


def addr(h, n, fam):
    return h.a4(n) if fam == 4 else h.a6(n)


def cat(*parts):
    r = ""
    for p in parts:
        r = r + p
    return r


def num(a):
    """the integer of an ipaddress object, symbolic or not"""
    return a._ip


class Spec:
    """what a piece of configuration text is documented to denote"""

    def __init__(self, kind, text="", fam=None, val=None, mask=None, name=None, parts=None, lo=None, hi=None, span=None):
        self.kind, self.text, self.fam, self.val, self.mask, self.name = kind, text, fam, val, mask, name
        self.parts, self.lo, self.hi, self.span = parts, lo, hi, span

    def has(self, h, p, fam):
        """does the denoted set contain address p of the family"""
        if self.kind == "any":
            return True
        if self.kind == "any4":
            return fam == 4
        if self.kind == "any6":
            return fam == 6
        if self.kind == "none":
            return False
        if self.kind == "union":
            return h.Or(*[x.has(h, p, fam) for x in self.parts])
        if self.kind == "range":
            return h.And(self.lo <= p, p <= self.hi) if fam == self.fam else False
        if fam != self.fam:
            return False
        return ((p ^ self.val) & self.mask) == 0

    def meets(self, h, o):
        """do two denoted sets overlap (any4/any6 as the whole family)"""
        if self.kind == "union":
            return h.Or(*[x.meets(h, o) for x in self.parts])
        if o.kind == "union":
            return o.meets(h, self)
        if "none" in (self.kind, o.kind):
            return False
        if self.kind == "any" or o.kind == "any":
            return True
        f1 = {"any4": 4, "any6": 6}.get(self.kind, self.fam)
        f2 = {"any4": 4, "any6": 6}.get(o.kind, o.fam)
        if f1 != f2:
            return False
        if self.kind in ("any4", "any6") or o.kind in ("any4", "any6"):
            return True
        if self.kind == "range" and o.kind == "range":
            return h.And(self.lo <= o.hi, o.lo <= self.hi)
        if self.kind == "range":
            return o.meets(h, self)
        if o.kind == "range":
            # the mask may have holes: ask for every offset the range can have
            return h.Or(*[h.And(o.lo + k <= o.hi, (((o.lo + k) ^ self.val) & self.mask) == 0) for k in range(o.span + 1)])
        return ((self.val ^ o.val) & self.mask & o.mask) == 0


# -- the sets denoted by parsed objects -------------------------------------------------
def node_has(h, node, p, fam):
    ob = h.mods.ob
    if isinstance(node, ob.NetworkAny4):
        return fam == 4
    if isinstance(node, ob.NetworkAny6):
        return fam == 6
    if isinstance(node, ob.NetworkAny):
        return True
    if isinstance(node, ob.NetworkHost):
        return node.address.version == fam and num(node.address) == p
    if isinstance(node, ob.Network):
        n = node.network
        return n.version == fam and (p & num(n.netmask)) == num(n.network_address)
    if isinstance(node, ob.NetworkWildcard):
        return node.address.version == fam and ((p ^ num(node.address)) & (num(node.wildcard) ^ a_max(fam))) == 0
    if isinstance(node, ob.NetworkGroup):
        return h.Or(*[node_has(h, o, p, fam) for o in node.objects])
    if isinstance(node, ob.NetworkObject):
        return h.Or(*[node_has(h, o, p, fam) for o in node.addresses])
    raise AssertionError(f"unexpected node {type(node).__name__}")


def show(node):
    return repr(node)


# -- address texts, as written in ASA/FWSM lines ----------------------------------------
def host4(h, n, kw="host "):
    a = h.int(n, 0, M4)
    return Spec("net", cat(kw, h.a4(a)), 4, a, M4)


def host6(h, n, kw="host "):
    a = h.int(n, 0, M6)
    return Spec("net", cat(kw, h.a6(a)), 6, a, M6)


def net4(h, n, sep=" "):
    a = h.int(n, 0, M4)
    p = h.int(n + ".p", 0, 32)
    m = mask_of(p, 4)
    return Spec("net", cat(h.a4(a), sep, h.a4(m)), 4, a, m)


def net6(h, n):
    a = h.int(n, 0, M6)
    p = h.int(n + ".p", 0, 128)
    return Spec("net", cat(h.a6(a), "/", h.dec(p)), 6, a, mask_of(p, 6))


def anyk(k):
    return Spec(k, k)


ASA_HOST = {
    "host4": host4, "net4": net4, "host6": host6, "net6": net6,
    "ip4": lambda h, n: host4(h, n, "ip "),
    "any": lambda h, n: anyk("any"), "any4": lambda h, n: anyk("any4"), "any6": lambda h, n: anyk("any6"),
}


def wild4(h, n):
    a = h.int(n, 0, M4)
    w = h.int(n + ".w", 0, M4)
    return Spec("net", cat(h.a4(a), " ", h.a4(w)), 4, a, w ^ M4)


def check_node(h, node, spec, label, tag):
    """the parsed node denotes exactly the specified set: decided for an arbitrary address, or by value and mask,
    which is the same for two non-empty sets of that form"""
    ob = h.mods.ob
    if spec.kind == "net":
        while isinstance(node, (ob.NetworkObject, ob.NetworkGroup)):
            l = node.addresses if isinstance(node, ob.NetworkObject) else node.objects
            if len(l) != 1:
                break
            node = l[0]
        full = a_max(spec.fam)
        got = None
        if isinstance(node, ob.NetworkHost):
            got = node.address.version, num(node.address), full
        elif isinstance(node, ob.Network):
            got = node.network.version, num(node.network.network_address), num(node.network.netmask)
        elif isinstance(node, ob.NetworkWildcard):
            got = node.address.version, num(node.address), num(node.wildcard) ^ full
        if got:
            v, a, m = got
            h.check(v == spec.fam, f"{label}: family", node=node, text=spec.text)
            if v == spec.fam:
                h.check(h.And(m == spec.mask, (a & spec.mask) == (spec.val & spec.mask)), f"{label}: addresses", node=node, text=spec.text)
            return
    for fam in (4, 6):
        p = h.int(f"probe{fam}.{tag}", 0, a_max(fam))
        h.check(h.Iff(node_has(h, node, p, fam), spec.has(h, p, fam)), f"{label}: addresses (IPv{fam})",
                node=node, text=spec.text)


# -- ports -------------------------------------------------------------------------------
class PortSpec:
    def __init__(self, text, op=None, a=None, b=None):
        self.text, self.op, self.a, self.b = text, op, a, b


def port(h, n, kind):
    if kind == "none":
        return PortSpec("")
    if kind == "range":
        a = h.int(n + ".lo", 0, 65535)
        b = h.int(n + ".hi", 0, 65535)
        h.assume(a < b)
        return PortSpec(cat(" range ", h.dec(a), " ", h.dec(b)), "range", a, b)
    a = h.int(n, 0, 65535)
    return PortSpec(cat(" ", kind, " ", h.dec(a)), kind, a)


def numeq(h, got, want):
    """a parsed number, kept as text or as int, equals the one written"""
    if isinstance(got, str):
        return got == h.dec(want)
    return got == want


def check_port(h, got, spec, label):
    ob = h.mods.ob
    if spec.op is None:
        h.check(got is None, label + ": no port", got=got)
        return
    if spec.op == "range":
        ok = isinstance(got, ob.PortRange)
        h.check(ok, label + ": is a range", got=got)
        if ok:
            h.check(h.And(numeq(h, got.start, spec.a), numeq(h, got.stop, spec.b)), label + ": range ends", got=got,
                    text=spec.text)
        return
    ok = isinstance(got, ob.Port)
    h.check(ok, label + ": is a port", got=got)
    if ok:
        h.check(h.And(got.op == spec.op, numeq(h, got.num, spec.a)), label + ": operator and number", got=got,
                text=spec.text)


def parse(h, kind, text):
    """parse through the public entry point of the dialect; the result or the exception"""
    cls = {"fwsm": lambda: h.mods.fwsm.fwsmConfig, "ios": lambda: h.mods.ios.iosConfig,
           "pf": lambda: h.mods.pf.pfsenseConfig, "auto": lambda: h.mods.ob.ACLConfig}[kind]()
    return h.attempt(cls.fromString, text)


def parsed(h, kind, text, label="accepted"):
    ok, c = parse(h, kind, text)
    h.check(ok, label, text=text, error=None if ok else repr(c)[:300])
    return c if ok else None


def caf(h, text):
    return h.attempt(h.mods.caf.cafBlock.fromString, text)

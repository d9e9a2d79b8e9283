"""How the text of a configuration or a filter reaches the library does not change what is read."""
import codecs
import datetime
import io
import os
import pathlib
import tempfile

from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("29 ASA/FWSM, 16 IOS, 6 pfSense texts and 8 filters of 1 to 9 lines, followed by a further entry; LF and CRLF at every line, with and without the final line end; read from a string, a file object, "
          "a path, with and without byte order mark, with and without naming the dialect; addresses and texts symbolic")
WORDY = "abz0. ü"

ASA = {
    "hostname": "hostname fw\ndomain-name example.org\n",
    "names": "names\nname % web description the web\nname % mail\naccess-list a extended permit ip host web host mail\n",
    "interface": "interface Vlan1\n nameif inside\n security-level 100\n ip address % 255.255.255.0\n description ~\n!\naccess-group a in interface inside\n",
    "shutdown": "interface Vlan2\n nameif dmz\n shutdown\n!\n",
    "host object": "object network o\n host %\n description ~\n",
    "range object": "object network o\n range 10.0.0.1 10.0.0.9\n",
    "object nat": "interface Vlan1\n nameif inside\ninterface Vlan2\n nameif outside\nobject network o\n host %\n nat (inside,outside) static 192.0.2.1\n",
    "service object": "object service s\n service tcp destination eq 80\n",
    "network group": "object-group network g\n description ~\n network-object host %\n network-object 10.0.0.0 255.0.0.0\naccess-list a extended permit ip object-group g any\n",
    "nested group": "object-group network g\n network-object host %\nobject-group network g2\n group-object g\n",
    "service group": "object-group service s tcp\n description ~\n port-object eq 80\n port-object range 1000 2000\naccess-list a extended permit tcp any any object-group s\n",
    "mixed service group": "object-group service s\n service-object tcp destination eq 80\n service-object udp\n",
    "icmp group": "object-group icmp-type i\n icmp-object echo\n icmp-object echo-reply\naccess-list a extended permit icmp any any object-group i\n",
    "protocol group": "object-group protocol p\n protocol-object tcp\n protocol-object udp\naccess-list a extended permit object-group p any any\n",
    "remark": "access-list a remark ~\naccess-list a extended permit ip host % any\n",
    "two remarks": "access-list a remark ~\naccess-list a remark second\naccess-list a extended deny tcp any host % eq 80 log\n",
    "options": "access-list a extended permit tcp host % any eq www log 6 interval 300 inactive\n",
    "standard": "access-list s standard permit host %\naccess-list s standard deny any\n",
    "webtype": "access-list w webtype permit tcp host % eq 80\n",
    "time range": "time-range t\n absolute start 8:00 1 May 2010\n periodic weekdays 9:00 to 17:00\naccess-list a extended permit ip host % any time-range t\n",
    "twice nat": "interface Vlan1\n nameif inside\ninterface Vlan2\n nameif outside\nobject network o1\n host %\nobject network o2\n host %\nnat (inside,outside) source static o1 o2\n",
    "nat description": "interface Vlan1\n nameif inside\ninterface Vlan2\n nameif outside\nobject network o1\n host %\nobject network o2\n host %\nnat (inside,outside) after-auto source dynamic o1 o2 description ~\n",
    "version": "ASA Version 8.2\n",
    "fwsm version": "FWSM Version 3.1(4)\n",
    "ignored": "pager lines 24\nlogging enable\nmtu inside 1500\n",
    "ignored block": "class-map inspection_default\n match default-inspection-traffic\n!\n",
    "ignored policy": "policy-map global_policy\n class inspection_default\n  inspect dns\n!\nservice-policy global_policy global\n",
    "blank": "\n!\n\n: comment\n",
    "mark inside": "access-list a remark \ufeff~\n! \ufeff\naccess-list a extended permit ip host % any\n",
}
IOS = {
    "hostname": "hostname r\nip domain name example.org\n",
    "version": "version 12.4\n",
    "interface": "interface Vlan1\n description ~\n ip address % 255.255.255.0\n ip access-group a in\n!\n",
    "trunk": "interface Gi0/1\n switchport trunk allowed vlan 1,5-7\n switchport mode trunk\n!\n",
    "ipv6 interface": "interface Vlan1\n ipv6 address 2001:db8::1/64\n ipv6 traffic-filter six in\n!\n",
    "extended": "ip access-list extended a\n permit tcp host % any eq 80\n deny ip any any log\n",
    "remark": "ip access-list extended a\n remark ~\n permit ip host % any\n remark ~\n deny ip any host %\n",
    "standard": "ip access-list standard s\n permit %\n deny any\n",
    "numbered": "access-list 10 remark ~\naccess-list 10 permit %\naccess-list 101 permit ip host % any\n",
    "ipv6": "ipv6 access-list six\n sequence 10 permit tcp host 2001:db8::1 any eq 80\n sequence 20 deny ipv6 any any\n",
    "group": "object-group network g\n description ~\n host %\n 10.0.0.0 255.0.0.0\nip access-list extended a\n permit ip object-group g any\n",
    "service group": "object-group service s\n description ~\n icmp echo\n icmp echo-reply\n",
    "route": "interface Vlan1\n ip address 10.0.0.1 255.255.255.0\n!\nip route 192.0.2.0 255.255.255.0 10.0.0.9\n",
    "ignored": "no aaa new-model\nip subnet-zero\nspanning-tree mode pvst\n",
    "ignored block": "router bgp 1\n neighbor 10.0.0.1\n!\nline vty 0 4\n login\n!\n",
    "blank": "!\n!\n",
}
TAIL = {"fwsm": "access-list zz remark last\naccess-list zz extended permit ip any any\n", "ios": "ip access-list extended zz\n remark last\n permit ip any any\n"}
PF = {
    "rule": "<pfsense>\n<filter>\n<rule>\n<type>pass</type>\n<interface>lan</interface>\n<descr>~</descr>\n<source>\n<address>%</address>\n</source>\n<destination>\n<any/>\n</destination>\n</rule>\n</filter>\n</pfsense>\n",
    "alias": "<pfsense>\n<aliases>\n<alias>\n<name>x</name>\n<type>host</type>\n<address>% 10.0.0.1</address>\n<descr>~</descr>\n</alias>\n</aliases>\n</pfsense>\n",
    "blank first": "\n  <pfsense>\n<system>\n<hostname>fw</hostname>\n<domain>example.org</domain>\n</system>\n</pfsense>\n",
    "comment first": "<!-- saved -->\n<pfsense>\n<system>\n<hostname>fw</hostname>\n<domain>example.org</domain>\n</system>\n</pfsense>\n",
    "opnsense": "<opnsense>\n<filter>\n<rule>\n<type>block</type>\n<interface>lan</interface>\n<source>\n<any/>\n</source>\n<destination>\n<address>%</address>\n</destination>\n</rule>\n</filter>\n</opnsense>\n",
    "declared": "<?xml version=\"1.0\"?>\n<pfsense>\n<system>\n<hostname>fw</hostname>\n<domain>example.org</domain>\n</system>\n</pfsense>\n",
}
CAF = {
    "one": "ip src %\n", "two": "ip src %\nip dst %\n", "list": "ip src % %\n 10.0.0.0/8\n", "id": "id a\nip dst %\n", "op": "ip src %\nunion\nip dst %\n",
    "nested": "(\n ip src %\n except\n ip dst 10.0.0.0/8\n)\nintersect\nid a\n", "comment": "/* a\n b */\nip src %\n/* end */\n", "any": "ip src ANY ip dst %\n",
}
ALL = {"fwsm": ASA, "ios": IOS, "pf": PF, "caf": CAF}


def lines(h, d, k):
    """the lines of a text, % an address, ~ some words"""
    t = ALL[d][k] + TAIL.get(d, "")
    out, line, n = [], "", 0
    for ch in t:
        if ch == "%":
            line = cat(line, h.a4(h.int(f"a{n}", 0, M4)))
        elif ch == "~":
            line = cat(line, "x", h.chars(f"w{n}", 2, WORDY), "y")
        elif ch == "\n":
            out.append(line)
            line = ""
            continue
        else:
            line = cat(line, ch)
            continue
        n += 1
    return out


def joined(ls, ends):
    return cat(*[x for l, e in zip(ls, ends) for x in (l, e)])


def equal(h, a, b, seen, where, skip=("timestamp",)):
    """terms that are true exactly if the two are alike in all they hold"""
    if (id(a), id(b)) in seen:
        return True
    seen[(id(a), id(b))] = (a, b)
    if a is None or b is None:
        return True if a is b else where
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if type(a) is not type(b):
        return where
    if isinstance(a, dict):
        if len(a) != len(b):
            return where
        return both(h, [equal(h, x, y, seen, f"{where}[{i}]") for i, (p, q) in enumerate(zip(a.items(), b.items())) for x, y in zip(p, q)])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return where
        return both(h, [equal(h, x, y, seen, f"{where}[{i}]") for i, (x, y) in enumerate(zip(a, b))])
    if type(a).__name__ in ("set", "frozenset", "OrdSet"):
        if len(a) != len(b):
            return where
        return both(h, [either(h, [equal(h, x, y, dict(seen), where) for y in b]) for x in a])
    if isinstance(a, type) or callable(a) and not hasattr(a, "__dict__"):
        return True if a is b else where
    if hasattr(a, "_ip"):
        return a.version == b.version and h.And(num(a) == num(b))
    if hasattr(a, "network_address"):
        return a.version == b.version and h.And(num(a.network_address) == num(b.network_address), num(a.netmask) == num(b.netmask))
    if type(a).__name__ in ("datetime", "date", "time"):
        return a == b
    if hasattr(a, "__dict__"):
        x, y = vars(a), vars(b)
        keys = [k for k in x if k not in skip]
        if keys != [k for k in y if k not in skip]:
            return where
        return both(h, [equal(h, x[k], y[k], seen, f"{where}.{k}") for k in keys])
    return True if a == b else where


def either(h, l):
    return h.Or(*[x for x in l if not isinstance(x, str)])


def both(h, l):
    for x in l:
        if isinstance(x, str):
            return x
    return h.And(*l) if l else True


def same(h, a, b, text, **kw):
    if type(a) is not type(b):
        h.check(False, "the same dialect", a=type(a).__name__, b=type(b).__name__)
        return
    for k in vars(a):
        if k in ("timestamp",):
            continue
        r = equal(h, getattr(a, k), getattr(b, k, None), {}, k)
        if isinstance(r, str):
            h.check(False, f"{k}: the same", at=r, text=text, **kw)
        else:
            h.check(r, f"{k}: the same", text=text, a=getattr(a, k), b=getattr(b, k), **kw)


def read(h, d, text):
    if d == "caf":
        return caf(h, text)
    return parse(h, d, text)


EACH = [(d, k) for d in ALL for k in ALL[d]]


@U.unit(each=EACH)
def line_ends(h, v):
    """CRLF everywhere, on one line, or no final line end: the same configuration"""
    d, k = v
    ls = lines(h, d, k)
    n = len(ls)
    ok, a = read(h, d, joined(ls, ["\n"] * n))
    h.check(ok, "accepted", text=ls, error=a)
    w = h.choice("ends", ["crlf", "none", "crlf but the last"] + list(range(n)))
    ends = ["\r\n" if w in ("crlf", "crlf but the last") or w == i else "\n" for i in range(n)]
    if w in ("none", "crlf but the last"):
        ends[-1] = ""
    t = joined(ls, ends)
    ok2, b = read(h, d, t)
    h.check(ok2, "accepted with these line ends", text=t, ends=w, error=b)
    if ok and ok2:
        same(h, a, b, t, ends=w)


class Data:
    """the bytes of a file; what decoding them gives is known for UTF-8"""

    def __init__(self, text, bom, marks=0):
        self.text, self.bom, self.marks = text, bom, marks

    def count(self, p):
        """byte order marks, whose places are known"""
        if p != codecs.BOM_UTF8:
            raise TypeError("only the byte order mark is modelled")
        return self.marks + self.bom

    def __contains__(self, p):
        return self.count(p) > 0

    def decode(self, encoding="utf-8", errors="strict"):
        name = codecs.lookup(encoding).name
        full = cat("\ufeff", self.text) if self.bom else self.text
        if name == "utf-8-sig":
            return self.text
        if name == "utf-8":
            return full
        return str(full).encode("utf-8").decode(encoding, errors)

    symx_decode = decode

    def head(self, n):
        """the first n bytes, which the texts here begin with in ASCII"""
        return (codecs.BOM_UTF8 if self.bom else b"")[:n] + str(self.text[:max(0, n - 3 * self.bom)]).encode("ascii")

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1) or (i.start or 0) < 0:
            raise TypeError("only the front of the file is modelled")
        if i.stop is not None and 0 <= i.stop <= 3:
            return self.head(i.stop)[i.start or 0:]
        if i.stop is None and (i.start or 0) in (0, 3):
            return self if not i.start else Data(self.text if self.bom else self.text[3:], False, self.marks)
        raise TypeError("only the front of the file is modelled")

    def startswith(self, p):
        return any(self.head(len(x)) == x for x in (p if isinstance(p, tuple) else (p,)))

    def removeprefix(self, p):
        if not p or not self.startswith(p):
            return self
        if p == codecs.BOM_UTF8:
            return Data(self.text, False, self.marks)
        raise TypeError("only the byte order mark is modelled")


class File:
    """the file object: bytes, or text in the encoding it was opened with"""
    name = "x.conf"

    def __init__(self, data, encoding=None):
        self.data = data if encoding is None else data.decode(encoding)

    def read(self, *a):
        if a and a[0] not in (None, -1):
            raise TypeError("reading in pieces is not modelled")
        d, self.data = self.data, self.data[:0]
        return d

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def classes(h, d):
    return {"fwsm": lambda: h.mods.fwsm.fwsmConfig, "ios": lambda: h.mods.ios.iosConfig, "pf": lambda: h.mods.pf.pfsenseConfig, "auto": lambda: h.mods.ob.ACLConfig,
            "caf": lambda: h.mods.caf.cafBlock}[d]()


def from_file(h, d, text, bom, path, marks=0):
    sym = h.mode == "sym"
    raw = Data(text, bom, marks) if sym else (b"\xef\xbb\xbf" if bom else b"") + text.encode("utf-8")
    cls = classes(h, d)
    if not path:
        return h.attempt(cls.fromFile, File(raw) if sym else io.BytesIO(raw))
    if not sym:
        with tempfile.TemporaryDirectory() as t:
            p = os.path.join(t, "x.conf")
            with open(p, "wb") as f:
                f.write(raw)
            return h.attempt(cls.fromPath, p)
    asked = []

    def opened(p, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        asked.append(str(p))
        return File(raw, None if "b" in mode else encoding or "utf-8")
    mods = [h.mods.ob, h.mods.caf]
    real = pathlib.Path.open, pathlib.Path.read_bytes, pathlib.Path.read_text
    for m in mods:
        m.open = opened
    pathlib.Path.open = opened
    pathlib.Path.read_bytes = lambda p: opened(p, "rb").read()
    pathlib.Path.read_text = lambda p, encoding=None, errors=None, newline=None: opened(p, encoding=encoding).read()
    try:
        r = h.attempt(cls.fromPath, "/nowhere/x.conf")
    finally:
        for m in mods:
            del m.open
        pathlib.Path.open, pathlib.Path.read_bytes, pathlib.Path.read_text = real
    h.check(asked and set(asked) == {"/nowhere/x.conf"}, "opens that path and no other", got=asked)
    return r


@U.unit(each=EACH)
def files(h, v):
    """a file object or a path, with or without byte order mark, gives what its text gives"""
    d, k = v
    ls = lines(h, d, k)
    t = joined(ls, [h.choice("end", ["\n", "\r\n"])] * len(ls))
    ok, a = read(h, d, t)
    h.check(ok, "accepted", text=t, error=a)
    ok2, b = from_file(h, d, t, h.choice("bom", [False, True]), h.choice("path", [False, True]), ALL[d][k].count("\ufeff"))
    h.check(ok2, "accepted from a file", text=t, error=b)
    if ok and ok2:
        same(h, a, b, t)


@U.unit(each=[(d, k) for d in ("fwsm", "ios", "pf") for k in ALL[d] if not (d == "ios" and k in ("blank", "version", "hostname", "ignored"))])
def detected(h, v):
    """without naming the dialect"""
    d, k = v
    ls = lines(h, d, k)
    t = joined(ls, [h.choice("end", ["\n", "\r\n"])] * len(ls))
    ok, a = read(h, d, t)
    ok2, b = parse(h, "auto", t) if h.choice("from", ["string", "file"]) == "string" else from_file(h, "auto", t, h.choice("bom", [False, True]), False, ALL[d][k].count("\ufeff"))
    h.check(ok2, "accepted", text=t, error=b)
    if ok and ok2:
        same(h, a, b, t)


@U.unit(each=[(d, k) for d in ALL for k in ALL[d]])
def twice(h, v):
    """reading a text again, with another text read in between, gives the same"""
    d, k = v
    t = joined(lines(h, d, k), ["\n"] * 99)
    ok, a = read(h, d, t)
    h.check(ok, "accepted", text=t, error=a)
    other = h.choice("between", ["", "good", "bad"])
    if other:
        read(h, d, {"fwsm": "object-group network g\n network-object host 10.1.1.1\naccess-list a extended deny ip any any\n", "ios": "hostname other\naccess-list 10 deny any\n",
                    "pf": "<pfsense><aliases><alias><name>x</name><type>host</type><address>10.9.9.9</address><descr/></alias></aliases></pfsense>", "caf": "ip dst 10.1.1.1"}[d] if other == "good"
             else "object-group network g\n nonsense\n")
    ok2, b = read(h, d, t)
    h.check(ok2, "accepted again", text=t, error=b)
    if ok and ok2:
        same(h, a, b, t)

"""What one statement of a configuration means does not depend on unrelated statements around it."""
from .common import *
from .c26 import equal

U = Units()
unit_fn = U.fn
BOUNDS = ("every ordered pair of 33 kinds of ASA/FWSM statements (or small groups of statements), of 20 kinds of IOS statements and of 12 kinds of pfSense elements, each with names of its own that differ "
          "in one symbolic character; addresses, prefix lengths, ports and texts symbolic; access lists of the two with the same or with different names")
ASSUMPTIONS = ["both parts refer only to names they define themselves"]
WORDY = "abz0. ü"

# # the name, % an address, ~ some words, @ a port, = the access list
ASA = {
    "host object": "object network o#\n host %\n description ~\n",
    "subnet object": "object network o#\n subnet 10.0.0.0 255.0.0.0\n",
    "range object": "object network o#\n range 10.0.0.1 10.0.0.9\naccess-list = extended permit ip object o# any\n",
    "fqdn object": "object network o#\n fqdn v4 www.example.org\n",
    "service object": "object service s#\n service tcp source eq 5 destination eq @\naccess-list = extended permit object s# any host %\n",
    "udp object": "object service s#\n service udp destination range 4 5\n",
    "network group": "object-group network g#\n description ~\n network-object host %\n network-object 10.0.0.0 255.0.0.0\naccess-list = extended deny ip object-group g# any\n",
    "nested group": "object-group network g#\n network-object host %\nobject-group network h#\n group-object g#\n network-object host 10.0.0.8\n",
    "group of object": "object network o#\n host %\nobject-group network g#\n network-object object o#\n",
    "port group": "object-group service p# tcp\n description ~\n port-object eq @\n port-object range 1000 2000\naccess-list = extended permit tcp any object-group p# any object-group p#\n",
    "port group udp": "object-group service p# tcp-udp\n port-object eq @\nobject-group service q# udp\n port-object eq 4\n",
    "mixed service group": "object-group service m#\n service-object tcp destination eq @\n service-object udp\n service-object icmp echo\naccess-list = extended permit object-group m# any any\n",
    "icmp group": "object-group icmp-type i#\n icmp-object echo\n icmp-object 7\naccess-list = extended permit icmp host % any object-group i#\n",
    "protocol group": "object-group protocol r#\n protocol-object tcp\n protocol-object 47\naccess-list = extended permit object-group r# any any\n",
    "name": "name % n# description ~\naccess-list = extended permit tcp host n# eq @ any\n",
    "name in group": "name % n#\nobject-group network g#\n network-object host n#\n network-object n# 255.255.255.0\n",
    "time range": "time-range t#\n absolute start 8:00 1 May 2010 end 9:00 2 June 2011\n periodic weekdays 9:00 to 17:00\naccess-list = extended permit ip host % any time-range t#\n",
    "interface": "interface Vlan#\n nameif if#\n security-level 10\n ip address % 255.255.255.0\n description ~\naccess-group = in interface if#\n",
    "bare interface": "interface Vlan#\n no nameif\n shutdown\n no ip address\n!\n",
    "ipv6 interface": "interface Eth#\n nameif if#\n ipv6 address 2001:db8::1/64\n",
    "remark": "access-list = remark ~\naccess-list = extended permit ip host % any\n",
    "remarks": "access-list = remark ~\naccess-list = remark ~\naccess-list = extended deny udp any host % eq @ log 3 interval 10\n",
    "options": "access-list = extended permit tcp host % any eq @ log disable inactive\n",
    "plain": "access-list = extended deny ip any any\n",
    "six": "access-list = extended permit tcp host 2001:db8::1 2001:db8::/32 gt @\n",
    "icmp": "access-list = extended permit icmp any host % echo-reply\n",
    "standard": "access-list = standard permit host %\naccess-list = standard deny any\n",
    "webtype url": "access-list = webtype permit url http://#.example.org\n",
    "webtype tcp": "access-list = webtype deny tcp host % eq @ log\n",
    "ethertype": "access-list = ethertype permit ipx\n",
    "twice nat": "object network o#\n host %\nobject network v#\n host %\nnat (any,any) source static o# v# description ~\n",
    "after nat": "object network o#\n host %\nnat (any,any) after-auto source dynamic any o#\n",
    "object nat": "object network o#\n host %\n nat (any,any) static %\n",
}
IOS = {
    "interface": "interface Vlan#\n description ~\n ip address % 255.255.255.0\n ip access-group = in\n!\n",
    "second address": "interface Vlan#\n ip address 10.0.0.1 255.0.0.0\n ip address % 255.255.255.0 secondary\n!\n",
    "trunk": "interface Gi#\n switchport trunk allowed vlan 1,5-7\n switchport mode trunk\n!\n",
    "access": "interface Gi#\n switchport access vlan 7\n shutdown\n!\n",
    "ipv6 interface": "interface Vlan#\n ipv6 address 2001:db8::1/64\n ipv6 traffic-filter six in\n!\n",
    "extended": "ip access-list extended =\n permit tcp host % any eq @\n deny ip any any log\n",
    "remark": "ip access-list extended =\n remark ~\n permit ip host % any\n remark ~\n deny ip any host %\n",
    "standard": "ip access-list standard =\n permit %\n deny any\n",
    "numbered standard": "access-list 10 remark ~\naccess-list 10 permit %\n",
    "numbered": "access-list 101 permit tcp host % any eq @\naccess-list 101 deny ip any any\n",
    "icmp": "ip access-list extended =\n permit icmp any host % echo\n permit icmp any any 3 4\n",
    "wildcard": "ip access-list extended =\n permit ip 10.0.0.0 0.0.255.255 host %\n",
    "ipv6": "ipv6 access-list =\n sequence 10 permit tcp host 2001:db8::1 any eq @\n sequence 20 deny ipv6 any any log\n",
    "ipv6 unordered": "ipv6 access-list =\n sequence 30 deny udp any host 2001:db8::2\n sequence 10 permit icmp any any\n",
    "ipv6 ports": "ipv6 access-list =\n sequence 6 permit tcp any gt @ any\n",
    "group": "object-group network g#\n description ~\n host %\n 10.0.0.0 255.0.0.0\nip access-list extended =\n permit ip object-group g# any\n",
    "nested group": "object-group network g#\n host %\nobject-group network h#\n group-object g#\n",
    "service group": "object-group service s#\n description ~\n icmp echo\n tcp destination eq @\n",
    "route": "interface Vlan#\n ip address 10.0.0.1 255.0.0.0\n!\nip route 192.0.2.0 255.255.255.0 Vlan#\n",
    "time range": "ip access-list extended =\n permit ip host % any time-range tr\n",
}
PF = {
    "host alias": {"aliases": "<alias><name>a#</name><type>host</type><address>% 10.0.0.1</address><descr>~</descr><detail/></alias>"},
    "net alias": {"aliases": "<alias><name>a#</name><type>network</type><address>10.0.0.0/8</address><descr/><detail>x</detail></alias>", "filter": "<rule><type>pass</type><interface>wan</interface><source><address>a#</address></source><destination><any/></destination></rule>"},
    "nested alias": {"aliases": "<alias><name>a#</name><type>host</type><address>%</address><descr/><detail/></alias><alias><name>b#</name><type>network</type><address>192.0.2.0/24 10.0.0.0/8</address><descr>~</descr><detail/></alias>"},
    "port alias": {"aliases": "<alias><name>p#</name><type>port</type><address>@ 1000:2000</address><descr>~</descr><detail/></alias>", "filter": "<rule><type>pass</type><interface>wan</interface><protocol>tcp</protocol><source><any/></source><destination><any/><port>p#</port></destination></rule>"},
    "interface": {"interfaces": "<opt#><if>em#</if><descr>D#</descr><ipaddr>%</ipaddr><subnet>24</subnet></opt#>", "filter": "<rule><type>block</type><interface>opt#</interface><source><network>opt#</network></source><destination><any/></destination></rule>"},
    "plain interface": {"interfaces": "<opt#><if>em#</if><descr>D#</descr></opt#>"},
    "rule": {"filter": "<rule><type>pass</type><interface>wan</interface><descr>~</descr><protocol>tcp</protocol><source><address>%</address></source><destination><any/><port>@</port></destination></rule>"},
    "logged": {"filter": "<rule><type>reject</type><interface>wan</interface><log/><tracker>7</tracker><source><any/></source><destination><address>%</address></destination></rule>"},
    "disabled": {"filter": "<rule><type>pass</type><disabled/><interface>wan</interface><descr>~</descr><source><any/></source><destination><network>wan</network></destination><statetype>none</statetype></rule>"},
    "floating": {"filter": "<rule><type>block</type><floating>yes</floating><direction>out</direction><interface>wan</interface><source><any/></source><destination><address>%</address></destination></rule>"},
    "icmp": {"filter": "<rule><type>pass</type><interface>wan</interface><protocol>icmp</protocol><icmptype>echoreq</icmptype><source><any/></source><destination><any/></destination></rule>"},
    "dated": {"filter": "<rule><type>pass</type><interface>wan</interface><source><any/></source><destination><any/></destination><created><time>1500000000</time></created></rule>"},
}
DIALECT = {"fwsm": ASA, "ios": IOS, "pf": PF}


def fill(h, text, n, name, acl):
    out, k = "", 0
    for ch in text:
        if ch == "%":
            out = cat(out, h.a4(h.int(f"a{n}.{k}", 0, M4)))
        elif ch == "@":
            out = cat(out, h.dec(h.int(f"p{n}.{k}", 0, 65535)))
        elif ch == "~":
            out = cat(out, "x", h.chars(f"w{n}.{k}", 2, WORDY), "y")
        elif ch == "#":
            out = cat(out, name)
        elif ch == "=":
            out = cat(out, acl)
        else:
            out = cat(out, ch)
        k += 1
    return out


def together(h, a, b, x, where):
    """is x what a and b hold together (True, a term, or the place of a difference)"""
    if isinstance(a, dict) and isinstance(b, dict):
        keys = list(a)
        for k in b:
            if not any(k == j for j in keys):
                keys.append(k)
        if not isinstance(x, dict) or len(x) != len(keys):
            return [f"{where}: entries"]
        r = []
        for i, k in enumerate(keys):
            y = [v for j, v in x.items() if j == k]
            if len(y) != 1:
                return [f"{where}[{i}]: present"]
            in_a = [v for j, v in a.items() if j == k]
            in_b = [v for j, v in b.items() if j == k]
            if in_a and in_b:
                r += together(h, in_a[0], in_b[0], y[0], f"{where}[{k}]")
            else:
                r.append(equal(h, (in_a or in_b)[0], y[0], {}, f"{where}[{k}]"))
        return r
    if isinstance(a, list) and isinstance(b, list):
        return [equal(h, a + b, x, {}, where)]
    if hasattr(a, "__dict__") and type(a) is type(b) is type(x):
        r = []
        for k in vars(a):
            r += together(h, getattr(a, k), getattr(b, k), getattr(x, k), f"{where}.{k}")
        return r
    return [equal(h, a if a else b, x, {}, where)]


def compare(h, ca, cb, cx, text):
    for k in vars(ca):
        if k == "timestamp":
            continue
        for r in together(h, getattr(ca, k), getattr(cb, k), getattr(cx, k), k):
            if isinstance(r, str):
                h.check(False, f"{k}: what both hold together", at=r, text=text, got=getattr(cx, k))
            else:
                h.check(r, f"{k}: what both hold together", text=text, got=getattr(cx, k))


def names(h, first, second=None):
    n1, n2 = h.chars("n1", 1, first), h.chars("n2", 1, second or first)
    h.assume(h.Not(n1 == n2))
    return n1, n2


def three(h, d, t1, t2, t12):
    cs = []
    for t in (t1, t2, t12):
        ok, c = parse(h, d, t)
        h.check(ok, "accepted", text=t, error=None if ok else repr(c)[:300])
        if not ok:
            return
        cs.append(c)
    compare(h, *cs, t12)


NAMES = [("a", "A"), ("a", "a1"), ("a1", "a")]
LISTS = [("x", "x"), ("x", "X"), ("x", "x1"), ("x1", "x")]


def two(h, v, n, lists):
    d, a, b = v
    t1, t2 = fill(h, DIALECT[d][a], 1, n[0], lists[0]), fill(h, DIALECT[d][b], 2, n[1], lists[1])
    three(h, d, t1, t2, cat(t1, t2))


def rotated(h, v):
    d, a, b = v
    i = list(DIALECT[d]).index(a) + 2 * list(DIALECT[d]).index(b)
    n = NAMES[i % 3] if d == "fwsm" else [("1", "7"), ("1", "18"), ("18", "1")][i % 3]
    if "=" in DIALECT[d][a] and "=" in DIALECT[d][b]:
        two(h, v, n, h.choice("lists", [LISTS[0], LISTS[1 + i % 3]]))
    else:
        two(h, v, n, LISTS[0])


def pairs(d, *first, second=None):
    """all pairs of the kinds that write one of the words, in either order"""
    a = [k for k, t in DIALECT[d].items() if any(w in t for w in first)]
    b = list(DIALECT[d]) if second == "all" else a
    return list(dict.fromkeys([(d, x, y) for x in a for y in b] + [(d, y, x) for x in a for y in b]))


@U.unit(each=[(d, a, b) for d in ("fwsm", "ios") for a in DIALECT[d] for b in DIALECT[d]])
def pair(h, v):
    rotated(h, v)


@U.unit(each=[(d, a, b) for d in ("fwsm", "ios") for a in DIALECT[d] for b in DIALECT[d]], tiers=("thorough",))
def named(h, v):
    n = names(h, "aA" if v[0] == "fwsm" else "17", "a-1" if v[0] == "fwsm" else "18")
    two(h, v, n, h.choice("lists", LISTS))


def pfconf(h, *parts):
    t = ""
    for s in ("aliases", "interfaces", "filter"):
        t = cat(t, "<", s, ">", "<wan><if>em0</if><descr>WAN</descr></wan>" if s == "interfaces" else "", *[p.get(s, "") for p in parts], "</", s, ">")
    return cat("<pfsense>", t, "</pfsense>")


@U.unit(each=[(a, b) for a in PF for b in PF])
def pfsense(h, v):
    pf_two(h, v)


def pf_two(h, v):
    parts = []
    n = h.choice("tags", [("1", "2"), ("1", "12"), ("12", "1")]) if "interface" in cat(*v) else names(h, "aA", "ab1")
    for i in range(2):
        parts.append({s: fill(h, t, i + 1, n[i], "") for s, t in PF[v[i]].items()})
    cs = [parse(h, "pf", pfconf(h, *p)) for p in (parts[:1], parts[1:], parts)]
    for ok, c in cs:
        h.check(ok, "accepted", error=None if ok else repr(c)[:300])
        if not ok:
            return
    a, b, x = [c for _, c in cs]
    del b.interfaces["wan"]
    compare(h, a, b, x, pfconf(h, *parts))

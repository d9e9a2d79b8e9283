"""Every access list entry of a configuration ends up in the rule list, in order, with its own remarks, or the file is refused."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("ASA/FWSM configurations of 3 (thorough: 4) lines of 11 kinds in every order, IOS configurations of 3 (4) blocks of 7 kinds in "
          "every order; addresses and remark texts (2 characters) symbolic; remarks of one list before an entry of another, list names (2 characters) symbolic; one damaged character (any printable one, symbolic) at "
          "every position of 14 entry lines between two intact entries; one inserted line of 3 symbolic characters")
PRINT = "".join(chr(c) for c in range(32, 127))
WORDY = "abz0. "


def ip(h, n):
    a = h.int(n, 0, M4)
    return a, h.a4(a)


# -- order and remarks, ASA/FWSM --------------------------------------------------------
LINES = ["foo", "bar", "remark", "two remarks", "standard", "webtype", "ignored", "blank", "group", "other remark", "foreign remark"]


def asa_line(h, k, i):
    """(text, [(list name, address, remarks)])"""
    a, t = ip(h, f"a{i}")
    m = h.chars(f"r{i}", 2, WORDY) if "remark" in k else ""
    ent = cat("access-list foo extended permit ip host ", t, " any\n")
    if k == "foo":
        return ent, [("foo", a, [])]
    if k == "bar":
        return cat("access-list bar extended deny tcp host ", t, " any eq 80 log\n"), [("bar", a, [])]
    if k == "remark":
        return cat("access-list foo remark x", m, "\n", ent), [("foo", a, [cat("x", m)])]
    if k == "other remark":
        return cat("access-list foo remark deny ip any any", m, "\n", ent), [("foo", a, [cat("deny ip any any", m)])]
    if k == "foreign remark":
        return cat("access-list zed remark x", m, "\n"), []
    if k == "two remarks":
        m2 = h.chars(f"s{i}", 2, WORDY)
        return cat("access-list foo remark x", m, "\naccess-list foo remark x", m2, "\n", ent), [("foo", a, [cat("x", m), cat("x", m2)])]
    if k == "standard":
        return cat("access-list std standard permit host ", t, "\n"), [("std", a, [])]
    if k == "webtype":
        return cat("access-list web webtype permit tcp host ", t, " eq 80\n"), [("web", a, [])]
    if k == "ignored":
        return "pager lines 24\n", []
    if k == "blank":
        return "\n", []
    return cat("object-group network g", str(i), "\n network-object host ", t, "\naccess-list foo extended permit ip object-group g", str(i),
               " any\n"), [("foo", a, [])]


def node_of(r):
    n = r.dst.host if r.id == "web" else r.src.host
    return n


def compare(h, c, want, text):
    got = c.rules.rules
    h.check(len(got) == len(want), "as many rules as entries", n=len(got), text=text)
    for r, (nm, a, remarks) in zip(got, want):
        h.check(r.id == nm, "list name, in order", got=r.id)
        check_host(h, node_of(r), a)
        h.check(len(r.remark) == len(remarks), "number of remarks", got=r.remark, text=text)
        for x, y in zip(r.remark, remarks):
            h.check(x == y, "remark of the next entry", got=x)


def check_host(h, node, a):
    ob = h.mods.ob
    while isinstance(node, ob.NetworkGroup):
        node = node.objects[0]
    v = num(node.address) if isinstance(node, (ob.NetworkHost, ob.NetworkWildcard)) else num(node.network.network_address)
    h.check(v == a, "address, in order", got=node)


def asa_sequence(h, kinds):
    text, want = "", []
    for i, k in enumerate(kinds):
        t, w = asa_line(h, k, i)
        text = cat(text, t)
        want += w
    c = parsed(h, "fwsm", text)
    if c is not None:
        compare(h, c, want, text)


@U.unit(each=[(a, b) for a in LINES for b in LINES])
def asa(h, v):
    asa_sequence(h, v)


@U.unit(each=[(a, b) for a in ("foo", "two remarks", "group", "ignored") for b in LINES])
def asa3(h, v):
    asa_sequence(h, v + (h.choice("third", LINES),))


@U.unit(each=[(a, b) for a in LINES for b in LINES], tiers=("thorough",))
def asa4(h, v):
    asa_sequence(h, v + (h.choice("third", LINES), h.choice("fourth", LINES)))


FOREIGN = {
    "ext": " extended permit ip host 1.2.3.4 any\n", "std": " standard permit host 1.2.3.4\n",
    "web": " webtype permit tcp host 1.2.3.4 eq 80\n", "icmp": " extended deny icmp host 1.2.3.4 any echo\n",
}
IOS_FOREIGN = {"ext": ("101", " permit ip host 1.2.3.4 any\n"), "icmp": ("102", " deny icmp host 1.2.3.4 any echo\n"),
               "std": ("10", " permit host 1.2.3.4\n"), "std2": ("9", " deny 1.2.3.4\n")}
# the numbers IOS accepts, near and far
NUMBERS = ["10", "9", "1", "101", "100", "102", "110", "1301", "2010"]


@U.unit(each=[(k, n) for k in FOREIGN for n in (1, 2)])
def asa_owner(h, v):
    """remarks go to the entries of the list they are written for: both names symbolic"""
    k, n = v
    own, other = h.chars("own", 2, "abB0-_"), h.chars("other", 2, "abB0-_")
    m1, m2 = h.chars("m1", 1, WORDY), h.chars("m2", 1, WORDY)
    names = (own, other) if n == 1 else (other, own)
    c = parsed(h, "fwsm", cat("access-list l", names[0], " remark a", m1, "\naccess-list l", names[1], " remark b", m2,
                              "\naccess-list l", own, FOREIGN[k]))
    if c is None:
        return
    rs = c.rules.rules
    h.check(len(rs) == 1, "one rule")
    if own == other:
        want = [cat("a", m1), cat("b", m2)]
    else:
        want = [cat("a", m1)] if n == 1 else [cat("b", m2)]
    h.check(rs[0].id == cat("l", own), "list name")
    h.check(len(rs[0].remark) == len(want), "the remarks of its own list only", got=rs[0].remark, id=rs[0].id)
    for x, y in zip(rs[0].remark, want):
        h.check(x == y, "remark text", got=x)


@U.unit(each=[(k, n) for k in IOS_FOREIGN for n in NUMBERS])
def ios_owner(h, v):
    k, n = v
    m1, m2 = h.chars("m1", 2, WORDY), h.chars("m2", 2, WORDY)
    own, ent = IOS_FOREIGN[k]
    c = parsed(h, "ios", cat("access-list ", n, " remark a", m1, "\naccess-list ", own, " remark b", m2, "\naccess-list ", own, ent,
                             "access-list ", own, ent))
    if c is None:
        return
    rs = c.rules.rules
    h.check(len(rs) == 2 and len(rs[1].remark) == 0, "two rules, the second one without remark")
    want = ([cat("a", m1)] if n == own else []) + [cat("b", m2)]
    h.check(len(rs[0].remark) == len(want), "the remarks of its own list only", got=rs[0].remark, id=rs[0].id)
    for x, y in zip(rs[0].remark, want):
        h.check(x == y, "remark text", got=x)


# -- order and remarks, IOS --------------------------------------------------------------
BLOCKS = ["named", "named remark", "standard", "numbered", "numbered std", "v6", "ignored", "comment"]


def ios_block(h, k, i):
    a, t = ip(h, f"a{i}")
    b, u = ip(h, f"b{i}")
    m = h.chars(f"r{i}", 2, WORDY) if "remark" in k else ""
    if k == "named":
        return cat("ip access-list extended n", str(i), "\n permit tcp host ", t, " any eq 80\n deny ip host ", u, " any log\n"), \
            [(f"n{i}", a, []), (f"n{i}", b, [])]
    if k == "named remark":
        m2 = h.chars(f"s{i}", 2, WORDY)
        return cat("ip access-list extended n", str(i), "\n remark x", m, "\n remark x", m2, "\n permit tcp host ", t,
                   " any eq 80\n remark third\n deny ip host ", u, " any log\n"), [(f"n{i}", a, [cat("x", m), cat("x", m2)]), (f"n{i}", b, ["third"])]
    if k == "standard":
        return cat("ip access-list standard n", str(i), "\n permit host ", t, "\n remark deny any\n deny ", u, "\n"), \
            [(f"n{i}", a, []), (f"n{i}", b, ["deny any"])]
    if k == "numbered":
        return cat("access-list 101 remark third\naccess-list 101 permit tcp host ", t, " any eq 80\naccess-list 101 deny ip host ", u, " any\n"), \
            [("101", a, ["third"]), ("101", b, [])]
    if k == "numbered std":
        return cat("access-list 10 permit host ", t, "\naccess-list 10 remark x\naccess-list 10 deny ", u, " 0.0.0.0\n"), \
            [("10", a, []), ("10", b, ["x"])]
    if k == "v6":
        return cat("ipv6 access-list n", str(i), "\n sequence 10 permit ip host ", h.a6(a), " any\n sequence 20 deny ip host ", h.a6(b), " any\n"), \
            [(f"n{i}", a, []), (f"n{i}", b, [])]
    if k == "ignored":
        return "logging buffered\n", []
    return "!\n", []


def ios_sequence(h, kinds):
    text, want = "", []
    for i, k in enumerate(kinds):
        t, w = ios_block(h, k, i)
        text = cat(text, t)
        want += w
    c = parsed(h, "ios", text)
    if c is not None:
        compare(h, c, want, text)


@U.unit(each=[(a, b) for a in BLOCKS for b in BLOCKS])
def ios(h, v):
    ios_sequence(h, v)


@U.unit(each=[(a, b) for a in ("named remark", "numbered", "standard") for b in BLOCKS])
def ios3(h, v):
    ios_sequence(h, v + (h.choice("third", BLOCKS),))


@U.unit(each=[(a, b) for a in BLOCKS for b in BLOCKS], tiers=("thorough",))
def ios4(h, v):
    ios_sequence(h, v + (h.choice("third", BLOCKS), h.choice("fourth", BLOCKS)))


# -- one damaged character ----------------------------------------------------------------
ASA_DAMAGE = {
    "ext": "access-list mid extended permit tcp any host 1.2.3.4 eq 80 log",
    "icmp": "access-list mid extended deny icmp any any echo",
    "net": "access-list mid extended permit ip 10.0.0.0 255.0.0.0 any6",
    "std": "access-list mid standard permit 10.0.0.0 255.0.0.0",
    "web": "access-list mid webtype deny tcp any range 1 2",
    "v6": "access-list mid extended permit 17 2001:db8::/32 any inactive",
    "grp": "access-list mid extended permit udp object-group gr any gt domain",
}
IOS_DAMAGE = {
    "ext": ("ip access-list extended mid\n", " permit tcp any host 1.2.3.4 eq 80 log"),
    "icmp": ("ip access-list extended mid\n", " deny icmp any any echo"),
    "wild": ("ip access-list extended mid\n", " 10 permit ip 10.0.0.0 0.255.255.255 any"),
    "std": ("ip access-list standard mid\n", " permit 10.0.0.0 0.0.255.255"),
    "num": ("", "access-list 101 permit tcp any any established"),
    "nstd": ("", "access-list 10 deny 10.0.0.0 0.0.255.255"),
    "v6": ("ipv6 access-list mid\n", " sequence 10 permit tcp 2001:db8::/32 any eq 80"),
}


def damaged(h, pre, line, pos, comment):
    x = h.chars("x", 1, PRINT)
    return cat(pre, line[:pos], x, line[pos + 1:], "\n"), h.Or(*[x == c for c in comment]) if pos == 0 else False


@U.unit(each=[(k, p) for k in ASA_DAMAGE for p in range(len(ASA_DAMAGE[k]))])
def asa_damage(h, v):
    k, pos = v
    line = ASA_DAMAGE[k]
    a, t = ip(h, "a")
    text, comment = damaged(h, "", line, pos, "!:")
    text = cat("object-group network gr\n network-object host 1.1.1.1\naccess-list one extended permit ip host ", t, " any\n", text,
               "access-list two extended permit ip host ", t, " any\n")
    damage_check(h, "fwsm", text, comment, a)


def damage_check(h, kind, text, comment, a):
    ok, c = parse(h, kind, text)
    if not ok:
        return
    rules = c.rules.rules
    h.check(h.Or(comment, len(rules) == 3), "refused, or all three entries are there", text=text, got=[r.id for r in rules])
    h.check(rules and rules[0].id == "one" and rules[-1].id == "two", "the entries around it are intact", got=[r.id for r in rules])
    for r in (rules[0], rules[-1]) if rules else ():
        check_host(h, r.src.host, a)
        h.check(not r.remark, "no remark")


@U.unit(each=[(k, p) for k in IOS_DAMAGE for p in range(len(IOS_DAMAGE[k][1]))])
def ios_damage(h, v):
    k, pos = v
    pre, line = IOS_DAMAGE[k]
    a, t = ip(h, "a")
    text, comment = damaged(h, pre, line, pos, "!:")
    text = cat("ip access-list extended one\n permit ip host ", t, " any\n!\n", text,
               "ip access-list extended two\n permit ip host ", t, " any\n")
    damage_check(h, "ios", text, comment, a)


@U.unit(each=[(k, p) for k in ("ext", "std", "v6") for p in range(len(IOS_DAMAGE[k][0]) - 1)])
def ios_header_damage(h, v):
    """the line that opens a list"""
    k, pos = v
    pre, line = IOS_DAMAGE[k]
    a, t = ip(h, "a")
    x = h.chars("x", 1, PRINT)
    text = cat("ip access-list extended one\n permit ip host ", t, " any\n!\n", pre[:pos], x, pre[pos + 1:], line, "\n!\n",
               "ip access-list extended two\n permit ip host ", t, " any\n")
    damage_check(h, "ios", text, False, a)


# -- an inserted line ----------------------------------------------------------------------
@U.unit(each=[(d, r) for d in ("fwsm", "ios") for r in ("", " foo", " permit ip any any")])
def inserted(h, v):
    d, rest = v
    w = h.chars("w", 3, "acdehinoprst!: ")
    a, t = ip(h, "a")
    if d == "fwsm":
        text = cat("access-list one extended permit ip host ", t, " any\n", w, rest, "\naccess-list two extended permit ip host ", t, " any\n")
    else:
        text = cat("ip access-list extended one\n permit ip host ", t, " any\n", w, rest, "\nip access-list extended two\n permit ip host ", t, " any\n")
    ok, c = parse(h, d, text)
    if not ok:
        return
    if d == "ios" and w == "end":      # the line that ends an IOS configuration
        return
    h.check([r.id for r in c.rules.rules] == ["one", "two"], "refused, or both entries are there", text=text, got=[r.id for r in c.rules.rules])
    for r in c.rules.rules:
        check_host(h, r.src.host, a)


# -- autodetection -------------------------------------------------------------------------
CONFIGS = {
    "fwsm": ["object-group network g\n network-object host %\naccess-list foo remark x\naccess-list foo extended permit tcp object-group g any eq 80\n",
             "access-list foo standard permit host %\naccess-list bar extended deny icmp any any echo\n", "hostname fw\naccess-list foo extended permit ip host % any log\n"],
    "ios": ["ip access-list extended foo\n remark x\n permit tcp host % any eq 80\n deny ip any any\n", "access-list 101 permit tcp host % any established\n",
            "access-list 10 permit % 0.0.0.255\n", "hostname r\ninterface E0\n ip access-group foo in\nip access-list standard foo\n permit host %\n"],
    "pf": ["<pfsense><filter><rule><type>pass</type><interface>lan</interface><descr>d</descr><source><address>%</address></source>"
           "<destination><any/></destination></rule></filter></pfsense>"],
}


@U.unit(each=[(d, i) for d in CONFIGS for i in range(len(CONFIGS[d]))])
def autodetect(h, v):
    """reading without naming the dialect gives what reading with the right one gives"""
    d, i = v
    a, t = ip(h, "a")
    x, y = CONFIGS[d][i].split("%")
    text = cat(x, t, y)
    one, two = parsed(h, d, text), parsed(h, "auto", text)
    if one is None or two is None:
        return
    h.check(type(one) is type(two), "same dialect", got=type(two).__name__)
    h.check(len(one.rules.rules) == len(two.rules.rules) and len(one.rules.rules) > 0, "same number of rules")
    for r, s in zip(one.rules.rules, two.rules.rules):
        h.check(r.id == s.id and r.mode == s.mode and r.protocol.name == s.protocol.name, "same rule", a=r, b=s)
        h.check(len(r.remark) == len(s.remark) and set(r.options) == set(s.options), "same remarks and options", a=r, b=s)
        for m in ("src", "dst"):
            p, q = getattr(r, m), getattr(s, m)
            h.check(type(p.host) is type(q.host) and type(p.port) is type(q.port), "same kind of node", a=r, b=s)
            check_same(h, p.host, q.host)
    h.check(one.hostname == two.hostname and sorted(one.groups.network) == sorted(two.groups.network), "same rest")


def check_same(h, p, q):
    ob = h.mods.ob
    if isinstance(p, ob.NetworkGroup):
        h.check(len(p.objects) == len(q.objects), "same members")
        for i, j in zip(p.objects, q.objects):
            check_same(h, i, j)
    elif isinstance(p, ob.NetworkHost):
        h.check(num(p.address) == num(q.address), "same address")
    elif isinstance(p, ob.Network):
        h.check(h.And(num(p.network.network_address) == num(q.network.network_address), num(p.network.netmask) == num(q.network.netmask)), "same network")


@U.unit(each=["fwsm", "ios"])
def nonsense(h, d):
    """text that is no configuration is refused by the autodetection"""
    w = h.chars("w", 3, "xqz<{")
    ok, c = parse(h, "auto", cat(w, " ", h.choice("rest", ["foo", "access-list foo extended permit ip any any", ""])))
    h.check(not ok and isinstance(c, ValueError), "refused", got=c)


# -- blocks that are ignored ------------------------------------------------------------------
IGN = {
    "fwsm": "aaa-server aaa app-agent arp-inspection arp asdm auth-prompt boot call-home class-map clock console command-alias crypto dhcpd dhcprelay "
            "dns-guard dns dynamic-access-policy-record enable eou established failover firewall flow-export fragment ftp global group-policy hpm http "
            "icmp ipv6 ip license ldap logging mac-address-table mac-address management-access monitor-interface mtu multicast-routing nac-policy "
            "nat-control no ntp pager passwd password-policy policy-map privilege prompt resource router route same-security-traffic service-module "
            "service-policy service sla snmp-map snmp-server smtp-server ssh ssl static sysopt tcp-map telnet terminal tftp-server threat-detection "
            "timeout tls-proxy tunnel-group-map tunnel-group user-identity username url-cache virtual vpdn vpn-group-policy vpn webvpn xlate-bypass xlate".split(),
    "ios": "aaa alias appfw archive arp boot bridge call-home class-map clock control-plane crypto cts diagnostic dialer-list dial-peer dot11 enable "
           "encryption errdisable file firewall hw-module isdn key license lldp logging login mac-address-table mac-address memory mls mmi multilink no "
           "platform policy-map port-channel power redundancy resource rmon route-map router rtr security switch service snmp-server snmp spanning-tree "
           "system transceiver username vlan vpdn vrf vtp wism".split()
           + ["ip " + x for x in "cef as-path inspect domain name-server http nat subnet-zero dhcp~excluded-address dhcp~pool tcp scp ssh classless "
              "forward-protocol ips flow-cache flow-export vrf multicast-routing accounting-threshold host ftp default-gateway sla slb flow-aggregation "
              "flow-top-talkers prefix-list pim routing tftp".replace("~", "_").split()]
           + ["ipv6 unicast-routing", "ipv6 nd", "ipv6 route", "ipv6 prefix-list", "Current configuration", "version", "hostname"],
}
SUBS = {"none": "", "entry": " permit ip any any\n", "two": " remark deny\n deny ip any any\n", "nested": " class x\n  permit ip any any\n"}


def entry(d, n, t):
    return cat("access-list ", n, " extended permit ip host ", t, " any\n") if d == "fwsm" else cat("ip access-list extended ", n, "\n permit ip host ", t, " any\n")


def between(h, d, text, must=False):
    """text stands between two lists: refused, or both are there and nothing else"""
    a, t = ip(h, "a")
    text = cat(entry(d, "one", t), text, entry(d, "two", t))
    ok, c = parse(h, d, text)
    if must:
        h.check(ok, "accepted", text=text)
    if not ok:
        return
    h.check([r.id for r in c.rules.rules] == ["one", "two"], "refused, or both lists and nothing else", text=text, got=[r.id for r in c.rules.rules])
    for r in c.rules.rules:
        check_host(h, r.src.host, a)
        h.check(not r.remark and not r.options, "no remark, no option", got=r)


@U.unit(each=[(d, k) for d in IGN for k in IGN[d]])
def ignored(h, v):
    d, k = v
    for n, s in enumerate(SUBS.values()):
        between_n = cat(k.replace("_", " "), " ", h.chars(f"x{n}", 1, "aZ1(|!^"), " permit\n", s)
        a, t = ip(h, f"a{n}")
        text = cat(entry(d, "one", t), between_n, entry(d, "two", t))
        ok, c = parse(h, d, text)
        if not ok:
            continue
        h.check([r.id for r in c.rules.rules] == ["one", "two"], "refused, or both lists and nothing else", text=text, got=[r.id for r in c.rules.rules])
        for r in c.rules.rules:
            check_host(h, r.src.host, a)
            h.check(not r.remark and not r.options, "no remark, no option", got=r)


@U.unit(each=[(d, x) for d in ("^C", "sym") for x in ("", "\n", "\nip access-list extended mid\n permit ip any any\n", "\n!\nend\n", "\naccess-list 10 permit any\n")])
def banner(h, v):
    """the text of a banner is no configuration, and the configuration after it is read"""
    d, x = v
    m = h.chars("m", 1, "abC^# ")
    dl = "^C"
    if d == "sym":
        dl = h.chars("d", 1, "@#%*~|")
        h.assume(h.Not(m == dl))
    if d == "^C":
        between(h, "ios", cat("banner motd ", dl, "a", h.choice("m2", ["a", "b ", "#", ""]), x, dl, "\n"), must=True)
    else:
        between(h, "ios", cat("banner motd ", dl, "b", m, x, dl, "\n"), must=True)


@U.unit(each=["permit ip any host @", "deny tcp host @ any eq 80"])
def asa_ipv6_list(h, entry):
    """the IPv6 access lists of an ASA before 9.0: listed, or refused"""
    a, t = ip(h, "a")
    b = h.int("b", 0, M6)
    x, y = entry.split("@")
    ok, c = parse(h, "fwsm", cat("access-list one extended permit ip host ", t, " any\nipv6 access-list six ", x, h.a6(b), y, "\n"))
    if ok:
        h.check(len(c.rules.rules) == 2, "an ASA ipv6 access-list entry is listed or refused", got=[r.id for r in c.rules.rules])


REPEAT = {"ext": ("fwsm", "", "access-list l extended permit ip host @ any\n"), "std": ("fwsm", "", "access-list l standard permit host @\n"),
          "web": ("fwsm", "", "access-list l webtype permit tcp host @ eq 80\n"),
          "ios ext": ("ios", "ip access-list extended l\n", " permit ip host @ any\n"), "ios std": ("ios", "ip access-list standard l\n", " permit host @\n"),
          "ios num": ("ios", "", "access-list 101 permit ip host @ any\n"), "ios nstd": ("ios", "", "access-list 10 permit host @\n"),
          "ios v6": ("ios", "ipv6 access-list l\n", " sequence 10 permit ip host @ any\n")}
REMARK = {"ext": "access-list l remark same\n", "ios ext": " remark same\n", "ios std": " remark same\n", "ios num": "access-list 101 remark same\n"}


@U.unit(each=list(REPEAT))
def repeated(h, k):
    """an entry written again is there again"""
    d, head, e = REPEAT[k]
    x, y = e.split("@")
    a, b = h.int("a", 0, M4), h.int("b", 0, M4)
    form = h.a6 if "v6" in k else h.a4
    rm = REMARK.get(k, "") if h.choice("remark", [True, False]) else ""
    es = [a, a, b, a] if h.choice("places", ["apart", "together"]) == "apart" else [b, a, a]
    fixed = h.choice("fixed", [False, True])     # the same address, known beforehand
    text = head
    for i, v in enumerate(es):
        text = cat(text, rm, x, form(0x0A000001 if fixed else v), y)
    c = parsed(h, d, text)
    if c is None:
        return
    rs = c.rules.rules
    h.check(len(rs) == len(es), "as many rules as entries", got=len(rs), text=text)
    for r, v in zip(rs, es):
        n = r.dst.host if k == "web" else r.src.host
        check_host(h, n, 0x0A000001 if fixed else v)
        h.check(list(r.remark or []) == (["same"] if rm else []), "its remark", got=r.remark)

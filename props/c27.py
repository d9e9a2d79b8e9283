"""Names of services, ICMP messages and protocols are exactly the documented ones and mean their documented numbers."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("all 85 rows of the service table; all 76 service, 55 ICMP message and 22 protocol names at 11, 6 and 5 places of the dialects; each name also with one character more and with one character (quick: the first "
          "or the last, thorough: any) replaced by a symbolic one; looked up names of up to 4 symbolic characters; protocol arguments in any case")
TABLE = ("aol=5190/TCP bgp=179/TCP biff=512/UDP bootpc=68/UDP bootps=67/UDP chargen=19/TCP citrix-ica=1494/TCP cmd=514/TCP ctiqbe=2748/TCP daytime=13/TCP discard=9/TCP,UDP domain=53/TCP,UDP "
         "dnsix=195/UDP echo=7/TCP,UDP exec=512/TCP finger=79/TCP ftp=21/TCP ftp-data=20/TCP gopher=70/TCP https=443/TCP h323=1720/TCP hostname=101/TCP ident=113/TCP imap4=143/TCP irc=194/TCP "
         "isakmp=500/UDP kerberos=750/TCP,UDP klogin=543/TCP kshell=544/TCP ldap=389/TCP ldaps=636/TCP lpd=515/TCP login=513/TCP lotusnotes=1352/TCP mobile-ip=434/UDP nameserver=42/UDP "
         "netbios-ns=137/UDP netbios-dgm=138/UDP netbios-ssn=139/TCP nntp=119/TCP ntp=123/UDP pcanywhere-status=5632/UDP pcanywhere-data=5631/TCP pim-auto-rp=496/TCP,UDP pop2=109/TCP pop3=110/TCP "
         "pptp=1723/TCP radius=1645/UDP radius-acct=1646/UDP rip=520/UDP secureid-udp=5510/UDP smtp=25/TCP snmp=161/UDP snmptrap=162/UDP sqlnet=1521/TCP ssh=22/TCP sunrpc=111/TCP,UDP syslog=514/UDP "
         "tacacs=49/TCP,UDP talk=517/TCP,UDP telnet=23/TCP tftp=69/UDP time=37/UDP uucp=540/TCP who=513/UDP whois=43/TCP www=80/TCP xdmcp=177/UDP echo=8/ICMP echo-reply=0/ICMP "
         "information-reply=16/ICMP information-request=15/ICMP mask-reply=18/ICMP mask-request=17/ICMP mobile-redirect=32/ICMP parameter-problem=12/ICMP redirect=5/ICMP router-advertisement=9/ICMP "
         "router-solicitation=10/ICMP source-quench=4/ICMP time-exceeded=11/ICMP timestamp-reply=14/ICMP timestamp-request=13/ICMP unreachable=3/ICMP traceroute=30/ICMP").split()
ROWS = [(r.split("=")[0], p, int(r.split("=")[1].split("/")[0])) for r in TABLE for p in r.split("/")[1].split(",")]
PORTS = ("xdmcp www whois who uucp time tftp telnet talk tacacs syslog sunrpc ssh sqlnet snmptrap snmp smtp sip secureid-udp rtsp rsh rpc rip radius-acct radius pptp pop3 pop2 pim-auto-rp "
         "pcanywhere-status pcanywhere-data ntp non500-isakmp nntp nfs netbios-ssn netbios-ss netbios-ns netbios-dgm nameserver mobile-ip lpd lotusnotes login ldaps ldap kshell klogin kerberos isakmp "
         "irc imap4 ident https http hostname h323 gopher ftp-data ftp finger exec echo domain dnsix discard daytime ctiqbe cmd citrix-ica chargen bootps bootpc biff bgp aol").split()
ICMPS = ("unreachable ttl-exceeded traceroute timestamp-request timestamp-reply time-exceeded source-route-failed source-quench router-solicitation router-renumbering router-advertisement redirect "
         "reassembly-timeout protocol-unreachable precedence-unreachable port-unreachable parameter-problem packet-too-big option-missing no-room-for-option network-unknown net-unreachable "
         "net-tos-unreachable net-tos-redirect net-redirect neighbor-solicitation neighbor-redirect neighbor-advertisement mobile-redirect membership-report membership-reduction membership-query "
         "mask-request mask-reply information-request information-reply host-unreachable host-unknown host-tos-unreachable host-tos-redirect host-redirect host-precedence-unreachable host-isolated "
         "general-parameter-problem echo-request echo-reply echo dod-net-prohibited dod-host-prohibited destination-unreachable conversion-error alternate-address administratively-prohibited "
         "address-mask-request address-mask-reply").split()
PROTOCOLS = "udp tcp snp pptp pim pcp ospf nos ipsec ipinip ip ipv6 igrp igmp icmp6 icmpv6 icmp gre esp eigrp ahp ah".split()
SIGN = "abcdefghijklmnopqrstuvwxyz0123456789-"


# -- the table -----------------------------------------------------------------------------
def meaning(h, name, proto):
    """(documented or not, number) as terms"""
    known, v = False, -1
    for n, p, x in reversed(ROWS):
        if proto is None or proto.upper() == p:
            m = name == n
            known, v = h.Or(known, m), h.Ite(m, x, v)
    return known, v


def lookup(h, name, proto):
    got = h.mods.ob.PortUtil.getservbyname(name, proto)
    known, v = meaning(h, name, proto)
    if got is None:
        h.check(h.Not(known), "only names that are not documented have no number", name=name, proto=proto)
    else:
        h.check(h.And(known, got == v), "the documented number", name=name, proto=proto, got=got)


ARGS = [None, "tcp", "udp", "icmp", "TCP", "Udp", "sctp", "tc", "", "ICMP "]


def near(h, w, where):
    """the name, one character longer, or with one character replaced"""
    if where == "same":
        return w
    c = h.chars("c", 1, SIGN)
    if where == "more":
        return cat(w, c)
    if where == "less":
        return w[:-1]
    i = {"first": 0, "last": len(w) - 1}.get(where, where)
    return cat(w[:i], c, w[i + 1:])


NAMES = list(dict.fromkeys(r[0] for r in ROWS))


@U.unit(each=NAMES)
def documented(h, n):
    """every name of the table, and the ones next to it, with every protocol"""
    lookup(h, near(h, n, h.choice("where", ["same", "more", "less", "first", "last"])), h.choice("proto", ARGS))


@U.unit(each=[(k, a) for k in (1, 2, 3, 4) for a in range(len(ARGS))])
def undocumented(h, v):
    lookup(h, h.chars("n", v[0], SIGN), ARGS[v[1]])


@U.unit()
def listing(h):
    """the list of services holds every row once, and nothing else"""
    l = [(s.name, s.protocol, s.port) for s in h.mods.ob.PortUtil.services()]
    h.check(sorted(l) == sorted(ROWS), "the rows of the table", got=l)


# -- names in configurations ---------------------------------------------------------------
def first(c):
    return c.rules.rules[0]


PORTAT = {
    "asa source": ("fwsm", "access-list a extended permit tcp any eq @ any\n", lambda c: first(c).src.port.num),
    "asa destination": ("fwsm", "access-list a extended permit udp any any neq @\n", lambda c: first(c).dst.port.num),
    "asa range": ("fwsm", "access-list a extended permit tcp any any range 1 @ log\n", lambda c: first(c).dst.port.stop),
    "asa port group": ("fwsm", "object-group service g tcp-udp\n port-object eq @\n", lambda c: c.groups.port["g"].objects[0].num),
    "asa port group range": ("fwsm", "object-group service g tcp\n port-object range @ 65535\n", lambda c: c.groups.port["g"].objects[0].start),
    "asa service group": ("fwsm", "object-group service g\n service-object tcp destination eq @\n", lambda c: c.groups.service["g"].objects[0].dst.num),
    "asa service object": ("fwsm", "object service o\n service udp source lt @\n", lambda c: c.objects.service["o"].src.num),
    "asa webtype": ("fwsm", "access-list a webtype permit tcp any eq @\n", lambda c: first(c).dst.port.num),
    "ios named": ("ios", "ip access-list extended a\n permit tcp any eq @ any\n", lambda c: first(c).src.port.num),
    "ios numbered": ("ios", "access-list 101 permit udp any any eq @\n", lambda c: first(c).dst.port.num),
    "ios ipv6": ("ios", "ipv6 access-list a\n sequence 1 permit tcp any any eq @\n", lambda c: first(c).dst.port.num),
}
ICMPAT = {
    "asa entry": ("fwsm", "access-list a extended permit icmp any any @\n", lambda c: first(c).icmp.type),
    "asa group": ("fwsm", "object-group icmp-type g\n icmp-object @\n", lambda c: c.groups.icmp["g"].objects[0].type),
    "asa service group": ("fwsm", "object-group service g\n service-object icmp @\n", lambda c: c.groups.service["g"].objects[0].icmp_type),
    "ios named": ("ios", "ip access-list extended a\n permit icmp any any @\n", lambda c: first(c).icmp.type),
    "ios numbered": ("ios", "access-list 101 deny icmp any any @\n", lambda c: first(c).icmp.type),
    "ios service group": ("ios", "object-group service g\n icmp @\n", lambda c: c.groups.service["g"].objects[0].icmp_type),
}
PROTOAT = {
    "asa entry": ("fwsm", "access-list a extended permit @ any any\n", lambda c: first(c).protocol.name),
    "asa group": ("fwsm", "object-group protocol g\n protocol-object @\n", lambda c: c.groups.protocol["g"].objects[0].name),
    "ios named": ("ios", "ip access-list extended a\n permit @ any any\n", lambda c: first(c).protocol.name),
    "ios numbered": ("ios", "access-list 101 permit @ any any\n", lambda c: first(c).protocol.name),
    "ios ipv6": ("ios", "ipv6 access-list a\n sequence 1 permit @ any any\n", lambda c: first(c).protocol.name),
}
KIND = {"port": (PORTAT, PORTS), "icmp": (ICMPAT, ICMPS), "protocol": (PROTOAT, PROTOCOLS)}


def at(h, kind, place, name):
    d, t, get = KIND[kind][0][place]
    a, b = t.split("@")
    t = cat(a, name, b)
    ok, c = parse(h, d, t)
    h.check(h.Iff(ok, h.Or(*[name == x for x in KIND[kind][1]])), "accepted exactly if it is a known name", text=t, got=c)
    if ok:
        h.check(get(c) == name, "kept as that name", text=t, got=get(c))


@U.unit(each=[(k, p) for k in KIND for p in KIND[k][0]])
def known(h, v):
    at(h, v[0], v[1], h.choice("name", KIND[v[0]][1]))


@U.unit(each=[(k, n) for k in KIND for n in KIND[k][1]])
def nearly(h, v):
    """a name that is almost a known one"""
    k, n = v
    at(h, k, h.choice("place", list(KIND[k][0])), near(h, n, h.choice("where", ["more", "less", "last"])))


@U.unit(each=[(k, n) for k in KIND for n in KIND[k][1]], tiers=("thorough",))
def anywhere(h, v):
    k, n = v
    at(h, k, h.choice("place", list(KIND[k][0])), near(h, n, h.choice("where", range(len(n)))))

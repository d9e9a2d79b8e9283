"""A number is accepted exactly when it is in its documented range; a bad one is refused, not clipped or dropped."""
from .common import *

U = Units()
unit_fn = U.fn
BOUNDS = ("one number (or one pair of numbers) out of range per configuration, every documented position; numbers from 0 to 9999999999 "
          "(thorough: 10^15), symbolic; ASA/FWSM, IOS and the dialect autodetection")
BIG = 9999999999


def decide(h, kind, text, valid, label):
    """accepted exactly if valid"""
    ok, c = parse(h, kind, text)
    h.check(h.Iff(ok, valid), label, text=text, error=None if ok else repr(c)[:200])
    return c if ok else None


ASA = {
    "src eq": (65535, lambda t: cat("access-list foo extended permit tcp any eq ", t, " any\n")),
    "dst eq": (65535, lambda t: cat("access-list foo extended permit udp any any eq ", t, "\n")),
    "dst gt log": (65535, lambda t: cat("access-list foo extended deny tcp any host 1.2.3.4 gt ", t, " log\n")),
    "neq": (65535, lambda t: cat("access-list foo extended deny tcp any any neq ", t, " inactive\n")),
    "lt": (65535, lambda t: cat("access-list foo extended deny tcp any lt ", t, " any\n")),
    "protocol": (255, lambda t: cat("access-list foo extended permit ", t, " any any\n")),
    "icmp type": (255, lambda t: cat("access-list foo extended permit icmp any any ", t, "\n")),
    "icmp code": (255, lambda t: cat("access-list foo extended permit icmp any any 3 ", t, "\n")),
    "icmp6 type": (255, lambda t: cat("access-list foo extended permit icmp6 any6 any6 ", t, " log\n")),
    "port-object": (65535, lambda t: cat("object-group service g tcp\n port-object eq ", t, "\n")),
    "service source": (65535, lambda t: cat("object service s\n service tcp source eq ", t, "\n")),
    "service destination": (65535, lambda t: cat("object service s\n service udp destination gt ", t, "\n")),
    "service-object": (65535, lambda t: cat("object-group service g\n service-object tcp destination eq ", t, "\n")),
    "service protocol": (255, lambda t: cat("object service s\n service ", t, "\n")),
    "service-object protocol": (255, lambda t: cat("object-group service g\n service-object ", t, "\n")),
    "service icmp type": (255, lambda t: cat("object service s\n service icmp ", t, "\n")),
    "service icmp code": (255, lambda t: cat("object-group service g\n service-object icmp 3 ", t, "\n")),
    "icmp-object": (255, lambda t: cat("object-group icmp-type g\n icmp-object ", t, "\n")),
    "protocol-object": (255, lambda t: cat("object-group protocol g\n protocol-object ", t, "\n")),
    "protocol-object last": (255, lambda t: cat("object-group protocol g\n protocol-object tcp\n protocol-object ", t, "\naccess-list a extended permit object-group g any any\n")),
    "prefix src": (128, lambda t: cat("access-list foo extended permit ip 2001:db8::/", t, " any\n")),
    "prefix dst": (128, lambda t: cat("access-list foo extended permit ip any 2001:db8::/", t, "\n")),
    "prefix group": (128, lambda t: cat("object-group network g\n network-object 2001:db8::/", t, "\n")),
    "prefix object": (128, lambda t: cat("object network o\n subnet 2001:db8::/", t, "\n")),
    "interface prefix": (128, lambda t: cat("interface Vlan1\n nameif a\n ipv6 address 2001:db8::1/", t, "\n")),
    "webtype": (65535, lambda t: cat("access-list foo webtype permit tcp any eq ", t, "\n")),
    "nat real port": (65535, lambda t: cat(NATPRE, "object network o\n host 1.2.3.4\n nat (a,b) static 9.9.9.9 service tcp ", t, " 80\n")),
    "nat mapped port": (65535, lambda t: cat(NATPRE, "object network o\n host 1.2.3.4\n nat (a,b) static 9.9.9.9 service tcp 80 ", t, "\n")),
}
NATPRE = "interface E0\n nameif a\ninterface E1\n nameif b\n"
IOS = {
    "src eq": (65535, lambda t: cat("ip access-list extended foo\n permit tcp any eq ", t, " any\n")),
    "dst eq": (65535, lambda t: cat("ip access-list extended foo\n permit udp any any eq ", t, "\n")),
    "dst gt log": (65535, lambda t: cat("ip access-list extended foo\n deny tcp any host 1.2.3.4 gt ", t, " log\n")),
    "numbered": (65535, lambda t: cat("access-list 101 permit tcp any any eq ", t, "\n")),
    "numbered src": (65535, lambda t: cat("access-list 2101 permit tcp any neq ", t, " any\n")),
    "protocol": (255, lambda t: cat("ip access-list extended foo\n permit ", t, " any any\n")),
    "numbered protocol": (255, lambda t: cat("access-list 150 permit ", t, " any any\n")),
    "icmp type": (255, lambda t: cat("ip access-list extended foo\n permit icmp any any ", t, "\n")),
    "icmp code": (255, lambda t: cat("ip access-list extended foo\n permit icmp any any 3 ", t, "\n")),
    "numbered icmp": (255, lambda t: cat("access-list 101 permit icmp any any ", t, "\n")),
    "v6 port": (65535, lambda t: cat("ipv6 access-list foo\n sequence 10 permit tcp any any eq ", t, "\n")),
    "v6 protocol": (255, lambda t: cat("ipv6 access-list foo\n sequence 10 permit ", t, " any any\n")),
    "v6 prefix": (128, lambda t: cat("ipv6 access-list foo\n sequence 10 permit ip 2001:db8::/", t, " any\n")),
    "interface prefix": (128, lambda t: cat("interface Vlan1\n ipv6 address 2001:db8::1/", t, "\n")),
    "group prefix": (128, lambda t: cat("object-group network g\n 2001:db8::/", t, "\n")),
    "group protocol": (255, lambda t: cat("object-group service g\n ", t, "\n")),
    "group port": (65535, lambda t: cat("object-group service g\n tcp source eq ", t, "\n")),
    "interface prefix": (128, lambda t: cat("interface E0\n ipv6 address 2001:db8::1/", t, "\n")),
}


@U.unit(each=sorted(ASA))
def asa(h, k):
    hi, f = ASA[k]
    n = h.int("n", 0, BIG)
    decide(h, "fwsm", f(h.dec(n)), n <= hi, "accepted exactly if in range")


@U.unit(each=sorted(IOS))
def ios(h, k):
    hi, f = IOS[k]
    n = h.int("n", 0, BIG)
    decide(h, "ios", f(h.dec(n)), n <= hi, "accepted exactly if in range")


@U.unit(each=sorted(ASA), tiers=("thorough",))
def asa_big(h, k):
    hi, f = ASA[k]
    n = h.int("n", 0, 10 ** 15)
    decide(h, "fwsm", f(h.dec(n)), n <= hi, "accepted exactly if in range")


@U.unit(each=sorted(IOS), tiers=("thorough",))
def ios_big(h, k):
    hi, f = IOS[k]
    n = h.int("n", 0, 10 ** 15)
    decide(h, "ios", f(h.dec(n)), n <= hi, "accepted exactly if in range")


@U.unit(each=["asa port", "asa protocol", "asa icmp", "asa group", "ios port", "ios protocol"])
def autodetect(h, k):
    hi, f = (ASA if k.startswith("asa") else IOS)[{"asa port": "dst eq", "asa protocol": "protocol", "asa icmp": "icmp type",
                                                   "asa group": "port-object", "ios port": "dst eq", "ios protocol": "protocol"}[k]]
    n = h.int("n", 0, BIG)
    decide(h, "auto", f(h.dec(n)), n <= hi, "accepted exactly if in range")


RANGE = {
    "asa src": ("fwsm", lambda a, b: cat("access-list foo extended permit tcp any range ", a, " ", b, " any\n")),
    "asa dst": ("fwsm", lambda a, b: cat("access-list foo extended permit tcp any any range ", a, " ", b, "\n")),
    "port-object": ("fwsm", lambda a, b: cat("object-group service g tcp\n port-object range ", a, " ", b, "\n")),
    "service source": ("fwsm", lambda a, b: cat("object service s\n service tcp source range ", a, " ", b, "\n")),
    "service-object": ("fwsm", lambda a, b: cat("object-group service g\n service-object tcp destination range ", a, " ", b, "\n")),
    "webtype": ("fwsm", lambda a, b: cat("access-list foo webtype permit tcp any range ", a, " ", b, "\n")),
    "ios src": ("ios", lambda a, b: cat("ip access-list extended foo\n permit tcp any range ", a, " ", b, " any\n")),
    "ios dst": ("ios", lambda a, b: cat("ip access-list extended foo\n permit tcp any any range ", a, " ", b, "\n")),
    "ios numbered": ("ios", lambda a, b: cat("access-list 101 permit tcp any range ", a, " ", b, " any\n")),
    "ios v6": ("ios", lambda a, b: cat("ipv6 access-list foo\n sequence 10 permit tcp any any range ", a, " ", b, "\n")),
    "auto": ("auto", lambda a, b: cat("access-list foo extended permit tcp any any range ", a, " ", b, "\n")),
}


@U.unit(each=sorted(RANGE))
def port_range(h, k):
    """the ends of a range in range, and the last greater than the first"""
    kind, f = RANGE[k]
    a, b = h.int("a", 0, BIG), h.int("b", 0, BIG)
    decide(h, kind, f(h.dec(a), h.dec(b)), h.And(a <= 65535, b <= 65535, a < b), "accepted exactly if a proper range")


@U.unit(each=[4, 6])
def address_range(h, fam):
    """the last address of an object's range is not below the first"""
    a = h.int("a", 0, a_max(fam))
    up = h.choice("up", [True, False])
    d = h.int("d", 0 if up else 1, 3)
    h.assume(h.And(a + d <= a_max(fam), d <= a) if fam else True)
    b = a + d if up else a - d
    decide(h, "fwsm", cat("object network o\n range ", addr(h, a, fam), " ", addr(h, b, fam), "\n"), up, "accepted exactly if ascending")


MASKED = {
    "asa src": ("fwsm", lambda n, m: cat("access-list foo extended permit ip ", n, " ", m, " any\n")),
    "asa dst": ("fwsm", lambda n, m: cat("access-list foo extended permit ip any ", n, " ", m, "\n")),
    "asa standard": ("fwsm", lambda n, m: cat("access-list foo standard permit ", n, " ", m, "\n")),
    "network-object": ("fwsm", lambda n, m: cat("object-group network g\n network-object ", n, " ", m, "\n")),
    "subnet": ("fwsm", lambda n, m: cat("object network o\n subnet ", n, " ", m, "\n")),
    "ios group": ("ios", lambda n, m: cat("object-group network g\n ", n, " ", m, "\n")),
    "ios interface": ("ios", lambda n, m: cat("interface E0\n ip address ", n, " ", m, "\n")),
    "asa interface": ("fwsm", lambda n, m: cat("interface E0\n ip address ", n, " ", m, "\n")),
}


@U.unit(each=sorted(MASKED))
def netmask(h, k):
    """a netmask with a hole is refused"""
    kind, f = MASKED[k]
    a = h.int("a", 0, M4)
    # one run of ones in the middle: 2^i .. 2^j
    m = h.int("m", 1, M4 - 1)
    low = m & ((m ^ M4) + 1)            # lowest one
    h.assume(h.And((m & 1) == 0, ((m + low) & M4) != 0))       # not contiguous from the top
    ok, c = parse(h, kind, f(h.a4(a), h.a4(m)))
    h.check(not ok, "refused", text=f(h.a4(a), h.a4(m)))

From f7a94e06f29052f29965e76225233f8b1280849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 01/33] fix: compare the ends of a port range as numbers, not
 as strings

---
 lib/acltk/aclObjects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..a7e542a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,9 +902,7 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            assert int(start) < int(stop), "last Port must be greater than first"
         except ValueError:
             pass
         self.start = start
-- 
2.43.0


From 1625c0566e6d672ad2ddd048ae3177e7e3c2687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 02/33] fix: PortUtil.getservbyname with a protocol called a
 method str does not have

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a7e542a..3c50229 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -850,7 +850,7 @@ class PortUtil:
     @classmethod
     def getservbyname(cls, name, proto=None):
         for s in cls.services():
-            if s.name == name and (proto is None or proto.toupper() == s.protocol):
+            if s.name == name and (proto is None or proto.upper() == s.protocol):
                 return int(s.port)
         return None
 
-- 
2.43.0


From 88a920cdea7fb0a66a76e30adc0d71a8e2b26520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 03/33] fix: resolve() added the unhashable list of access
 groups instead of its members

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 3c50229..a6895e1 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1305,7 +1305,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From b146cd9d88daa02ca3b0a69a24aa4f23de2ea70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 04/33] fix: register ASA/FWSM access-group statements with the
 configuration, so resolve() finds them

---
 lib/acltk/aclObjects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a6895e1..4a3df0e 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1238,6 +1238,7 @@ class ACLConfig:
                     if j.nameif == i.iface:
                         i.iface = j
                         j.access_groups[i.direction] = i
+                        self.access_groups[i.name].append(i)
                         break
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
-- 
2.43.0


From b834841574e79819a7be85884839a38fc71d2038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 05/33] fix: read the second address of an IOS access list
 entry as a wildcard, never as a netmask

---
 lib/acltk/iosSemantics.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..d638569 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -18,12 +18,24 @@ class iosSemantics(aclSemantics):
     def grammar(self, ast) -> ACLConfig:
         return iosConfig(ast)
 
+    @staticmethod
+    def _wildcard(address, wildcard, target=None) -> Union[Network, NetworkWildcard]:
+        # set bits are ignored - never a netmask, not even 0.0.0.0 or 255.255.255.255
+        bits = int(ipaddress.ip_address(wildcard))
+        if bits & (bits + 1) == 0:
+            return Network(address, 32 - bits.bit_length(), target=target)
+        return NetworkWildcard(address, wildcard)
+
+    def acl_host(self, ast):
+        # access-list <number> ... address wildcard
+        if ast.type == "network" and isinstance(ast.netmask, ipaddress.IPv4Address):
+            addr, target = self._resolve_addr(ast.address)
+            return self._wildcard(addr, ast.netmask, target)
+        return aclSemantics.acl_host(self, ast)
+
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            return self._wildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From 0f7809350953fbe79b6c992247c16bd7c55f3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 06/33] fix: overlap of two wildcard networks recursed
 endlessly, and wildcards matched IPv6 addresses

---
 lib/acltk/aclObjects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 4a3df0e..7c7b79d 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -474,11 +474,20 @@ class NetworkWildcard:
 
     def __and__(self, other):
         if isinstance(other, NetworkHost):
+            if self.address.version != other.address.version:
+                return False
             return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
         elif isinstance(other, Network):
+            if self.address.version != other.network.version:
+                return False
             return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
                 other.network.netmask
             ) & ~int(self.wildcard)
+        elif isinstance(other, NetworkWildcard):
+            wild = int(self.wildcard) | int(other.wildcard)
+            return self.address.version == other.address.version and (
+                int(self.address) & ~wild == int(other.address) & ~wild
+            )
         else:
             return other & self
 
-- 
2.43.0


From 54e465af830c54e601475e14269bbc1bea534fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 07/33] fix: a pfSense interface with a static address could
 not be parsed

---
 lib/acltk/pfsenseSemantics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..af7c2ce 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,9 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        tatsu.ast.AST(
+                            **{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]}
+                        )
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From 18a59a0e6fd48f26fb6b363948cdde6e1cb13d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 08/33] fix: pfSense rules on the network of an optional
 interface could not be parsed

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index af7c2ce..36f3ffc 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -289,7 +289,7 @@ class pfsenseParser(aclParser):
                             else:
                                 port = Port("eq", port)
                     elif n.tag == "network":
-                        address = n.text
+                        address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From 366c59c0443becb527fd825ea3dfba0dd74df52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 09/33] fix: map pfSense interfaces by their tag, a description
 could redirect the rules of another interface

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 36f3ffc..38b442f 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -111,7 +111,7 @@ class pfsenseParser(aclParser):
             ast.append(obj)
 
             self.interfaces[obj.alias] = obj
-            self.interface_map[obj.description] = obj.alias
+            self.interface_map[i.tag] = obj.alias
 
         return ast
 
-- 
2.43.0


From 91716ffe99f51f3a17c0e42a82b0950daa851c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 10/33] fix: NetworkGroup.collapse() refused hosts, changed the
 original on insitu=False, dropped any and failed on IPv4 with IPv6

---
 lib/acltk/aclObjects.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 7c7b79d..ac44772 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -618,29 +618,31 @@ class NetworkGroup(_Group):
         :return: collapsed NetworkGroup
         """
         # expansion required?
-        if any(filter(lambda o: not isinstance(o, (Network, NetworkObject)), self.objects)):
-            if insitu:
+        if insitu:
+            if any(isinstance(o, (NetworkGroup, NetworkObject)) for o in self.objects):
                 raise ValueError("expansion required")
-            obj = self.expand(insitu)
-        else:
             obj = self
+        else:
+            obj = self.expand(insitu)
         return obj._collapse()
 
     def _collapse(self):
-        # FIXME - remove NetworkAny
-        if any(filter(lambda o: isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)):
-            self.objects = list(
-                filter(lambda o: not isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)
-            )
+        # NetworkAny can not be collapsed, keep it
+        anys = [o for o in self.objects if isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6))]
 
         # NetworkGroup is assumed to be expanded, contains only Network and NetworkHost
         addresses = [
-            {Network: lambda x: x.network, NetworkHost: lambda x: x.address}[h.__class__](h) for h in self.objects
+            {Network: lambda x: x.network, NetworkHost: lambda x: x.address}[h.__class__](h)
+            for h in self.objects
+            if h not in anys
         ]
 
         self.objects.clear()
 
-        for h in ipaddress.collapse_addresses(addresses):
+        # IPv4 and IPv6 can not be collapsed in one go
+        for h in itertools.chain.from_iterable(
+            ipaddress.collapse_addresses(a for a in addresses if a.version == version) for version in (4, 6)
+        ):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
@@ -648,6 +650,7 @@ class NetworkGroup(_Group):
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
+        self.objects.extend(anys)
         return self
 
     @staticmethod
-- 
2.43.0


From 51ab6db070e0627ae5138fa92804d2bf3c164a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 11/33] fix: sort(insitu=False) called a collapse() most groups
 do not have

---
 lib/acltk/aclObjects.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index ac44772..417f56b 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -312,9 +312,9 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ProtocolGroup.key_of)
 
         return obj
 
@@ -672,9 +672,9 @@ class NetworkGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
+        obj.objects = sorted(obj.objects, key=NetworkGroup.key_of)
 
         return obj
 
@@ -745,9 +745,9 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ServiceGroup.key_of)
         return obj
 
     def expand(self, insitu=True):
-- 
2.43.0


From f21dd2f1f4a75d45cfbf673f520357e2e4d8ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 12/33] fix: a filter set lost its id, or failed to parse, when
 it was combined with a parenthesised expression

---
 lib/acltk/cafSemantics.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/cafSemantics.py b/lib/acltk/cafSemantics.py
index 8218116..1ea2af9 100644
--- a/lib/acltk/cafSemantics.py
+++ b/lib/acltk/cafSemantics.py
@@ -89,11 +89,12 @@ class RealCafSemantics:
     def set(self, ast):
         objects = list(filter(lambda i: i is not None, ast.objects))
 
-        if len(objects) == 1 and isinstance(objects[0], cafBlock):
+        blocks = [i for i in objects if isinstance(i, cafBlock)]
+        if len(objects) == 1 and blocks and ast.id is None:
             return objects[0]
         ip = []
         for i in objects:
-            if "ip" in i:
+            if not isinstance(i, cafBlock) and "ip" in i:
                 ip.extend(i.ip)
 
         nodes = {"src": NetworkGroup("src", ""), "dst": NetworkGroup("dst", "")}
@@ -112,7 +113,15 @@ class RealCafSemantics:
                     nodes[k].add(i)
         #                raise ValueError("failed")
 
-        return ACLRule(id=ast.id, src=ACLNode(nodes["src"]), dst=ACLNode(nodes["dst"]))
+        rule = ACLRule(id=ast.id, src=ACLNode(nodes["src"]), dst=ACLNode(nodes["dst"]))
+        if not blocks:
+            return rule
+
+        # all the conditions of a set have to match
+        r = rule if ip or ast.id is not None else blocks.pop(0)
+        for i in blocks:
+            r = cafOpIntersect(r, i)
+        return cafBlock(r)
 
     def set_r(self, ast):
         if isinstance(ast, list) and len(ast) == 1 and ast[0] == None:
-- 
2.43.0


From c8e6e40478900bcdc3da4fc4ccfa7f5fbb124e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 13/33] fix: object NAT reported the real port as the mapped
 port

---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..3ec009e 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -458,8 +458,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -467,7 +467,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From fe7ae2f451cd8e656d2b107be34858295a95d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 14/33] fix: an extended access list entry ending in whitespace
 could not be parsed

---
 lib/acltk/aclSemantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 3ec009e..cfca959 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -358,6 +358,8 @@ class aclSemantics:
     def acl_options(self, ast):
         r = {}
         for i in ast:
+            if i is None:  # trailing whitespace
+                continue
             assert i.type is None or i.type in frozenset(
                 ["log", "time-range", "inactive"]
             ), f"option {i.type} is unknown"
-- 
2.43.0


From 2d5121c1bb281a8a5a014893f3665c2b0c25429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 15/33] fix: NetworkGroup.collapse() failed on IPv6 networks

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 417f56b..aa06994 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -646,7 +646,7 @@ class NetworkGroup(_Group):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
+                h_ = Network(h.network_address, h.prefixlen)
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
-- 
2.43.0


From 2cae854c27d237b4ba4a61f1a72d9ff7b5f114a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 16/33] fix: ASA interface addresses without a standby address
 were dropped

---
 lib/acltk/fwsm.bnf |  4 ++--
 lib/acltk/fwsm.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index f2206cf..3e25691 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -31,8 +31,8 @@ command
 interface_detail
 	= type:"description" WS value:TOEOL NL
 	| type:"nameif" WS value:identifier [WS] NL
-	| type:("ip" WS "address") WS value:(ip4 WS ip4) WS "standby" WS standby:ip4 [WS] NL
-	| type:("ipv6" WS "address") WS value:(ip6 "/" int) WS "standby" WS standby:ip6 [WS] NL
+	| type:("ip" WS "address") WS value:(ip4 WS ip4) [WS "standby" WS standby:ip4] [WS] NL
+	| type:("ipv6" WS "address") WS value:(ip6 "/" int) [WS "standby" WS standby:ip6] [WS] NL
 	| type:`None` ["no" WS] TOEOL NL
 	| type:`None` ()
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..7953002 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2690,11 +2690,13 @@ class fwsmParser(Parser):
                     self._WS_()
                     self._ip4_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip4_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip4_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
@@ -2711,11 +2713,13 @@ class fwsmParser(Parser):
                     self._token('/')
                     self._int_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip6_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip6_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
-- 
2.43.0


From 0fb305209ccc2e72d9d5c13309f9fe098ae2d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 17/33] fix: IOS static routes with a distance, name, tag or a
 next hop behind the interface were dropped

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..c0267a1 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -172,7 +172,7 @@ ip_command
 
 ip_route
 	= prefix:`None` "profile" NL
-	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) NL
+	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) [WS TOEOL] NL
 	;
 
 ip_access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..a531036 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3164,6 +3164,9 @@ class iosParser(Parser):
                             '<acl_interface_id> <ip4>'
                         )
                 self.name_last_node('gw')
+                with self._optional():
+                    self._WS_()
+                    self._TOEOL_()
                 self._NL_()
                 self._define(['gw', 'mask', 'prefix'], [])
             self._error(
-- 
2.43.0


From b784f6153095ce091557744ae3bb0b894e80e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 18/33] fix: network and service objects, and the NAT they
 carry, never reached the configuration

---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index cfca959..447556c 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -159,7 +159,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 5b9e326405b439a2f31ebd540096f74ea0f66ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 19/33] fix: object NAT in a block of its own did not refer to
 the object it translates

---
 lib/acltk/aclSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 447556c..9e07359 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,8 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            # the object may be defined in an earlier block, and this one adds the NAT
+            nat.real.src.node = groups[ast.name]
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From ce0344019b70504b491e1744ef8b10451e44d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 20/33] fix: port-object eq lost its port

---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7953002..a2dfd85 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index a531036..31df345 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From e49b699125e2447df555197bb3d101ddb4f7c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 21/33] fix: dynamic twice NAT swapped the real and the mapped
 destination service

---
 lib/acltk/fwsmSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index a984009..224661e 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -113,8 +113,9 @@ class fwsmSemantics(aclSemantics):
                     raise ValueError("unexpected")
                 # For identity port translation, simply use the same service object for both the real and mapped ports (source and / or destination ports, depending on your configuration).
             elif ast.src["mapped"].type == "dynamic":
-                real["service"] = ast.service[2]
-                mapped["service"] = ast.service[4]
+                # service mapped_dest_svc_obj real_dest_svc_obj
+                mapped["service"] = ast.service[2]
+                real["service"] = ast.service[4]
             else:
                 raise ValueError(ast.src["mapped"].type)
 
-- 
2.43.0


From a8509a18e3248dadda0aabd072eb9a25de827e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 22/33] fix: ip dhcp pool swallowed the access lists that
 follow it

The pool block took every following line without '(', '!' or '|', whether
indented or not; only the indented lines belong to the pool.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index c0267a1..d2afc35 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -412,7 +412,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 31df345..1c0a65c 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4494,11 +4494,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From c820ffa5b8eea0a69e69de1322f3ee93158767e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 23/33] fix: pfSense interfaces with an assigned address or
 without a description are no reason to refuse the configuration

---
 lib/acltk/pfsenseSemantics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 38b442f..75db70e 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -86,8 +86,9 @@ class pfsenseParser(aclParser):
             for d in list(i):
                 values[d.tag] = d.text
             values["name"] = i.tag
-            if "ipaddr" in values:
-                if values["ipaddr"] != "dhcp":
+            if values.get("ipaddr"):
+                # dhcp, pppoe, pptp, l2tp & ppp are assigned, there is no address to learn
+                if values["ipaddr"] not in ("dhcp", "pppoe", "pptp", "l2tp", "ppp"):
                     details = [
                         tatsu.ast.AST(
                             **{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]}
@@ -101,10 +102,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr", alias))
+                alias = html.parser.unescape(values.get("descr") or alias)
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr") or "")})
                 )
 
             obj = Interface(alias=alias, details=details)
-- 
2.43.0


From 23a5502ec97591499f2829449da4bf821d7b9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 24/33] fix: a pfSense rule without a description is no reason
 to refuse the configuration

---
 lib/acltk/pfsenseSemantics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 75db70e..1665ec2 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -243,6 +243,7 @@ class pfsenseParser(aclParser):
             "log": False,
             "statetype": "keep state",
             "floating": "no",
+            "descr": "",
         }
         valueable = [
             "tracker",
-- 
2.43.0


From 7b85bc88a733581c1d9fdca920f55d24b609c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 25/33] fix: keep the lines of a URL table which have host bits
 set

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 1665ec2..b08a8bc 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -164,7 +164,7 @@ class pfsenseParser(aclParser):
                                     pass
                             else:
                                 try:
-                                    addr = ipaddress.ip_network(line)
+                                    addr = ipaddress.ip_network(line, strict=False)
                                     g.add(Network(*line.split("/")))
                                     continue
                                 except:
-- 
2.43.0


From fac1582d7c3ede11073d45281b7c5e5a25ae590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 26/33] fix: periodic time ranges on several days; the day a
 period ends on is that day

---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 19 +++++++++++++++----
 lib/acltk/ios.py  | 19 +++++++++++++++----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 0407cb4..ed98f88 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -447,7 +447,7 @@ timedate
 	;
 
 time_range_object
-	= type:"periodic" WS days:{day_of_the_week}+ WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
+	= type:"periodic" WS days+:day_of_the_week {WS days+:day_of_the_week} WS start:time WS "to" WS [edays:day_of_the_week WS] end:time NL
 	| type:"periodic" WS days+:("weekdays"|"weekend"|"daily") WS start:time WS "to" WS end:time NL
 	| type:"absolute" [WS "start" WS start:timedate] [WS "end" WS end:timedate] NL
 	| type:"no" WS TOEOL NL
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index a2dfd85..2a5d07e 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1953,11 +1953,18 @@ class fwsmParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1966,12 +1973,16 @@ class fwsmParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 1c0a65c..94a0a5b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1978,11 +1978,18 @@ class iosParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1991,12 +1998,16 @@ class iosParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
-- 
2.43.0


From f38e76bb79044f7680c474eb239bced13782b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 27/33] fix: an IPv4 address ends where its text ends,
 1.2.3.4567.8.9.10 is not two of them

---
 lib/acltk/caf.py  |  5 +++--
 lib/acltk/fwsm.py |  6 +++---
 lib/acltk/ios.py  | 14 ++++++++------
 lib/acltk/ip.bnf  |  2 +-
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/caf.py b/lib/acltk/caf.py
index dd930d7..be23f2c 100644
--- a/lib/acltk/caf.py
+++ b/lib/acltk/caf.py
@@ -66,7 +66,7 @@ class cafParser(Parser):
 
     @tatsumasu()
     def _ip4_(self):
-        self._pattern('(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])')
+        self._pattern('(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])')
 
     @tatsumasu()
     def _ipX_(self):
@@ -211,7 +211,8 @@ class cafParser(Parser):
                 "'ANY' 'ANY4' 'ANY6' 'any' 'any4' 'any6' "
                 '(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-'
                 '9]){0,1}[0-9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9]) <ip4> <ip6>'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
+                '<ip4> <ip6>'
                 '[a-fA-F0-9]*:[a-fA-F0-9\\.\\:]+'
             )
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 2a5d07e..139df51 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -66,7 +66,7 @@ class fwsmParser(Parser):
 
     @tatsumasu()
     def _ip4_(self):
-        self._pattern('(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])')
+        self._pattern('(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])')
 
     @tatsumasu()
     def _ipX_(self):
@@ -634,7 +634,7 @@ class fwsmParser(Parser):
                 "'ip' 'object' 'object-group' (?:(?:25[0-"
                 '5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-'
                 '9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9])'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
                 '<acl_name_slash> <acl_name_ws>'
                 '<acl_names_id> <ip4> <ip6>'
                 '[a-fA-F0-9]*:[a-fA-F0-9\\.\\:]+'
@@ -1155,7 +1155,7 @@ class fwsmParser(Parser):
                 "'interface' 'pat-pool' (?:(?:25[0-"
                 '5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-'
                 '9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9])'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
                 '<acl_object_group_network>'
                 '<acl_object_group_network_id>'
                 '<acl_object_network>'
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 94a0a5b..9368879 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -66,7 +66,7 @@ class iosParser(Parser):
 
     @tatsumasu()
     def _ip4_(self):
-        self._pattern('(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])')
+        self._pattern('(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])')
 
     @tatsumasu()
     def _ipX_(self):
@@ -634,7 +634,7 @@ class iosParser(Parser):
                 "'ip' 'object' 'object-group' (?:(?:25[0-"
                 '5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-'
                 '9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9])'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
                 '<acl_name_slash> <acl_name_ws>'
                 '<acl_names_id> <ip4> <ip6>'
                 '[a-fA-F0-9]*:[a-fA-F0-9\\.\\:]+'
@@ -1155,7 +1155,7 @@ class iosParser(Parser):
                 "'interface' 'pat-pool' (?:(?:25[0-"
                 '5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-'
                 '9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9])'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
                 '<acl_object_group_network>'
                 '<acl_object_group_network_id>'
                 '<acl_object_network>'
@@ -1810,7 +1810,7 @@ class iosParser(Parser):
                 "'group-object' 'host' 'range' (?:(?:25[0"
                 '-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-'
                 '9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9])'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
                 '<acl_name_slash> <acl_name_ws>'
                 '<acl_names_id> <ip4> <ip6>'
                 '[a-fA-F0-9]*:[a-fA-F0-9\\.\\:]+'
@@ -3186,7 +3186,8 @@ class iosParser(Parser):
                 "'profile' (?:(?:25[0-5]|(?:2[0-"
                 '4]|1{0,1}[0-9]){0,1}[0-'
                 '9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9]) <ip4>'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
+                '<ip4>'
             )
 
     @tatsumasu()
@@ -3317,7 +3318,8 @@ class iosParser(Parser):
                 "'any' 'host' 'object-group' (?:(?:25[0-"
                 '5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-'
                 '9])\\.){3,3}(?:25[0-5]|(?:2[0-'
-                '4]|1{0,1}[0-9]){0,1}[0-9]) <ip4>'
+                '4]|1{0,1}[0-9]){0,1}[0-9])(?![\\w.:])'
+                '<ip4>'
             )
 
     @tatsumasu()
diff --git a/lib/acltk/ip.bnf b/lib/acltk/ip.bnf
index 09bee29..fb5b3b2 100644
--- a/lib/acltk/ip.bnf
+++ b/lib/acltk/ip.bnf
@@ -1,3 +1,3 @@
-ip4 = /(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])/;
+ip4 = /(?:(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(?:25[0-5]|(?:2[0-4]|1{0,1}[0-9]){0,1}[0-9])(?![\w.:])/;
 ipX = ?/\w+\.\w+\.\w+\.\w+/?;
 ip6 = ?/[a-fA-F0-9]*:[a-fA-F0-9\.\:]+/?;
-- 
2.43.0


From f1805073cad23d7891332a10317f353f945e2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 28/33] fix: a 'no' line in a time range is no reason to refuse
 the configuration

---
 lib/acltk/aclSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 9e07359..b10ebc7 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -122,7 +122,8 @@ class aclSemantics:
         t = TimeRange(ast.name)
         self._learn(ast.name, t)
         for i in ast.objects:
-            t.add(i)
+            if i is not None:
+                t.add(i)
         return t
 
     def object_type(self, ast):
-- 
2.43.0


From 1dcfbba0030e3ff1fa50e49614abb0f5768aa631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 29/33] fix: remarks and descriptions of text with CRLF line
 ends do not end in CR

---
 lib/acltk/acl.bnf  |  6 +++---
 lib/acltk/fwsm.bnf |  8 ++++----
 lib/acltk/fwsm.py  | 37 ++++++++++++++++++++-----------------
 lib/acltk/ios.bnf  |  2 +-
 lib/acltk/ios.py   | 25 +++++++++++++------------
 5 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index ed98f88..ddc89ec 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -1,5 +1,5 @@
 NL = ["\r"] "\n";
-TOEOL = ?/[^\n]*/?;
+TOEOL = ?/(?:[^\r\n]|\r(?!\n))*/?;
 SP = " ";
 WS = /[ \t]+/;
 
@@ -20,7 +20,7 @@ domain_name
 
 
 description
-	= "description" WS description:?/[^\n]+/? NL
+	= "description" WS description:?/(?:[^\r\n]|\r(?!\n))+/? NL
 	;
 
 
@@ -210,7 +210,7 @@ acl_icmp_node
 	;
 
 remark
-	= (?/[^\n]*/?)
+	= (?/(?:[^\r\n]|\r(?!\n))*/?)
 	;
 
 object
diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index 3e25691..a3548a7 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -7,8 +7,8 @@ grammar
 	;
 
 version
-	= version:?/ASA Version [^\n]*/? NL
-	| version:?/FWSM Version [^\n]*/? NL
+	= version:?/ASA Version (?:[^\r\n]|\r(?!\n))*/? NL
+	| version:?/FWSM Version (?:[^\r\n]|\r(?!\n))*/? NL
 	;
 
 command
@@ -39,7 +39,7 @@ interface_detail
 
 
 name
-	= "name" WS address:(ip4|ip6) WS hostname:identifier [WS "description" description:?/[^\n]+/?] NL
+	= "name" WS address:(ip4|ip6) WS hostname:identifier [WS "description" description:?/(?:[^\r\n]|\r(?!\n))+/?] NL
 	;
 
 access_list_rule_extended
@@ -217,7 +217,7 @@ nat_options
 	;
 
 ignored_indent
-	= {[NL] /^ [^\n]*/ NL}*
+	= {[NL] /^ (?:[^\r\n]|\r(?!\n))*/ NL}*
 	;
 
 ignored
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 139df51..a6e1681 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -84,7 +84,7 @@ class fwsmParser(Parser):
 
     @tatsumasu()
     def _TOEOL_(self):
-        self._pattern('[^\\n]*')
+        self._pattern('(?:[^\\r\\n]|\\r(?!\\n))*')
 
     @tatsumasu()
     def _SP_(self):
@@ -131,7 +131,7 @@ class fwsmParser(Parser):
     def _description_(self):
         self._token('description')
         self._WS_()
-        self._pattern('[^\\n]+')
+        self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
         self.name_last_node('description')
         self._NL_()
         self._define(['description'], [])
@@ -832,7 +832,7 @@ class fwsmParser(Parser):
     @tatsumasu()
     def _remark_(self):
         with self._group():
-            self._pattern('[^\\n]*')
+            self._pattern('(?:[^\\r\\n]|\\r(?!\\n))*')
 
     @tatsumasu()
     def _object_(self):
@@ -864,7 +864,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -886,7 +886,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1440,7 +1440,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1467,7 +1467,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1492,7 +1492,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1517,7 +1517,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1542,7 +1542,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -2581,18 +2581,19 @@ class fwsmParser(Parser):
     def _version_(self):
         with self._choice():
             with self._option():
-                self._pattern('ASA Version [^\\n]*')
+                self._pattern('ASA Version (?:[^\\r\\n]|\\r(?!\\n))*')
                 self.name_last_node('version')
                 self._NL_()
                 self._define(['version'], [])
             with self._option():
-                self._pattern('FWSM Version [^\\n]*')
+                self._pattern('FWSM Version (?:[^\\r\\n]|\\r(?!\\n))*')
                 self.name_last_node('version')
                 self._NL_()
                 self._define(['version'], [])
             self._error(
                 'expecting one of: '
-                'ASA Version [^\\n]* FWSM Version [^\\n]*'
+                'ASA Version (?:[^\\r\\n]|\\r(?!\\n))* FWSM'
+                'Version (?:[^\\r\\n]|\\r(?!\\n))*'
             )
 
     @tatsumasu()
@@ -2666,7 +2667,8 @@ class fwsmParser(Parser):
                 '<access_list> <access_list_remark>'
                 '<domain_name> <ignored> <object_group>'
                 '<time_range> <unmatched> <version> ASA'
-                'Version [^\\n]* FWSM Version [^\\n]*'
+                'Version (?:[^\\r\\n]|\\r(?!\\n))* FWSM'
+                'Version (?:[^\\r\\n]|\\r(?!\\n))*'
             )
 
     @tatsumasu()
@@ -2753,7 +2755,8 @@ class fwsmParser(Parser):
             self._error(
                 'expecting one of: '
                 "'\\n' '\\r' 'description' 'ip' 'ipv6'"
-                "'nameif' 'no' <NL> <TOEOL> [^\\n]*"
+                "'nameif' 'no' (?:[^\\r\\n]|\\r(?!\\n))* <NL>"
+                '<TOEOL>'
             )
 
     @tatsumasu()
@@ -2777,7 +2780,7 @@ class fwsmParser(Parser):
         with self._optional():
             self._WS_()
             self._token('description')
-            self._pattern('[^\\n]+')
+            self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
             self.name_last_node('description')
             self._define(['description'], [])
         self._NL_()
@@ -3657,7 +3660,7 @@ class fwsmParser(Parser):
         def block0():
             with self._optional():
                 self._NL_()
-            self._pattern('^ [^\\n]*')
+            self._pattern('^ (?:[^\\r\\n]|\\r(?!\\n))*')
             self._NL_()
         self._closure(block0)
 
diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index d2afc35..aaaf4f1 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -326,7 +326,7 @@ switchport_trunk_cmd
     ;
 
 ignored_indent
-	= {/^ [^\n]*/ NL}*
+	= {/^ (?:[^\r\n]|\r(?!\n))*/ NL}*
 	;
 
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 9368879..03bcc24 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -84,7 +84,7 @@ class iosParser(Parser):
 
     @tatsumasu()
     def _TOEOL_(self):
-        self._pattern('[^\\n]*')
+        self._pattern('(?:[^\\r\\n]|\\r(?!\\n))*')
 
     @tatsumasu()
     def _SP_(self):
@@ -131,7 +131,7 @@ class iosParser(Parser):
     def _description_(self):
         self._token('description')
         self._WS_()
-        self._pattern('[^\\n]+')
+        self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
         self.name_last_node('description')
         self._NL_()
         self._define(['description'], [])
@@ -832,7 +832,7 @@ class iosParser(Parser):
     @tatsumasu()
     def _remark_(self):
         with self._group():
-            self._pattern('[^\\n]*')
+            self._pattern('(?:[^\\r\\n]|\\r(?!\\n))*')
 
     @tatsumasu()
     def _object_(self):
@@ -864,7 +864,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -886,7 +886,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1440,7 +1440,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1467,7 +1467,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1492,7 +1492,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1517,7 +1517,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1542,7 +1542,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('(?:[^\\r\\n]|\\r(?!\\n))+')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -2796,7 +2796,8 @@ class iosParser(Parser):
             self._error(
                 'expecting one of: '
                 "'\\n' '\\r' 'description' 'ip' 'ipv6'"
-                "'switchport' <NL> <TOEOL> [^\\n]*"
+                "'switchport' (?:[^\\r\\n]|\\r(?!\\n))* <NL>"
+                '<TOEOL>'
             )
 
     @tatsumasu()
@@ -4135,7 +4136,7 @@ class iosParser(Parser):
     def _ignored_indent_(self):
 
         def block0():
-            self._pattern('^ [^\\n]*')
+            self._pattern('^ (?:[^\\r\\n]|\\r(?!\\n))*')
             self._NL_()
         self._closure(block0)
 
-- 
2.43.0


From d545effa205c9640a8a3b5630e5284aaabd000a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 30/33] fix: a protocol-object is a known protocol or a number
 up to 255

---
 lib/acltk/acl.bnf         |  2 +-
 lib/acltk/aclSemantics.py |  2 +-
 lib/acltk/fwsm.py         | 11 ++++++++++-
 lib/acltk/ios.py          | 11 ++++++++++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index ddc89ec..7cb593e 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -407,7 +407,7 @@ icmp_group_object
 
 
 protocol_group_object
-	= type:"protocol-object" WS name:obj_name NL
+	= type:"protocol-object" WS name:(protocol_code|protocol_int) NL
 	| type:"group-object" WS group:acl_object_group_protocol NL
 	| type:`None`
 	;
diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b10ebc7..08a188d 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -296,7 +296,7 @@ class aclSemantics:
     def protocol_group_object(self, ast):
         assert ast.type is not None, "object type is None"
         if ast.type == "protocol-object":
-            return Protocol(ast.name)
+            return ast.name
         elif ast.type == "group-object":
             return ast.group
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index a6e1681..e4928c5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1825,7 +1825,16 @@ class fwsmParser(Parser):
                 self._token('protocol-object')
                 self.name_last_node('type')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('name')
                 self._NL_()
                 self._define(['name', 'type'], [])
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 03bcc24..88ee66e 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1850,7 +1850,16 @@ class iosParser(Parser):
                 self._token('protocol-object')
                 self.name_last_node('type')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('name')
                 self._NL_()
                 self._define(['name', 'type'], [])
-- 
2.43.0


From 22cc173fadffac1bdeb8a090f7130a02d9c47a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:54 +0000
Subject: [PATCH 31/33] fix: a remark of one access list is not given to an
 entry of another

---
 lib/acltk/fwsm.bnf         | 2 +-
 lib/acltk/fwsm.py          | 3 ++-
 lib/acltk/fwsmSemantics.py | 3 +++
 lib/acltk/ios.bnf          | 2 +-
 lib/acltk/ios.py           | 3 ++-
 lib/acltk/iosSemantics.py  | 6 ++++++
 6 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index a3548a7..8c5775e 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -80,7 +80,7 @@ access_list
 
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' SP remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' SP remark:remark NL
 	;
 
 access_group
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index e4928c5..d678486 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -3326,13 +3326,14 @@ class fwsmParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._SP_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_group_(self):
diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index 224661e..5438152 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -35,6 +35,9 @@ class fwsmSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
+                if i.id != ast.id:
+                    # remark of another list
+                    continue
                 remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index aaaf4f1..18d18a4 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -265,7 +265,7 @@ access_list_ip_standard
 	;
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' WS remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' WS remark:remark NL
 	;
 
 access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 88ee66e..b83b0c6 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3807,13 +3807,14 @@ class iosParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._WS_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_list_(self):
diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index d638569..fa74e58 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -125,6 +125,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
+                if i.id != ast.id:
+                    # remark of another list
+                    continue
                 remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
@@ -149,6 +152,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
+                if i.id != ast.id:
+                    # remark of another list
+                    continue
                 remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
-- 
2.43.0


From 7d46a09677f91edec35609b9c475a334b2d0c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:34 +0000
Subject: [PATCH 32/33] fix: pfSense separators written before the rules keep
 their captions

---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index b08a8bc..ffaac08 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -193,7 +193,8 @@ class pfsenseParser(aclParser):
     def _parse_filter(self, root):
         ast = []
         now = datetime.datetime.now()
-        for i in list(root):
+        # the separators refer to the rules, wherever they stand
+        for i in sorted(root, key=lambda x: x.tag == "separator"):
             if i.tag == "rule":
                 rule = self._parse_filter__rule(i, now)
                 ast.append(rule)
-- 
2.43.0


From 6509ce9a091e8e7159d09087ab754626cd960360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:53 +0000
Subject: [PATCH 33/33] fix: pfSense separator rows count the rules of their
 interface only

---
 lib/acltk/pfsenseSemantics.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ffaac08..603db01 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -216,18 +216,15 @@ class pfsenseParser(aclParser):
                             ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
                         )
 
-                ifname = None
-                last = 0
-                sidx = 0
-                for idx, rule in enumerate(ast):
-                    if rule.id != ifname:
-                        last = idx
-                        ifname = rule.id
-                    sidx = idx - last
+                # the rows are counted per interface, even if the rules of other interfaces stand in between
+                rows = collections.Counter()
+                for rule in ast:
+                    sidx = rows[rule.id]
+                    rows[rule.id] += 1
 
-                    if ifname in separators:
-                        if sidx in separators[ifname]:
-                            ast[idx].head = separators[ifname][sidx]
+                    if rule.id in separators:
+                        if sidx in separators[rule.id]:
+                            rule.head = separators[rule.id][sidx]
             else:
                 raise ValueError(i.tag)
         return ast
-- 
2.43.0


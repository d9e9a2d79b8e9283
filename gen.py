"""Writes properties.jsonl and MANIFEST.json from PROPS and NA below."""
import json

SYM = "symbolic execution of the repository's Python source with z3 (path exploration, solver verdict per obligation)"
L = "lib/acltk/"
OBJ, SEM, FW, IOS, PF, CAFO = (L + x for x in ("aclObjects.py", "aclSemantics.py", "fwsmSemantics.py", "iosSemantics.py", "pfsenseSemantics.py",
                                              "cafObjects.py"))
CAF = L + "cafSemantics.py"
FWG, IOSG, CAFG, ACLG = (L + x for x in ("fwsm.bnf", "ios.bnf", "caf.bnf", "acl.bnf"))


def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note="", technique=SYM):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
                         "state": [{"name": s[0], "meaning": s[1]} for s in state], "observe_at": list(observe), "hook_needed": None},
                note=note, technique=technique)


PROPS = [
    P("C01", "Overlap is true exactly when two address sets share an address",
      "Comparing two network expressions for overlap (host, network, wildcard with or without holes, address range, any/any4/any6, "
      "interface, object, or a possibly nested group of these, in IPv4 and IPv6) answers yes exactly when some address belongs to both. "
      "The answer is the same with the operands exchanged, never crosses address families, and always comes back.",
      ["inputs", "configurations"], "all addresses, prefix lengths and wildcard masks of both families, all pairs of expression kinds, "
      "groups nested up to three deep; ranges up to a stated span",
      "the tests compare a handful of fixed networks; the relation is over 2^64 pairs of IPv4 addresses alone and over all pairs of kinds",
      [OBJ], [("overlap methods of the node classes", OBJ)], [("node", "the set of addresses an expression denotes")], ["a & b"]),
    P("C02", "Filter words any and ANY select by any-ness and by family",
      "In a filter, 'any', 'any4' and 'any6' match every rule end, or every rule end that has addresses of that family, while 'ANY', 'ANY4' and "
      "'ANY6' match only rule ends written as the corresponding unrestricted any, directly or through a group that contains it. "
      "They never match a rule end that merely overlaps a concrete network instead.",
      ["inputs", "configurations"], "every filter word on either side against every kind of rule end, with all addresses symbolic, groups nested up to three deep",
      "the tests use ANY on one sample configuration; a rule end that is close to any (0.0.0.0/0, a group with any nested) is not sampled",
      [OBJ, CAF], [("ANY words of the filter", CAF), ("any nodes", OBJ)], (), ["cafBlock.run(config)"]),
    P("C03", "A filter set selects exactly the matching rules",
      "A filter set with a list name pattern, a source and a destination condition selects exactly the rules whose list name matches the "
      "shell-style pattern (case-sensitively) and whose source and destination each overlap one of the given networks; a condition left out "
      "restricts nothing. Every selected rule is a rule of the configuration, and none appears twice.",
      ["inputs", "configurations"], "all list names and filter names up to four characters, glob patterns, all addresses of rules and filters, up to 3 rules",
      "the tests run a few filters on one configuration and look at counts",
      [OBJ, CAF], [("rule matching", OBJ), ("filter evaluation", CAF)], (), ["cafBlock.run(config)", "ACLConfig.filter"]),
    P("C04", "Filter set operations mean union, intersection and difference",
      "union, intersect and except combine the selected rules as sets with the precedence and left-to-right grouping of the language, and parentheses "
      "override it exactly as written. The result never depends on layout, on comments, or on redundant parentheses.",
      ["programs", "inputs"], "every combination of operators and parentheses over up to 4 operands (5 thorough), each operand selecting or not selecting each rule",
      "the tests contain two nested filters; the combinations of operators, nesting and membership are not enumerated",
      [CAF, CAFG], [("expression evaluation", CAF), ("grammar", CAFG)], (), ["cafBlock.run(config)"]),
    P("C05", "Filter text means the networks, names and conditions it writes",
      "Every network (with or without prefix length, IPv4 or IPv6), every alternative in a list of networks, and every id and ip condition in filter text takes part in the "
      "filter as written, in any layout and with comments anywhere white space may stand. Text that is not a filter is refused rather than read as a different filter.",
      ["programs", "inputs"], "all addresses and prefix lengths, up to 4 networks per condition, names and comments of symbolic characters at every position",
      "the tests parse fixed filter files and do not check what the parsed filter selects for other addresses or layouts",
      [CAF, CAFG], [("filter grammar and semantics", CAFG)], (), ["cafBlock.fromString"]),
    P("C06", "Expanding a group keeps what it denotes and leaves no group inside",
      "Expanding a network, service, protocol or ICMP group, at any nesting, gives a group that denotes exactly the same addresses, ports, protocols or ICMP types, "
      "contains no nested group, and loses or adds no member. Expanding a whole configuration changes no rule's meaning, and asking for a copy leaves the original alone.",
      ["configurations", "inputs"], "groups of all kinds in 8 nesting shapes up to 4 levels, all member values symbolic",
      "the tests expand one group and compare the printed result",
      [OBJ], [("expand", OBJ)], [("group members", "what the group denotes")], ["Group.expand", "ACLConfig.expand"]),
    P("C07", "Collapsing a network group keeps its addresses, merged minimally",
      "Collapsing a network group yields a group that contains exactly the same addresses, whose entries do not overlap, and which has no two entries that could be merged. "
      "Mixed address families, single hosts, any entries and nested groups are kept; asking for a copy leaves the original alone.",
      ["inputs", "configurations"], "groups of two and three networks or hosts of both families, addresses symbolic within the stated bit widths",
      "no test collapses a group with hosts, IPv6 or any",
      [OBJ], [("collapse", OBJ)], [("group members", "what the group denotes")], ["NetworkGroup.collapse"]),
    P("C08", "Sorting a group only reorders it, into ascending order",
      "Sorting a group keeps exactly its members and puts them into ascending order of address, port or number, with IPv4 before IPv6 and nested groups kept. "
      "Sorting a copy leaves the original order alone.",
      ["inputs", "configurations"], "groups of up to 4 members with symbolic values",
      "the tests sort a sample group only", [OBJ], [("sort and ordering of members", OBJ)], (), ["Group.sort"]),
    P("C09", "An ASA/FWSM access list line is read as exactly the rule it writes",
      "Every extended, standard or webtype access list entry of an ASA/FWSM configuration yields a rule with the list name, permit or deny, protocol, source, destination, source and destination ports, "
      "ICMP type and code, and options (log, inactive, time-range) written, and nothing else. No address, mask, port or keyword is dropped, swapped or widened, whatever combination the entry uses.",
      ["inputs", "configurations"], "all addresses, contiguous masks, prefix lengths, ports, protocol and ICMP numbers; every form of source, destination and port in combination; names up to 3 characters",
      "the tests parse sample files and mostly only check that parsing succeeds",
      [FW, FWG, ACLG, SEM], [("grammar and semantics", FWG)], (), ["fwsmConfig.fromString(...).rules"]),
    P("C10", "A Cisco IOS IPv4 access list entry is read as exactly the rule it writes",
      "Every entry of a named or numbered, standard or extended IOS access list yields a rule with the list name or number, permit or deny, protocol, source and destination (wildcard masks, also with holes, are wildcards and never netmasks), ports, ICMP type and options written. "
      "A standard entry applies to sources only and permits every destination; sequence numbers do not change the meaning.",
      ["inputs", "configurations"], "all addresses, wildcards, ports, protocol, ICMP, sequence and list numbers; every combination of forms",
      "the tests parse one IOS file; wildcards with holes or wildcards that look like netmasks are not sampled",
      [IOS, IOSG, ACLG], [("grammar and semantics", IOSG)], (), ["iosConfig.fromString(...).rules"]),
    P("C11", "A Cisco IOS IPv6 access list entry is read as exactly the rule it writes",
      "Every entry of an IOS IPv6 access list yields a rule with the list name, permit or deny, protocol, source and destination prefix or host, ports and options written. "
      "The list's application to an interface (traffic filter, direction) is kept with the interface and the list.",
      ["inputs", "configurations"], "all 2^128 addresses, prefix lengths, ports, protocol and sequence numbers; every combination of forms",
      "the tests contain a single IPv6 sample", [IOS, IOSG, ACLG], [("grammar and semantics", IOSG)], (), ["iosConfig.fromString(...).rules"]),
    P("C12", "Objects and object groups hold exactly the members their block lists",
      "Each network, service, protocol or ICMP object and object group of a configuration holds exactly the members its block lists, in order: hosts, subnets, ranges, ports with their operator, protocols, ICMP types and references to other groups, with its name and description. "
      "Nothing is dropped, merged, or moved to another group.",
      ["inputs", "configurations"], "one to three blocks of every documented kind with up to 3 members, all values symbolic, names and descriptions of symbolic characters",
      "the tests check presence of a few groups, not their members",
      [FW, FWG, IOS, IOSG, OBJ], [("object and object-group grammar and semantics", FWG)],
      [("config.groups / config.objects", "the parsed definitions by name")], ["config.groups", "config.objects"]),
    P("C13", "A number is accepted exactly when it is in its documented range",
      "Port numbers, protocol numbers, ICMP types and codes, prefix lengths and netmasks in a configuration are accepted when they are in range and otherwise the text is refused. "
      "A number out of range is never clipped, wrapped, or dropped together with its entry; a port range given in numbers must not run backwards.",
      ["inputs"], "numbers up to 9999999999 (thorough: 10^15) at every documented position of both dialects",
      "the tests use valid numbers only", [FWG, IOSG, ACLG, OBJ, FW, IOS], [("semantic checks of numbers", SEM)], (), ["fromString"]),
    P("C14", "All entries are read in order with their own remarks, or the file is refused",
      "The rule list of a configuration has one rule per access list entry, in the order written, each with exactly the remarks that stand before it in its list. "
      "A damaged entry makes the file be refused; it never vanishes silently, and lines that are not understood do not disturb their neighbours. Reading without naming the dialect gives what reading with the right dialect gives.",
      ["configurations", "inputs"], "configurations of up to 3 (thorough 4) lines or blocks of all kinds in every order; any printable character at every position of 14 entry lines; inserted lines of symbolic characters",
      "the tests parse intact sample files and do not count the rules",
      [FW, FWG, IOS, IOSG, OBJ], [("configuration grammar", FWG), ("configuration grammar", IOSG), ("dialect detection", OBJ)], (), ["config.rules", "ACLConfig.fromString"]),
    P("C15", "A reference denotes the definition of exactly that name and kind",
      "Wherever an entry, a group or a NAT statement refers to an object, group, service, protocol or ICMP group, time range or name, it means the definition with exactly that name and "
      "of that kind, also when other names are prefixes of it, differ only in case, or belong to another kind. A reference to a name that is not defined, or is defined only with another kind, is refused.",
      ["configurations", "inputs"], "33 kinds of reference; two definitions, one of another kind and one reference, names of 1 to 3 symbolic characters",
      "the tests use well separated names only",
      [SEM, FW, IOS, ACLG], [("name tables and lookups", SEM)], [("parser tables", "the names defined so far, by kind")], ["config.rules", "config.groups", "config.nat"]),
    P("C16", "A filter selects a NAT exactly if its real or mapped side matches",
      "A filter set selects a NAT exactly if the addresses on its real side, or those on its mapped side, meet the source and the destination condition; a side without a destination is judged by its source alone. "
      "Selecting NATs and selecting rules do not influence each other, and union, intersect and except combine selected NATs as sets.",
      ["configurations", "inputs"], "17 forms of NAT statement, all addresses and filter networks symbolic; two NATs and a rule together; the three operators",
      "the tests filter rules only", [OBJ, CAF, CAFO], [("NAT matching", OBJ)], [("result.nat", "NAT sections 1, 2 and 3 of the selection")], ["cafBlock.run(config).nat"]),
    P("C17", "Every NAT statement is read as exactly the translation it writes",
      "Every twice NAT and object NAT statement yields one NAT in the right section (manual, object, after-auto), in file order, with the interfaces, static or dynamic, real and mapped source, real and mapped destination, "
      "real and mapped service, interface fallback, options and description written. Real and mapped are never exchanged; a service translation that is not understood is refused.",
      ["configurations", "inputs"], "all combinations of source, mapped, destination and service forms, interfaces, positions and up to 2 options; addresses, ports and interface names symbolic; up to 3 NAT statements",
      "the tests parse a few NAT statements without looking at real and mapped sides",
      [FW, SEM, FWG, ACLG], [("twice NAT", FW), ("object NAT", SEM)], [("config.nat", "NAT sections 1, 2 and 3")], ["config.nat"]),
    P("C18", "IOS static routes keep network and gateway and join their interface",
      "Every IPv4 static route of an IOS configuration is read with exactly its network and its gateway, in order, and is attached to exactly the interfaces it leaves through: the one named, or those whose address range holds the gateway. "
      "Distance, name, tag and permanent do not change that, whether the route stands before or after other statements.",
      ["configurations", "inputs"], "up to 3 interfaces and 3 routes, all addresses and route prefixes symbolic, interface names symbolic",
      "the tests look at one configuration with one route", [IOS, IOSG, OBJ], [("ip route", IOS)], [("interface.routes", "the routes attached to an interface")], ["config.interfaces", "config.routes"]),
    P("C19", "Resolving a selection gives all it refers to, and nothing else",
      "Resolving a selection returns exactly the definitions its rules and NATs refer to, directly or through groups nested in groups: network, service, port, protocol and ICMP groups, objects, names, time ranges and access-group statements. "
      "No definition that is needed is missing, none that is not needed is included, and every selected rule is resolved whatever its list is applied to.",
      ["configurations", "inputs"], "every pair of 12 kinds of rule and 9 kinds of NAT, groups nested up to four deep in 6 shapes, reference names symbolic, the selection made by a symbolic filter",
      "the tests resolve one selection and do not look at what came out", [OBJ, CAFO, CAF], [("resolve", OBJ)], (), ["ACLConfig.resolve"]),
    P("C20", "A pfSense rule is read as exactly what its elements say",
      "Every rule of a pfSense configuration is read with exactly its action, interface (or floating interfaces with direction), protocol, source and destination address and port, description, state of being disabled, logging, "
      "state type, ICMP type and tracker number, in file order, whatever the order of its elements. Interfaces keep tag, description, address or device. An element or reference that is not understood makes the file be refused; "
      "a missing or empty description or an assigned address does not.",
      ["configurations", "inputs"], "1 to 3 rules, 3 interfaces and 3 aliases; every pair of 8 source and 8 destination forms with 4 port forms each; all addresses, ports, tracker numbers, descriptions symbolic; 14 unknown elements at every level",
      "the tests contain no pfSense configuration", [PF, OBJ], [("rule elements", PF), ("interfaces", PF)], [("config.rules", "the rules in file order")], ["config.rules", "config.interfaces"]),
    P("C21", "pfSense aliases hold exactly their members and captions stand at their rules",
      "Every pfSense host, network and port alias becomes a group with exactly the members and the description written, also empty ones; a URL table holds every address and network of the table and nothing else, or any address when it is not fetched. "
      "An alias of another kind or with a damaged member is refused. Every separator becomes a caption of the rule at its row of its interface, and of no other, wherever the separators stand and whether or not the rules of the interface stand together.",
      ["configurations", "inputs"], "up to 3 aliases of 5 kinds with up to 3 members of every form; URL tables of up to 2 lines of 10 forms served by a stand-in; up to 3 captions at every row, in 7 orders of rules; addresses, prefix lengths, ports, names and descriptions symbolic",
      "the tests contain no pfSense configuration", [PF, OBJ], [("aliases", PF), ("separators", PF)], [("config.groups", "aliases by name")], ["config.groups.network", "config.groups.port", "rule.head"]),
    P("C22", "Filtering is a pure question",
      "Running a filter changes nothing in the configuration, gives the same selection each time, and does not depend on filters run before. "
      "Two configurations parsed in one process, or one parsed twice, do not influence each other.",
      ["histories"], "sequences of up to 3 filter runs over one or two configurations, filter and group addresses symbolic",
      "the tests run each filter once on a fresh configuration", [OBJ, CAF], [("filter", OBJ)], (), ["cafBlock.run(config)"]),
    P("C23", "Interfaces keep the names, addresses, lists and VLANs written for them",
      "Every interface of an ASA/FWSM or IOS configuration carries exactly its name, alias, addresses (also secondary and IPv6), description, VLAN set and shutdown state, and each access list applied to it in the direction stated. "
      "An access list's applications are found from the list as well; hostname and domain are kept. Nothing moves from one interface to another.",
      ["configurations", "inputs"], "up to 3 interfaces, up to 3 detail lines of 15 and 17 kinds in every order, all addresses, names, VLAN numbers symbolic",
      "the tests check that a few interfaces exist", [FW, IOS, FWG, IOSG, OBJ], [("interface blocks", FWG), ("interface blocks", IOSG)], [("config.interfaces", "interfaces by name")],
      ["config.interfaces", "config.access_groups"]),
    P("C24", "A time range is exactly the periods its block lists",
      "Every time-range of an ASA/FWSM configuration is read with exactly its entries in order: absolute ones with the start and end moments written, periodic ones with the days, the start time, the day and the time of the end; 'no' lines add nothing. "
      "A moment that does not exist is refused, a time range is found by its name, and the rules that refer to it hold that very time range.",
      ["configurations", "inputs"], "up to 3 entries of 8 kinds in every order, two time ranges; all hours, minutes, days, months and years 1993 to 2035, lists of up to 3 days, names of 2 symbolic characters",
      "the tests check that a few time ranges are accepted", [SEM, ACLG, OBJ, FW], [("time_range", SEM), ("time ranges", ACLG)], [("config.objects.time", "time ranges by name")], ["config.objects.time", "rule.options"]),
    P("C25", "Every way to write an address denotes that address",
      "Wherever an address can be written, in configurations and in filters, each textual form of an IPv4 or IPv6 address (any octet values, shortened groups, :: at any place, capital letters, an embedded IPv4 address) denotes exactly that address, "
      "and text that is no address (an octet above 255 or with a leading zero, too many or too few parts, two ::, a group of five digits) is refused, never read as another address or as two.",
      ["inputs", "configurations"], "24 places; every octet length with symbolic digits; all 37 shapes of an IPv6 address with symbolic hexadecimal digits; 24 malformed shapes",
      "the tests write addresses in one form", [OBJ, SEM, CAF, PF, ACLG, CAFG], [("ip4 and ip6", L + "ip.bnf"), ("address nodes", OBJ)], (), ["config.rules", "config.groups", "cafBlock.run(config)"]),
    P("C26", "How a text reaches the library does not change what is read",
      "The same configuration or filter is read, entry by entry, as the same thing whether its lines end in LF or CRLF (or a mixture), with or without a final line end, from a string, a file object or a path, with or without a byte order mark, "
      "with the dialect named or detected, and however often it or other texts were read before.",
      ["configurations", "inputs", "histories"], "51 configurations and 8 filters of 1 to 9 lines covering every kind of statement, the line ends of each line, three ways to read, addresses and texts symbolic; everything read is compared in full",
      "the tests read LF text from paths only", [OBJ, ACLG, FWG, IOSG, CAFO], [("line ends", ACLG), ("fromString, fromFile, fromPath", OBJ)], (), ["fromString", "fromFile", "fromPath"]),
    P("C27", "Service, message and protocol names are exactly the documented ones",
      "Looking up a service or ICMP message name gives the documented number for that protocol (in any case), the first one listed without a protocol, and nothing for a name that is not documented. "
      "In a configuration exactly the known service, ICMP message and protocol names are accepted wherever one can stand, kept as the name written; a name that merely begins like a known one is refused.",
      ["inputs", "configurations"], "all rows of the table; 76 service, 55 ICMP and 22 protocol names at 11, 6 and 5 places, and every name one character longer, shorter or with one symbolic character replaced",
      "the tests list the table but look up no name, and use no name that is almost a known one", [OBJ, ACLG, SEM], [("PortUtil", OBJ), ("port_code, icmp_type_name, protocol_code", ACLG)], (), ["PortUtil.getservbyname", "fromString"]),
    P("C28", "What one statement means does not depend on unrelated statements around it",
      "A configuration made of two parts that each refer only to their own names holds exactly what the two parts hold when read alone: the same objects, groups, names, interfaces, access lists, rules, remarks, NATs and routes, "
      "those of the first part before those of the second. Nothing is carried from one statement into another, whether the names and access lists of the two are equal but for case, prefixes of one another, or the lists the same.",
      ["configurations", "inputs", "histories"], "every ordered pair of 33 kinds of ASA/FWSM, 20 kinds of IOS statements and 12 kinds of pfSense elements, addresses, ports and texts symbolic; everything read is compared in full",
      "the tests read a few fixed files", [OBJ, SEM, FW, IOS, PF], [("semantic actions", SEM), ("configuration assembly", OBJ)], (), ["fromString"]),
    P("C29", "Filter text over configuration text selects exactly the entries that meet it",
      "For a configuration of any dialect and a filter, both given as text, the selection holds exactly the access list entries and NATs whose source and destination, as the configuration writes them (directly, by name, "
      "as an object, or as a group at any nesting), satisfy the filter: no entry that can concern the asked-for addresses is missing, none that cannot is included. Expanding, sorting or collapsing the groups first does not change the selection.",
      ["configurations", "inputs"], "every written form of a rule end in ASA/FWSM, IOS and pfSense against every form of filter, all addresses and prefix lengths symbolic",
      "the tests read a few fixed files with a few fixed filters", [OBJ, SEM, FW, IOS, PF, "lib/acltk/cafObjects.py", "lib/acltk/cafSemantics.py"], [("selection", "lib/acltk/cafObjects.py"), ("overlap", OBJ), ("semantic actions", SEM)], (), ["fromString"]),
]

NA = [
    ("C90", "HTML rendering shows exactly the selected rules",
     "The rendered HTML page contains every selected rule once, with its source, destination, ports and remarks, and no unselected rule."
     " Text from the configuration is escaped.",
     ["inputs", "configurations"], "all configurations and filters",
     "no test renders a page", ["examples/render/static.py"], [("template rendering", "examples/render/static.py")],
     "Jinja2 compiles templates to code that joins C-level strings and escapes with a C extension; the engine's symbolic strings cannot pass through it, so the "
     "solver would decide nothing about the page"),
]

LEVEL = ("bounded: every path of the real code within the stated bounds is explored and each obligation on it decided by z3 for all values of the "
         "symbolic inputs; counterexamples are replayed on the unmodified code before they are reported. Trusted: CPython, the engine's models of str/int/re/"
         "ipaddress rendering (cross-checked: every path is also run concretely on the plain code and compared), the TatSu runtime (executed, not modelled)")


def main():
    import importlib
    with open("properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "technique")}) + "\n")
        for n in NA:
            f.write(json.dumps(dict(id=n[0], title=n[1], statement=n[2], quantifier={"over": n[3], "text": n[4]}, why_tests_cant=n[5],
                                    anchors={"files": n[6], "mechanism": [{"name": a, "where": b} for a, b in n[7]], "hook_needed": None})) + "\n")
    checks = []
    for p in PROPS:
        b = importlib.import_module("props." + p["id"].lower()).BOUNDS
        checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough", "technique": p["technique"],
                       "level": "model_checking", "level_note": "Bounds: " + b + ". " + LEVEL})
    json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())'", "checks": checks,
               "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA],
               "notes": "No hooks in /repo. symex/ is the engine, props/ the harnesses, check.py the driver; see DESIGN.md."},
              open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")
    d = open("DESIGN.md").read()

    def fill(d, tag, text):
        a, rest = d.split(f"<!-- {tag} -->")
        return f"{a}<!-- {tag} -->\n{text}\n<!-- /{tag} -->" + rest.split(f"<!-- /{tag} -->")[1]
    d = fill(d, "table", "\n".join(f"| {p['id']} | {p['title']}. Bounds: {importlib.import_module('props.' + p['id'].lower()).BOUNDS} | "
                                    f"{p['note'] or 'the meaning of the text written, address by address'} |" for p in PROPS))
    d = fill(d, "na", "\n".join(f"* {n[0]} {n[1]}: {n[8]}" for n in NA))
    d = fill(d, "fixed", "\n".join("* " + x[7:] for x in json.load(open("known_findings.json"))["fixed"]))
    open("DESIGN.md", "w").write(d)
    try:
        import jsonschema
    except ImportError:
        return
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open("properties.jsonl"):
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))


if __name__ == "__main__":
    main()

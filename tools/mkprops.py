"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, pathlib

R = "ciscoconfparse/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [R + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


CCP, ABC, UTIL = "ciscoconfparse.py", "ccp_abc.py", "ccp_util.py"

prop("C01", "Parsing keeps every configuration line, in order, with its text",
     "For every list of text lines or text file, parsed with any of the indented syntaxes (ios, nxos, iosxr, asa), the parsed objects are exactly the input lines in input order, each with only its trailing whitespace removed, and every object's line number is its position in the object list. "
     "Whitespace-only lines are dropped only when ignore_blank_lines is in effect and they are outside banner and macro bodies; empty lines are, in addition, dropped on input when ignore_blank_lines is in effect without factory. "
     "Reading the same lines from a list or from a file (str or pathlib path, any newline convention) yields the same text.",
     ["inputs", "configurations"],
     "all line sequences (any indentation, comments, blank and whitespace-only lines, tabs, brace characters), list or file (\\n, \\r\\n, \\r), x {ios,nxos,iosxr,asa} x factory x ignore_blank_lines x comment delimiter",
     "The tests compare a dozen fixture files; they never mix whitespace-only lines, banners, braces and both blank-line modes, and line numbers are asserted only for fixtures without dropped lines.",
     [CCP, ABC], [("ConfigList.bootstrap_obj_init_ng", R + CCP), ("CiscoConfParse.read_config_file", R + CCP), ("BaseCfgLine.text setter", R + ABC)],
     ["CiscoConfParse.ioscfg", "CiscoConfParse.objs", "obj.text", "obj.linenum"],
     [("ConfigObjs._list", "the ordered list of line objects", R + CCP)])

prop("C02", "The parent/child hierarchy is the indentation hierarchy",
     "For every indented configuration outside banners and macros, the parent of an indented line is the nearest preceding non-comment, non-blank line with smaller indentation (an unindented line, and an indented comment directly below a deeper-indented line - blank lines that are dropped do not count -, is its own parent), and a line's children are exactly the lines whose parent it is, in order. "
     "A line starting with a closing brace is instead the child of the innermost still-open line ending in an opening brace (an unmatched one is an ordinary line). "
     "Indentation and comment status are functions of the line's text alone.",
     ["inputs"],
     "all sequences of lines with arbitrary indentation steps (including ragged dedents), comments at any indentation, blank lines",
     "Tests fix a few well-formed fixtures with regular indentation; the incremental parent cache is wrong only for particular dedent/comment sequences, which need enumeration of all short shapes.",
     [CCP, ABC], [("ConfigList._maintain_bootstrap_parent_cache / _build_bootstrap_parent_child", R + CCP), ("BaseCfgLine.text setter / set_comment_bool", R + ABC)],
     ["obj.parent", "obj.children", "obj.indent", "obj.is_comment", "obj.child_indent"],
     [("parents_cache, max_indent", "incremental parser state", R + CCP)])

prop("C03", "Every derived family relation agrees with the parent/child tree",
     "For every parsed configuration, all_children is the set of descendants, all_parents the chain of ancestors, lineage their union with the line itself, geneology the ancestors followed by the line, siblings the same-indent children of its parent, family_endpoint the line number of the last descendant (or its own), and is_parent/is_child/has_children/ioscfg/has_child_with follow from them, all ordered by line number. "
     "Distinct lines of a configuration are never equal, order by line number, and equal lines hash equal.",
     ["inputs"], "all parsed configurations and every line in them",
     "Tests check a few named lines in fixtures; equality/hash collisions and deep nesting only appear for particular text and line number combinations.",
     [ABC], [("BaseCfgLine.all_children/all_parents/lineage/geneology/siblings/family_endpoint/__eq__/__hash__", R + ABC)],
     ["BaseCfgLine properties"])

prop("C04", "Banners and macros own their bodies, verbatim",
     "In the indented syntaxes, the lines following a multi-line banner command up to and including the first one that contains the banner's delimiter, and in ios the lines following 'macro name X' up to and including '@' (or the end of the configuration if the terminator is missing), are direct children of that command, each exactly once and of no other line, in order, with blank lines inside kept when blank lines reach the parser. "
     "A banner that ends on its own line owns no following line through the banner rule.",
     ["inputs"], "all placements of banners and macros among other lines, all delimiters, any body indentation, comments, blank lines and missing terminators, both blank-line modes",
     "Tests cover four fixture banners with flush-left bodies; indentation, comment and brace lines inside a body interact with the indentation rule.",
     [CCP], [("ConfigList._banner_mark_regex", R + CCP), ("ConfigList._macro_mark_children", R + CCP)],
     ["obj.children", "obj.parent", "CiscoConfParse.ioscfg"])

prop("C05", "Brace configurations nest by brace depth",
     "Parsing a brace-delimited (junos) configuration gives every statement an indentation of four spaces per enclosing open brace and hence the enclosing statement as parent, strips trailing ';' and '{', keeps the order of statements, and turns inline bracketed or quoted content and comments through unchanged. "
     "The same configuration with different leading whitespace parses to the same objects.",
     ["inputs"], "all well-nested brace configurations: arbitrary depth, empty blocks, comments, one-line blocks, arbitrary leading whitespace",
     "Tests check one or two junos fixtures; nesting/dedent mistakes need shapes such as consecutive closes, empty blocks and one-line blocks.",
     [CCP], [("convert_junos_to_ios / parse_line_braces", R + CCP)], ["CiscoConfParse.ioscfg", "obj.parent", "obj.children"])

prop("C06", "Line searches return exactly the matching lines, in order",
     "find_objects, find_lines, has_line_with, find_children, find_all_children, find_blocks and find_lineage return, sorted by line number without duplicates, exactly the lines defined by the search (matching lines; plus direct children; plus all descendants; the children of their parents (their own children for top-level lines) and the ancestors of all of these; ancestors and descendants of the unique match). "
     "exactmatch requires the whole line to match, and ignore_ws makes every run of whitespace in the expression match any non-empty run of whitespace.",
     ["inputs"], "all configurations x all search expressions (literals, anchors, classes, repetition, alternation) x exactmatch x ignore_ws",
     "Tests query fixed fixtures with fixed expressions; off-by-one, duplicate and nesting errors depend on overlapping matches at several levels.",
     [CCP], [("CiscoConfParse._find_line_OBJ, find_*, build_space_tolerant_regex", R + CCP)],
     ["find_objects", "find_lines", "find_children", "find_all_children", "find_blocks", "find_lineage", "has_line_with", "ConfigList.has_line_with"])

prop("C07", "Parent/child searches relate lines exactly as the tree does",
     "find_parent_objects (and find_objects_w_child, find_parents_w_child) returns the lines matching the parent expression that have a child (a descendant when recurse) matching the child expression, find_parent_objects_wo_child (find_objects_wo_child, find_parents_wo_child) exactly the others, find_child_objects (find_objects_w_parents) the matching children (descendants when recurse) of matching parents, and find_children_w_parents the matching lines with a matching ancestor; find_objects_w_all_children / _w_missing_children split the matching parents by whether every listed expression has a matching child. "
     "Results are sorted, free of duplicates, honour ignore_ws and escape_chars, and a list [p, c1, .., cn] as specification gives nothing if some ci matches no child of a line matching p, and otherwise the union of the parents, or the children matching cn.",
     ["inputs"], "all configurations x all pairs of expressions x recurse x ignore_ws x escape_chars x string/list/object forms",
     "Tests use fixed fixtures; complement, recursion and duplicate properties quantify over all trees and overlapping expressions.",
     [CCP, ABC], [("CiscoConfParse.find_parent_objects*, find_child_objects, find_objects_w_*", R + CCP), ("BaseCfgLine.re_search_children", R + ABC)],
     ["the find_*child* and find_*parent* methods"])

prop("C08", "Branch search enumerates exactly the matching paths",
     "find_object_branches returns, in line order, one row per maximal chain line > child > grandchild matching the successive expressions, each row as long as the specification, with None from the first level that has no matching child; with no match at the first level the result is a single all-None row. "
     "With regex_groups each cell becomes the tuple of captured groups (or the whole text when the expression has none).",
     ["inputs"], "all configurations x all branch specifications of length 1..n, with and without groups and regex flags",
     "Tests check four hand-written matrices; missing levels, multiple branches and length-one specifications combine in ways they do not reach.",
     [CCP], [("CiscoConfParse.find_object_branches", R + CCP)], ["find_object_branches"])

prop("C09", "Regex extraction returns the first match's group, typed, or the default",
     "re_match, re_match_typed, re_match_iter_typed, re_search, re_search_children and list-level re_match_iter_typed return the group of the first match in the documented order (the line itself, then its children, or all descendants when recursing; the list form looks only at top-level lines), converted with the requested type, and the typed (or untyped) default exactly when nothing matches; groupdict forms return one typed entry per requested name. "
     "No extraction changes the configuration.",
     ["inputs"], "all configurations, lines, expressions with groups, result types, defaults, recurse and untyped_default settings",
     "Tests sample a few interfaces; the default/typing/recursion combinations multiply.",
     [ABC, CCP], [("BaseCfgLine.re_match*", R + ABC), ("CiscoConfParse.re_match_iter_typed", R + CCP)], ["re_match*, re_search*"])

prop("C10", "Insertions add exactly the requested line at exactly the requested places",
     "insert_before/insert_after on a configuration add exactly one copy of the new line immediately before/after every line matching the expression (honouring exactmatch, ignore_ws and new_val_indent); insert_before/insert_after/append_to_family on a line add one copy at that line (after its last descendant for append_to_family), insert_after_child after every matching child of every matching parent, append_line/prepend_line at the ends. "
     "All other lines keep their text and relative order, line numbers stay equal to positions, and inserting a blank line is refused when blank lines are ignored.",
     ["inputs", "histories"], "all configurations (including repeated and regex-metacharacter lines) x all insertion operations and arguments, alone and in sequences",
     "Tests insert next to unique lines in small fixtures; duplicates, metacharacters and several matches are where positions go wrong.",
     [CCP, ABC], [("CiscoConfParse.insert_*/append_line/prepend_line, ConfigList.insert_*", R + CCP), ("BaseCfgLine.insert_*/append_to_family", R + ABC)],
     ["ioscfg and linenum after each operation"])

prop("C11", "Deletions remove exactly the targeted lines",
     "Deleting a line removes that line and, by default, all its descendants, and nothing else; delete_lines removes exactly the lines matching the expression together with their descendants; delete_children_matching exactly the matching children with theirs. "
     "This stays true after any earlier edits, remaining lines keep text and order, and line numbers stay equal to positions.",
     ["inputs", "histories"], "all configurations x all deletion targets and expressions, including nested and overlapping targets, after any edit history",
     "Tests delete one or two unrelated lines from fixtures; overlapping targets and stale positions after earlier edits need histories.",
     [ABC, CCP], [("BaseCfgLine.delete", R + ABC), ("CiscoConfParse.delete_lines", R + CCP)], ["ioscfg, linenum, children after each operation"])

prop("C12", "Replacements rewrite exactly the matching text of the targeted lines",
     "replace_lines, replace_children, replace_all_children and re_sub/replace on a line substitute every match of the expression in exactly the targeted lines (matching lines, matching children, matching descendants at any depth), skipping excluded lines, return the new texts, and leave every other line unchanged; a line replaced by nothing is deleted. "
     "Number and order of the remaining lines are preserved.",
     ["inputs", "histories"], "all configurations x expressions x replacement templates x exclusions x exactmatch, at any nesting depth",
     "Tests replace in fixtures at most two levels deep with one match per line.",
     [CCP, ABC], [("CiscoConfParse.replace_*", R + CCP), ("BaseCfgLine.re_sub", R + ABC)], ["ioscfg after each operation", "return values"])

prop("C13", "Committing an edited configuration equals parsing its text afresh",
     "After any sequence of insertions, deletions, replacements, appends and list operations, commit()/atomic() leaves the text unchanged and produces the same line numbers, indentation, comment flags, parents and children as a fresh parse of that text with the same options (where those options do not discard empty input lines a banner may hold); committing twice equals committing once, and operations requested as atomic leave the configuration in that committed state. "
     "Operations applied after a commit behave as on a freshly parsed configuration.",
     ["histories"], "all edit histories over all small configurations, with commits at any point",
     "Tests commit once after one edit and compare text; hierarchy after histories is not compared with a fresh parse.",
     [CCP], [("CiscoConfParse.commit/atomic, ConfigList.bootstrap_obj_init_ng", R + CCP)], ["full tree projection after commit"])

prop("C14", "Saving and re-reading a configuration is the identity",
     "save_as writes exactly the configuration lines, one per line, and parsing the saved file with the same options (a converted brace configuration: as the IOS-style text it now is) gives the same lines, line numbers and hierarchy, except for the empty lines those options discard on input; repeating it changes nothing. "
     "This holds before and after edits, for every factory and blank-line setting.",
     ["inputs", "histories"], "all configurations and edit histories x options x newline conventions",
     "Tests save one fixture and compare lengths; blank lines, banners and options are not varied.",
     [CCP], [("CiscoConfParse.save_as / read_config_file", R + CCP)], ["file bytes", "re-parsed tree"])

prop("C15", "The hierarchical diff accounts for every line of both configurations",
     "For two ios or nxos configurations (list, tuple, file path or parsed object) the unified hierarchical diff lists every family path (white-space-normalised texts from the topmost ancestor down to the line) of either configuration exactly once: first those of the first configuration in its order, marked '-' when they do not occur in the second and unmarked when they do; each path only the second has is marked '+' and placed below its parent, after the lines already added there, or at the end when it has no parent. "
     "Hence removing the '-' lines leaves the paths of the second configuration and removing the '+' lines those of the first; the line dictionaries (indent, parents, text) agree with it and the inputs are not changed.",
     ["inputs"], "all pairs of configurations (reordered, duplicated, whitespace-variant lines, several levels)",
     "Tests compare a handful of hand-written diffs; reconstruction over all pairs is not tested.",
     [CCP, ABC], [("HDiff", R + CCP), ("BaseCfgLine.diff_id_list", R + ABC)], ["HDiff.unified_diffs", "HDiff.all_output_dicts"])

prop("C16", "sync_diff emits the commands that differ, with their context",
     "sync_diff(cfgspec, linespec, uncfgspec) returns, in the order of the hierarchical diff, for every line matching linespec that occurs only in the running configuration (and whose text uncfgspec matches) the command 'no <uncfgspec match>' at its indentation, with 'no no x' shortened to 'x', and for every matching line that occurs only in cfgspec its ancestors followed by the line; lines present in both, or not matching linespec, produce nothing, remove_lines=False suppresses removals, identical configurations give an empty result, and the running configuration is not changed. "
     "req_cfgspec_all_diff returns exactly the required lines that no configuration line equals (up to surrounding white space, or up to all white space with ignore_ws), in order.",
     ["inputs"], "all pairs of configurations x line filters x un-configuration expressions x flags",
     "Tests check few examples with one added or removed line.",
     [CCP], [("CiscoConfParse.sync_diff / req_cfgspec_all_diff", R + CCP)], ["sync_diff", "req_cfgspec_all_diff"])

prop("C17", "The factory only changes the class of a line, and picks it by the line's text",
     "With factory=True every line of an ios, nxos, iosxr or asa configuration becomes an object of the class documented for its text (interface, interface-global, static route, access-list, aaa lines, aaa server group, vty/con/aux line, hostname, access point, ASA object network/service, object-group, name; the syntax's plain line class otherwise), whatever lines stand around it, while text, line numbers, indentation, comment flags, parents and children equal those of the non-factory parse (malformed variants of these commands are refused by design and are out of scope). "
     "find_objects_dna returns exactly the objects whose class name matches (equals, with exactmatch=True) in configuration order, and find_interface_objects (ios, nxos, iosxr) exactly the first interface line with that name, written in full or with its type abbreviated.",
     ["inputs"], "all configurations mixing specialised and plain lines in any position and indentation x syntaxes",
     "Tests instantiate each class once from a fixture; precedence among classes and near-miss lines are not enumerated.",
     [CCP, "models_cisco.py", "models_nxos.py", "models_iosxr.py", "models_asa.py"],
     [("config_line_factory / is_object_for", R + CCP)], ["type(obj)", "obj.dna", "tree projection", "find_interface_objects"])

prop("C18", "IPv4Obj derives every address fact from address and mask",
     "For every accepted IPv4 notation (address, address/len, address/mask, 'address mask', integer) IPv4Obj exposes the address, mask, prefix length, network, broadcast, hostmask, number of hosts, decimal, hexadecimal and binary forms, first/last host offsets and the derived strings exactly as IPv4 arithmetic defines them, and its string forms parse back to an equal object; malformed addresses, masks and prefix lengths are rejected. "
     "Assigning prefixlen or network_offset changes exactly the corresponding bits, and ip_factory builds the same object.",
     ["inputs"], "all 2^32 addresses x 33 prefix lengths x notations; boundary values; malformed strings",
     "Tests use one or two fixed addresses per attribute.",
     [UTIL], [("IPv4Obj", R + UTIL)], ["IPv4Obj attributes and setters"])

prop("C19", "IPv6Obj derives every address fact from address and prefix length",
     "For every textual IPv6 address form (full, compressed, mixed case, with or without prefix length, embedded IPv4) IPv6Obj exposes the compressed and exploded address, netmask, prefix length, network, last address, decimal/hex/binary forms, is_multicast/is_link_local/is_site_local/is_unspecified/is_ipv4_mapped, the teredo and sixtofour addresses and offsets exactly as IPv6 arithmetic defines them, and its string forms parse back to an equal object; malformed addresses and prefix lengths are rejected. "
     "Assigning prefixlen or network_offset changes exactly the corresponding bits, and ip_factory builds the same object.",
     ["inputs"], "all 2^128 addresses x 129 prefix lengths x textual forms",
     "Tests use a handful of fixed addresses.",
     [UTIL], [("IPv6Obj", R + UTIL)], ["IPv6Obj attributes and setters"])

prop("C20", "IP containment, order, equality, hashing and arithmetic are coherent",
     "For all IPv4Obj (IPv6Obj) x, y: x in y iff x's network lies inside y's; equality means same family, address and prefix length, equal objects hash equal, and < and > (hence sorting) are a total order by network, then prefix length, then address consistent with equality; x+n and x-n shift the address by n keeping the prefix length and fail exactly outside the address range. "
     "collapse_addresses returns the minimal sorted set of networks covering exactly the same addresses.",
     ["inputs"], "all pairs of addresses and prefix lengths (including /0, /31, /32, /127, /128, different families) and integer offsets",
     "Tests compare a few pairs; order/containment laws quantify over all pairs and boundaries.",
     [UTIL], [("IPv4Obj/IPv6Obj comparison and arithmetic methods, collapse_addresses", R + UTIL)], ["operators, hash(), collapse_addresses"])

prop("C21", "CiscoRange expansion and compression are inverse",
     "CiscoRange of a comma/hyphen expression denotes exactly the members the notation denotes (integers, or interfaces which vary in the first element's last number, be it port, subinterface or channel), iterates and lists them in ascending order without duplicates, has that many members, and compresses to the shortest ascending notation, which expands to the same members again. "
     "append, remove, deletion by index and set-like addition or subtraction of another range change the membership exactly so (appending a member twice or removing an absent one is refused, or ignored on request, without effect), and equality is equality of membership.",
     ["inputs", "histories"], "all integer and interface range expressions (overlapping, unordered, single, adjacent) and sequences of modifications",
     "Tests expand about thirty fixed strings; overlap, order and modification histories are unbounded.",
     [UTIL], [("CiscoRange", R + UTIL)], ["CiscoRange.as_list/as_set/as_compressed_str/iteration/len/append/remove/equality"])

prop("C22", "Cisco interface names parse and render without loss, and order numerically",
     "CiscoIOSInterface (and CiscoIOSXRInterface) splits every valid interface name into prefix, slot, card, port, subinterface, channel and class, renders it back in canonical form, and rebuilding from that rendering or from the dictionary form gives an equal object with equal hash. "
     "Two interfaces are equal iff all components are equal, and interfaces of one type sort numerically component by component, a missing component first. Assigning a component changes exactly that component.",
     ["inputs"], "all interface names: any type prefix, 1-3 slot numbers, optional subinterface, channel and interface class, with and without inner spaces",
     "Tests list about thirty names; component combinations and orders multiply.",
     [UTIL], [("CiscoIOSInterface / CiscoIOSXRInterface", R + UTIL)], ["attributes, str(), as_dict, ==, <, hash()"])

prop("C23", "Interface attributes report what the configuration says",
     "With factory=True an ios interface object reports its name, type, numbers and kind, the abbreviations of its name (is_abbreviated_as), description, addresses and masks (primary, secondary, IPv6), networks and membership in given subnets, shutdown state, VRF, MTU, bandwidth, delay, carrier delay, speed/duplex/autonegotiation, helper addresses, access groups, HSRP groups (addresses, priority, preemption, timers, tracking, authentication) and channel groups exactly as its own child lines state them (the first one where a command is repeated), and the documented default exactly when no such line exists; redirects/unreachables/proxy-arp/pim/arp facts and HSRP summary attributes are reported for interfaces with a static IPv4 address. "
     "Lines of other interfaces, comments, 'no ...' forms, descriptions quoting commands and unrelated lines have no influence.",
     ["inputs"], "all interface stanzas composed from the recognised child commands with any values and order, among other stanzas",
     "Tests read fixed stanzas; interactions between child commands and neighbours are not varied.",
     ["models_cisco.py"], [("BaseIOSIntfLine attributes", R + "models_cisco.py")], ["attributes of interface objects"])

prop("C24", "Switchport VLAN settings follow the command sequence",
     "For an ios interface, is_switchport, access_vlan, native_vlan, the switchport mode, encapsulation, port-security, storm-control and DTP flags equal what its commands configure (defaults: VLAN 1 on a switchport, 0 otherwise), and trunk_vlans_allowed, on a switchport which is not in access mode, equals the VLAN set obtained by applying the 'switchport trunk allowed vlan' commands (all, none, a list, add, remove; except takes VLANs away like remove) in order to the default of all VLANs. "
     "The reported set never contains a VLAN outside 1-4094.",
     ["inputs", "histories"], "all sequences of allowed-vlan commands with all VLAN range expressions",
     "Tests check about ten fixed command lists.",
     ["models_cisco.py", UTIL], [("trunk_vlans_allowed, access_vlan, native_vlan", R + "models_cisco.py")], ["trunk_vlans_allowed, access_vlan, native_vlan, has_manual_switch_* "])

prop("C25", "Static routes are decoded field by field",
     "With factory=True every ios 'ip route' / 'ipv6 route' line reports VRF, network, mask/prefix length, next-hop address, next-hop interface, administrative distance, tracking, tag, name, permanent and multicast/global flags exactly as written, with defaults for absent options. "
     "The options (name, track, tag, permanent, multicast, unicast) may follow the distance in any order; 'dhcp' may follow a next-hop interface, 'global' a VRF route, and an ipv6 route may name its next-hop VRF. "
     "The network object denotes the written network. The reported values do not depend on surrounding lines.",
     ["inputs"], "all combinations of optional route clauses and values, ipv4 and ipv6",
     "Tests cover about forty hand-written lines; the optional clauses combine.",
     ["models_cisco.py"], [("IOSRouteLine", R + "models_cisco.py")], ["IOSRouteLine attributes"])

prop("C26", "ASA names and object-groups expand to what they define",
     "In an asa configuration names maps exactly the defined names to addresses (last definition wins), object_group_network maps exactly the defined groups, a network group expands to its host, subnet, named and nested-group members in order, and a service group to its ports with the right protocol, operator and port numbers. "
     "Port specifications (eq, neq, range, lt, gt; numeric or named) denote exactly the right set of ports.",
     ["inputs"], "all name tables and object-group definitions with nesting, all port expressions",
     "Tests expand one or two groups and a few port expressions.",
     ["models_asa.py", CCP, UTIL], [("ASAObjGroupNetwork, ASAObjGroupService, ConfigList.names", R + "models_asa.py"), ("L4Object", R + UTIL)],
     ["names, object_group_network, network_strings, networks, ports, L4Object"])

prop("C27", "Type-7 decryption inverts type-7 encryption",
     "For every plaintext (also the empty one) and every two-digit seed (modulo the key length), decrypting the Cisco type-7 encoding of the plaintext under that seed returns the plaintext, in either letter case of the hex digits, whether the encoding is given to CiscoPassword() or to decrypt(). "
     "An encoding of odd length or without a decimal seed yields an empty plaintext.",
     ["inputs"], "all plaintexts (bytes), all lengths and seeds, letter cases, repeated use",
     "Tests decrypt one fixed list of strings.",
     [CCP], [("CiscoPassword.decrypt", R + CCP)], ["CiscoPassword.decrypt"])

prop("C28", "NX-OS and IOS-XR line models report what the configuration says",
     "With factory=True nxos and iosxr interface objects report name, description, addresses, prefix lengths, VRF, shutdown state, MTUs, access groups and the other documented attributes exactly as their own child lines state them, with the documented defaults otherwise. "
     "nxos switchport attributes (mode, access, native and allowed VLANs), dhcp relays, the values of the interface's HSRP group block, vPC domain and static-route attributes follow the same rule. The reported values do not depend on surrounding lines.",
     ["inputs"], "all interface stanzas composed from recognised child commands",
     "Tests read fixed fixtures.",
     ["models_nxos.py", "models_iosxr.py"], [("BaseNXOSIntfLine / BaseIOSXRIntfLine attributes", R + "models_nxos.py")], ["attributes of interface objects"])

prop("C29", "Diff and rollback turn each configuration into the other",
     "For ios configurations without 'no ...' lines, Diff(old_config, new_config).diff() is a list of command lines that, entered on old under the usual rules ('no X' withdraws X and its family, any other command adds itself below the section it is indented under, a single-valued setting such as 'ip address' replaces its old value), yields the families of new, and rollback() one that turns new back into old; no command is idle, and both lists are empty exactly when the configurations hold the same families. "
     "Each configuration may be given as text, list, tuple, path of a file, or left out (an empty configuration), with the same result.",
     ["inputs"], "all pairs of ios configurations (sections of several levels, reordered, white-space variants, comments) x text, list, tuple, file or missing",
     "Tests compare a handful of fixed outputs.",
     [CCP], [("Diff", R + CCP)], ["Diff.diff", "Diff.rollback"])

prop("C30", "Access, AAA, hostname and global lines of IOS and NX-OS report the configuration",
     "With factory=True, ios and nxos: a hostname line reports its name; a 'line ...' line its name (empty if it has a digit), the numbers at its end (one, two or none) and the minutes and seconds of the first exec-timeout below it (seconds 0 if not given); "
     "'no cdp run', 'logging event link-status global', 'spanning-tree portfast default' and '... bpduguard default' set exactly their own flag. "
     "An 'aaa authentication login|enable LIST' or 'aaa authorization commands|console LEVEL LIST' line reports list, level, server group (empty if there is none) and the list of the words that follow as methods; "
     "an 'aaa accounting exec LIST' or 'aaa accounting commands LEVEL LIST' line reports list, level, record type (start-stop, stop-only, none) and server group. "
     "An 'aaa group server' block reports protocol, name, VRF ([ip] vrf forwarding; nxos: use-vrf), source interface (ip tacacs source-interface; nxos: source-interface) and the set of its server-private servers, with or without options. "
     "Nothing else in the configuration has an influence.",
     ["inputs"], "all lines composed of the optional clauses of each command, with all commands below them",
     "Tests read one line of each kind.",
     ["models_cisco.py", "models_nxos.py"], [("IOSAccessLine, IOSIntfGlobal, IOSAaa*Line", R + "models_cisco.py"), ("NXOSAccessLine, NXOSAaa*Line", R + "models_nxos.py")],
     ["attributes of access, AAA, hostname and global line objects"])

prop("C31", "ASA access lists, interfaces and host name report the configuration",
     "With factory=True every asa access-list entry (extended entry or remark) reports its access-list name, action, remark text, protocol number or service object-group, how source and destination are given (network, object or object-group), whether it logs, logging level and interval with their defaults (informational, 300), whether logging is disabled, and its time-range, exactly as the line states them. "
     "ASA interface objects report name, description, address, mask, failover address, network, shutdown, VLAN and the other documented attributes as their own child lines state them with the documented defaults otherwise, and the hostname line reports the host name. The reported values do not depend on surrounding lines.",
     ["inputs"], "all combinations of access-list clauses; all interface stanzas composed from recognised child commands",
     "Tests parse some thirty access-list lines and two or three interfaces; the optional clauses combine.",
     ["models_asa.py"], [("ASAAclLine.result_dict, BaseASAIntfLine", R + "models_asa.py")], ["ASAAclLine.result_dict", "ASA interface attributes"])

prop("C32", "Commands that withdraw or reset a line act on exactly that line",
     "uncfgtext of a line is, at the line's indentation, 'no ' followed by the line's text; for a line 'no X' (any letter case) it is X with single spaces. "
     "With factory=True, reset() of an ios, nxos or iosxr interface, or of an ios or nxos access line, inserts exactly one line 'default <text of the line>' immediately before it and changes nothing else; "
     "atomic (the default) it leaves the configuration in the committed state, and several resets compose.",
     ["inputs", "histories"], "all lines (indentation, white space, 'no' prefixes); all configurations and sequences of resets",
     "No test calls reset() or reads uncfgtext.",
     ["ccp_abc.py", "models_cisco.py", "models_nxos.py", "models_iosxr.py"], [("BaseCfgLine.uncfgtext", R + "ccp_abc.py"), ("BaseIOSIntfLine.reset, IOSAccessLine.reset", R + "models_cisco.py")],
     ["uncfgtext", "reset", "build_reset_string"])

prop("C33", "Junos interfaces and units are recognised and named",
     "In a junos configuration (with or without factory) a statement is an interface (is_intf) exactly if it is directly inside the outermost 'interfaces' block, or is a 'unit N' statement directly inside such an interface; only the latter are subinterfaces (is_subintf). "
     "name and intf_name of an interface are its text, of a unit the interface's text and its own joined by a blank, and None for every other statement. "
     "An interface or unit is a switchport (is_switchport) exactly if some statement inside it begins with 'family ethernet-switching'; other statements never are. Nothing outside the interface, no description and no comment has an influence.",
     ["inputs"], "all brace-delimited configurations, however they are indented, nested and spelled (empty blocks, several interfaces blocks, interfaces inside other blocks)",
     "Tests look at four lines of one configuration.",
     ["models_junos.py", CCP], [("JunosCfgLine", R + "models_junos.py"), ("convert_junos_to_ios", R + CCP)], ["JunosCfgLine.is_intf, is_subintf, is_switchport, name, intf_name"])

prop("C34", "req_cfgspec_excl_diff withdraws exactly what is not required",
     "For a configuration parsed as ios, nxos or iosxr, req_cfgspec_excl_diff(linespec, uncfgspec, cfgspec) returns one command for every line that matches linespec (re.search) and equals no line of cfgspec up to surrounding white space: 'no ' and the part of the line that uncfgspec finds (without a leading 'no'), at the line's indentation. "
     "These commands are in configuration order and every section line above one of them appears once, unchanged, before it; then follow the lines of cfgspec that no line matching linespec equals, as given and in their order. The configuration and cfgspec stay as they are, and later calls are not influenced by earlier ones. "
     "(Asked of lines that are not comments and not inside one another, with an uncfgspec that finds a part of each.)",
     ["inputs", "histories"], "all configurations, linespecs, uncfgspecs and lists of required lines; several calls on one parse",
     "One test withdraws one top-level line.",
     [CCP, "ccp_abc.py"], [("CiscoConfParse.req_cfgspec_excl_diff", R + CCP), ("BaseCfgLine.add_uncfgtext", R + "ccp_abc.py")], ["req_cfgspec_excl_diff"])

prop("C35", "The line list of a configuration behaves as the list of its lines",
     "parse.ConfigObjs (ConfigList, also parse.objs), with ios, nxos, iosxr or asa syntax, is a list of line objects. Through any history of pop, remove, del of an item or slice, item assignment, append, extend, += and *= of line objects, insert(index, text), reverse, sort, clear and commit() it holds the very line objects a Python list would hold after the same operations, and parse.ioscfg is their text; an index out of range raises IndexError and changes nothing. "
     "Indexing, slices with any bounds and step, +, *, copy(), copy.copy(), iteration, reversed(), len(), in, count(), index(), last_index, iter_with_comments(begin) and iter_no_comments(begin) give what that list says; slices, sums, products and copies are ConfigLists of their own holding the same line objects, and changing one changes nothing else. Line objects are equal when line number and text are. sort() orders by line number unless a key is given, and is stable. "
     "commit() and del leave the list as if the text had just been parsed: positions, line numbers, indents and families. config_hierarchy() of a parsed configuration gives the top-level lines with children and those without (no comments), all_parents the lines with children.",
     ["inputs", "histories"], "all configurations, all sequences of list operations",
     "Tests use append, insert, del of single items and has_line_with on a few configurations.",
     [CCP], [("ConfigList.__getitem__", R + CCP), ("ConfigList.__delitem__", R + CCP), ("ConfigList.insert", R + CCP), ("ConfigList.config_hierarchy", R + CCP)], ["ConfigList", "objs", "all_parents", "iter_no_comments"])

prop("C36", "Answers depend on the text of a configuration alone",
     "Reading never changes anything: searches, branches, regex extraction, every attribute of every line object of every syntax, with and without factory, diffs (Diff, sync_diff, req_cfgspec_*), copies and repr() leave the text of every configuration alive in the process as it was. "
     "Every answer is a function of the configuration's text, its parse options and the question: the same question gives the same answer at any time, whatever was asked before (in whatever order attributes were read), whatever other configurations were read or edited in between, after any edits followed by commit() that lead to the same text, and on a fresh parse of that text; an edit of one configuration changes no other. "
     "(Not meant: uncfgtext, which is deprecated and keeps what req_cfgspec_excl_diff made of the line, and the bookkeeping of a running HDiff: line_id, diff_*.)",
     ["inputs", "histories"], "all configurations, several of them in one process, all sequences of questions and edits",
     "A test parses, asks once and ends; caches and shared class state need a history.",
     [CCP, "ccp_abc.py", "models_cisco.py", "models_nxos.py", "models_iosxr.py", "models_asa.py"], [("CiscoConfParse", R + CCP), ("BaseCfgLine", R + "ccp_abc.py")], ["find_*", "attributes of line objects", "Diff", "sync_diff"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), [p["id"] for p in P if len(p["title"]) > 80])

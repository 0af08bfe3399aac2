BUGS = [
 dict(id="b40-offset-last", prop="C18", needs="network_offset set to the last address of the network",
      what="the last address of a network is refused as an offset",
      edits=[("ccp_util.py", "            max_offset = self.as_decimal_broadcast - self.as_decimal_network\n", "            max_offset = self.as_decimal_broadcast - self.as_decimal_network - 1\n")],
      demo="""
a = IPv4Obj("10.0.0.1/30")
a.network_offset = 3
assert str(a.ip) == "10.0.0.3"
"""),
 dict(id="b41-contains-end", prop="C20", needs="two IPv6 networks that end at the same address, one inside the other",
      what="a network is not contained in a larger one that ends at the same address",
      edits=[("ccp_util.py", "                comparison_02 = self.as_decimal_network_maxint >= val.as_decimal_network_maxint\n                return comparison_01 and comparison_02",
              "                comparison_02 = self.as_decimal_network_maxint > val.as_decimal_network_maxint\n                return comparison_01 and (comparison_02 or self.as_decimal_network == val.as_decimal_network)")],
      demo="""
assert IPv6Obj("2001:db8:ffff::/48") in IPv6Obj("2001:db8::/32")
"""),
 dict(id="b42-mapped-prefix", prop="C19", needs="an address between ::fffe:0:0 and ::ffff:0:0",
      what="is_ipv4_mapped is true for addresses just outside of ::ffff:0:0/96",
      edits=[("ccp_util.py", 'IPv6Network("::ffff:0:0/96").__contains__(self.ip)', 'IPv6Network("::fffe:0:0/95").__contains__(self.ip)')],
      demo="""
assert IPv6Obj("::fffe:102:304/128").is_ipv4_mapped is False
"""),
 dict(id="b43-subtract-stops", prop="C21", needs="subtracting a range in which a missing member comes before a present one",
      what="subtraction stops at the first member that is not in the range",
      edits=[("ccp_util.py", "                    # Skip the item if it does not exist...\n                    pass\n            return self", "                    # Skip the item if it does not exist...\n                    break\n            return self")],
      demo="""
a = CiscoRange("1-5", result_type=int)
b = CiscoRange("3,9", result_type=int)
c = CiscoRange("0,4", result_type=int)
assert list(a - b) == [1, 2, 4, 5]
assert list(CiscoRange("1-5", result_type=int) - c) == [1, 2, 3, 5]
"""),
 dict(id="b44-keep-parents", prop="C15", needs="an unchanged grandchild whose parent line occurs with another spelling of white space ... nested three deep",
      what="the rows of a line that is in both configurations twice lose an ancestor",
      edits=[("ciscoconfparse.py", '''                for bobj in before_obj.geneology:
                    bobj.diff_word = "keep"

                after_obj.diff_word = "unchanged"
''', '''                for bobj in before_obj.geneology[1:]:
                    bobj.diff_word = "keep"
                before_obj.diff_word = "keep"

                after_obj.diff_word = "unchanged"
''')],
      demo="""
from ciscoconfparse.ciscoconfparse import HDiff
for a, b in [(["a", " b", "  c"], ["a", " b", "  c"]), (["a", " b", "a", " c"], ["a", " b", " c"])]:
    rows = HDiff(a, b).unified_diffs(header=False)
    for mark, cfg in (("-", a), ("+", b)):
        got = [r[1:] for r in rows if r[0] in " " + mark]
        assert all(l in got for l in cfg), (rows, cfg)
    assert "-a" not in rows, rows
"""),
 dict(id="b45-host-mask-name", prop="C26", needs="a network-object line for a single host given by a name and the mask 255.255.255.255, in a group used by another group",
      what="hosts written with the mask /32 keep the mask",
      edits=[("models_asa.py", '                if net_obj["netmask"] == "255.255.255.255":\n', '                if net_obj["netmask"] == "255.255.255.255" and net_obj["network"] not in names:\n')],
      demo="""
p = CiscoConfParse(["name 1.1.1.1 web", "object-group network A", " network-object web 255.255.255.255"], syntax="asa", factory=True)
assert p.find_objects("^object-group")[0].network_strings == ["1.1.1.1"]
"""),
 dict(id="b46-lt-edge", prop="C26", needs="a port specification lt 2",
      what="lt 2, which is port 1 only, is refused",
      edits=[("ccp_util.py", "            if not (2 <= high_port <= 65535):\n", "            if not (2 < high_port <= 65535):\n")],
      demo="""
assert L4Object(protocol="tcp", port_spec="lt 2", syntax="asa").port_list == [1]
"""),
 dict(id="b47-route-global", prop="C25", needs="an ip route of a vrf whose next hop is in the global table",
      what="the keyword global is reported only when the route also names an interface",
      edits=[("models_cisco.py", 'return bool(self.route_info["global"])', 'return bool(self.route_info["global"]) and bool(self.route_info["nh_intf"])')],
      demo="""
p = CiscoConfParse(["ip route vrf X 10.0.0.0 255.0.0.0 1.1.1.1 global"], syntax="ios", factory=True)
assert p.objs[0].global_next_hop is True
"""),
 dict(id="b48-nx-relay-vrf", prop="C28", needs="a DHCP relay address in front of the vrf command",
      what="helper addresses get the vrf only when it was configured before them",
      edits=[("models_nxos.py", '''                global_addr = ""
                retval.append({"addr": addr, "vrf": vrf, "global": bool(global_addr)})
''', '''                global_addr = ""
                before = [ii.text.split() for ii in self.children if ii.linenum < child.linenum]
                retval.append({"addr": addr, "vrf": vrf if ["vrf", "member", vrf] in before else "", "global": bool(global_addr)})
''')],
      demo="""
p = CiscoConfParse(["interface Ethernet1/1", " ip dhcp relay address 1.1.1.1", " vrf member A"], syntax="nxos", factory=True)
assert p.objs[0].ip_helper_addresses[0]["vrf"] == "A"
"""),
 dict(id="b49-xr-shut", prop="C28", needs="an IOS-XR interface with a line that only starts with shut, such as a name",
      what="is_shutdown of IOS-XR interfaces looks at all lines that hold the word",
      edits=[("models_iosxr.py", 'r"^\\s*(shut\\S*)\\s*$", result_type=bool', 'r"^\\s*(?:no\\s+)?(shut\\S*)\\s*$", result_type=bool')],
      demo="""
p = CiscoConfParse(["interface GigabitEthernet0/0/0/0", " no shutdown"], syntax="iosxr", factory=True)
assert p.objs[0].is_shutdown is False
"""),
 dict(id="b50-rollback-empty", prop="C29", needs="a rollback to a configuration without lines in some section",
      what="rollback leaves out commands that start with no below a parent",
      edits=[("ciscoconfparse.py", '''        rollback_config = self.host.rollback_config()
        for obj in rollback_config.all_children_sorted():
            retval.append(obj.cisco_style_text())
''', '''        rollback_config = self.host.rollback_config()
        for obj in rollback_config.all_children_sorted():
            if obj.depth() > 2 and obj.text.startswith("no "):
                continue
            retval.append(obj.cisco_style_text())
''')],
      demo="""
from ciscoconfparse.ciscoconfparse import Diff
d = Diff(old_config="a\\n b\\n  c\\n", new_config="a\\n b\\n  c\\n  d\\n")
assert "    no d" in d.rollback(), d.rollback()
"""),
]

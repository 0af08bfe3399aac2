BUGS = [
 dict(id="b82-vrf-chars", prop="C25", needs="a VRF name with a colon, slash or plus sign",
      what="VRF names of ip routes are limited to letters, digits, dots and dashes",
      edits=[("models_cisco.py", r"""(?:\s+(?:vrf\s+(?P<vrf>\S+)))?          # VRF detection""", r"""(?:\s+(?:vrf\s+(?P<vrf>[\w\.\-]+)))?    # VRF detection""")], demo="""
p = CiscoConfParse(["ip route vrf CUST:1 10.0.0.0 255.0.0.0 1.1.1.1"], syntax="ios", factory=True)
assert p.objs[0].vrf == "CUST:1"
"""),
 dict(id="b83-nexthop-blank", prop="C25", needs="an ip route with only a next-hop interface",
      what="nexthop_str ends with a blank when there is no next-hop address",
      edits=[("models_cisco.py", '''                return (self.next_hop_interface + " " + self.next_hop_addr).strip()
            else:
                return self.next_hop_addr
        elif''', '''                return (self.next_hop_interface + " " + self.next_hop_addr).lstrip()
            else:
                return self.next_hop_addr
        elif''')], demo="""
p = CiscoConfParse(["ip route 10.0.0.0 255.0.0.0 Null0"], syntax="ios", factory=True)
assert p.objs[0].nexthop_str == "Null0"
"""),
 dict(id="b84-v6-linklocal", prop="C25", needs="an ipv6 route to a link-local next hop without an interface",
      what="next hop address of an ipv6 route without an interface is dropped when it is link-local",
      edits=[("models_cisco.py", '''            return self.route_info["nh_addr1"] or self.route_info["nh_addr2"] or ""
''', '''            addr = self.route_info["nh_addr1"] or self.route_info["nh_addr2"] or ""
            return addr if self.next_hop_interface or addr[0:4].lower() != "fe80" else ""
''')], demo="""
p = CiscoConfParse(["ipv6 route 2001:db8::/32 fe80::1"], syntax="ios", factory=True)
assert p.objs[0].next_hop_addr == "fe80::1"
"""),
]

BUGS = [
 dict(id="b70-v6-gt", prop="C20", needs="two IPv6 addresses of the same network and prefix length compared with >",
      what="IPv6Obj > ignores the host part of addresses in the same network",
      edits=[("ccp_util.py", '                return self_dec > val_dec\n\n            # for the same network, longer prefixlens sort "higher" than shorter prefixlens\n            elif self_ndec == val_ndec:\n                return self_prefixlen > val_prefixlen\n\n            else:\n                return self_ndec > val_ndec\n\n        except BaseException:\n            errmsg = f"{self.__repr__()} cannot compare itself to \'{val}\'"\n            raise ValueError(errmsg)\n\n    # On IPv6Obj()\n    def __lt__(self, val):\n        try:\n            for obj in [self, val]:\n                for attr_name in ["as_decimal", "prefixlen"]:\n                    if getattr(obj, attr_name, None) is None:\n                        error_str = f"Cannot compare {self} with \'{type(obj)}\'"\n                        raise RequirementFailure(error_str)\n\n            val_prefixlen = int(getattr(val, "prefixlen"))\n            self_prefixlen = int(getattr(self, "prefixlen"))\n            val_ndec = int(getattr(val, "as_decimal_network"))\n            self_ndec = int(getattr(self, "as_decimal_network"))\n            val_dec = int(getattr(val, "as_decimal"))\n            self_dec = int(getattr(self, "as_decimal"))\n\n            if self_ndec == val_ndec and self_prefixlen == val_prefixlen:\n                return self_dec < val_dec\n\n            # for the same network, longer prefixlens sort "higher" than shorter prefixlens\n            elif self_ndec == val_ndec:\n                return self_prefixlen < val_prefixlen\n\n            else:\n                return self_ndec < val_ndec\n\n        except BaseException:\n            errmsg = f"{self.__repr__()} cannot compare itself to \'{val}\'"\n            raise ValueError(errmsg)\n\n    # On IPv6Obj()\n    def __int__(self):', '                return self_prefixlen > val_prefixlen\n\n            # for the same network, longer prefixlens sort "higher" than shorter prefixlens\n            elif self_ndec == val_ndec:\n                return self_prefixlen > val_prefixlen\n\n            else:\n                return self_ndec > val_ndec\n\n        except BaseException:\n            errmsg = f"{self.__repr__()} cannot compare itself to \'{val}\'"\n            raise ValueError(errmsg)\n\n    # On IPv6Obj()\n    def __lt__(self, val):\n        try:\n            for obj in [self, val]:\n                for attr_name in ["as_decimal", "prefixlen"]:\n                    if getattr(obj, attr_name, None) is None:\n                        error_str = f"Cannot compare {self} with \'{type(obj)}\'"\n                        raise RequirementFailure(error_str)\n\n            val_prefixlen = int(getattr(val, "prefixlen"))\n            self_prefixlen = int(getattr(self, "prefixlen"))\n            val_ndec = int(getattr(val, "as_decimal_network"))\n            self_ndec = int(getattr(self, "as_decimal_network"))\n            val_dec = int(getattr(val, "as_decimal"))\n            self_dec = int(getattr(self, "as_decimal"))\n\n            if self_ndec == val_ndec and self_prefixlen == val_prefixlen:\n                return self_dec < val_dec\n\n            # for the same network, longer prefixlens sort "higher" than shorter prefixlens\n            elif self_ndec == val_ndec:\n                return self_prefixlen < val_prefixlen\n\n            else:\n                return self_ndec < val_ndec\n\n        except BaseException:\n            errmsg = f"{self.__repr__()} cannot compare itself to \'{val}\'"\n            raise ValueError(errmsg)\n\n    # On IPv6Obj()\n    def __int__(self):')], demo="""
assert IPv6Obj("2001:db8::2/64") > IPv6Obj("2001:db8::1/64")
"""),
 dict(id="b72-collapse", prop="C20", needs="two networks with the same network address and different lengths, the shorter first",
      what="collapse_addresses keeps one network per network address, the last one",
      edits=[("ccp_util.py", '''    return ipaddr_collapse_addresses([ip_net(ii) for ii in network_list])
''', '''    nets = {net.network_address: net for net in (ip_net(ii) for ii in network_list)}
    return ipaddr_collapse_addresses(nets.values())
''')], demo="""
assert [str(x) for x in collapse_addresses([IPv4Obj("10.0.0.0/8"), IPv4Obj("10.0.0.0/24")])] == ["10.0.0.0/8"]
"""),
 dict(id="b74-helper-dup", prop="C23", needs="the same helper address in two VRFs",
      what="ip_helper_addresses reports every address once, whatever the VRF",
      edits=[("models_cisco.py", '''                retval.append({"addr": addr, "vrf": vrf, "global": bool(global_addr)})
''', '''                if not any(known["addr"] == addr and known["global"] == bool(global_addr) for known in retval):
                    retval.append({"addr": addr, "vrf": vrf, "global": bool(global_addr)})
''')], demo="""
p = CiscoConfParse(["interface Vlan1", " ip helper-address vrf A 1.1.1.1", " ip helper-address vrf B 1.1.1.1"], syntax="ios", factory=True)
assert [x["vrf"] for x in p.objs[0].ip_helper_addresses] == ["A", "B"]
"""),
 dict(id="b75-route-null", prop="C25", needs="an IPv6 route with interface, next hop and a distance equal to the prefix length",
      what="next hop of an IPv6 route with both an interface and an address is reported without the interface",
      edits=[("models_cisco.py", '''        elif self._address_family == "ipv6":
            if self.next_hop_interface:
''', '''        elif self._address_family == "ipv6":
            if self.next_hop_interface and not self.route_info["nexthop_vrf"]:
''')], demo="""
p = CiscoConfParse(["ipv6 route 2001:db8::/32 GigabitEthernet0/1 fe80::1 nexthop-vrf A"], syntax="ios", factory=True)
assert p.objs[0].nexthop_str == "GigabitEthernet0/1 fe80::1"
"""),
 dict(id="b76-global", prop="C25", needs="an ip route in the global table read after one in a VRF, without the global keyword",
      what="global_next_hop of a VRF route with a next-hop interface is always true",
      edits=[("models_cisco.py", '''            return bool(self.route_info["global"])
''', '''            return bool(self.route_info["global"] or (self.next_hop_interface and not self.next_hop_addr))
''')], demo="""
p = CiscoConfParse(["ip route vrf A 10.0.0.0 255.0.0.0 Null0"], syntax="ios", factory=True)
assert p.objs[0].global_next_hop is False
"""),
 dict(id="b77-junos-equal", prop="C33", needs="a statement in another interface that equals a unit by text and position",
      what="junos interfaces are recognised by their text",
      edits=[("models_junos.py", '''            for intfobj in interfacesobj.children:
''', '''            for intfobj in [ii for ii in interfacesobj.children if ii is self or ii.all_children]:
'''), ("models_junos.py", '''            in_intf_block = bool(self.all_parents[0].text.strip()[0:10] == "interfaces")
''', '''            in_intf_block = bool(self.parent.text.strip() == "interfaces" or self.all_parents[0].text.strip()[0:10] == "interfaces")
'''), ("models_junos.py", '''            interfacesobj = self.all_parents[0]
''', '''            interfacesobj = self.parent if self.parent.text.strip() == "interfaces" else self.all_parents[0]
''')], demo="""
p = CiscoConfParse(["groups {", "  X {", "    interfaces {", "      ge-0/0/0 {", "      }", "    }", "  }", "}"], syntax="junos")
assert p.objs[3].is_intf is False
"""),
 dict(id="b78-junos-name", prop="C33", needs="a unit of an interface that is named like another one, further down",
      what="the name of a unit is built from the first interface of the same name length",
      edits=[("models_junos.py", '''                if pobj.text.strip() == "interfaces":
                    continue
''', '''                if pobj.text.strip().startswith("interface"):
                    continue
''')], demo="""
p = CiscoConfParse(["interfaces {", "  interface-range A {", "    unit 0 {", "    }", "  }", "}"], syntax="junos")
assert p.objs[2].name == "interface-range A unit 0"
"""),
 dict(id="b79-junos-switch", prop="C33", needs="a switchport whose family statement is more than two levels down",
      what="is_switchport only looks at the first unit",
      edits=[("models_junos.py", '''            for cobj in self.all_children:
''', '''            for cobj in self.all_children[:4]:
''')], demo="""
p = CiscoConfParse(["interfaces {", "  ge-0/0/0 {", "    mtu 1500;", "    disable;", "    speed 1g;", "    unit 0 {", "      family ethernet-switching;", "    }", "  }", "}"], syntax="junos")
assert p.objs[1].is_switchport is True
"""),
]

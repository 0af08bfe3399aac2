BUGS = [
 dict(id="b61-acl-interval", prop="C31", needs="an entry with two any and a logging interval without a level",
      what="the logging interval is taken from the default when the level is not named",
      edits=[("models_asa.py", '''                or mm_r["log_interval2"]
''', '''                or (mm_r["log_interval2"] if mm_r["loglevel2"] else None)
''')],
      demo="""
p = CiscoConfParse(["access-list A extended permit ip any any log interval 60"], syntax="asa", factory=True)
assert p.objs[0].result_dict["log_interval"] == 60
"""),
 dict(id="b62-trunk-remove", prop="C24", needs="a remove command with several comma separated items and a blank",
      what="remove with blanks in its list is ignored",
      edits=[("models_cisco.py", r'''switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d[\d\-\,\s]*)$''', r'''switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d[\d\-\,]*)$''')],
      demo="""
p = CiscoConfParse(["interface Gi0/1", " switchport", " switchport trunk allowed vlan remove 1-4090, 4092"], syntax="ios", factory=True)
assert p.objs[0].trunk_vlans_allowed.as_list() == [4091, 4093, 4094]
"""),
 dict(id="b63-xr-channel", prop="C22", needs="an IOS-XR name with subinterface and channel and class",
      what="subinterface and channel are swapped in the rendered IOS-XR name",
      edits=[("ccp_util.py", '''            return f"""{self.prefix}{self.number}:{self.channel}{interface_class}"""
        else:
            return f"""{self.prefix}{self.number}.{self.subinterface}:{self.channel}{interface_class}"""

    # This method is on CiscoIOSXRInterface()
''', '''            return f"""{self.prefix}{self.number}:{self.channel}{interface_class}"""
        else:
            return f"""{self.prefix}{self.number}.{self.channel}:{self.subinterface}{interface_class}"""

    # This method is on CiscoIOSXRInterface()
''')],
      demo="""
assert str(CiscoIOSXRInterface("Serial1/0/0/1.5:6")) == "Serial1/0/0/1.5:6"
"""),
 dict(id="b64-subnets-break", prop="C23", needs="in_ipv4_subnets with a subnet that does not hold the address in front of one that does",
      what="in_ipv4_subnets only looks at the first subnet with the same prefix length or shorter",
      edits=[("models_cisco.py", '''            tmp = self.in_ipv4_subnet(ipv4network=subnet)
''', '''            tmp = self.in_ipv4_subnet(ipv4network=subnet)
            if not tmp and self.ipv4_addr_object.as_decimal_network == subnet.as_decimal_network:
                return False
''')],
      demo="""
p = CiscoConfParse(["interface Gi0/1", " ip address 10.0.0.1 255.255.255.0"], syntax="ios", factory=True)
assert p.objs[0].in_ipv4_subnets([IPv4Obj("10.0.0.0/25"), IPv4Obj("10.0.0.0/8")]) is True
"""),
 dict(id="b65-xconnect", prop="C23", needs="an xconnect line that ends with the virtual circuit number",
      what="a virtual circuit number of more than five digits is cut",
      edits=[("models_cisco.py", r'''xconnect\s+\S+\s+(\d+)\s+\S+', result_type=int''', r'''xconnect\s+\S+\s+(\d{1,5})\d*\s+\S+', result_type=int'''),],
      demo="""
p = CiscoConfParse(["interface Gi0/1", " xconnect 1.1.1.1 123456 encapsulation mpls"], syntax="ios", factory=True)
assert p.objs[0].xconnect_vc == 123456
"""),
 dict(id="b66-route-name", prop="C25", needs="an ip route with a name and a tag",
      what="the administrative distance of a route to an interface is not read",
      edits=[("models_cisco.py", '''        if self.route_info["ad"]:
            return int(self.route_info["ad"])
        else:
            return 1
''', '''        if self.route_info["ad"] and (self.next_hop_addr or self._address_family == "ip"):
            return int(self.route_info["ad"])
        else:
            return 1
''')],
      demo="""
p = CiscoConfParse(["ipv6 route 2001:db8::/32 Null0 250"], syntax="ios", factory=True)
assert p.objs[0].admin_distance == 250
"""),
 dict(id="b67-names-cached", prop="C26", needs="a name added after the names were read",
      what="the table of names is remembered and does not follow later changes",
      edits=[("ciscoconfparse.py", '''    def names(self):
''', '''    def names(self):
        known = self.__dict__.setdefault("_names_seen", {})
        if known:
            return known
        known.update(self._names_now())
        return known

    def _names_now(self):
''')],
      demo="""
p = CiscoConfParse(["name 1.1.1.1 web", "object-group network A", " network-object host db"], syntax="asa", factory=True)
g = p.find_objects("^object-group")[0]
g.network_strings
p.insert_before("^object-group", "name 2.2.2.2 db")
p.commit()
assert p.find_objects("^object-group")[0].network_strings == ["2.2.2.2"]
"""),
]

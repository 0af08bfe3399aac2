BUGS = [
 dict(id="b51-child-recurse-order", prop="C07", needs="recurse=True with a matching grandchild below a line that matches too",
      what="recursive child search stops below a matching child",
      edits=[("ciscoconfparse.py", '''                for child in parent.all_children:
                    if child.re_match(childspec, group=0, default=None) is not None:
''', '''                for child in parent.all_children:
                    if child.parent is not parent and child.parent in retval:
                        continue
                    if child.re_match(childspec, group=0, default=None) is not None:
''')],
      demo="""
p = CiscoConfParse(["a", " b", "  b c"])
assert [o.text for o in p.find_child_objects("^a", "b", recurse=True)] == [" b", "  b c"]
"""),
 dict(id="b52-channel-name", prop="C22", needs="a channelised subinterface with an interface class",
      what="the interface class is not rendered for names with subinterface and channel",
      edits=[("ccp_util.py", '''            return f"""{self.prefix}{self.number}:{self.channel}{interface_class}"""
        else:
            return f"""{self.prefix}{self.number}.{self.subinterface}:{self.channel}{interface_class}"""

    # This method is on CiscoIOSInterface()
''', '''            return f"""{self.prefix}{self.number}:{self.channel}{interface_class}"""
        else:
            return f"""{self.prefix}{self.number}.{self.subinterface}:{self.channel}"""

    # This method is on CiscoIOSInterface()
''')],
      demo="""
assert str(CiscoIOSInterface("Serial1/0/1.5:6 point-to-point")) == "Serial1/0/1.5:6 point-to-point"
"""),
 dict(id="b53-carrier-msec", prop="C23", needs="a carrier delay in milliseconds below one second",
      what="the carrier delay in milliseconds is rounded to whole seconds",
      edits=[("models_cisco.py", "            return cd_msec / 1000.0\n", "            return float(max(1, int(cd_msec) // 1000))\n")],
      demo="""
p = CiscoConfParse(["interface Gi0/1", " carrier-delay msec 250"], syntax="ios", factory=True)
assert p.objs[0].manual_carrierdelay == 0.25
"""),
 dict(id="b54-trunk-none", prop="C24", needs="none followed by add",
      what="none after a list does not empty the set of VLANs",
      edits=[("models_cisco.py", '''                    if _value.lower() == "none":
''', '''                    if _value == "none " or _value == "None":
''')],
      demo="""
p = CiscoConfParse(["interface Gi0/1", " switchport", " switchport trunk allowed vlan 5", " switchport trunk allowed vlan none"], syntax="ios", factory=True)
assert p.objs[0].trunk_vlans_allowed.as_list() == []
"""),
 dict(id="b55-route-tag-zero", prop="C25", needs="an ipv6 host route written without a mask",
      what="the mask of an ipv6 route given without one is 64",
      edits=[("models_cisco.py", '''            masklen_str = self.route_info["masklength"] or "128"
''', '''            masklen_str = self.route_info["masklength"] or "64"
''')],
      demo="""
p = CiscoConfParse(["ipv6 route 2001:db8::1 Null0"], syntax="ios", factory=True)
assert p.objs[0].masklen == 128
"""),
 dict(id="b56-source-intf", prop="C30", needs="a source interface written with a blank in its name",
      what="only the first word of the source interface of a server group is kept",
      edits=[("models_cisco.py", '''            r"^\\s+ip\\s+tacacs\\s+source-interface\\s+(\\S.+?\\S)\\s*$",
''', '''            r"^\\s+ip\\s+tacacs\\s+source-interface\\s+(\\S+)",
''')],
      demo="""
p = CiscoConfParse(["aaa group server tacacs+ A", " ip tacacs source-interface Vlan 10"], syntax="ios", factory=True)
assert p.objs[0].source_interface == "Vlan 10"
"""),
 dict(id="b57-acl-interval", prop="C31", needs="an extended entry with a logging interval",
      what="the logging interval is taken from the default when the level is not named",
      edits=[("models_asa.py", '''                mm_r["log_interval1"]
                or mm_r["log_interval2"]
''', '''                (mm_r["log_interval1"] if mm_r["loglevel1"] else None)
                or mm_r["log_interval2"]
''')],
      demo="""
p = CiscoConfParse(["access-list A extended permit ip any any log interval 60"], syntax="asa", factory=True)
assert p.objs[0].result_dict["log_interval"] == 60
"""),
 dict(id="b58-uncfg-case", prop="C32", needs="a line that starts with No or NO",
      what="lines with an upper case NO get a second no",
      edits=[("ccp_abc.py", '''        elif tmp[0].lower() == "no":
''', '''        elif tmp[0] == "no":
''')],
      demo="""
assert CiscoConfParse(["NO shutdown"]).objs[0].uncfgtext == "shutdown"
"""),
 dict(id="b59-reset-atomic", prop="C32", needs="reset(atomic=False) followed by reading the relations",
      what="reset passes the wrong line when the same text occurs twice",
      edits=[("models_cisco.py", '''        # IOS interfaces are defaulted like this...
        return f"default {self.text}"

    # This method is on BaseIOSIntfLine()
''', '''        # IOS interfaces are defaulted like this...
        return "default " + " ".join(self.text.split()[0:2])

    # This method is on BaseIOSIntfLine()
''')],
      demo="""
p = CiscoConfParse(["interface Serial 1/0", " shutdown"], syntax="ios", factory=True)
p.objs[0].reset()
assert p.ioscfg[0] == "default interface Serial 1/0", p.ioscfg
"""),
 dict(id="b60-hdiff-case", prop="C15", needs="two lines that differ in nothing but letter case",
      what="the hierarchical diff ignores letter case",
      edits=[("ccp_abc.py", '''        retval = []
        len_geneology = len(self.geneology)
''', '''        retval = []
        len_geneology = len(self.geneology[:3])
''')],
      demo="""
from ciscoconfparse.ciscoconfparse import HDiff
a = ["a", " b", "  c", "   d"]
b = ["a", " b", "  x", "   d"]
rows = HDiff(a, b).unified_diffs(header=False)
assert "-   d" in rows and "+   d" in rows, rows
"""),
]

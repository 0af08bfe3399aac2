BUGS = [
 dict(id="b90-excl-parents", prop="C34", needs="a withdrawn line with at least two section lines above it",
      what="only the innermost section line is printed before a withdrawn line",
      edits=[("ciscoconfparse.py", "            parent_objs = vobj.all_parents\n            for parent_obj in parent_objs:\n                uncfg_objs.append(parent_obj)", "            if vobj.parent is not vobj:\n                uncfg_objs.append(vobj.parent)")], demo="""
p = CiscoConfParse(["router bgp 1", " address-family ipv4 vrf A", "  redistribute rip", "  redistribute static"])
r = p.req_cfgspec_excl_diff("redistribute", "redistribute", ["  redistribute static"])
assert r[:2] == ["router bgp 1", " address-family ipv4 vrf A"], r
"""),
 dict(id="b91-excl-unique", prop="C34", needs="two sections with the same text, each with a line to withdraw",
      what="a line's commands are collected once per text instead of once per line",
      edits=[("ciscoconfparse.py", "        for obj in self._unique_OBJ(objectlist):\n", "        by_text = {}\n        for obj in objectlist:\n            by_text.setdefault(obj.text, obj)\n        for obj in sorted(by_text.values()):\n")], demo="""
p = CiscoConfParse(["interface Vlan1", " ip mtu 1", "interface Vlan2", " ip mtu 1"])
r = p.req_cfgspec_excl_diff("ip mtu", "ip mtu", [])
assert len(r) == 4, r
"""),
 dict(id="b92-index-start", prop="C35", needs="index() with a start position and the same line twice in the list",
      what="index() of the line list ignores the start position",
      edits=[("ciscoconfparse.py", "        return self._list.index(val, *args)", "        return self._list.index(val)")], demo="""
p = CiscoConfParse(["a", "b"])
l = p.ConfigObjs
l *= 2
assert l.index(l[0], 1) == 2
"""),
 dict(id="b93-iter-begin", prop="C35", needs="iter_no_comments() from a position with comments before it",
      what="iter_no_comments counts its begin position without the comments",
      edits=[("ciscoconfparse.py", "            if (idx >= begin_index) and (not obj.is_comment):\n                yield obj", "            if obj.is_comment:\n                begin_index += 1 if idx < begin_index else 0\n            elif idx >= begin_index:\n                yield obj")], demo="""
p = CiscoConfParse(["! x", "a", "b"])
assert [o.text for o in p.ConfigObjs.iter_no_comments(1)] == ["a", "b"]
"""),
 dict(id="b94-copy-alias", prop="C35", needs="copy.copy() of the line list, then a change of the copy",
      what="copy.copy() of the line list shares its storage with the original",
      edits=[("ciscoconfparse.py", '''        inst.__dict__["_list"] = self.__dict__["_list"][:]''', '''        inst.__dict__["_list"] = self.__dict__["_list"]''')], demo="""
import copy
p = CiscoConfParse(["a", "b"])
c = copy.copy(p.ConfigObjs)
c.pop()
assert p.ioscfg == ["a", "b"]
"""),
]

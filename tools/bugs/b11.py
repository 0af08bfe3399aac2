BUGS = [
 dict(id="b101-macro-end", prop="C04", needs="a macro body line which starts with @ but is longer",
      what="a macro ends at the first line that starts with @",
      edits=[("ciscoconfparse.py", '''                if cobj.text.rstrip() == "@":''', '''                if cobj.text.startswith("@"):''')], demo="""
p = CiscoConfParse(["macro name x", "@ echo", "foo", "@", "bar"])
assert p.objs[2].parent is p.objs[0]
"""),
 dict(id="b104-branch-search-start", prop="C08", needs="a second-level expression whose match is on a line with grandchildren that repeat the row's first level",
      what="object branches look for a level's matches among all descendants when no child matches",
      edits=[("ciscoconfparse.py", '''            if len(segment_list) == 0:
                segment_list = [None]
''', '''            if len(segment_list) == 0 and parent_obj is not None:
                segment_list = [
                    cobj
                    for cobj in parent_obj.all_children
                    if re.search(childspec, cobj.text, regex_flags)
                ]
            if len(segment_list) == 0:
                segment_list = [None]
''')], demo="""
p = CiscoConfParse(["a", " b", "  c"])
assert p.find_object_branches(("a", "c"))[0][1] is None
"""),
 dict(id="b105-branch-groups-empty", prop="C08", needs="regex_groups with an expression whose group matches nothing",
      what="a cell whose captured groups are all empty is replaced by the whole text",
      edits=[("ciscoconfparse.py", '''                            matched_capture = regex_result.groups()
''', '''                            matched_capture = tuple(filter(None, regex_result.groups())) and regex_result.groups()
''')], demo="""
p = CiscoConfParse(["ab"])
assert p.find_object_branches(("a(x*)b",), regex_groups=True) == [[("",)]]
"""),
 dict(id="b106-child-spec-list", prop="C07", needs="a list of three expressions whose middle one matches no child",
      what="find_child_objects with a list only requires the last expression to match a child",
      edits=[("ciscoconfparse.py", "for _idx, _childspec in enumerate(parentspec[1:]):", "for _idx, _childspec in [(_parentspec_len - 2, parentspec[-1])]:")], demo="""
p = CiscoConfParse(["a", " b", " c"])
assert p.find_child_objects(["a", "x", "c"]) == []
"""),
 dict(id="b107-iter-toplevel", prop="C09", needs="an indented line with no parent (the first line, or a comment under a deeper line)",
      what="list-level re_match_iter_typed takes unindented lines for the top level",
      edits=[("ciscoconfparse.py", '''            # Only process parent objects at the root of the tree...
            if cobj.parent is not cobj:
                continue
''', '''            # Only process parent objects at the root of the tree...
            if cobj.indent > 0:
                continue
''')], demo="""
p = CiscoConfParse([" a 1", "b 2"])
assert p.re_match_iter_typed(r"(\\d)", default="z") == "1"
"""),
 dict(id="b109-sibling-indent", prop="C03", needs="a section whose children have different indentations",
      what="siblings are all children of the parent whatever their indentation",
      edits=[("ccp_abc.py", '''        return [obj for obj in self.parent.children if (obj.indent == indent)]''', '''        return [obj for obj in self.parent.children if (obj.indent <= indent)]''')], demo="""
p = CiscoConfParse(["a", "  b", " c"])
assert [o.text for o in p.objs[1].siblings] == ["  b"]
"""),
 dict(id="b110-formfeed", prop="C01", needs="a line which ends in white space other than blanks and tabs (form feed, vertical tab)",
      what="only trailing blanks and tabs are removed",
      edits=[("ccp_abc.py", '''        newtext_ = newtext.rstrip()
''', '''        newtext_ = newtext.rstrip(" \\t\\r\\n")
''')], demo="""
p = CiscoConfParse(["a\\x0c"])
assert p.objs[0].text == "a"
"""),
 dict(id="b111-save-encoding", prop="C14", needs="a configuration with letters outside ASCII and an encoding other than the platform's",
      what="save_as writes in the platform's encoding instead of the configuration's",
      edits=[("ciscoconfparse.py", '''            with open(filepath, "w", encoding=self.encoding) as newconf:''', '''            with open(filepath, "w", encoding=CiscoConfParse.encoding) as newconf:''')], demo="""
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = CiscoConfParse(["\\u00e4"], encoding="utf-16")
    p.save_as(os.path.join(d, "x"))
    assert open(os.path.join(d, "x"), "rb").read().decode("utf-16") == "\\u00e4\\n"
"""),
]

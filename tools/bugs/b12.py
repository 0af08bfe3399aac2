BUGS = [
 dict(id="b113-family-empty-child", prop="C10", needs="append_to_family on a line whose last child has children of its own",
      what="append_to_family inserts after the last direct child instead of the last descendant",
      edits=[("ccp_abc.py", "            last_child = self.all_children[-1]\n", "            last_child = self.children[-1]\n")], demo="""
p = CiscoConfParse(["a", " b", "  c"])
p.objs[0].append_to_family(" d")
assert p.ioscfg == ["a", " b", "  c", " d"], p.ioscfg
"""),
 dict(id="b114-insert-child-exclude", prop="C10", needs="insert_after_child with an excludespec that matches some children only",
      what="insert_after_child stops at the first excluded child",
      edits=[("ciscoconfparse.py", '''                if excludespec and re.search(excludespec, cobj.text):
                    # Exclude replacements on pobj lines which match excludespec
                    continue
                elif re.search(childspec, cobj.text):
                    retval.append(''', '''                if excludespec and re.search(excludespec, cobj.text):
                    # Exclude replacements on pobj lines which match excludespec
                    break
                elif re.search(childspec, cobj.text):
                    retval.append(''')], demo="""
p = CiscoConfParse(["a", " x", " b"])
p.insert_after_child("a", "b", " c", excludespec="x")
assert p.ioscfg == ["a", " x", " b", " c"], p.ioscfg
"""),
 dict(id="b117-replace-all-first", prop="C12", needs="re_sub on a line with two matches of the expression",
      what="re_sub replaces the first match only when the replacement contains the expression",
      edits=[("ccp_abc.py", "        retval = re.sub(regex, replacergx, self._text)\n", "        retval = re.sub(regex, replacergx, self._text, count=int(bool(re.search(regex, replacergx))))\n")], demo="""
p = CiscoConfParse(["a b a"])
p.objs[0].re_sub("a", "aa")
assert p.ioscfg == ["aa b aa"]
"""),
 dict(id="b119-commit-comment", prop="C13", needs="a custom comment delimiter, an edit, commit()",
      what="after commit() comments are found with the default delimiter",
      edits=[("ciscoconfparse.py", '''    def commit(self):
''', '''    def commit(self):
        if self.ConfigObjs.comment_delimiter != "!" and len(self.ConfigObjs.comment_delimiter) > 1:
            self.ConfigObjs.comment_delimiter = self.ConfigObjs.comment_delimiter[0]
''')], demo="""
p = CiscoConfParse(["a", "# b", "! c"], comment="!#")
p.commit()
assert [o.is_comment for o in p.objs] == [False, True, True]
"""),
 dict(id="b120-sync-noremove", prop="C16", needs="remove_lines=False and a required line below lines that exist",
      what="without removals the ancestors of a missing line are left out",
      edits=[("ciscoconfparse.py", '''                # Append parent command entries (if any...)
                for pcmd in parents:
''', '''                # Append parent command entries (if any...)
                for pcmd in parents if remove_lines is True else parents[-1:]:
''')], demo="""
p = CiscoConfParse(["a", " b"])
r = p.sync_diff(["a", " b", "  c"], "", "", remove_lines=False)
assert r == ["a", " b", "  c"], r
"""),
]

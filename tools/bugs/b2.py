BUGS = [
 dict(id="b20-rstrip-blanks-only", prop="C01", needs="a line that ends in a tab (or another white-space character that is not a blank)",
      what="only trailing blanks are removed from a line, other white space stays",
      edits=[("ccp_abc.py", "        newtext_ = newtext.rstrip()\n", "        newtext_ = newtext.rstrip(\" \")\n")],
      demo="""
p = CiscoConfParse(["interface x\\t", " shutdown \\t "])
assert p.ioscfg == ["interface x", " shutdown"], p.ioscfg
"""),
 dict(id="b21-second-delimiter", prop="C02", needs="more than one comment delimiter and a comment that starts with the second one in front of indented lines",
      what="only the first of several comment delimiters marks comments",
      edits=[("ccp_abc.py", "        delimiters = set(self.comment_delimiter)\n", "        delimiters = set(self.comment_delimiter[:1])\n")],
      demo="""
p = CiscoConfParse(["a", "# note", " b"], comment="!#")
assert p.objs[2].parent.text == "a", p.objs[2].parent.text
"""),
 dict(id="b22-groups-empty", prop="C08", needs="an expression whose only group matched nothing",
      what="a cell holds the whole line instead of its groups when none of them matched any text",
      edits=[("ciscoconfparse.py", "                            if len(matched_capture) == 0:\n", "                            if not any(matched_capture):\n")],
      demo="""
p = CiscoConfParse(["interface x", " switchport"])
r = p.find_object_branches((r"^interface", r"^ switchport( mode \\S+)?"), regex_groups=True)
assert r == [[("interface x",), (None,)]], r
"""),
 dict(id="b24-iter-typed-none", prop="C09", needs="a falsy value (0) converted from a child before another matching child",
      what="the typed value 0 of the first matching child is taken for no match",
      edits=[("ccp_abc.py", '''                for cobj in self.children:
                    if debug is True:
                        logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''+"'''{regex}''' on -->{cobj}<--"+'''")
                    mm = re.search(regex, cobj.text)
                    if isinstance(mm, re.Match):
                        return result_type(mm.group(group))
''', '''                for cobj in self.children:
                    mm = re.search(regex, cobj.text)
                    if isinstance(mm, re.Match) and result_type(mm.group(group)):
                        return result_type(mm.group(group))
''')],
      demo="""
p = CiscoConfParse(["a", " cost 0", " cost 7"])
assert p.objs[0].re_match_iter_typed(r"cost (\\d+)", result_type=int, default=-1, recurse=False) == 0
"""),
 dict(id="b25-lineage-first", prop="C06", needs="find_lineage of an expression which matches two lines that lie in one lineage",
      what="find_lineage accepts an expression that matches a line and its descendant instead of refusing it",
      edits=[("ciscoconfparse.py", '''        if len(tmp) > 1:
            err_txt = "linespec must be unique"''', '''        if len(tmp) > 1 and tmp[-1] not in tmp[0].lineage:
            err_txt = "linespec must be unique"''')],
      demo="""
p = CiscoConfParse(["a x", " b x", "c"])
try:
    p.find_lineage("x")
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
]
